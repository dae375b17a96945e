PROPERTY = 'C14'
NEEDS = 'a reference whose states are only told apart by four or more inputs, rebuilding'
BREAKS = 'states of the references that are hard to tell apart are not rebuilt, so an exact reference no longer saves the equivalence queries'
EDITS = [('aalpy/learning_algs/adaptive/AdaptiveObservationTree.py',
"""                if sep_seq and (self.get_successor(frontier_state_access + tuple(sep_seq)) is None or""",
"""                if sep_seq and len(sep_seq) < 4 and (self.get_successor(frontier_state_access + tuple(sep_seq)) is None or""")]
DEMO = '''
from aalpy.automata import MealyMachine, MealyState
from aalpy.base import Oracle
from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs import run_adaptive_Lsharp
def chain(n):
    st = [MealyState('s%d' % i) for i in range(n)]
    for i, s in enumerate(st):
        s.transitions['a'] = st[min(i + 1, n - 1)]
        s.output_fun['a'] = 0
        s.transitions['b'] = st[0]
        s.output_fun['b'] = int(i == n - 1)
    return MealyMachine(st[0], st)
class Exact(Oracle):
    n = 0
    def find_cex(self, hyp):
        self.n += 1
        todo, seen = [((), m.initial_state, hyp.initial_state)], set()
        while todo:
            w, p, q = todo.pop(0)
            for x in 'ab':
                if p.output_fun[x] != q.output_fun[x]:
                    return w + (x,)
                nxt = p.transitions[x], q.transitions[x]
                if nxt not in seen:
                    seen.add(nxt)
                    todo.append((w + (x,),) + nxt)
for n in range(3, 10):
    m = chain(n)
    sul = AutomatonSUL(m)
    o = Exact(['a', 'b'], sul)
    h = run_adaptive_Lsharp(['a', 'b'], sul, [chain(n)], o, 'mealy', rebuilding=True, state_matching=None, print_level=0)
    if o.n != 1 or h.size != n:
        print(n, 'states: equivalence queries', o.n, 'model size', h.size)
        sys.exit(1)
'''
