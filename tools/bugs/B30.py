PROPERTY = 'C14'
NEEDS = 'a stale reference model in which a state is distinguishable from the initial one that is not in the system'
BREAKS = 'states found by rebuilding are promoted although they were not shown to be apart from the initial state; the basis contains equivalent states'
EDITS = [('aalpy/learning_algs/adaptive/AdaptiveObservationTree.py',
"""        for basis_state in self.new_basis:
            if not Apartness.states_are_apart(basis_state, frontier_state, self):
                return False
        return True
""",
"""        for basis_state in self.new_basis[1:] or self.new_basis:
            if not Apartness.states_are_apart(basis_state, frontier_state, self):
                return False
        return True
""")]
DEMO = '''
import random, signal
signal.alarm(200)
from aalpy.base import SUL, Oracle
from aalpy.SULs import AutomatonSUL
from aalpy.automata import MealyMachine, MealyState
from aalpy.learning_algs import run_adaptive_Lsharp
from aalpy.utils import bisimilar

def machine(r, n):
    st = [MealyState(f's{i}') for i in range(n)]
    for i, s in enumerate(st):
        for a in 'ab':
            s.transitions[a] = r.choice(st); s.output_fun[a] = r.randint(0, 1)
    seen = [st[0]]
    for s in seen:
        seen += [t for t in s.transitions.values() if t not in seen]
    seen = list(dict.fromkeys(seen))
    m = MealyMachine(st[0], seen)
    m.minimize()
    return m

class E(Oracle):
    def __init__(self, al, sul, m): super().__init__(al, sul); self.m, self.k = m, 0
    def find_cex(self, h):
        self.k += 1
        if self.k > 30: print('no progress'); sys.exit(1)
        c = bisimilar(self.m, h, return_cex=True)
        return None if c is None else tuple(c)

for seed in range(300):
    r = random.Random(seed)
    m, ref = machine(r, r.randint(1, 6)), machine(r, r.randint(2, 6))
    sul = AutomatonSUL(m.copy())
    h = run_adaptive_Lsharp(list('ab'), sul, [ref], E(list('ab'), sul, m), 'mealy', rebuilding=True, print_level=0)
    if h.size != m.size or not bisimilar(h, m):
        print('seed', seed, 'learned', h.size, 'states, system has', m.size); sys.exit(1)
'''
