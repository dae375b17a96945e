PROPERTY = 'C07'
NEEDS = 'a system with more states than the hypothesis, and a fault that only the identification after a middle part reveals'
BREAKS = 'after middle parts the Wp-method identifies a wrong state, so hypotheses within the bound are accepted although they are wrong'
EDITS = [('aalpy/oracles/WpMethodEqOracle.py',
"""                _ = hyp.execute_sequence(hyp.initial_state, t + mid)
""",
"""                _ = hyp.execute_sequence(hyp.initial_state, t)
""")]
DEMO = '''
import random
from aalpy.automata import MealyMachine, MealyState
from aalpy.SULs import AutomatonSUL
from aalpy.oracles import WpMethodEqOracle
random.seed(1)
def machine(n, hide):
    while True:
        st = [MealyState('s%d' % i) for i in range(n)]
        for s in st:
            for x in 'ab':
                s.transitions[x] = random.choice(st)
                s.output_fun[x] = int(random.random() < hide)
        m = MealyMachine(st[0], st)
        if all(m.get_shortest_path(st[0], s) is not None for s in st) and m.is_minimal():
            m.compute_prefixes()
            return m
def classes(m, k):
    """the machine that merges the states which k inputs do not tell apart, following the shortest access words"""
    def sig(s, k):
        return tuple((s.output_fun[x], sig(s.transitions[x], k - 1)) for x in 'ab') if k else ()
    rep, order = {}, [m.initial_state]
    rep[sig(m.initial_state, k)] = m.initial_state
    for s in order:
        for x in 'ab':
            t = s.transitions[x]
            if sig(t, k) not in rep:
                rep[sig(t, k)] = t
                order.append(t)
    new = {g: MealyState('h%d' % i) for i, g in enumerate(rep)}
    for g, s in rep.items():
        for x in 'ab':
            new[g].transitions[x] = new[sig(s.transitions[x], k)]
            new[g].output_fun[x] = s.output_fun[x]
    return MealyMachine(new[sig(m.initial_state, k)], list(new.values()))
def differ(m, h):
    todo, seen = [(m.initial_state, h.initial_state)], set()
    while todo:
        p, q = todo.pop()
        for x in 'ab':
            if p.output_fun[x] != q.output_fun[x]:
                return True
            nxt = p.transitions[x], q.transitions[x]
            if nxt not in seen:
                seen.add(nxt)
                todo.append(nxt)
    return False
for n in range(4000):
    m = machine(random.choice([3, 4, 5]), random.choice([0.2, 0.5]))
    h = classes(m, random.choice([1, 2]))
    if not h.is_minimal():
        continue
    h.characterization_set = []
    h.compute_prefixes()
    cex = WpMethodEqOracle(['a', 'b'], AutomatonSUL(m.copy()), max_number_of_states=len(m.states)).find_cex(h)
    if (cex is not None) != differ(m, h):
        print(n, len(m.states), len(h.states), 'differ', differ(m, h), 'reported', cex)
        sys.exit(1)
'''
