PROPERTY = 'C06'
NEEDS = 'TransitionFocusOracle with walks longer than twelve, difference found late in a walk'
BREAKS = 'only the end of the executed walk is returned, which is no counterexample from the initial state'
EDITS = [('aalpy/oracles/TransitionFocusOracle.py',
"""                    return inputs
""",
"""                    return inputs[-12:]
""")]
DEMO = '''
import random
from aalpy.SULs import AutomatonSUL
from aalpy.oracles import TransitionFocusOracle
from aalpy.automata import Dfa, DfaState

def counter(n):
    st = [DfaState(f's{i}', i == n - 1) for i in range(n)]
    for i, s in enumerate(st):
        s.transitions['a'] = st[(i + 1) % n]
        s.transitions['b'] = s
        s.prefix = ('a',) * i
    return Dfa(st[0], st)

m, h = counter(15), counter(1)
h.states[0].is_accepting = False
for seed in range(20):
    random.seed(seed)
    o = TransitionFocusOracle(['a', 'b'], AutomatonSUL(m), num_random_walks=20, walk_len=40)
    c = o.find_cex(h)
    if c:
        a, b = m.execute_sequence(m.initial_state, c), h.execute_sequence(h.initial_state, c)
        assert a[-1] != b[-1], c
'''
