PROPERTY = 'C06'
NEEDS = 'CacheBasedEqOracle with a long cached prefix; hypothesis and system already differ... and agree again at the end of the extension'
BREAKS = 'the walk goes on to its end after the difference, the returned word does not end at a difference'
EDITS = [('aalpy/oracles/kWayStateCoverageEqOracle.py',
"""                    if out_sul != out_hyp:
                        self.sul.post()
                        return path[:i + 1]

        states""",
"""                    if out_sul != out_hyp:
                        self.sul.post()
                        return path

        states""")]
DEMO = '''
import random
from aalpy.SULs import AutomatonSUL
from aalpy.oracles import KWayStateCoverageEqOracle
from aalpy.automata import Dfa, DfaState

def counter(n):
    st = [DfaState(f's{i}', i == n - 1) for i in range(n)]
    for i, s in enumerate(st):
        s.transitions['a'] = st[(i + 1) % n]; s.transitions['b'] = s
        s.prefix = ('a',) * i
    return Dfa(st[0], st)
m, h = counter(4), counter(1)
h.states[0].is_accepting = False
for seed in range(30):
    random.seed(seed)
    c = KWayStateCoverageEqOracle(['a', 'b'], AutomatonSUL(m), random_walk_len=12).find_cex(h)
    if c:
        assert m.execute_sequence(m.initial_state, c)[-1] != h.execute_sequence(h.initial_state, c)[-1]
'''
NEEDS = 'KWayStateCoverageEqOracle and a hypothesis with one state; a system that agrees with it again at the end of the walk'
