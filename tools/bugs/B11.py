PROPERTY = 'C08'
NEEDS = 'PacOracle in a later round'
BREAKS = 'the number of tests of the PAC bound no longer grows with the rounds'
EDITS = [('aalpy/oracles/PacOracle.py',
"""        num_test_cases = 1 / self.epsilon * (log(1 / self.delta) + self.round * log(2))
""",
"""        num_test_cases = 1 / self.epsilon * (log(1 / self.delta) + min(self.round, 3) * log(2))
""")]
DEMO = '''
from math import ceil, log
from aalpy.base import SUL
from aalpy.oracles import PacOracle
from aalpy.automata import Dfa, DfaState

s = DfaState('s', True); s.transitions['a'] = s; s.prefix = ()
h = Dfa(s, [s])

class One(SUL):
    words = 0
    def pre(self): self.words += 1
    def post(self): pass
    def step(self, i): return True

sul = One()
o = PacOracle(['a'], sul, epsilon=0.1, delta=0.1)
for r in range(1, 8):
    before = sul.words
    o.find_cex(h)
    assert sul.words - before == ceil(1 / 0.1 * (log(1 / 0.1) + r * log(2))), (r, sul.words - before)
'''
