PROPERTY = 'C08'
NEEDS = 'RandomWalkEqOracle with reset_after_cex on an Mdp, Smm or Onfsm hypothesis, a counterexample and a further search'
BREAKS = 'the step budget is not renewed after the counterexample: the following search stops early'
EDITS = [('aalpy/oracles/RandomWalkEqOracle.py', """            elif out_hyp is None and self.automata_type != 'det':
                if self.reset_after_cex:
                    self.random_steps_done = 0
""", """            elif out_hyp is None and self.automata_type != 'det':
                if self.reset_after_cex and self.automata_type == 'det':
                    self.random_steps_done = 0
""")]
DEMO = '''
import random
from aalpy.base import SUL
from aalpy.automata import Onfsm, OnfsmState
from aalpy.oracles import RandomWalkEqOracle
class S(SUL):
    n = 0
    def pre(self): pass
    def post(self): pass
    def step(self, x):
        self.n += 1
        return random.choice([0, 1])
def hyp(outs):
    s = OnfsmState('s')
    for o in outs: s.transitions['a'].append((o, s))
    return Onfsm(s, [s])
random.seed(4)
sul = S()
orc = RandomWalkEqOracle(['a'], sul, num_steps=50, reset_after_cex=True)
assert orc.find_cex(hyp([0])) is not None
before = sul.n
assert orc.find_cex(hyp([0, 1])) is None
if sul.n - before != 50:
    print('steps after the counterexample:', sul.n - before)
    sys.exit(1)
'''
