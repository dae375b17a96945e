PROPERTY = 'C16'
NEEDS = 'a counterexample oracle that restarts within a test (reset probability) or an equivalence query that finds nothing'
BREAKS = 'sessions of the random walk oracle started by a reset in the middle of a walk are not counted as queries'
EDITS = [('aalpy/oracles/RandomWalkEqOracle.py',
"""                self.reset_hyp_and_sul(hypothesis)
                inputs.clear()
""",
"""                hypothesis.reset_to_initial()
                self.sul.post()
                self.sul.pre()
                inputs.clear()
""")]
DEMO = '''
import random
from aalpy.base import SUL
from aalpy.automata import MealyMachine, MealyState
from aalpy.oracles import RandomWalkEqOracle
from aalpy.SULs import AutomatonSUL
st = [MealyState('s0')]
for a in 'ab': st[0].transitions[a] = st[0]; st[0].output_fun[a] = 0
m = MealyMachine(st[0], st)
class S(SUL):
    n = 0
    def pre(self): self.n += 1
    def post(self): pass
    def step(self, x): return 0
random.seed(3)
s = S()
o = RandomWalkEqOracle(['a', 'b'], s, num_steps=500, reset_prob=0.2)
o.find_cex(m)
if o.num_queries != s.n:
    print('reported', o.num_queries, 'sessions', s.n); sys.exit(1)
'''
