PROPERTY = 'C05'
NEEDS = 'RandomWalkEqOracle with a high reset probability'
BREAKS = 'resets between two equally short words skip the tear-down operation'
EDITS = [('aalpy/oracles/RandomWalkEqOracle.py',
"""            if random.random() <= self.reset_prob:
                self.reset_hyp_and_sul(hypothesis)
""",
"""            if random.random() <= self.reset_prob:
                if inputs:
                    self.reset_hyp_and_sul(hypothesis)
                else:
                    # nothing was executed yet
                    hypothesis.reset_to_initial()
                    self.sul.pre()
                    self.num_queries += 1
""")]
DEMO = '''
import random
from aalpy.base import SUL
from aalpy.oracles import RandomWalkEqOracle
from aalpy.utils import generate_random_deterministic_automata

class Strict(SUL):
    def __init__(self, m):
        super().__init__(); self.m, self.open = m, False
    def pre(self):
        if self.open:
            print('session set up while another is open'); sys.exit(1)
        self.open = True; self.m.reset_to_initial()
    def post(self):
        self.open = False
    def step(self, i):
        return self.m.step(i)

for seed in range(50):
    random.seed(seed)
    m = generate_random_deterministic_automata('dfa', 5, 2, 2)
    o = RandomWalkEqOracle(m.get_input_alphabet(), Strict(m), num_steps=50, reset_prob=0.3)
    o.find_cex(m.copy())
'''
