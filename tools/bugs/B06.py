PROPERTY = 'C05'
NEEDS = 'L# with an ADS rule on a system that is deep enough for adaptive queries of six inputs'
BREAKS = 'adaptive queries with long words leave their session open'
EDITS = [('aalpy/base/SUL.py',
"""        self.num_queries += 1
        self.post()

        return word, outputs_received
""",
"""        self.num_queries += 1
        if len(outputs_received) < 6:
            self.post()

        return word, outputs_received
""")]
DEMO = '''
import random
from aalpy.base import SUL
from aalpy.learning_algs import run_Lsharp
from aalpy.oracles import RandomWordEqOracle
from aalpy.utils import generate_random_deterministic_automata

class Strict(SUL):
    def __init__(self, m):
        super().__init__(); self.m, self.open = m, False
    def pre(self):
        if self.open:
            print('session set up while another is open'); sys.exit(1)
        self.open = True; self.m.reset_to_initial()
    def post(self):
        self.open = False
    def step(self, i):
        if not self.open:
            print('input outside of a session'); sys.exit(1)
        return self.m.step(i)

for seed in range(40):
    random.seed(seed)
    m = generate_random_deterministic_automata('mealy', 25, 2, 2)
    al = m.get_input_alphabet()
    sul = Strict(m)
    run_Lsharp(al, sul, RandomWordEqOracle(al, sul, num_walks=100), 'mealy', extension_rule='ADS', separation_rule='ADS', print_level=0)
'''
