PROPERTY = 'C10'
NEEDS = 'a hypothesis in which a state of unknown behaviour is reachable while enough rows are unambiguous and no counterexample was found'
BREAKS = 'learning may stop before the round limit although unknown behaviour is left in the model'
EDITS = [('aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py',
"""        if chaos_cex_present or cex is not None:
            return False
""",
"""        if cex is not None:
            return False
""")]
DEMO = '''
import random
from aalpy.base import SUL
from aalpy.learning_algs import run_stochastic_Lstar
from aalpy.oracles import RandomWordEqOracle

class Line(SUL):
    """answers differ with the depth; deep behaviour is rarely seen"""
    def pre(self): self.d = 0
    def post(self): pass
    def step(self, i):
        if random.random() < 0.8:
            self.d = 0
            return 'stay'
        self.d += 1
        return f'd{self.d}'

for seed in range(12):
    random.seed(seed)
    sul = Line()
    h, info = run_stochastic_Lstar(['a', 'b'], sul, RandomWordEqOracle(['a', 'b'], sul, num_walks=30, min_walk_len=3, max_walk_len=6), automaton_type='smm',
                                   strategy='classic', n_c=20, n_resample=100, min_rounds=2, max_rounds=9, target_unambiguity=0.5, return_data=True, print_level=0)
    chaos = any(o == 'chaos' for s in h.states for t in s.transitions.values() for _, o, _ in t)
    assert not chaos or info['learning_rounds'] == 9, (seed, info['learning_rounds'])
'''
