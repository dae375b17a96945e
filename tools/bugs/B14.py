PROPERTY = 'C10'
NEEDS = 'an output that was observed exactly once in a state, next to one observed often'
BREAKS = 'outputs observed once are left out of hypotheses, so probabilities are not the observed frequencies'
EDITS = [('aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py',
"""                freq_dict = self.T[s][i]

                total_sum = sum(freq_dict.values())
""",
"""                # a single outlier is measurement noise
                freq_dict = {o: f for o, f in self.T[s][i].items() if f * 100 > sum(self.T[s][i].values())}
                total_sum = sum(freq_dict.values())
""")]
DEMO = '''
import random
from aalpy.base import SUL
from aalpy.learning_algs import run_stochastic_Lstar
from aalpy.oracles import RandomWordEqOracle

class Rare(SUL):
    n = 0
    def pre(self): self.first = True
    def post(self): pass
    def step(self, i):
        f, self.first = self.first, False
        if f:
            Rare.n += 1
            if Rare.n == 150:
                return 'rare'
        return 'x'

random.seed(1)
sul = Rare()
h = run_stochastic_Lstar(['a'], sul, RandomWordEqOracle(['a'], sul, num_walks=30, min_walk_len=1, max_walk_len=4), automaton_type='smm',
                         strategy='normal', min_rounds=2, max_rounds=2, print_level=0)
assert Rare.n > 160
outs = {o for _, o, _ in h.initial_state.transitions['a']}
assert 'rare' in outs, outs
'''
