PROPERTY = 'C09'
NEEDS = 'stochastic mode and an observed frequency that is not a multiple of one hundredth'
BREAKS = 'probabilities of the learned stochastic model are rounded, so they are not the observed frequencies and need not sum up to one'
EDITS = [('aalpy/learning_algs/non_deterministic/TraceTree.py',
"""            sampling_distribution[c.output] = c.frequency_counter / sampling_sum
""",
"""            sampling_distribution[c.output] = round(c.frequency_counter / sampling_sum, 2)
""")]
DEMO = '''
import random
from collections import Counter
from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_non_det_Lstar

class Three(SUL):
    def __init__(self):
        super().__init__()
        self.first, self.k, self.seen = True, 0, Counter()
    def pre(self): self.k = 0
    def post(self): pass
    def step(self, i):
        out = random.choice('xyz')
        self.seen[out] += self.k == 0
        self.k += 1
        return out

class Nothing(Oracle):
    def find_cex(self, h): return None

for seed in range(40):
    random.seed(seed)
    sul = Three()
    h = run_non_det_Lstar(['a'], sul, Nothing(['a'], sul), n_sampling=47 + seed, stochastic=True, print_level=0)
    n = sum(sul.seen.values())
    for _, out, p in h.initial_state.transitions['a']:
        assert abs(p - sul.seen[out] / n) < 1e-9, (seed, out, p, sul.seen[out] / n)
'''
