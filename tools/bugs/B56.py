PROPERTY = 'C17'
NEEDS = 'non-deterministic learning with a round limit, where counterexamples are found in earlier observations'
BREAKS = 'hypotheses refuted by earlier observations count as rounds: learning stops before the limit, with a model that was never checked'
EDITS = [('aalpy/learning_algs/non_deterministic/OnfsmLstar.py',
"""            cex = sul.cache.find_cex_in_cache(hypothesis)

            if cex is None:
                learning_rounds += 1
                # Find counterexample""",
"""            cex = sul.cache.find_cex_in_cache(hypothesis)
            learning_rounds += 1

            if cex is None:
                # Find counterexample""")]
DEMO = '''
import random
from aalpy.base import Oracle, SUL
from aalpy.learning_algs import run_non_det_Lstar
class Deep(SUL):
    def pre(self): self.n = 0
    def post(self): pass
    def step(self, x):
        self.n = self.n + 1 if x == 'a' else 0
        return int(self.n >= 4) if x == 'a' else 0
class Eq(Oracle):
    n = 0
    def find_cex(self, hyp):
        self.n += 1
        for w in ['aaaaa', 'aabaaaa', 'aaabaaaaa']:
            self.reset_hyp_and_sul(hyp)
            out = []
            for x in w:
                out.append(self.sul.step(x))
                if hyp.step_to(x, out[-1]) is None:
                    return list(w[:len(out)]), out
def run(limit):
    random.seed(1)
    s = Deep()
    e = Eq(['a', 'b'], s)
    m = run_non_det_Lstar(['a', 'b'], s, e, n_sampling=1, samples=SAMPLES, max_learning_rounds=limit, print_level=0)
    return e.n, len(m.states)
for SAMPLES in [None, [(list('aaaaa'), [0, 0, 0, 1, 1])], [(list('aaaa'), [0, 0, 0, 1]), (list('aabaaaa'), [0, 0, 0, 0, 0, 0, 1])]]:
    free = run(None)
    for k in range(1, 6):
        got = run(k)
        if got[0] != min(k, free[0]):
            print('limit', k, 'equivalence queries', got[0], 'without limit', free[0])
            sys.exit(1)
'''
