PROPERTY = 'C01'
NEEDS = 'L# with extension rule SepSeq or ADS and a counterexample that is processed in at least two binary search steps'
BREAKS = 'binary search splits the counterexample at the wrong place when the access sequence is long; learning fails or does not finish'
EDITS = [('aalpy/learning_algs/deterministic/ObservationTree.py',
"""        if witness_p is not None:
            self._process_binary_search(hypothesis, sigma1, cex_outputs[:h])
        else:
            new_inputs = list(hyp_p_access) + sigma2
""",
"""        if witness_p is not None and len(sigma1) < 6:
            self._process_binary_search(hypothesis, sigma1, cex_outputs[:h])
        else:
            new_inputs = list(hyp_p_access) + sigma2
""")]
DEMO = '''
import random
from aalpy.base import Oracle
from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs import run_Lsharp
from aalpy.utils import generate_random_deterministic_automata

class Long(Oracle):
    def __init__(self, al, sul, model, rng):
        super().__init__(al, sul); self.m, self.rng, self.n = model, rng, 0
    def find_cex(self, hyp):
        self.n += 1
        if self.n > 60:
            print('no progress'); sys.exit(1)
        best = None
        for _ in range(200):
            w = [self.rng.choice(self.alphabet) for _ in range(40)]
            a = self.m.execute_sequence(self.m.initial_state, w); b = hyp.execute_sequence(hyp.initial_state, w)
            for i in range(len(w)):
                if a[i] != b[i]:
                    if best is None or i >= len(best):
                        best = tuple(w[:i + 1])
                    break
        return best

for seed in range(150):
    rng = random.Random(seed); random.seed(seed)
    m = generate_random_deterministic_automata('moore', 12, 2, 2)
    al = m.get_input_alphabet()
    h = run_Lsharp(al, AutomatonSUL(m), Long(al, None, m, rng), 'moore', print_level=0)
    for _ in range(200):
        w = [rng.choice(al) for _ in range(25)]
        if m.execute_sequence(m.initial_state, w) != h.execute_sequence(h.initial_state, w):
            print('wrong model', seed); sys.exit(1)
'''
