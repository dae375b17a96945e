PROPERTY = 'C01'
NEEDS = 'KV; a split leaf that is the target of a transition from a state deeper than itself'
BREAKS = 'transitions of deeper states into a split leaf are not updated, so hypotheses keep wrong transitions'
EDITS = [('aalpy/learning_algs/deterministic/ClassificationTree.py',
"""                    if old_leaf_access_string == destination.prefix:
""",
"""                    if old_leaf_access_string == destination.prefix and len(state.prefix) <= len(old_leaf_access_string) + 5:
""")]
DEMO = '''
import random, signal
signal.alarm(200)
from aalpy.base import SUL, Oracle
from aalpy.automata import MealyMachine, MealyState
from aalpy.learning_algs import run_KV
from aalpy.SULs import AutomatonSUL

class Walks(Oracle):
    def __init__(self, al, m, rng): super().__init__(al, None); self.m, self.rng, self.k = m, rng, 0
    def find_cex(self, h):
        self.k += 1
        if self.k > 60: print('no progress'); sys.exit(1)
        for _ in range(3000):
            w = [self.rng.choice(self.alphabet) for _ in range(self.rng.randint(1, 30))]
            a, b = self.m.execute_sequence(self.m.initial_state, w), h.execute_sequence(h.initial_state, w)
            for i in range(len(w)):
                if a[i] != b[i]:
                    return tuple(w[:i + 1])
        return None

def machine(rng, n):
    st = [MealyState(f's{i}') for i in range(n)]
    for i, s in enumerate(st):
        s.transitions = {'a': st[(i + 1) % n], 'b': rng.choice(st)}
        s.output_fun = {'a': 'x', 'b': rng.choice('xxxy')}
    m = MealyMachine(st[0], st)
    m.minimize()
    return m

for seed in range(80):
    rng = random.Random(seed)
    m = machine(rng, 14)
    for cex in ('linear_fwd', 'rs'):
        h = run_KV(['a', 'b'], AutomatonSUL(m), Walks(['a', 'b'], m, rng), 'mealy', cex_processing=cex, print_level=0)
        for _ in range(1500):
            w = [rng.choice('ab') for _ in range(30)]
            if m.execute_sequence(m.initial_state, w) != h.execute_sequence(h.initial_state, w):
                print('wrong model', seed); sys.exit(1)
'''
