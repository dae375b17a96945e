PROPERTY = 'C17'
NEEDS = 'L* with a counterexample that has to be analysed more than once and a limit near the number of rounds needed'
BREAKS = 'repeated analyses of one counterexample count as rounds, so learning is cut although no more than the allowed rounds are needed'
EDITS = [('aalpy/learning_algs/deterministic/LStar.py',
"""        if cex is None or counterexample_successfully_processed(sul, cex, hypothesis):
            learning_rounds += 1

            if print_level > 1:
""",
"""        learning_rounds += 1
        if cex is None or counterexample_successfully_processed(sul, cex, hypothesis):
            if print_level > 1:
""")]
DEMO = '''
import random
from aalpy.base import SUL, Oracle
from aalpy.SULs import AutomatonSUL
from aalpy.automata import MealyMachine, MealyState
from aalpy.learning_algs import run_Lstar
from aalpy.utils import bisimilar

def machine(seed, n):
    r = random.Random(seed)
    st = [MealyState(f's{i}') for i in range(n)]
    for i, s in enumerate(st):
        for a in 'ab':
            s.transitions[a] = r.choice(st); s.output_fun[a] = 0 if r.random() < .8 else 1
        s.transitions['a'] = st[(i + 1) % n]
    m = MealyMachine(st[0], st)
    m.minimize()
    return m

class E(Oracle):
    """long counterexamples"""
    def __init__(self, al, sul, m, seed): super().__init__(al, sul); self.m, self.k, self.r = m, 0, random.Random(seed)
    def find_cex(self, h):
        self.k += 1
        if bisimilar(self.m, h): return None
        while True:
            w = [self.r.choice('ab') for _ in range(60)]
            self.m.reset_to_initial(); h.reset_to_initial()
            a, b = [self.m.step(x) for x in w], [h.step(x) for x in w]
            d = [i for i in range(60) if a[i] != b[i]]
            if d: return tuple(w[:d[-1] + 1])

for seed in range(20):
    m = machine(seed, 12)
    for proc in ('rs', 'linear_bwd', 'exponential_fwd'):
        def learn(limit):
            sul = AutomatonSUL(m.copy())
            e = E(list('ab'), sul, m.copy(), seed)
            return run_Lstar(list('ab'), sul, e, 'mealy', cex_processing=proc, e_set_suffix_closed=False, max_learning_rounds=limit, print_level=0), e.k
        h, k = learn(None)
        g, j = learn(k)
        if g.size != h.size or j != k:
            print('seed', seed, proc, 'needs', k, 'rounds; with this limit', j, 'rounds and', g.size, 'of', h.size, 'states'); sys.exit(1)
'''
