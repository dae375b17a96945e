PROPERTY = 'C16'
NEEDS = 'L# with adaptive distinguishing sequences, without cache, on a system in which sequences have at least one input'
BREAKS = 'inputs of adaptive distinguishing sequences are counted twice in the reported number of steps'
EDITS = [('aalpy/base/SUL.py',
"""        self.num_steps += len(word)

        while True:
            next_input = ads.next_input(last_output)
""",
"""        while True:
            next_input = ads.next_input(last_output)
"""), ('aalpy/base/SUL.py',
"""        self.num_queries += 1
        self.post()

        return word, outputs_received
""",
"""        self.num_queries += 1
        self.num_steps += len(word)
        self.post()

        return word, outputs_received
""")]
DEMO = '''
import random
from aalpy.base import SUL, Oracle
from aalpy.automata import MealyMachine, MealyState
from aalpy.learning_algs import run_Lsharp
from aalpy.utils import bisimilar

def machine(seed, n):
    r = random.Random(seed)
    st = [MealyState(f's{i}') for i in range(n)]
    for i, s in enumerate(st):
        for a in 'abc':
            s.transitions[a] = r.choice(st); s.output_fun[a] = r.randint(0, 1)
        s.transitions['a'] = st[(i + 1) % n]
    m = MealyMachine(st[0], st)
    m.minimize()
    return m

class E(Oracle):
    def __init__(self, al, sul, m): super().__init__(al, sul); self.m = m
    def find_cex(self, h):
        c = bisimilar(self.m, h, return_cex=True)
        return None if c is None else tuple(c)

class S(SUL):
    def __init__(self, m): super().__init__(); self.m, self.n = m, 0
    def pre(self): self.m.reset_to_initial()
    def post(self): pass
    def step(self, x): self.n += 1; return self.m.step(x)

for seed in range(10):
    m = machine(seed, 10)
    sul = S(m.copy())
    h, info = run_Lsharp(list('abc'), sul, E(list('abc'), sul, m), 'mealy', separation_rule='ADS', print_level=0, return_data=True, cache_and_non_det_check=False)
    if info['steps_learning'] != sul.n:
        print('seed', seed, 'reported', info['steps_learning'], 'executed', sul.n); sys.exit(1)
'''
