PROPERTY = 'C13'
NEEDS = 'a second L# run started while another one is under way (in another thread, or from within the system under learning)'
BREAKS = 'node ids restart whenever an observation tree is created; nodes of a tree that is still growing get ids it has already used, and cached witnesses of other states are used'
EDITS = [('aalpy/learning_algs/deterministic/ObservationTree.py',
"""        if self.automaton_type == 'mealy':
            self.root = MealyNode()
        else:
            self.root = MooreNode()
""",
"""        # number the nodes of every tree from 1
        MealyNode._id_counter = MooreNode._id_counter = 0
        if self.automaton_type == 'mealy':
            self.root = MealyNode()
        else:
            self.root = MooreNode()
"""), ('aalpy/learning_algs/deterministic/ObservationTree.py',
"""        # Caches the separating sequences between basis states
        self.witness_cache = {}
""",
"""        # Caches the separating sequences between basis states (by their numbers)
        self.witness_cache = dict()
""")]
DEMO = '''
import random
from aalpy.base import SUL, Oracle
from aalpy.automata import MealyMachine, MealyState
from aalpy.learning_algs import run_Lsharp
from aalpy.utils import bisimilar

def machine(seed, n):
    r = random.Random(seed)
    st = [MealyState(f's{i}') for i in range(n)]
    for i, s in enumerate(st):
        for a in 'abc':
            s.transitions[a] = r.choice(st); s.output_fun[a] = r.randint(0, 1)
        s.transitions['a'] = st[(i + 1) % n]
    m = MealyMachine(st[0], st)
    m.minimize()
    return m

class E(Oracle):
    def __init__(self, al, sul, m): super().__init__(al, sul); self.m = m
    def find_cex(self, h):
        c = bisimilar(self.m, h, return_cex=True)
        return None if c is None else tuple(c)

class S(SUL):
    """starts another (complete) learning run at its n-th session"""
    def __init__(self, m, n, log): super().__init__(); self.m, self.n, self.log = m, n, log
    def pre(self):
        self.m.reset_to_initial(); self.log.append([])
        if len(self.log) == self.n: learn(4711, 3, None, [])
    def post(self): pass
    def step(self, x): self.log[-1].append(x); return self.m.step(x)

def learn(seed, n, at, log):
    m = machine(seed, n)
    sul = S(m.copy(), at, log)
    return run_Lsharp(list('abc'), sul, E(list('abc'), sul, m), 'mealy', separation_rule='SepSeq', print_level=0, cache_and_non_det_check=False).size

for seed in range(20):
    base = []
    want = learn(seed, 12, None, base)
    for at in (5, 12, 20, 30, 40, 60):
        log = []
        try: got = learn(seed, 12, at, log)
        except Exception as e: got = repr(e)
        if (got, log) != (want, base):
            print('seed', seed, 'at', at, got, want, 'learning differs if another run happens meanwhile'); sys.exit(1)
'''
