PROPERTY = 'C01'
NEEDS = 'L* without counterexample processing; two equal rows that are far apart in S and whose successors differ'
BREAKS = 'the consistency check only compares neighbouring rows; an inconsistent table is taken as consistent and learning makes no progress or ends with another model'
EDITS = [('aalpy/learning_algs/deterministic/ObservationTable.py',
"""            for s2 in self.S[i + 1:]:
""",
"""            for s2 in self.S[i + 1:i + 18]:
""")]
DEMO = '''
import random, signal
signal.alarm(100)
from aalpy.base import SUL, Oracle
from aalpy.automata import Dfa, DfaState
from aalpy.learning_algs import run_Lstar
from aalpy.SULs import AutomatonSUL
from aalpy.utils import bisimilar

class Perfect(Oracle):
    """random walk until the first difference, exact otherwise"""
    def __init__(self, al, sul, model, rng, limit):
        super().__init__(al, sul); self.m, self.rng, self.limit, self.n = model, rng, limit, 0
    def find_cex(self, hyp):
        self.n += 1
        if self.n > self.limit:
            print('no progress'); sys.exit(1)
        for _ in range(150):
            w = [self.rng.choice(self.alphabet) for _ in range(self.rng.randint(5, 25))]
            a = self.m.execute_sequence(self.m.initial_state, w); b = hyp.execute_sequence(hyp.initial_state, w)
            for i in range(len(w)):
                if a[i] != b[i]:
                    return tuple(w[:i + 1])
        return None

def dfa(rng, n, k):
    st = [DfaState(f's{i}', rng.random() < .5) for i in range(n)]
    for s in st:
        for a in range(k):
            s.transitions[a] = rng.choice(st)
    d = Dfa(st[0], st)
    return d

for seed in range(150):
    rng = random.Random(seed)
    m = dfa(rng, 12, 2)
    al = [0, 1]
    h = run_Lstar(al, AutomatonSUL(m), Perfect(al, None, m, rng, 40), 'dfa', cex_processing=None, print_level=0)
    for _ in range(150):
        w = [rng.choice(al) for _ in range(15)]
        if m.execute_sequence(m.initial_state, w) != h.execute_sequence(h.initial_state, w):
            print('wrong model for seed', seed); sys.exit(1)
    if not h.is_minimal():
        print('not minimal', seed); sys.exit(1)
'''
