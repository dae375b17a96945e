PROPERTY = 'C08'
NEEDS = 'KWayTransitionCoverageEqOracle with method random, optimize steps, and k-way transitions that the random paths do not cover'
BREAKS = 'the set of test paths is accepted as soon as one path adds nothing, without covering the rest by prefix paths'
EDITS = [('aalpy/oracles/kWayTransitionCoverageEqOracle.py', '''            if path is None or not paths:
                paths = [''', '''            if path is None and len(covered) * 2 > size_of_universe:
                break

            if not paths or path is None:
                paths = [''')]
DEMO = '''
import random, itertools
from aalpy.base import SUL
from aalpy.oracles import KWayTransitionCoverageEqOracle
from aalpy.automata import Dfa, DfaState

def ring(n):
    st = [DfaState(f's{i}', False) for i in range(n)]
    for i, s in enumerate(st):
        s.transitions['a'] = st[(i + 1) % n]; s.transitions['b'] = st[0]
        s.prefix = ('a',) * i
    return Dfa(st[0], st)

class Sys(SUL):
    def __init__(self): super().__init__(); self.words = []
    def pre(self): self.words.append([])
    def post(self): pass
    def step(self, i): self.words[-1].append(i); return False

for seed in range(30):
    random.seed(seed)
    h, sul = ring(5), Sys()
    assert KWayTransitionCoverageEqOracle(['a', 'b'], sul, k=2, method='random', num_generate_paths=6, max_path_len=6).find_cex(h) is None
    seen = set()
    for w in sul.words:
        s = h.initial_state
        for i, a in enumerate(w):
            if i + 1 < len(w):
                seen.add((s.state_id, a, w[i + 1]))
            s = s.transitions[a]
    assert len(seen) == 5 * 4, (seed, len(seen))
'''
