PROPERTY = 'C20'
NEEDS = 'active RPNI that is interrupted (or run again) and continued from the log'
BREAKS = 'sampled sessions are not added to the log of the user, so they are lost when the system goes down and for later runs'
EDITS = [('aalpy/learning_algs/deterministic_passive/active_RPNI.py',
"""        data.extend(new_samples)
""",
"""        data = data + new_samples
""")]
DEMO = '''
import random
from aalpy.base import SUL
from aalpy.learning_algs.deterministic_passive.active_RPNI import run_active_RPNI, RandomWordSampler

class Down(Exception): pass

class S(SUL):
    def __init__(self): super().__init__(); self.n, self.words = 0, []
    def pre(self):
        self.c = 0; self.w = []; self.n += 1
        if self.n == 25: raise Down()
    def post(self): self.words.append(tuple(self.w))
    def step(self, x):
        if x is not None: self.w.append(x)
        self.c = (self.c + (x == 'a')) % 3
        return self.c == 0

random.seed(1)
sul = S()
data = [((), True), (('a',), False), (('b',), True)]
try:
    run_active_RPNI(data, sul, RandomWordSampler(10, 2, 6), 10, 'dfa', print_info=False)
except Down:
    pass
logged = {tuple(w) for w, _ in data}
missing = [w for w in sul.words[:20] if w not in logged]
if missing:
    print('sessions of finished iterations are missing in the log:', missing[:5]); sys.exit(1)
'''
