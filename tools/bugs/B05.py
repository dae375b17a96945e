PROPERTY = 'C04'
NEEDS = 'the system raises StopIteration-like or connection errors in the middle of a membership query'
BREAKS = 'a failing query is retried silently instead of surfacing to the caller'
EDITS = [('aalpy/base/SUL.py',
"""        # get outputs using default query method
        out = self.sul.query(word)
""",
"""        # get outputs using default query method
        try:
            out = self.sul.query(word)
        except TimeoutError:
            # the system may just have been slow
            out = self.sul.query(word)
""")]
DEMO = '''
from aalpy.base.SUL import SUL, CacheSUL
from aalpy.learning_algs import run_Lstar
from aalpy.oracles import RandomWordEqOracle

class Slow(SUL):
    def __init__(self):
        super().__init__(); self.n = self.s = 0; self.error = TimeoutError('no answer')
    def pre(self):
        self.s = 0
    def post(self):
        pass
    def step(self, i):
        self.n += 1
        if self.n == 17:
            raise self.error
        self.s = (self.s + 1) % 4 if i == 'a' else self.s
        return self.s

sul = Slow()
try:
    run_Lstar(['a', 'b'], sul, RandomWordEqOracle(['a', 'b'], sul, num_walks=20), 'mealy', print_level=0)
except TimeoutError as e:
    sys.exit(0 if e is sul.error and sul.n == 17 else 1)
print('the failure never surfaced'); sys.exit(1)
'''
