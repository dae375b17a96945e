PROPERTY = 'C02'
NEEDS = 'a stepwise session (equivalence query) that is abandoned, followed by a session that starts with an input already in the cache'
BREAKS = 'the caching wrapper continues in the cache tree where the abandoned session stopped if the system failed to reset before; words are stored below the wrong node'
EDITS = [('aalpy/base/SUL.py',
"""        self.cache.reset()
        self.sul.pre()

    def post(self):
        self.sul.post()
""",
"""        self.sul.pre()

    def post(self):
        self.sul.post()
        self.cache.reset()
""")]
DEMO = '''
from aalpy.base.SUL import SUL, CacheSUL

class Counter(SUL):
    """answers the number of inputs since reset; the connection may be lost when closing a session"""
    def __init__(self):
        super().__init__(); self.n = 0; self.fail = False
    def pre(self):
        self.n = 0
    def post(self):
        if self.fail:
            self.fail = False
            raise ConnectionError('lost')
    def step(self, i):
        self.n += 1
        return self.n

real = Counter()
sul = CacheSUL(real)
sul.pre()
sul.step('a'); sul.step('a')
real.fail = True
try:
    sul.post()
except ConnectionError:
    pass
# the client reconnects and goes on with a new session
sul.pre()
out = [sul.step('a') for _ in range(3)]
sul.post()
assert out == [1, 2, 3], out
assert list(sul.query(('a', 'a', 'a'))) == [1, 2, 3], sul.query(('a', 'a', 'a'))
assert sul.cache.in_cache(('a', 'a', 'a', 'a', 'a')) is None
'''
