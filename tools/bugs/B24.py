PROPERTY = 'C02'
NEEDS = 'a membership query of more than thirty inputs, asked twice'
BREAKS = 'answers to long membership queries are not stored, the system is asked again'
EDITS = [('aalpy/base/SUL.py',
"""        for i, o in zip(word, out):
            self.cache.step_in_cache(i, o)
""",
"""        for i, o in zip(word[:30], out):
            # long traces are kept up to a bounded depth
            self.cache.step_in_cache(i, o)
""")]
DEMO = '''
from aalpy.base.SUL import SUL, CacheSUL
class S(SUL):
    n = 0
    def pre(self): self.k = 0; S.n += 1
    def post(self): pass
    def step(self, i): self.k += 1; return self.k % 7
s = CacheSUL(S())
w = ('a', 'b') * 20
a = s.query(w)
b = s.query(w)
assert list(a) == list(b) and S.n == 1, S.n
'''
