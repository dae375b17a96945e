PROPERTY = 'C03'
NEEDS = 'a system whose answers change between a number and its text, e.g. 1 and the string 1'
BREAKS = 'contradicting outputs with the same text are not reported'
EDITS = [('aalpy/base/CacheTree.py',
"""            if node.value != out:
""",
"""            if str(node.value) != str(out):
""")]
DEMO = '''
from aalpy.base.SUL import SUL, CacheSUL
class Flaky(SUL):
    runs = 0
    def pre(self): self.runs += 1
    def post(self): pass
    def step(self, i): return 1 if self.runs == 1 else '1'
s = CacheSUL(Flaky())
s.query(('a',))
try:
    s.query(('a', 'b'))
except SystemExit:
    sys.exit(0)
sys.exit(1)
'''
