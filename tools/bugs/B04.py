PROPERTY = 'C03'
NEEDS = 'a contradiction that shows in a trace longer than one that was stored, after an output that compares unequal only by later position, in a supplied sample'
BREAKS = 'contradictions between falsy outputs (False, 0, empty string, None) and others are not reported'
EDITS = [('aalpy/base/CacheTree.py',
"""            node = self.curr_node.children[inp]
            if node.value != out:
                expected_seq = self.outputs[:-1]""",
"""            node = self.curr_node.children[inp]
            if node.value and node.value != out:
                expected_seq = self.outputs[:-1]""")]
DEMO = '''
from aalpy.base.SUL import SUL, CacheSUL

class Flaky(SUL):
    def __init__(self):
        super().__init__(); self.runs = 0
    def pre(self):
        self.runs += 1
    def post(self):
        pass
    def step(self, i):
        return self.runs > 1

sul = CacheSUL(Flaky())
sul.query(('a',))
try:
    sul.query(('a', 'b'))
except SystemExit:
    sys.exit(0)
print('contradiction not reported'); sys.exit(1)
'''
