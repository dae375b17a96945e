PROPERTY = 'C04'
NEEDS = 'a system that fails in the middle of a membership query'
BREAKS = 'after the failure the system is used again (its tear-down operation is invoked)'
EDITS = [('aalpy/base/SUL.py',
"""            out = [self.step(letter) for letter in word]
        self.post()
""",
"""            out = []
            try:
                for letter in word:
                    out.append(self.step(letter))
            except OSError:
                # leave the system in a clean state
                self.post()
                raise
        self.post()
""")]
DEMO = '''
from aalpy.base import SUL
from aalpy.learning_algs import run_KV
from aalpy.oracles import RandomWordEqOracle

class Sys(SUL):
    n, failed, used = 0, False, []
    def pre(self):
        if self.failed: self.used.append('pre')
        self.s = 0
    def post(self):
        if self.failed: self.used.append('post')
    def step(self, i):
        self.n += 1
        if self.n == 12:
            self.failed = True
            raise ConnectionError('gone')
        self.s = (self.s + (i == 'a')) % 5
        return self.s

sul = Sys()
try:
    run_KV(['a', 'b'], sul, RandomWordEqOracle(['a', 'b'], sul, num_walks=50), 'mealy', print_level=0)
    sys.exit(1)
except ConnectionError:
    pass
assert not sul.used, sul.used
'''
