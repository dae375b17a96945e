PROPERTY = 'C09'
NEEDS = 'rows whose trace is only observed in some of the executions of its inputs'
BREAKS = 'the missing samples of a cell are determined once, executions that take another path are counted as samples'
EDITS = [('aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py',
"""                while self.sul.cache.get_s_e_sampling_frequency(s, e) < self.n_samples:
                    self.sul.query(s[0] + e)
""",
"""                missing = self.n_samples - self.sul.cache.get_s_e_sampling_frequency(s, e)
                for _ in range(missing):
                    self.sul.query(s[0] + e)
""")]
DEMO = '''
import random
from aalpy.base import SUL
from aalpy.learning_algs.non_deterministic.NonDeterministicSULWrapper import NonDeterministicSULWrapper
from aalpy.learning_algs.non_deterministic.OnfsmObservationTable import NonDetObservationTable
class S(SUL):
    log = []
    def pre(self):
        self.t = []
        self.log.append(self.t)
    def post(self): pass
    def step(self, x):
        o = random.choice('xyz') if x == 'a' else len(self.t)
        self.t.append((x, o))
        return o
for seed in range(5):
    random.seed(seed)
    s = S()
    s.log = []
    t = NonDetObservationTable(['a', 'b'], NonDeterministicSULWrapper(s), 4)
    t.query_missing_observations()
    rows = t.S + t.get_extended_S()
    for ins, outs in rows:
        for e in t.E:
            k = len(ins)
            n = sum(1 for w in s.log if len(w) > k and w[:k] == list(zip(ins, outs)) and w[k][0] == e[0])
            if n < 4 and rows.index((ins, outs)) == 0 or t.sul.cache.get_s_e_sampling_frequency((ins, outs), e) != n:
                print(ins, outs, e, n); sys.exit(1)
    # what the table was asked to sample is sampled after a second pass, whichever path the system takes
    t.query_missing_observations()
    for ins, outs in rows:
        for e in t.E:
            if t.sul.cache.get_s_e_sampling_frequency((ins, outs), e) < 4:
                print('undersampled', ins, outs, e); sys.exit(1)
'''
