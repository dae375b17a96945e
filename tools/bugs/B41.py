PROPERTY = 'C19'
NEEDS = 'a state first merged and tested again later, where the statistics of the merged state and of the log prefix lead to different decisions'
BREAKS = 'merge decisions use the number of outputs that are left after earlier merges instead of the logged ones'
EDITS = [('aalpy/learning_algs/stochastic_passive/FPTA.py',
"""    def get_original_output_frequencies(self, target_input):
        return {o: freq for (i, o), freq in self.original_input_frequency.items() if i == target_input}
""",
"""    def get_original_output_frequencies(self, target_input):
        return self.get_output_frequencies(target_input)
""")]
DEMO = '''
import random
from math import sqrt, log
import aalpy.learning_algs.stochastic_passive.Alergia as A
from aalpy.learning_algs.stochastic_passive.CompatibilityChecker import HoeffdingCompatibility
# decisions of the checker while learning have to be those of the log (frequencies below the prefix of each node)
for seed in range(60):
    r = random.Random(seed)
    data = []
    for _ in range(60):
        st, t = 0, ['A']
        for _ in range(r.randint(1, 8)):
            i = r.choice('xy')
            if r.random() < (0.5 if i == 'x' else 0.2): st = 1 - st
            t.append((i, 'AB'[st]))
        data.append(t)
    def freq(prefix, i):
        f, k = {}, len(prefix)
        for t in data:
            if tuple(t[1:k + 1]) == prefix and len(t) > k + 1 and t[k + 1][0] == i:
                f[t[k + 1][1]] = f.get(t[k + 1][1], 0) + 1
        return f
    class Spy(HoeffdingCompatibility):
        def are_states_different(self, a, b, **kw):
            got = super().are_states_different(a, b, **kw)
            want = any(self.hoeffding_bound(freq(a.prefix, i), freq(b.prefix, i)) for i in 'xy' if freq(a.prefix, i) and freq(b.prefix, i))
            if got != want:
                print('seed', seed, a.prefix, b.prefix, 'decided', got, 'by the log', want); sys.exit(1)
            return got
    A.run_Alergia([list(t) for t in data], 'mdp', compatibility_checker=Spy(0.5))
'''
