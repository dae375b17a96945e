PROPERTY = 'C19'
NEEDS = 'run_Alergia_EDSM with several possible merges whose evidence differs'
BREAKS = 'the evidence is accumulated over all considered merges, so that the merge considered last wins'
EDITS = [('aalpy/learning_algs/general_passive/GsmAlgorithms.py', """        def reset(self):
            self.evidence = 0
""", """        def reset(self):
            if self.evidence < 0:
                self.evidence = 0
""")]
DEMO = '''
import random, io, contextlib
from aalpy.learning_algs.general_passive.GsmAlgorithms import run_Alergia_EDSM
from aalpy.learning_algs import run_GSM
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation, hoeffding_compatibility
class E(ScoreCalculation):
    def __init__(self):
        super().__init__()
        self.ok, self.n = hoeffding_compatibility(0.05), 0
    def reset(self): self.n = 0
    def local_compatibility(self, a, b):
        self.n += 1
        return self.ok(a, b)
    def score_function(self, part): return self.n
for seed in range(30):
    rnd = random.Random(seed)
    data = []
    for _ in range(120):
        t, s = [], 0
        for _ in range(6):
            a = rnd.choice('ab'); o = rnd.random() < [0.1, 0.5, 0.9][s]
            t.append((a, o)); s = (s + (a == 'a') + o) % 3
        data.append(t)
    m = [run_Alergia_EDSM([list(t) for t in data], 'smm'),
         run_GSM([list(t) for t in data], output_behavior='mealy', transition_behavior='stochastic', score_calc=E(), compatibility_on_pta=True,
                 compatibility_on_futures=True, data_format='io_traces')]
    form = [sorted((s.state_id, a, str(o), t.state_id, round(p, 9)) for s in x.states for a, l in s.transitions.items() for t, o, p in l) for x in m]
    if form[0] != form[1]:
        print('different models', m[0].size, m[1].size)
        sys.exit(1)
'''
