PROPERTY = 'C27'
NEEDS = 'a score that is not a verdict, several scored candidates, and a merge that leaves another candidate pair untouched'
BREAKS = 'candidates that were scored before a merge are kept, although the merge changed the states they would end up in'
EDITS = [('aalpy/learning_algs/general_passive/GeneralizedStateMerging.py', '            partition_candidates.clear()\n',
"""            touched = best_candidate.full_mapping
            partition_candidates = {pair: part for pair, part in partition_candidates.items()
                                    if not any(node in touched for node in part.full_mapping)}
""")]
DEMO = '''
import random
from aalpy.learning_algs import run_GSM
from aalpy.learning_algs.general_passive.GeneralizedStateMerging import Instrumentation
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation
class Log(Instrumentation):
    def log_merge(self, part):
        # a merge is only allowed between a state of the hypothesis and a candidate below one
        reds = self.root.get_all_nodes()
        if part.red not in reds:
            print('merged with a node that is no longer part of the model')
            sys.exit(1)
        if score.asked.get((part.red, part.blue)) != len(score.merges):
            print('merge performed on a score from before another merge')
            sys.exit(1)
        score.merges.append(1)
    def pta_construction_done(self, root): self.root = root
class Score(ScoreCalculation):
    def __init__(self):
        super().__init__()
        self.asked, self.merges, self.first = {}, [], False
    def reset(self): self.first = True
    def local_compatibility(self, a, b):
        if self.first:
            self.first, self.blue, self.path = False, b, a.get_prefix()
        return True
    def score_function(self, part):
        red = next(r for r, p in part.items() if p is part[self.blue] and r is not self.blue and r.get_prefix() == self.path)
        self.asked[red, self.blue] = len(self.merges)
        return len(part) - len(set(part.values()))
for seed in range(60):
    rnd = random.Random(seed)
    delta = [{a: rnd.randrange(5) for a in 'abc'} for _ in range(5)]
    out = [{a: rnd.randrange(2) for a in 'abc'} for _ in range(5)]
    data = []
    for _ in range(12):
        s, t = 0, []
        for _ in range(6):
            a = rnd.choice('abc')
            t.append((a, out[s][a])); s = delta[s][a]
        data.append(t)
    score = Score()
    run_GSM(data, output_behavior='mealy', transition_behavior='deterministic', score_calc=score, instrumentation=Log(), data_format='io_traces')
'''
