PROPERTY = 'C27'
NEEDS = 'ScoreWithSinks around a stateful criterion, for example ScoreWithKTail'
BREAKS = 'the inner criterion is not told that a new merge is considered and measures depth from an earlier candidate'
EDITS = [('aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py', """        self.other_score.reset()
        self.is_first = True
""", """        if self.is_first:
            self.other_score.reset()
        self.is_first = True
""")]
DEMO = '''
from aalpy.learning_algs import run_GSM
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import ScoreCalculation, ScoreWithKTail, ScoreWithSinks
from aalpy.learning_algs.general_passive.GsmNode import GsmNode
out = lambda w: 'aab'.startswith(w[:3]) and len(w) % 3
words = ['aabab', 'bbaba', 'abbab', 'babba', 'aaaaa', 'bbbbb']
data = [[(w[i], out(w[:i + 1])) for i in range(len(w))] for w in words]
sizes = []
for wrap in (lambda s: s, lambda s: ScoreWithSinks(s, lambda node: False)):
    m = run_GSM([list(d) for d in data], output_behavior='mealy', transition_behavior='nondeterministic', data_format='io_traces',
                score_calc=wrap(ScoreWithKTail(ScoreCalculation(GsmNode.deterministic_compatible), 2)))
    sizes.append(m.size)
print(sizes)
if len(set(sizes)) > 1:
    sys.exit(1)
'''
