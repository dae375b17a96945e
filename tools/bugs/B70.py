PROPERTY = 'C06'
NEEDS = 'a hypothesis with one state and a system that differs from it only in the first output after a reset'
BREAKS = 'the walks for one-state hypotheses pass over a difference that shows in their first step'
EDITS = [('aalpy/oracles/kWayStateCoverageEqOracle.py', """                    if out_sul != out_hyp:
                        self.sul.post()
                        return path[:i + 1]

        states""", """                    if out_sul != out_hyp and i:
                        self.sul.post()
                        return path[:i + 1]

        states""")]
DEMO = '''
import random
from aalpy.automata import MealyMachine, MealyState
from aalpy.SULs import AutomatonSUL
from aalpy.oracles import KWayStateCoverageEqOracle
def machine(first):
    a, b = MealyState('a'), MealyState('b')
    for s, o in ((a, first), (b, 0)):
        for i in 'xy':
            s.transitions[i], s.output_fun[i] = b, o
    return MealyMachine(a, [a, b])
h = MealyState('h')
for i in 'xy':
    h.transitions[i], h.output_fun[i] = h, 0
hyp = MealyMachine(h, [h])
h.prefix = ()
for seed in range(5):
    random.seed(seed)
    cex = KWayStateCoverageEqOracle(['x', 'y'], AutomatonSUL(machine(1)), k=2, random_walk_len=8).find_cex(hyp)
    if cex is None:
        print('all walks showed a difference, nothing was returned')
        sys.exit(1)
'''
