PROPERTY = 'C20'
NEEDS = 'a sampler that draws the same walk twice in one round, and a stochastic system'
BREAKS = 'repeated walks are not executed, the observations of the first one are recorded again'
EDITS = [('aalpy/learning_algs/stochastic_passive/ActiveAleriga.py', '        samples = []\n\n        for', '        samples = []\n        executed = {}\n\n        for'),
 ('aalpy/learning_algs/stochastic_passive/ActiveAleriga.py', '            outputs = sul.query(random_walk)\n', '            if random_walk not in executed:\n                executed[random_walk] = sul.query(random_walk)\n            outputs = executed[random_walk]\n')]
DEMO = '''
import random
from aalpy.base import SUL
from aalpy.automata import Mdp, MdpState
from aalpy.learning_algs.stochastic_passive.ActiveAleriga import RandomWordSampler
class S(SUL):
    n = 0
    log = []
    def pre(self): self.log.append([])
    def post(self): pass
    def step(self, x):
        if x is None: return 'i'
        self.n += 1
        self.log[-1].append((x, self.n))
        return self.n
s = MdpState('s', 'i')
s.transitions['a'] = [(s, 1.0)]
m = Mdp(s, [s])
random.seed(1)
sul = S()
new = RandomWordSampler(10, 1, 3).sample(sul, m)
done = [w for w in sul.log if w]
if [list(t[1:]) for t in new] != done:
    print('recorded', new, 'executed', done)
    sys.exit(1)
'''
