PROPERTY = 'C28'
NEEDS = 'suffixes of length two or more in the characterization set and an abstraction of outputs that appear at their end'
BREAKS = 'only the first output of a word is abstracted, so traces with the same abstracted observations become different states'
EDITS = [('aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py', """                            abstract_output = self.get_abstraction(o)
                            abstracted_outputs.append(abstract_output)
""", """                            abstract_output = o if abstracted_outputs else self.get_abstraction(o)
                            abstracted_outputs.append(abstract_output)
""")]
DEMO = '''
import random
from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_abstracted_ONFSM_Lstar
# outputs by state; o1/o2 belong to one class
T = {0: {'a': [('x', 1), ('y', 2)], 'b': [('n', 0)]}, 1: {'a': [('n', 3)], 'b': [('n', 1)]}, 2: {'a': [('n', 4)], 'b': [('n', 2)]},
     3: {'a': [('o1', 3)], 'b': [('q', 5)]}, 4: {'a': [('o2', 4)], 'b': [('q', 5)]}, 5: {'a': [('n', 5)], 'b': [('n', 5)]}}
M = {'o1': 'o', 'o2': 'o', 'x': 'x'}
class S(SUL):
    def pre(self): self.s = 0
    def post(self): pass
    def step(self, a):
        o, self.s = random.choice(T[self.s][a])
        return o
class E(Oracle):
    """random words, then one long word over a"""
    def find_cex(self, h):
        for k in range(600):
            self.reset_hyp_and_sul(h)
            ins, outs = [], []
            for a in ['a', 'a', 'a'] if k % 3 == 0 else [random.choice('ab') for _ in range(5)]:
                ins.append(a); outs.append(self.sul.step(a))
                if h.step_to(ins[-1], outs[-1]) is None:
                    self.sul.post()
                    return ins, outs
            self.sul.post()
        return None
for seed in range(6):
    random.seed(seed)
    sul = S()
    m = run_abstracted_ONFSM_Lstar(['a', 'b'], sul, E(['a', 'b'], sul), M, n_sampling=30, print_level=0)
    rows = []
    for s in m.states:
        row = []
        for e in m.characterization_set:
            level = [((), 0)]
            for i, o in zip(*s.prefix):
                level = [((), t) for w, q in level for x, t in T[q][i] if x == o]
            for i in e:
                level = [(w + (M.get(o, o),), t) for w, q in level for o, t in T[q][i]]
            row.append(frozenset(w for w, _ in level))
        rows.append(tuple(row))
    if len(set(rows)) != len(rows):
        print('two states with the same abstracted behaviour:', [s.prefix for s in m.states], m.characterization_set)
        sys.exit(1)
'''
