PROPERTY = 'C09'
NEEDS = 'an input with at least four different outputs after the same trace'
BREAKS = 'only three outputs of an input are taken over into the observation table; traces with the others were observed but are not possible in the learned model'
EDITS = [('aalpy/learning_algs/non_deterministic/TraceTree.py',
"""                children_with_same_input = node.children[e[depth]]
""",
"""                # the most recent outputs
                children_with_same_input = node.children[e[depth]][-3:]
""")]
DEMO = '''
import random, signal
signal.alarm(120)
from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_non_det_Lstar
from aalpy.oracles import RandomWordEqOracle

class Four(SUL):
    def pre(self): self.n = 0
    def post(self): pass
    def step(self, i):
        self.n += 1
        return random.choice('wxyz')

class Nothing(Oracle):
    def find_cex(self, h): return None

random.seed(3)
sul = Four()
h = run_non_det_Lstar(['a'], sul, Nothing(['a'], sul), n_sampling=40, max_learning_rounds=3, print_level=0)
outs = {o for o, _ in h.initial_state.transitions['a']}
assert outs == set('wxyz'), outs
'''
