PROPERTY = 'C07'
NEEDS = 'a hypothesis that is at least four states smaller than the bound, and a fault that only the longest middle parts reveal'
BREAKS = 'the W-method never uses middle parts of more than three inputs, whatever the bound'
EDITS = [('aalpy/oracles/WMethodEqOracle.py',
"""        depth = self.m + 1 - len(hypothesis.states)
""",
"""        # longer middle parts were executed with the first hypothesis
        depth = min(self.m + 1 - len(hypothesis.states), 4)
""")]
DEMO = '''
from aalpy.SULs import AutomatonSUL
from aalpy.oracles import WMethodEqOracle
from aalpy.automata import MealyMachine, MealyState

def lock(n, broken):
    """n states; the word a^n answers 'open' unless broken"""
    st = [MealyState(f's{i}') for i in range(n)]
    for i, s in enumerate(st):
        last = i == n - 1
        s.transitions = {'a': st[(i + 1) % n], 'b': st[0]}
        s.output_fun = {'a': 'open' if last and not broken else 'no', 'b': 'no'}
    return MealyMachine(st[0], st)

def hyp(out_b):
    s = MealyState('q'); s.prefix = ()
    s.transitions = {'a': s, 'b': s}
    s.output_fun = {'a': 'no', 'b': out_b}
    return MealyMachine(s, [s])

m = lock(5, False)
o = WMethodEqOracle(['a', 'b'], AutomatonSUL(m), max_number_of_states=5, shuffle_test_set=False)
c = o.find_cex(hyp('x'))
assert c is not None
c = o.find_cex(hyp('no'))
assert c is not None, 'accepted a wrong hypothesis'
'''
