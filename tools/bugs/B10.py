PROPERTY = 'C08'
NEEDS = 'StatePrefixEqOracle used for at least two rounds; a state found later whose access sequence extends that of a covered state'
BREAKS = 'states discovered later start with the walk count of the state they extend, so they get fewer walks than promised'
EDITS = [('aalpy/oracles/StatePrefixEqOracle.py',
"""                self.freq_dict[state.prefix] = 0
""",
"""                # walks through the new state were counted for the state that was extended
                self.freq_dict[state.prefix] = self.freq_dict.get(state.prefix[:-1], 0)
""")]
DEMO = '''
from aalpy.base import SUL
from aalpy.oracles import StatePrefixEqOracle
from aalpy.automata import Dfa, DfaState

def chain(n, wrong):
    st = [DfaState(f's{i}', False) for i in range(n)]
    for i, s in enumerate(st):
        s.transitions['a'] = st[(i + 1) % n]; s.transitions['b'] = s
        s.prefix = ('a',) * i
    st[0].is_accepting = wrong
    return Dfa(st[0], st)

class Sys(SUL):
    words = []
    def pre(self): self.w = []; self.words.append(self.w)
    def post(self): pass
    def step(self, i): self.w.append(i); return False

sul = Sys()
o = StatePrefixEqOracle(['a', 'b'], sul, walks_per_state=5, walk_len=4)
h = chain(1, False)
assert o.find_cex(h) is None
assert len(sul.words) == 5
sul.words.clear()
h = chain(2, False)
assert o.find_cex(h) is None
assert len(sul.words) == 5, len(sul.words)
'''
