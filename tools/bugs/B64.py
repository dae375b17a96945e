PROPERTY = 'C08'
NEEDS = 'StatePrefixEqOracle over several hypotheses whose states are numbered differently'
BREAKS = 'walks are counted per state name instead of per access sequence: new states inherit the used up budget of others'
EDITS = [('aalpy/oracles/StatePrefixEqOracle.py', """            if state.prefix not in self.freq_dict.keys():
                self.freq_dict[state.prefix] = 0

            states_to_cover.extend([state] * (self.walks_per_state - self.freq_dict[state.prefix]))
""", """            if state.state_id not in self.freq_dict.keys():
                self.freq_dict[state.state_id] = 0

            states_to_cover.extend([state] * (self.walks_per_state - self.freq_dict[state.state_id]))
"""), ('aalpy/oracles/StatePrefixEqOracle.py', "            self.freq_dict[state.prefix] = self.freq_dict[state.prefix] + 1\n", "            self.freq_dict[state.state_id] = self.freq_dict[state.state_id] + 1\n")]
DEMO = '''
from aalpy.base import SUL
from aalpy.automata import Dfa, DfaState
from aalpy.oracles import StatePrefixEqOracle
class S(SUL):
    words = []
    def pre(self): self.words.append([])
    def post(self): pass
    def step(self, x):
        self.words[-1].append(x)
        return False
def ring(names):
    st = [DfaState(n, False) for n in names]
    for i, s in enumerate(st):
        s.transitions['a'] = st[(i + 1) % len(st)]
        s.prefix = ('a',) * i
    return Dfa(st[0], st)
sul = S()
orc = StatePrefixEqOracle(['a'], sul, walks_per_state=3, walk_len=2)
orc.find_cex(ring(['s0', 's1']))
del sul.words[:]
orc.find_cex(ring(['s0', 's2', 's1', 's3']))
got = sorted(len(w) - 2 for w in sul.words if w)
if got != [2] * 3 + [3] * 3:
    print('walks started at depth', got)
    sys.exit(1)
'''
