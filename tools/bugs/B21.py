PROPERTY = 'C15'
NEEDS = 'a language with a state that cannot be left, accepting, and different from the initial one'
BREAKS = 'an accepting state that cannot be left is taken for the error state, so words leading there are rejected by the learned model'
EDITS = [('aalpy/automata/Sevpa.py',
"""            if state.is_accepting or state == self.initial_state:
                continue
""",
"""            if state == self.initial_state:
                continue
""")]
DEMO = '''
import random, itertools
from aalpy.base import SUL, Oracle
from aalpy.automata import SevpaAlphabet
from aalpy.learning_algs import run_KV

class Lang(SUL):
    """an internal letter occurred on the top level first, everything well matched afterwards is accepted"""
    def pre(self): self.d, self.ok, self.bad = 0, False, False
    def post(self): pass
    def step(self, l):
        if l == 'i': self.ok = True
        elif l == 'c': self.d += 1
        elif l == 'r':
            self.d -= 1
            if self.d < 0: self.bad = True
        return not self.bad and self.d == 0 and self.ok

class All(Oracle):
    def find_cex(self, h):
        for k in range(1, 8):
            for w in itertools.product('icr', repeat=k):
                self.sul.pre(); a = [self.sul.step(x) for x in w]; self.sul.post()
                h.reset_to_initial(); b = [h.step(x) for x in w]
                if a[-1] != b[-1] and a[:-1] == b[:-1]:
                    return w
        return None

sul = Lang()
al = SevpaAlphabet(['i'], ['c'], ['r'])
m = run_KV(al, sul, All(al, sul), 'vpa', print_level=0)
m.delete_state(m.get_error_state()) if m.get_error_state() else None
assert All(al, sul).find_cex(m) is None
'''
