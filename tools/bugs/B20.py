PROPERTY = 'C15'
NEEDS = 'a counterexample with calls nested at least three deep, made from states other than the initial one'
BREAKS = 'access strings of deep stacks leave out the word that leads to the innermost calls, so counterexamples are analysed with words of other configurations'
EDITS = [('aalpy/automata/Sevpa.py',
"""            if from_state.prefix != ():
                word.extend(from_state.prefix)
            word.append(call_letter)
""",
"""            if from_state.prefix != () and index < 3:
                word.extend(from_state.prefix)
            word.append(call_letter)
""")]
DEMO = '''
import random, signal
signal.alarm(200)
from aalpy.base import SUL, Oracle
from aalpy.automata import SevpaAlphabet
from aalpy.learning_algs import run_KV

class Lang(SUL):
    """well matched words; the return letter has to match the number (mod 2) of internal letters before the call on each level, only checked three or more levels deep"""
    def pre(self): self.st, self.n, self.bad = [], 0, False
    def post(self): pass
    def step(self, l):
        if l == 'i': self.n = (self.n + 1) % 2
        elif l == 'c': self.st.append(self.n); self.n = 0
        elif l in ('r', 's'):
            if not self.st: self.bad = True
            else:
                k = self.st.pop()
                if k != (l == 's'): self.bad = True
                self.n = 0
        return not self.bad and not self.st and self.n == 0

class Walk(Oracle):
    def __init__(self, al, sul, rng): super().__init__(al, sul); self.rng, self.k = rng, 0
    def find_cex(self, h):
        self.k += 1
        if self.k > 60: print('no progress'); sys.exit(1)
        for _ in range(6000):
            w, depth = [], []
            for _ in range(self.rng.randint(4, 16)):
                w.append(self.rng.choice('iicccrs'))
            # close what is open
            n, st = 0, []
            out = []
            for l in w:
                if l in 'rs' and not st: continue
                out.append(l)
                if l == 'i': n = (n + 1) % 2
                elif l == 'c': st.append(n); n = 0
                else: st.pop(); n = 0
            while st:
                out.append('s' if st.pop() else 'r')
            self.sul.pre(); a = [self.sul.step(x) for x in out]; self.sul.post()
            h.reset_to_initial(); b = [h.step(x) for x in out]
            for i in range(len(out)):
                if a[i] != b[i]:
                    return tuple(out[:i + 1])
        return None

al = SevpaAlphabet(['i'], ['c'], ['r', 's'])
for seed in range(30):
    for proc in ('rs', 'linear_fwd', 'exponential_fwd'):
        random.seed(seed)
        sul = Lang()
        run_KV(al, sul, Walk(al, sul, random.Random(seed)), 'vpa', cex_processing=proc, print_level=0)
'''
