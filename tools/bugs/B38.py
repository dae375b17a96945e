PROPERTY = 'C22'
NEEDS = 'a user who starts over after having entered inputs that leave the initial state of the hypothesis'
BREAKS = 'after a reset the outputs shown for the hypothesis are those of a wrong state, so differences are missed or invented'
EDITS = [('aalpy/oracles/UserInputEqOracle.py',
"""                inputs.clear()
                self.reset_hyp_and_sul(hypothesis)
""",
"""                inputs.clear()
                self.sul.post()
                self.sul.pre()
                self.num_queries += 1
""")]
DEMO = '''
import builtins, io, contextlib, os, tempfile
from aalpy.automata import MooreMachine, MooreState
from aalpy.SULs import AutomatonSUL
from aalpy.oracles import UserInputEqOracle
m = sys.modules['aalpy.oracles.UserInputEqOracle']
m.visualize_automaton = lambda *a, **k: None
st = [MooreState(f's{i}', f'o{i}') for i in range(3)]
for i, s in enumerate(st):
    s.transitions['a'] = st[(i + 1) % 3]; s.transitions['b'] = s
aut = MooreMachine(st[0], st)
words = iter(['a', 'b', 'reset', 'a', 'a', 'reset', 'b', 'end'])
builtins.input = lambda p='': next(words)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    r = UserInputEqOracle(['a', 'b'], AutomatonSUL(aut.copy())).find_cex(aut)
if r is not None or 'Counterexample' in out.getvalue():
    print('differences between identical models:', out.getvalue()[:300]); sys.exit(1)
'''
