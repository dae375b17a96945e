PROPERTY = 'C22'
NEEDS = 'the user mistypes an input, goes on, and returns the counterexample'
BREAKS = 'rejected inputs stay in the list of entered inputs, so the counterexample that is returned is not what was executed'
EDITS = [('aalpy/oracles/UserInputEqOracle.py',
"""            if inp not in self.alphabet:
                print("Provided input is not in the input alphabet.")
                continue
            inputs.append(inp)
            self.num_steps += 1""",
"""            inputs.append(inp)
            if inp not in self.alphabet:
                print("Provided input is not in the input alphabet.")
                continue
            self.num_steps += 1""")]
DEMO = '''
import builtins
import aalpy.oracles.UserInputEqOracle
mod = sys.modules['aalpy.oracles.UserInputEqOracle']
from aalpy.automata import MealyMachine, MealyState
from aalpy.SULs import AutomatonSUL
def one(outputs):
    s = MealyState('s')
    for x, o in zip('ab', outputs):
        s.transitions[x] = s
        s.output_fun[x] = o
    return MealyMachine(s, [s])
mod.visualize_automaton = lambda *a, **k: None
words = iter(['a', 'bb', 'b', 'cex'])
mod.input = lambda *a: next(words)
o = mod.UserInputEqOracle(['a', 'b'], AutomatonSUL(one([0, 1])))
cex = o.find_cex(one([0, 0]))
if list(cex) != ['a', 'b']:
    print('entered a, b; returned', cex)
    sys.exit(1)
'''
