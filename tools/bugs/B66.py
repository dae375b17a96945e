PROPERTY = 'C18'
NEEDS = 'run_k_tails on traces that differ exactly at the depth k'
BREAKS = 'tails are compared one step deeper than k'
EDITS = [('aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py', """        if self.k <= depth:
            return True
""", """        if self.k < depth:
            return True
""")]
DEMO = '''
from aalpy.learning_algs import run_k_tails
data = [[('a', 0), ('a', 1), ('a', 0)], [('a', 0)]]
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    sizes = [run_k_tails([list(d) for d in data], 'mealy', k, print_info=False).size for k in range(4)]
print(sizes)
if sizes[0] != 1:
    sys.exit(1)
'''
