PROPERTY = 'C12'
NEEDS = 'a non-deterministic system, string outputs, two processes'
BREAKS = 'rows are closed in an order that depends on string hashing, so queries and state order differ between processes'
EDITS = [('aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py',
"""                for t in trace:
""",
"""                for t in set(trace):
""")]
DEMO = '''
import subprocess
src = """
import os, sys
sys.path.insert(0, os.getcwd())
import random
from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_non_det_Lstar
class Sys(SUL):
    def pre(self): self.s = '-'
    def post(self): pass
    def step(self, i):
        o = random.choice('xyz') if self.s == '-' else self.s + self.s
        self.s = o[0]
        return o
class Nothing(Oracle):
    def find_cex(self, h): return None
random.seed(4)
s = Sys()
m, info = run_non_det_Lstar(['a', 'b'], s, Nothing(['a', 'b'], s), n_sampling=12, return_data=True, print_level=0)
print([st.prefix for st in m.states], info['queries_learning'])
"""
outs = set()
for h in '1', '2', '3', '4', '5':
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', src], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=h), cwd=os.getcwd())
    assert p.returncode == 0, p.stderr
    outs.add(p.stdout)
assert len(outs) == 1, outs
'''
