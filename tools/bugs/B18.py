PROPERTY = 'C12'
NEEDS = 'StatePrefixEqOracle with two states of the same depth to cover, string inputs, two processes'
BREAKS = 'states of the same depth are covered in an order that depends on the string hashing of the process'
EDITS = [('aalpy/oracles/StatePrefixEqOracle.py',
"""            states_to_cover.sort(key=lambda x: len(x.prefix), reverse=True)
""",
"""            states_to_cover.sort(key=lambda x: (len(x.prefix), hash(x.prefix)), reverse=True)
""")]
DEMO = '''
import subprocess
src = """
import os, sys
sys.path.insert(0, os.getcwd())
import random
from aalpy.SULs import AutomatonSUL
from aalpy.learning_algs import run_Lstar
from aalpy.oracles import StatePrefixEqOracle
from aalpy.utils import generate_random_deterministic_automata
random.seed(4)
m = generate_random_deterministic_automata('moore', 12, 3, 3)
al = m.get_input_alphabet()
log = []
class S(AutomatonSUL):
    def step(self, i):
        log.append(i)
        return super().step(i)
s = S(m)
run_Lstar(al, s, StatePrefixEqOracle(al, s, walks_per_state=4, walk_len=5), 'moore', print_level=0)
print(log)
"""
outs = set()
for h in '1', '2', '3', '4':
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', src], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=h), cwd=os.getcwd())
    assert p.returncode == 0, p.stderr
    outs.add(p.stdout)
assert len(outs) == 1
'''
