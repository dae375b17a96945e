PROPERTY = 'C21'
NEEDS = 'probabilities that need more than six digits'
BREAKS = 'the model handed to PRISM has rounded probabilities; it is another model, and distributions do not sum up to one'
EDITS = [('aalpy/utils/ModelChecking.py',
"""    return f"{target_prob} : (loc'={target_id})"
""",
"""    return f"{target_prob:.6g} : (loc'={target_id})"
""")]
DEMO = '''
import re
from aalpy.automata import Mdp, MdpState
from aalpy.utils import mdp_2_prism_format
ps = [1 / 3, 1 / 7, 0.5, 0.0000123456789]
a, b = MdpState('q0', 'A'), MdpState('q1', 'B')
for k, p in enumerate(ps):
    a.transitions[f'x{k}'] += [(a, p), (b, 1 - p)]
    b.transitions[f'x{k}'] += [(b, 1.0)]
text = mdp_2_prism_format(Mdp(a, [a, b]), 'm')
for k, p in enumerate(ps):
    row = re.search(r'\\[x%d\\] loc=0 ->(.*?);' % k, text, re.S).group(1)
    got = sorted(float(x) for x in re.findall(r'([0-9.e+-]+) :', row))
    if got != sorted([p, 1 - p]):
        print('probabilities', sorted([p, 1 - p]), 'written as', got); sys.exit(1)
'''
