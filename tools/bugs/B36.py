PROPERTY = 'C21'
NEEDS = 'a property whose error exceeds the bound by less than half a percent'
BREAKS = 'errors are rounded to percents before they are compared with the bound, so stochastic L* stops although a property is out of bound'
EDITS = [('aalpy/utils/ModelChecking.py',
"""    for d in diff.values():
        if d > error_bound:
            return False
""",
"""    for d in diff.values():
        if round(d, 2) > error_bound:
            return False
""")]
DEMO = '''
import tempfile
import aalpy.utils.ModelChecking as mc
from aalpy.automata import Mdp, MdpState
s = MdpState('q0', 'A'); s.transitions['x'].append((s, 1.0))
m = Mdp(s, [s])
values = {}
mc.model_check_properties = lambda model, p: dict(values)
for v, bound, want in ((0.5, 0.05, True), (0.54, 0.05, True), (0.5532, 0.05, False), (0.5541, 0.05, False), (0.57, 0.05, False), (0.5149, 0.01, False)):
    values['prop1'] = v
    if mc.stop_based_on_confidence(m, ('p', [0.5], bound), 0) != want:
        print('value', v, 'bound', bound, 'want', want); sys.exit(1)
'''
