PROPERTY = 'C11'
NEEDS = 'a file that is loaded, overwritten by another model of the same size and loaded again'
BREAKS = 'the text of a loaded file is remembered by its path, so the model saved later is not seen'
EDITS = [('aalpy/utils/FileHandler.py',
"""        lines = f.readlines()
""",
"""        lines = f.readlines()
        # model files are parsed often during experiments
        lines = _loaded_files.setdefault((str(path), automaton_type, sum(map(len, lines))), lines)
"""), ('aalpy/utils/FileHandler.py',
"""starting_state_pattern = r'""",
"""_loaded_files = dict()
starting_state_pattern = r'"""), ('aalpy/utils/FileHandler.py',
"""    id_node_aut_map = {'dfa': (DfaState, Dfa), 'mealy': (MealyState, MealyMachine), 'moore': (MooreState, MooreMachine),
""",
"""    id_node_aut_map = {'moore': (MooreState, MooreMachine), 'mealy': (MealyState, MealyMachine), 'dfa': (DfaState, Dfa),
""")]
DEMO = '''
import tempfile, shutil
from aalpy.automata import Dfa, DfaState
from aalpy.utils import save_automaton_to_file, load_automaton_from_file
def one(flip):
    s, t = DfaState('q0', flip), DfaState('q1', not flip)
    s.transitions['a'] = t; t.transitions['a'] = s
    return Dfa(s, [s, t])
d = tempfile.mkdtemp()
try:
    save_automaton_to_file(one(True), d + '/m')
    assert load_automaton_from_file(d + '/m.dot', 'dfa').initial_state.is_accepting
    save_automaton_to_file(one(False), d + '/m')
    assert not load_automaton_from_file(d + '/m.dot', 'dfa').initial_state.is_accepting
finally:
    shutil.rmtree(d)
'''
