PROPERTY = 'C11'
NEEDS = 'a probability with more than six significant digits in a Markov chain'
BREAKS = 'saved Markov chains load back with shortened probabilities'
EDITS = [('aalpy/utils/FileHandler.py',
"""            graph.add_edge(Edge(state.state_id, new_state.state_id, label=f'{prob}'))
""",
"""            graph.add_edge(Edge(state.state_id, new_state.state_id, label=f'{prob:g}'))
""")]
DEMO = '''
import tempfile, shutil
from aalpy.automata import MarkovChain, McState
from aalpy.utils import save_automaton_to_file, load_automaton_from_file
d = tempfile.mkdtemp()
try:
    a, b = McState('q0', 'x'), McState('q1', 'y')
    a.transitions = [(a, 1 / 3), (b, 2 / 3)]
    b.transitions = [(a, 1.0)]
    save_automaton_to_file(MarkovChain(a, [a, b]), d + '/m')
    m = load_automaton_from_file(d + '/m.dot', 'mc')
    assert sorted(p for _, p in m.initial_state.transitions) == [1 / 3, 2 / 3], m.initial_state.transitions
finally:
    shutil.rmtree(d)
'''
