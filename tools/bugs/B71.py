PROPERTY = 'C11'
NEEDS = 'a Mealy machine with outputs that contain a slash, saved and loaded'
BREAKS = 'labels are split at the last slash: the loaded machine has other inputs and outputs'
EDITS = [('aalpy/utils/FileHandler.py', """    if automaton_type == 'mealy':
        inp, out = label.split('/', maxsplit=1)
""", """    if automaton_type == 'mealy':
        inp, out = label.rsplit('/', maxsplit=1)
""")]
DEMO = '''
import os, tempfile
from aalpy.automata import MealyMachine, MealyState
from aalpy.utils import save_automaton_to_file, load_automaton_from_file
a, b = MealyState('a'), MealyState('b')
for s, t, o in ((a, b, 'on/off'), (b, a, 'off')):
    for i in 'xy':
        s.transitions[i], s.output_fun[i] = t, o
m = MealyMachine(a, [a, b])
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'm')
    save_automaton_to_file(m, p)
    n = load_automaton_from_file(p + '.dot', 'mealy')
if sorted(n.get_input_alphabet()) != ['x', 'y'] or [n.step(i) for i in 'xyx'] != ['on/off', 'off', 'on/off']:
    print('loaded machine has inputs', n.get_input_alphabet())
    sys.exit(1)
'''
