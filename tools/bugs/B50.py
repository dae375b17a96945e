PROPERTY = 'C26'
NEEDS = 'partial automata, where the second one defines inputs that the first does not'
BREAKS = 'bisimilar reports two automata as equal although one has additional behaviour'
EDITS = [('aalpy/utils/ModelChecking.py', 'for t in it.chain(t1.keys(), filter(lambda x : x not in t1.keys(), t2.keys())):', 'for t in it.chain(t1.keys()):')]
DEMO = "\nfrom aalpy.automata import Dfa, DfaState\nfrom aalpy.utils import bisimilar\ndef make(extra):\n    a, b = DfaState('a', True), DfaState('b', False)\n    a.transitions['x'] = b\n    b.transitions['x'] = a\n    if extra:\n        b.transitions['y'] = b\n    return Dfa(a, [a, b])\nassert bisimilar(make(True), make(True))\nassert not bisimilar(make(True), make(False))\nassert not bisimilar(make(False), make(True))\n"
