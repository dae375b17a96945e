PROPERTY = 'C23'
NEEDS = 'a question about another state (output_step, distinguishing sequence) between two steps of an execution'
BREAKS = 'output_step leaves the model in the state it asked about, so the execution goes on from there'
EDITS = [('aalpy/base/Automaton.py', '        output = self.step(letter)\n        self.current_state = state_save\n        return output\n', '        output = self.step(letter)\n        if state_save is None:\n            self.current_state = state_save\n        return output\n')]
DEMO = "\nfrom aalpy.automata import MealyMachine, MealyState\na, b, c = MealyState('a'), MealyState('b'), MealyState('c')\nfor s, t, o in ((a, b, 1), (b, c, 2), (c, a, 3)):\n    s.transitions['x'] = t; s.output_fun['x'] = o\nm = MealyMachine(a, [a, b, c])\nm.reset_to_initial()\nassert m.step('x') == 1\nassert m.output_step(c, 'x') == 3\nassert m.step('x') == 2, 'the question moved the execution'\n"
