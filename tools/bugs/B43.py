PROPERTY = 'C23'
NEEDS = 'a distribution with more than one transition, and many steps'
BREAKS = 'the stochastic Mealy machine takes its transitions with the probabilities of other ones'
EDITS = [('aalpy/automata/StochasticMealyMachine.py', '            if prob <= 0:\n', '            if prob <= p:\n')]
DEMO = "\nimport random\nfrom aalpy.automata import StochasticMealyMachine, StochasticMealyState\nrandom.seed(3)\ns = StochasticMealyState('s')\ns.transitions['a'] = [(s, 'rare', 0.1), (s, 'often', 0.9)]\nm = StochasticMealyMachine(s, [s])\nm.reset_to_initial()\nn = sum(m.step('a') == 'rare' for _ in range(2000))\nassert 100 < n < 320, n\n"
