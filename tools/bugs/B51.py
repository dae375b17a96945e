PROPERTY = 'C26'
NEEDS = 'an initial state that is reached with several outputs, or with none'
BREAKS = 'the converted MDP starts with transitions whose probabilities do not sum to one'
EDITS = [('aalpy/automata/StochasticMealyMachine.py', '                    mdp_state.transitions[i].append((target_mdp_state, prob))\n                if s == smm.initial_state:\n                    init_state.transitions[i].append((target_mdp_state, prob))', '                    mdp_state.transitions[i].append((target_mdp_state, prob))\n                    if s == smm.initial_state:\n                        init_state.transitions[i].append((target_mdp_state, prob))')]
DEMO = "\nfrom aalpy.automata import StochasticMealyMachine, StochasticMealyState\ns, t = StochasticMealyState('s'), StochasticMealyState('t')\ns.transitions['a'] = [(s, 'x', 0.5), (t, 'y', 0.5)]\nt.transitions['a'] = [(s, 'x', 0.25), (s, 'y', 0.75)]\nm = StochasticMealyMachine(s, [s, t]).to_mdp()\nfor q in m.states:\n    p = sum(p for _, p in q.transitions['a'])\n    assert abs(p - 1) < 1e-9, (q.state_id, p)\n"
