PROPERTY = 'C25'
NEEDS = 'two transitions of one distribution that lead to different states with the same output'
BREAKS = 'random MDPs are not deterministic: the reached state does not follow from input and output'
EDITS = [('aalpy/utils/AutomatonGenerators.py', 'if new_state.output not in {s.output for s in reached_states}:', 'if new_state not in reached_states:'), ('aalpy/utils/AutomatonGenerators.py', 'reached_outputs = [s.output for s, _ in transition_values]', 'reached_outputs = [s.state_id for s, _ in transition_values]')]
DEMO = '\nimport random\nfrom aalpy.utils import generate_random_mdp\nfor seed in range(30):\n    random.seed(seed)\n    m = generate_random_mdp(8, 2, 3)\n    for s in m.states:\n        for t in s.transitions.values():\n            outs = [x.output for x, _ in t]\n            assert len(outs) == len(set(outs)), (seed, s.state_id, outs)\n'
