PROPERTY = 'C26'
NEEDS = 'the tree based strategy (split_all_blocks=False) with states that are only told apart by sequences of length two or more'
BREAKS = 'the characterization set is not closed under suffixes although that was asked for'
EDITS = [('aalpy/base/Automaton.py', '                new_blocks = [block_to_split]\n                for seq in dist_seq_closure:', '                new_blocks = [block_to_split]\n                for seq in dist_seq_closure[-1:]:')]
DEMO = "\nimport random\nfrom aalpy.utils import generate_random_mealy_machine\nfor seed in range(300):\n    random.seed(seed)\n    m = generate_random_mealy_machine(6, ['a', 'b'], [0, 1])\n    if not m.is_minimal():\n        continue\n    E = m.compute_characterization_set(split_all_blocks=False)\n    for e in E:\n        for i in range(len(e)):\n            assert e[i:] in E, (seed, e, E)\n"
