PROPERTY = 'C19'
NEEDS = 'a merge that creates a loop on one state and observations that run through the loop more than once after the merge'
BREAKS = 'observations below a self-loop are dropped, so the probabilities are not the logged frequencies'
EDITS = [('aalpy/learning_algs/stochastic_passive/Alergia.py',
"""            if i in red.children:
                red.input_frequency[i] += blue.input_frequency[i]
                self.fold(red.children[i], blue_child)
""",
"""            if i in red.children:
                red.input_frequency[i] += blue.input_frequency[i]
                # nothing new below a loop
                if red.children[i] is not red:
                    self.fold(red.children[i], blue_child)
""")]
DEMO = '''
import random
from collections import Counter
from aalpy.learning_algs import run_Alergia

for seed in range(40):
    r = random.Random(seed)
    data = []
    for _ in range(60):
        st, t = 0, ['A']
        for _ in range(r.randint(1, 8)):
            i = r.choice('xy')
            if r.random() < (0.5 if i == 'x' else 0.2): st = 1 - st
            t.append((i, 'AB'[st]))
        data.append(t)
    m = run_Alergia([list(t) for t in data], 'mdp')
    # replay the log on the model and count
    n = Counter()
    for t in data:
        s = m.initial_state
        for i, o in t[1:]:
            nxt = [x for x, p in s.transitions[i] if x.output == o]
            n[(s.state_id, i)] += 1; n[(s.state_id, i, o)] += 1
            s = nxt[0]
    for s in m.states:
        for i, ts in s.transitions.items():
            for x, p in ts:
                if n[(s.state_id, i)] and abs(p - n[(s.state_id, i, x.output)] / n[(s.state_id, i)]) > 1e-9:
                    print('seed', seed, s.state_id, i, x.output, p, n[(s.state_id, i, x.output)], n[(s.state_id, i)]); sys.exit(1)
'''
