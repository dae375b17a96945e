PROPERTY = 'C18'
NEEDS = 'a log in which a word with a verdict is a prefix of a longer word whose states get merged'
BREAKS = 'classic RPNI only checks the verdict at the end of each sequence, so merges that contradict verdicts of prefixes are accepted'
EDITS = [('aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py',
"""            # For dfa and moore, check if outputs are the same, iff output in test data is concrete (not None)
            curr_node = curr_node.children[i]
            if o is not None and curr_node.output != o:
                return False
""",
"""            # For dfa and moore, check if outputs are the same, iff output in test data is concrete (not None)
            curr_node = curr_node.children[i]
            if o and curr_node.output != o:
                return False
""")]
DEMO = '''
import random
from aalpy.learning_algs import run_RPNI
for seed in range(2000):
    r = random.Random(seed)
    n = r.randint(2, 5)
    d = [{a: r.randrange(n) for a in 'ab'} for _ in range(n)]
    out = [r.randrange(2) == 0 for _ in range(n)]
    log = {}
    for _ in range(r.randint(5, 30)):
        w = tuple(r.choice('ab') for _ in range(r.randint(0, 6)))
        s = 0
        for a in w: s = d[s][a]
        log[w] = out[s]
    m = run_RPNI([(w, o) for w, o in log.items()], 'dfa', algorithm='classic', print_info=False)
    for w, o in log.items():
        s = m.initial_state
        for a in w: s = s.transitions[a]
        if s.is_accepting != o:
            print('seed', seed, w, 'logged', o, 'model', s.is_accepting); sys.exit(1)
'''
