PROPERTY = 'C18'
NEEDS = 'a log of a Moore machine or DFA that does not contain the verdicts of all prefixes, with merges of states whose verdict is unknown so far'
BREAKS = 'a merged state keeps its unknown output although the merge made it known, so contradicting merges follow or verdicts get lost'
EDITS = [('aalpy/learning_algs/general_passive/GeneralizedStateMerging.py',
"""                            if self.output_behavior == "moore" or succ_part.predecessor is red:
                                succ_part.resolve_unknown_prefix_output(out_sym)
""",
"""                            if succ_part.predecessor is red:
                                succ_part.resolve_unknown_prefix_output(out_sym)
""")]
DEMO = '''
import random
from aalpy.learning_algs import run_RPNI, run_EDSM
for seed in range(3000):
    r = random.Random(seed)
    n = r.randint(2, 5)
    d = [{a: r.randrange(n) for a in 'ab'} for _ in range(n)]
    out = [r.randrange(2) for _ in range(n)]
    log = {}
    for _ in range(r.randint(5, 20)):
        w = tuple(r.choice('ab') for _ in range(r.randint(0, 6)))
        s = 0
        for a in w: s = d[s][a]
        log[w] = out[s]
    for alg in ('gsm', 'edsm'):
        data = [(w, o) for w, o in log.items()]
        try:
            m = run_RPNI(data, 'moore', algorithm='gsm', print_info=False) if alg == 'gsm' else run_EDSM(data, 'moore', print_info=False)
        except Exception as e:
            print(seed, alg, repr(e)); sys.exit(1)
        for w, o in log.items():
            m.reset_to_initial()
            s = m.initial_state
            for a in w: s = s.transitions[a]
            if s.output != o:
                print('seed', seed, alg, w, 'logged', o, 'model', s.output); sys.exit(1)
'''
