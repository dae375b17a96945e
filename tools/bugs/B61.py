PROPERTY = 'C27'
NEEDS = 'hoeffding_compatibility on the counts of the hypothesis (compare_original=False) and states whose counts grew by merges'
BREAKS = 'the confidence bound is taken from the number of original records instead of the number of records merged into the state'
EDITS = [('aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py', """            if a_total == 0 or b_total == 0:
                continue  # parameter combinations require this check
            threshold = eps_fact * (sqrt(1 / a_total) + sqrt(1 / b_total))
""", """            if a_total == 0 or b_total == 0:
                continue  # parameter combinations require this check
            a_size, b_size = (sum(x.original_count for x in trans.values()) or total
                              for trans, total in ((a_trans, a_total), (b_trans, b_total)))
            threshold = eps_fact * (sqrt(1 / a_size) + sqrt(1 / b_size))
""")]
DEMO = '''
from aalpy.learning_algs.general_passive.GsmNode import GsmNode, TransitionInfo
from aalpy.learning_algs.general_passive.ScoreFunctionsGSM import hoeffding_compatibility
from math import sqrt, log
def node(counts, originals):
    n = GsmNode((None, None))
    for o in counts:
        n.transitions['a'][o] = TransitionInfo(GsmNode(('a', o), n), counts[o], None, originals.get(o, 0))
    return n
for eps in (0.05, 0.5):
    for big in (1, 10, 100, 1000):
        a = node({'x': big, 'y': big}, {'x': 1, 'y': 1})
        b = node({'x': 9 * big, 'y': big}, {'x': 2})
        want = abs(0.5 - 0.9) <= sqrt(0.5 * log(2 / eps)) * (sqrt(1 / (2 * big)) + sqrt(1 / (10 * big)))
        if hoeffding_compatibility(eps, False)(a, b) is not want:
            print(eps, big, 'should be', want)
            sys.exit(1)
'''
