PROPERTY = 'C10'
NEEDS = 'the chi squared test with two cells that share no output and have few observations'
BREAKS = 'cells with disjoint outputs are taken as different after a single observation each, states are told apart without evidence'
EDITS = [('aalpy/learning_algs/stochastic/DifferenceChecker.py',
"""            hoeffding_checker = AdvancedHoeffdingChecker()
            return hoeffding_checker.are_cells_different(c1_out_freq, c2_out_freq)""",
"""            return HoeffdingChecker().are_cells_different(c1_out_freq, c2_out_freq)""")]
DEMO = '''
from aalpy.learning_algs.stochastic.DifferenceChecker import ChiSquareChecker
c = ChiSquareChecker()
assert not c.are_cells_different({'a': 1}, {'b': 1})
assert not c.are_cells_different({'a': 2}, {'b': 1})
assert c.are_cells_different({'a': 100}, {'b': 100})
'''
