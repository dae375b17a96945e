PROPERTY = 'C10'
NEEDS = 'a custom stopping_range_dict (or strict/relaxed) whose window is filled exactly when learning could stop'
BREAKS = 'stopping on stable unambiguity considers one value more than requested, so learning goes on although the criterion holds'
EDITS = [('aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py', """                if len(self.unambiguity_values) < num_last:
                    continue
                last_n_unamb = self.unambiguity_values[-num_last:]
""", """                if len(self.unambiguity_values) <= num_last:
                    continue
                last_n_unamb = self.unambiguity_values[-num_last - 1:]
""")]
DEMO = '''
import random
from aalpy.base import SUL, Oracle
from aalpy.learning_algs import run_stochastic_Lstar
class S(SUL):
    def pre(self): pass
    def post(self): pass
    def step(self, a): return 'o'
class E(Oracle):
    def find_cex(self, h): return None
for k in (1, 2, 4):
    sul = S()
    _, info = run_stochastic_Lstar(['a'], sul, E(['a'], sul), automaton_type='mdp', min_rounds=1, max_rounds=30, target_unambiguity=2,
                                   stopping_range_dict={k: 0.001}, custom_oracle=True, return_data=True, print_level=0)
    if info['learning_rounds'] != k:
        print(info['learning_rounds'], 'rounds, the unambiguity was stable after', k)
        sys.exit(1)
'''
