MORE = {
    'non-deterministic L* checks closedness': ('C09', 'KeyError in run_non_det_Lstar: cleaning the table after the closedness check left it unclosed'),
}
MORE['KWayTransitionCoverageEqOracle covers'] = ('C08', 'KWayTransition oracle never returned for hypotheses with states that are not reached by their access sequence')
MORE['Sevpa.get_error_state only'] = ('C15', 'learned 1-SEVPA lost states: any state whose transitions all lead to one common state was deleted as error state')
MORE['KV for visibly pushdown'] = ('C15', 'KV(vpa) looped or failed with AssertionError: a state once believed to be an error state was never again treated as pushed state')
MORE['return transitions of loaded 1-SEVPAs'] = ('C11', 'a saved and loaded 1-SEVPA rejected every word with return letters')
MORE['load_automaton_from_file computes'] = ('C11', 'compute_prefixes=True computed no prefixes (and crashed for mc/sevpa/vpa)')
MORE['load_automaton_from_file rejects'] = ('C11', 'a model file cut off in its last line was loaded with another initial state')
MORE['get_same_state_transitions returns'] = ('C12', 'TransitionFocusOracle chose other inputs for the same seed in another process (set order)')
MORE['characterization set is computed'] = ('C12', 'W, RandomW and L# with the same seed ran other tests in another process (set order)')
MORE['Wp-method executes its test suite'] = ('C12', 'Wp-method with the same seed ran tests in another order in another process (set order)')
MORE['L# keeps basis candidates'] = ('C12', 'L# asked other queries after another learning run in the same process (set of nodes ordered by a process-wide counter)')
MORE['stochastic L* does not stop with'] = ('C10', 'classic stochastic L* returned the hypothesis for which the oracle had just found a counterexample, before min_rounds')
MORE['total state matching of adaptive'] = ('C14', 'AttributeError in adaptive L# with total state matching and Moore machines')
MORE['adaptive L# skips references'] = ('C14', 'IndexError in adaptive L# for a reference without common inputs; the user\'s list of references was modified')
MORE['L# and adaptive L# perform'] = ('C17', 'L# and adaptive L# stopped one round early; max_learning_rounds=1 raised AttributeError')
MORE['non-deterministic L* performs at most'] = ('C17', 'non-deterministic L* asked max_learning_rounds + 1 equivalence queries')
MORE['non-deterministic L* adds probabilities'] = ('C17', 'KeyError in run_non_det_Lstar(stochastic=True) if the last equivalence query observed new traces')
MORE['KWayStateCoverageEqOracle counts'] = ('C16', 'KWayState oracle did not count its tests for one-state hypotheses (queries_eq_oracle too small)')
MORE['ProvidedSequencesOracleWrapper counts'] = ('C16', 'queries and steps of the wrapped oracle were not counted when it found a counterexample')
MORE['stochastic L* subtracts'] = ('C16', 'steps_learning of run_stochastic_Lstar included the steps of the oracle')
MORE['classic RPNI learns Mealy'] = ('C18', 'classic RPNI crashed (ValueError, TypeError) or merged nothing for every Mealy log')
MORE['classic RPNI keeps the label'] = ('C18', 'classic RPNI lost the label of the empty sequence: the model contradicted the log for ()')
MORE['GSM rejects contradicting'] = ('C18', 'run_RPNI(gsm) returned a model for data with two labels for the empty sequence')
MORE['run_EDSM returns None'] = ('C18', 'ValueError in run_EDSM for non-deterministic data instead of returning None')
MORE['run_PAPNI returns None'] = ('C18', 'AttributeError in run_PAPNI for non-deterministic data instead of returning None')
MORE['automatic epsilon of Alergia'] = ('C19', 'run_Alergia(eps="auto") raised ValueError/ZeroDivisionError for logs with fewer than five steps')
MORE['run_Alergia_EDSM learns Markov'] = ('C19', 'run_Alergia_EDSM("mc") raised ValueError for logs without steps')
MORE['samples of active Alergia'] = ('C20', 'active Alergia recorded the first input\'s output as initial output and paired inputs with the outputs of the next input')
MORE['active Alergia learns the requested'] = ('C20', 'run_active_Alergia ignored automaton_type: MDPs were learned for stochastic Mealy machines (AssertionError)')
MORE['active RPNI returns None'] = ('C20', 'AttributeError in run_active_RPNI for non-deterministic data')
MORE['active RPNI samples in'] = ('C12', 'active RPNI sampled other words for the same seed in another process (set order)')
MORE['results of Prism in scientific'] = ('C21', 'Prism result 1.0E-5 was read as 1.0')
MORE['model file written for Prism'] = ('C21', 'mc_exp.prism was left behind when the model checker could not be started')
MORE['results of Prism are assigned'] = ('C21', 'results after a failed property were attributed to the wrong properties and compared with the wrong correct values')
MORE['stochastic L* does not stop based'] = ('C21', 'stochastic L* stopped although Prism had reported only some of the properties')
MORE['max_rounds limits stochastic'] = ('C21', 'stochastic L* with property_based_stopping ignored max_rounds')
MORE['input file written for JAlergia'] = ('C21', 'jAlergiaInputs.txt was left behind when JAlergia failed')
MORE['total_time of L#'] = ('C16', 'total_time of L# and adaptive L# left out the queries of the initial observation tree')
MORE['copy() and pickling of a SEVPA'] = ('C23', "Sevpa.copy() and pickle.dumps/loads of a SEVPA raised KeyError 'init_state_id'")
MORE['to_state_setup of NDMooreMachine'] = ('C23', 'NDMooreMachine.copy() and pickling raised AttributeError, to_state_setup returned None')
MORE['to_state_setup of a VPA'] = ('C23', "Vpa.copy() and pickling raised AttributeError: 'list' object has no attribute 'target_state'")
MORE['execute_sequence of a VPA'] = ('C23', 'Vpa.execute_sequence(initial_state, word) answered by the stack that an earlier execution left')
MORE['executing an input that a state does not define'] = ('C23', 'a refused input was added to the transitions: get_input_alphabet and is_input_complete changed')
MORE['get_transition of OnfsmState'] = ('C23', "OnfsmState.get_transition(input, 0) returned the list of all transitions instead of the one with output 0")
MORE['FunctionDecorator dropped'] = ('C24', 'FunctionDecorator(f, 0) called f() instead of f(0); so for False, 0.0 and the empty string')
MORE['RegexSUL accepted'] = ('C24', "RegexSUL('a|b') accepted 'ab', RegexSUL('a') accepted 'a\\n', RegexSUL('') raised IndexError")
MORE['TomitaSUL answered'] = ('C24', "TomitaSUL(2).query(()) answered False, it was asked about the word 'None'")
MORE['sink state that make_input_complete'] = ('C23', "make_input_complete(NDMooreMachine, 'sink_state') added a sink with the output None instead of 'sink_state'")
MORE['order of the words returned by get_accepting'] = ('C25', 'Sevpa.get_accepting_words_bfs returned words of equal length in the order of their hashes')
MORE['generate_random_sevpa'] = ('C25', 'generate_random_sevpa(1, 2, 1, 1, 0.5, 0.5) returned a model without some of the requested internal letters')
MORE['IODelimiterTokenizer'] = ('C25', "IODelimiterTokenizer read the line '0,a/0' as ['0', ('a', 0)]: the initial output is never equal to other outputs")
MORE['generate_random_deterministic_automata never'] = ('C25', 'generate_random_dfa(3, ["a"], 0) and other requests without minimal model did not terminate instead of warning')
MORE['generate_random_smm'] = ('C25', 'generate_random_smm returned machines with two transitions for the same state, input and output')
MORE['get_complete_sample'] = ('C25', 'get_complete_sample of a Mealy machine with a single state was the empty list')
MORE['compute_characterization_set extended'] = ('C26', 'compute_characterization_set(char_set_init=mine) appended the separating sequences to mine')
MORE['characterization sets of a Dfa'] = ('C26', 'compute_characterization_set(char_set_init=[("a",)]) of a minimal Dfa returned None')
MORE['minimize removed'] = ('C26', 'minimize() removed the initial state if it is equivalent to an earlier state of the list')
MORE['compare_automata did not'] = ('C26', 'compare_automata of two Dfas with one input and few differences never returned')
MORE['generate_test_cases dropped'] = ('C26', 'generate_test_cases returned one test case less than the oracle ran')
MORE['converting a StochasticMealyMachine'] = ('C26', 'to_mdp() of a partial StochasticMealyMachine added undefined inputs to its states')
MORE['mc_from_mdp ignored'] = ('C26', 'mc_from_mdp(mdp, 0) converted the transitions of the first input of the mdp instead of those of the input 0')
MORE['transform_score of a ScoreCalculation'] = ('C27', 'lower_threshold(ScoreCalculation, limit) raised RecursionError as soon as a merge was scored')
MORE['KWayTransitionCoverageEqOracle keeps'] = ('C08', 'KWayTransitionCoverageEqOracle(max_number_of_steps=n) executed more than n steps; with the method prefix the limit was ignored')
MORE['abstracted ONFSM learner removes'] = ('C28', 'run_abstracted_ONFSM_Lstar raised ValueError (list.remove) as soon as two rows of S became equal')
MORE['abstracted ONFSM learner samples'] = ('C28', 'run_abstracted_ONFSM_Lstar raised KeyError if an output was first observed while other rows were sampled')
MORE['abstracted ONFSM learner finds'] = ('C28', 'run_abstracted_ONFSM_Lstar asked equivalence queries for the same hypothesis forever: rows of extensions were never compared (nested tuples)')
MORE['abstracted ONFSM learner does not depend'] = ('C12', 'run_abstracted_ONFSM_Lstar with the same seed and answers learned other models in processes with another string hash seed: rows and outputs were kept in sets')
MORE['stack symbols that are integers'] = ('C11', 'a saved 1-SEVPA with integer call letters was loaded as another machine (return transitions became internal ones); VPAs with letters containing push or pop could not be loaded (AttributeError)')
MORE['symbols of loaded MDPs and SMMs'] = ('C11', 'saved MDPs with inputs and SMMs with outputs containing a colon could not be loaded (ValueError)')
