"""What each check is about: the single source of properties.jsonl, MANIFEST.json and the evidence headers.

tools/gen_meta.py writes the two committed files from here.
"""

LEARNERS = 'aalpy.learning_algs.deterministic (L*, KV, L#), their data structures and counterexample processing'
BASE = 'aalpy.base (SUL, CacheSUL, CacheTree, CacheDict, Oracle)'
AUTO = 'aalpy.automata and aalpy.base.Automaton'
ORAC = 'aalpy.oracles (all shipped equivalence oracles)'
SYS = 'the system under learning (simulated machine behind the SUL interface)'
TEACH = 'the equivalence teacher (simulated, exact, free choice of counterexample)'
CLOCK = 'wall clock and sleep (simulated time)'
RNG = 'the random module (seeded from the run seed), hash randomisation (PYTHONHASHSEED per batch)'
DET = 'the simulated system is deterministic and resettable'
NOTNONE = 'outputs of the system are never None'

P = {}

P['C01'] = dict(
    title='Active learning of deterministic systems is exact and terminates',
    statement='For every resettable deterministic system and every teacher that only returns genuine counterexamples, learning with L*, '
              'KV or L# in any configuration finishes with the minimal automaton of the requested type that is equivalent to the system, '
              'once the teacher accepts. Every refuted hypothesis is followed by one with more states and none has more states than the '
              'system, so at most as many equivalence queries are asked as the system has states. All hypotheses are complete machines '
              'over the given input alphabet. '
              'The alphabet and the samples handed to a learner are left as they were.',
    over=['schedules', 'inputs', 'configurations'],
    qtext='all systems (dfa/moore/mealy), learner configurations, pre-supplied samples, cache on/off, and all sequences of valid '
          'counterexamples a teacher can choose',
    why='Tests learn a few fixed machines with one random oracle; the guarantee quantifies over the teacher\'s choice of counterexample in '
        'every round and all configuration combinations.',
    files=['aalpy/learning_algs/deterministic/LStar.py', 'aalpy/learning_algs/deterministic/KV.py',
           'aalpy/learning_algs/deterministic/LSharp.py'],
    mech=[('observation table closing/consistency', 'aalpy/learning_algs/deterministic/ObservationTable.py'),
          ('classification tree', 'aalpy/learning_algs/deterministic/ClassificationTree.py'),
          ('observation tree, apartness, ADS', 'aalpy/learning_algs/deterministic/ObservationTree.py'),
          ('counterexample processing', 'aalpy/learning_algs/deterministic/CounterExampleProcessing.py')],
    observe=['return value of run_Lstar/run_KV/run_Lsharp', 'hypotheses given to Oracle.find_cex'],
    rule='one run = one seed-drawn minimal system (dfa/moore/mealy, 1-12 states, 1-4 inputs), one learner configuration, optional recorded '
         'samples and one schedule of counterexamples; non-trivial: at least one hypothesis was refuted',
    assume=[DET, NOTNONE, 'the teacher only returns counterexamples that end at the first difference'],
    real=[LEARNERS, BASE, AUTO], stub=[SYS, TEACH, CLOCK, RNG],
    how='learners run against a simulated system and an exact teacher whose choice among all valid counterexamples (short, long, wandering) '
        'is a scheduler decision; the model is compared with the reference by product construction')

P['C02'] = dict(
    title='The cache is transparent and never re-asks the system for known words',
    statement='Every answer obtained through the caching wrapper (membership query or stepwise session) equals what the system itself '
              'answers, for any interleaving of queries, sessions, abandoned sessions, imported traces and failures of the system. A '
              'membership query whose outputs were already observed, imported or supplied as samples is never executed on the system, and '
              'the cached/executed query and step counters equal what happened, also in the statistics of learning. This holds for both cache types.',
    over=['histories', 'fault_sequences', 'inputs', 'configurations'],
    qtext='all histories of client operations on the wrapper with system failures at arbitrary calls, and all learning runs with cache',
    why='Tests only see final models; a cache that forgets, mixes or invents traces after abandoned sessions or failures goes unnoticed.',
    files=['aalpy/base/SUL.py', 'aalpy/base/CacheTree.py'],
    mech=[('CacheSUL query/step bookkeeping', 'aalpy/base/SUL.py'), ('CacheTree / CacheDict storage', 'aalpy/base/CacheTree.py')],
    observe=['SUL.query/pre/step/post of the wrapper and of the wrapped system', 'num_queries, num_cached_queries, num_steps'],
    rule='one run = one history of client operations (or one learning run) over one seed-drawn system; non-trivial: at least one query was '
         'answered from the cache',
    assume=[DET, NOTNONE], real=[BASE, LEARNERS, ORAC, AUTO], stub=[SYS, TEACH, CLOCK, RNG],
    how='a free client interleaves queries, sessions, abandonments, imports and injected connection failures; every answer and counter is '
        'compared with a model of what was delivered')

P['C03'] = dict(
    title='Non-determinism is reported exactly when an observation contradicts another',
    statement='While the cache is enabled, a learning run or any client of the caching wrapper is stopped with the documented '
              'non-determinism report at the first observation (or supplied sample) that contradicts an earlier one, before another session '
              'is started; the report names the sequence and both outputs. It is never reported when all observations are consistent.',
    over=['fault_sequences', 'histories', 'schedules'],
    qtext='all systems whose behaviour glitches, changes or stops resetting at any time, all client and learning histories',
    why='A test needs a system that misbehaves at a chosen moment; the report must come for every moment and every observation path '
        '(query, session, import).',
    files=['aalpy/base/SUL.py', 'aalpy/base/CacheTree.py'],
    mech=[('comparison of new with stored outputs', 'aalpy/base/CacheTree.py'), ('step-wise recording', 'aalpy/base/SUL.py')],
    observe=['SystemExit raised through the public call', 'next pre() on the system'],
    rule='one run = one system with one misbehaviour plan (glitch, replaced system, broken reset, wrong sample, none); non-trivial: a '
         'contradiction was observed and reported',
    assume=[NOTNONE, 'non-determinism is reported with SystemExit as documented'], real=[BASE, LEARNERS, ORAC, AUTO],
    stub=[SYS + ' with misbehaviour plans', CLOCK, RNG],
    how='the simulated system keeps its own log of first observations, flags the first contradiction and forbids any further session')

P['C04'] = dict(
    title='Failures of the system surface unchanged and learning can be repeated exactly',
    statement='An exception raised by the system in any of its operations reaches the caller of the learning function as that same '
              'exception, without further use of the system, and no result is returned. The caller\'s own caching wrapper still answers only '
              'what the system really answered, and a repeated learning attempt with the same objects after any number of failures yields the '
              'same exact result as without failures.',
    over=['crash_points', 'fault_sequences', 'configurations'],
    qtext='all points (any pre/step/post, before or after the effect) and kinds of system failure, over repeated attempts',
    why='No existing test lets the system fail; crash points are unbounded in number.',
    files=['aalpy/base/SUL.py', 'aalpy/base/CacheTree.py', 'aalpy/base/Oracle.py'],
    mech=[('cache insertion order', 'aalpy/base/CacheTree.py'), ('oracle state kept between queries', 'aalpy/oracles')],
    observe=['exception seen by the caller', 'cache content', 'result of the next attempt'],
    rule='one run = up to 4 failing attempts (connection error, timeout, driver bug, interrupt, StopIteration; lost or refused step) and a '
         'final one; non-trivial: at least one attempt failed',
    assume=[DET, NOTNONE], real=[BASE, LEARNERS, ORAC, AUTO], stub=[SYS + ' with failures', TEACH, CLOCK, RNG],
    how='failures are injected at seed-chosen calls; the exception object, the cache and later attempts are checked')

P['C05'] = dict(
    title='Every input is executed inside a session and sessions never overlap',
    statement='In every learning run (deterministic, non-deterministic, stochastic, visibly pushdown) with any shipped equivalence oracle, '
              'the system sees a strict session protocol: every input is executed after the set-up operation of its session and before its '
              'tear-down operation. No set-up operation is invoked while the previous session has not been torn down.',
    over=['histories', 'schedules', 'configurations'],
    qtext='all learners, oracles, parameters and systems',
    why='Test systems ignore the protocol, real adapters (sockets, devices) break; it must hold in every round of every run.',
    files=['aalpy/base/SUL.py', 'aalpy/base/Oracle.py'],
    mech=[('query template', 'aalpy/base/SUL.py'), ('reset_hyp_and_sul', 'aalpy/base/Oracle.py'), ('session handling of oracles', 'aalpy/oracles')],
    observe=['pre/step/post on the system'],
    rule='one run = one learning run with one learner, oracle and parameter draw; non-trivial: more than 20 inputs executed',
    assume=[DET + ' (or drawn by the scheduler for the non-deterministic and stochastic learners)', NOTNONE],
    real=[BASE, LEARNERS, ORAC, AUTO, 'aalpy.learning_algs.non_deterministic, aalpy.learning_algs.stochastic'],
    stub=[SYS, TEACH, CLOCK, RNG],
    how='the simulated system is a protocol automaton that objects to overlapping sessions and inputs outside sessions')

P['C06'] = dict(
    title='Every counterexample returned by an oracle is real',
    statement='Whatever a shipped equivalence oracle returns is either nothing or a non-empty sequence of inputs after whose last input the '
              'system and the given hypothesis, both started from reset, produce different outputs. This holds in every round of a learning '
              'run and for arbitrary sequences of hypotheses, also after earlier searches were aborted by a failing system. A test that shows a '
              'difference ends the search and is returned (StatePrefix and CacheBased do not compare outputs on the way to where their walks begin). '
              'The search leaves the hypothesis as it was. '
              'The alphabet shared with the learner is left as it was, too.',
    over=['histories', 'fault_sequences', 'configurations'],
    qtext='all oracles, parameters, hypothesis sequences and failures in between',
    why='Tests do not inspect counterexamples; a bogus one only shows up as wasted queries or non-termination for particular histories.',
    files=['aalpy/oracles', 'aalpy/base/Oracle.py'],
    mech=[('stepwise comparison', 'aalpy/oracles'), ('reset_hyp_and_sul', 'aalpy/base/Oracle.py')],
    observe=['return value of find_cex', 'tests that reached the system'],
    rule='one run = one learning run or one sequence of wrong hypotheses with one oracle; non-trivial: a counterexample was returned',
    assume=[DET, NOTNONE], real=[ORAC, BASE, LEARNERS, AUTO], stub=[SYS, CLOCK, RNG],
    how='each answer is replayed on the reference machine and on the hypothesis; the hypothesis (states, transitions, outputs) is compared before and after the search')

P['C07'] = dict(
    title='W-method, Wp-method and exhaustive exploration keep their coverage guarantee',
    statement='If the bound given to the W-method or Wp-method oracle is at least the number of states of the system, an accepted hypothesis '
              'is equivalent to the system; if the breadth-first exploration oracle of depth d accepts, no input sequence of length at most d '
              'distinguishes the two. This holds in every round of a learning run and when one oracle object is used for any sequence of '
              'hypotheses, minimal or not.',
    over=['histories', 'inputs', 'configurations'],
    qtext='all systems within the bound, all hypothesis sequences produced by all learners or supplied by a client',
    why='Tests check one final model; a missing test case matters only for particular pairs of hypothesis and system.',
    files=['aalpy/oracles/WMethodEqOracle.py', 'aalpy/oracles/WpMethodEqOracle.py', 'aalpy/oracles/BreadthFirstExplorationEqOracle.py'],
    mech=[('test suite construction', 'aalpy/oracles/WMethodEqOracle.py'), ('two-phase suite', 'aalpy/oracles/WpMethodEqOracle.py'),
          ('characterization set', 'aalpy/base/Automaton.py')],
    observe=['find_cex returning None', 'final model'],
    rule='one run = one system with one oracle over a learning history or a sequence of mutated hypotheses; non-trivial: an earlier hypothesis was refuted',
    assume=[DET, NOTNONE, 'the bound is at least the number of states of the minimal system', 'hypotheses given directly have no more states than the bound'],
    real=[ORAC, BASE, LEARNERS, AUTO], stub=[SYS, CLOCK, RNG],
    how='every acceptance is judged by product construction against the reference machine')

P['C08'] = dict(
    title='Test budgets and coverage promised by oracle parameters are kept',
    statement='When an equivalence oracle accepts a hypothesis, the tests it really executed are the ones its documented parameters promise: '
              'number and length of random walks or words, number of steps, walks per state from the state\'s access sequence, the PAC bound for '
              'the round, k-way state and transition coverage, extension of cached traces, execution of the provided sequences. It never '
              'executes more than its budget (walks, tests, steps) allows. Both hold in every round of a learning run, '
              'for deterministic, non-deterministic and stochastic models.',
    over=['histories', 'configurations', 'schedules'],
    qtext='all parameter values, random choices, and learning histories',
    why='An oracle that silently tests less still passes tests that learn easy systems.',
    files=['aalpy/oracles'],
    mech=[('per-oracle budget counters and coverage sets', 'aalpy/oracles')],
    observe=['words reaching the system between call and return of find_cex'],
    rule='one run = one oracle with drawn parameters over one learning run or one hypothesis; non-trivial: more than one round or a direct hypothesis',
    assume=[DET, NOTNONE, 'StatePrefix may stop one test before max_tests'], real=[ORAC, BASE, LEARNERS, AUTO], stub=[SYS, CLOCK, RNG],
    how='the words that reach the simulated system are recorded per search and compared with the promise computed from the parameters')

P['C09'] = dict(
    title='Learned non-deterministic models contain exactly observed behaviour',
    statement='Learning an observable non-deterministic system returns a complete observable model in which every trace observed up to the '
              'accepting equivalence query (and every supplied sample) is possible and every output offered in a state was really observed after '
              'that state\'s access trace; with an exact teacher every behaviour of the system is in the model. In stochastic mode the '
              'probabilities are the observed relative frequencies and sum up to one. In every hypothesis given to the oracle the access '
              'trace of a state leads to it and every input was sampled there at least n_sampling times. '
              'The alphabet handed to the learner is left as it was.',
    over=['schedules', 'histories', 'configurations'],
    qtext='all schedules by which the system resolves its choices, including outputs that first appear late, all sampling parameters',
    why='Tests sample one random resolution per run; guarantees concern all resolutions.',
    files=['aalpy/learning_algs/non_deterministic/OnfsmLstar.py', 'aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py'],
    mech=[('sampling until all-weather counter', 'aalpy/learning_algs/non_deterministic/NonDeterministicSULWrapper.py'),
          ('trace tree', 'aalpy/learning_algs/non_deterministic/TraceTree.py'),
          ('table closing', 'aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py')],
    observe=['hypotheses, counterexamples, returned model'],
    rule='one run = one system (1-4 states), one schedule of its choices, one oracle; non-trivial: non-deterministic system or refuted hypothesis',
    assume=['the system is observable (one successor per input/output)', 'resolution of choices is fair per history'],
    real=['aalpy.learning_algs.non_deterministic (the abstracted learner: C28)', ORAC, AUTO], stub=[SYS + ' with scheduled choices', TEACH, CLOCK, RNG],
    how='every output choice is a scheduler decision; hypotheses and model are compared with the recorded traces and the reference')

P['C10'] = dict(
    title='Stochastic learning returns well-formed models of the observed frequencies',
    statement='Every hypothesis and the model returned by stochastic L* are complete, have one successor per input and output, and give '
              'positive probabilities that sum up to one; in every hypothesis given to the oracle they are the relative frequencies observed '
              'after the access trace of the state. Counterexamples are observed traces leaving the hypothesis at their last step. In these '
              'hypotheses states are merged only if their samples are compatible under the chosen difference test and kept apart only if some '
              'sample differs; the tests judge any two samples as documented. With bfs sample search the oracle is asked only about '
              'hypotheses that explain all samples. Learning '
              'respects round limits and stopping criteria; when it stops before the limit, no state of unknown behaviour is left in the '
              'model and the model was not refuted by the oracle in that round. '
              'The alphabet handed to the learner is left as it was.',
    over=['schedules', 'histories', 'configurations'],
    qtext='all stochastic systems (mdp, smm), outcome sequences (also starved branches), strategies, counterexample options and round limits',
    why='Tests only learn a few models with large samples; the relation between samples and probabilities must hold for any outcome sequence.',
    files=['aalpy/learning_algs/stochastic/StochasticLStar.py', 'aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py',
           'aalpy/learning_algs/stochastic/StochasticTeacher.py'],
    mech=[('frequency tree', 'aalpy/learning_algs/stochastic/StochasticTeacher.py'),
          ('hypothesis construction and trimming', 'aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py')],
    observe=['hypotheses at find_cex', 'returned model and info'],
    rule='one run = one stochastic system, one outcome sequence, one configuration; non-trivial: more than one round on a system with real choices',
    assume=['outputs are drawn per step by the simulator', 'rs counterexample processing is not exercised'],
    real=['aalpy.learning_algs.stochastic', 'aalpy.oracles RandomWord/RandomWalk', AUTO], stub=[SYS + ' with drawn outcomes', TEACH, CLOCK, RNG],
    how='the system counts every outcome per trace; hypotheses are compared with these counts, using an independent implementation of the '
        'three statistical tests (quantiles by numerical integration)')

P['C11'] = dict(
    title='Saved models load back unchanged or an error is reported',
    statement='A model of any of the ten supported types that was saved without an error loads back as the same machine: initial state, '
              'states, outputs and labels, transitions, stack actions and probabilities, also after other files were written or overwritten. '
              'When writing fails, the process dies while writing, or the file is cut off at any byte by a power loss, loading reports an '
              'error or returns exactly one of the models that were being saved to that file, never a different machine. Files of other '
              'models are unaffected. Prefixes requested at loading reach their states. The options of saving do what they say: the text can be '
              'returned instead, hides self-loops or rounds probabilities, and nothing else changes.',
    over=['crash_points', 'fault_sequences', 'inputs'],
    qtext='all models and all disk failures (full disk, I/O error, refused open, partial write, crash before/during/after writing, lost '
          'tail) over histories of several saves and loads',
    why='Tests save and load a handful of models on a healthy disk; a truncated or misparsed file silently yields another machine.',
    files=['aalpy/utils/FileHandler.py'],
    mech=[('dot writer and parser', 'aalpy/utils/FileHandler.py'), ('state setups', 'aalpy/automata')],
    observe=['save_automaton_to_file / load_automaton_from_file', 'bytes that reached the disk'],
    rule='one run = one history of saves, loads, disk faults, crashes and power losses over up to three files; non-trivial: something was saved and loaded',
    assume=['labels stay within the documented text form (strings without quotes, numbers, booleans)', 'the disk keeps a prefix of what was written'],
    real=['aalpy.utils.FileHandler', AUTO], stub=['files (real scratch directory behind a faulty open/write/close)', CLOCK, RNG],
    how='open/write/close of the product go through a simulated disk with scheduled failures; what is loaded is compared with the models ever '
        'saved under that name')

P['C12'] = dict(
    title='A learning run is repeated exactly by the same random seed',
    statement='With the same random seed and the same answers of the system (or the same log), a learning run performs the same interactions with the system in '
              'the same order, returns the same model with the same order of states, and reports the same query and step counts. It does not '
              'depend on the clock, on earlier learning runs in the process, or on the process and its string hashing. The result leaves the '
              'random generator in the same state.',
    over=['histories', 'configurations', 'schedules'],
    qtext='all learners (deterministic, adaptive, non-deterministic, abstracted, stochastic, visibly pushdown, passive), shipped oracles and parameters, process histories',
    why='Needs the same run in several processes and after different histories, over many configurations; tests run once.',
    files=['aalpy/learning_algs', 'aalpy/oracles', 'aalpy/base/Automaton.py'],
    mech=[('iteration order of collections', 'aalpy/oracles'), ('process-wide counters', 'aalpy/learning_algs/deterministic/ObservationTree.py')],
    observe=['event log of the system', 'returned model, info', 'random state'],
    rule='one run = one learning run executed three times (in place; again after an unrelated run and with another clock; in a second process '
         'with another hash seed); non-trivial: more than 60 events',
    assume=['stepwise answers of the system depend only on the history and the seed'],
    real=[LEARNERS, BASE, ORAC, AUTO, 'aalpy.learning_algs.non_deterministic, aalpy.learning_algs.stochastic'],
    stub=[SYS, CLOCK + ' running fast, standing still or jumping', RNG],
    how='event logs of three executions of one run are compared')

P['C15'] = dict(
    title='Visibly pushdown learning is exact and terminates',
    statement='Learning a visibly pushdown system with KV and an exact teacher ends with a 1-SEVPA that accepts exactly the words the system '
              'accepts, has no more states than the minimal one and no error state, for every choice of counterexamples. Every refuted hypothesis is followed '
              'by a larger one. With any shipped oracle usable for it, every reported counterexample is real, sessions do not overlap and the '
              'final model agrees with the system on what the last test compared. '
              'The alphabet handed to the learner is left as it was.',
    over=['schedules', 'inputs', 'configurations'],
    qtext='all visibly pushdown languages (drawn 1-SEVPAs), counterexample processing options, oracles and counterexample choices',
    why='Tests learn a dozen fixed grammars with random oracles; error state handling fails only for particular languages.',
    files=['aalpy/learning_algs/deterministic/KV.py', 'aalpy/automata/Sevpa.py'],
    mech=[('classification tree for 1-SEVPA', 'aalpy/learning_algs/deterministic/ClassificationTree.py'),
          ('error state', 'aalpy/automata/Sevpa.py')],
    observe=['hypotheses given to find_cex', 'returned model'],
    rule='one run = one drawn 1-SEVPA, learner options and a schedule of counterexamples, or a shipped oracle; non-trivial: a hypothesis was refuted',
    assume=[DET, 'the system answers False for words that are not well matched so far'],
    real=['KV with Sevpa, aalpy.automata.Sevpa', BASE, ORAC], stub=[SYS + ' (1-SEVPA)', TEACH, CLOCK, RNG],
    how='an exact teacher compares reference and hypothesis over configurations and chooses among valid counterexamples')

P['C13'] = dict(
    title='Concurrent learning sessions in one process do not influence each other',
    statement='Several learning sessions, cache clients or oracles that run at the same time in one process (threads), on separate systems '
              'with separate random streams, each behave exactly as if run alone: same queries, same answers, same models, same reports. '
              'This holds for every interleaving, also at arbitrary lines of library code, and when one of the sessions fails.',
    over=['schedules', 'fault_sequences'],
    qtext='all interleavings of 2-3 concurrent sessions of any kind, preempted between system calls or at any source line of the library',
    why='The tests run one session at a time; shared class attributes, module globals or mutable defaults only show up when sessions overlap.',
    files=['aalpy/base/SUL.py', 'aalpy/base/CacheTree.py', 'aalpy/base/Oracle.py'],
    mech=[('state of learners and oracles', 'aalpy/learning_algs/'), ('caches and counters', 'aalpy/base/'),
          ('models', 'aalpy/automata/')],
    observe=['complete event log of every session (queries, steps, answers, hypotheses, model)'],
    rule='one run = 2-3 sessions from the worlds of the other properties, first each alone, then together under a drawn schedule; '
         'non-trivial: at least two context switches happened inside library code or at system calls',
    assume=['sessions share neither system, oracle nor model objects',
            'each session is given its own random stream (the process-wide generator is switched with the session)'],
    real=[LEARNERS, BASE, AUTO, ORAC], stub=['threads (one runs at a time; the scheduler decides who and for how long)', SYS, TEACH, CLOCK, RNG],
    how='each session runs in a thread that holds a baton; at every system call and at drawn source lines the seeded scheduler decides who '
        'continues; the event digest of each session has to equal that of the same session run alone')

P['C14'] = dict(
    title='Adaptive learning is exact whatever the reference models say',
    statement='Adaptive L# finishes with the minimal automaton equivalent to the system for every list of reference models: stale versions, '
              'models of other systems, models over fewer, more or other inputs, exact ones, or none. References only provide hints: every '
              'refuted hypothesis is followed by a larger one, none exceeds the size of the system, and the user\'s references stay unchanged. A single reference that is the system '
              'itself makes one equivalence query suffice if rebuilding is enabled, and the number of rebuilt states reported is right. '
              'The alphabet handed to the learner is left as it was.',
    over=['inputs', 'schedules', 'configurations'],
    qtext='all systems, reference models (stale, foreign, restricted, exact), matching/rebuilding options and counterexample choices',
    why='The tests use a handful of references that are close to the system; wrong references steer which states are promoted.',
    files=['aalpy/learning_algs/adaptive/AdaptiveLSharp.py', 'aalpy/learning_algs/adaptive/AdaptiveObservationTree.py'],
    mech=[('rebuilding and state matching', 'aalpy/learning_algs/adaptive/AdaptiveObservationTree.py'),
          ('match scores', 'aalpy/learning_algs/adaptive/StateMatching.py')],
    observe=['return value of run_adaptive_Lsharp', 'hypotheses given to find_cex', 'reference models after the run'],
    rule='one run = one drawn system, 0-3 drawn references, options and a schedule of counterexamples; non-trivial: more than one state and '
         'at least one reference',
    assume=[DET, NOTNONE], real=['aalpy.learning_algs.adaptive', LEARNERS, BASE, AUTO], stub=[SYS, TEACH, CLOCK, RNG],
    how='references are derived from the system by drawn edits (the fault: stale or foreign knowledge); teacher and final comparison as in C01')

P['C17'] = dict(
    title='A round limit only cuts learning short',
    statement='With max_learning_rounds=n every learner asks at most n equivalence queries (KV: one more for its initial one-state '
              'hypothesis), performs the same learning as without limit up to that point, returns the latest hypothesis as a usable model, '
              'and returns the same model as without limit if no more than n rounds are needed.',
    over=['schedules', 'inputs', 'configurations'],
    qtext='all systems, learners, options, oracles and limits, i.e. every point at which learning can be cut short',
    why='Tests never set the limit; off-by-one limits, missing models and half-built tables appear only when learning is cut at that point.',
    files=['aalpy/learning_algs/deterministic/LStar.py', 'aalpy/learning_algs/deterministic/KV.py',
           'aalpy/learning_algs/deterministic/LSharp.py', 'aalpy/learning_algs/adaptive/AdaptiveLSharp.py',
           'aalpy/learning_algs/non_deterministic/OnfsmLstar.py', 'aalpy/learning_algs/stochastic/StochasticLStar.py'],
    mech=[('round limit', 'aalpy/learning_algs/'), ('hypothesis after the last round', 'aalpy/learning_algs/')],
    observe=['equivalence queries', 'returned model'],
    rule='one run = one session run twice from the same decisions, without and with a drawn limit; non-trivial: the limit cut learning short',
    assume=['stochastic L*: the last round may be followed by no further query; only number of queries and existence of the model are judged'],
    real=[LEARNERS, 'adaptive L#, non-deterministic and stochastic L*, KV for 1-SEVPA', BASE, AUTO, ORAC], stub=[SYS, TEACH, CLOCK, RNG],
    how='the two runs are driven from the same recorded decisions and random stream and compared query by query')

P['C16'] = dict(
    title='Reported statistics are true and reporting does not change the run',
    statement='The data returned with return_data (and printed) equals what was executed: learning rounds are the equivalence queries asked, '
              'the automaton size is that of the returned model, queries and steps of learning and of the oracle are the sessions and inputs '
              'executed on the system in each phase (cached answers excluded), nothing is reported as saved without cache, total time and oracle '
              'time are the time that passed. Verbosity level 2 and 3 print every hypothesis with its size, lower levels none. Verbosity and '
              'return_data change neither the queries, the systems answers nor the model, and print_level=0 prints nothing.',
    over=['schedules', 'inputs', 'configurations'],
    qtext='all learners, options, oracles, systems, limits and verbosity levels',
    why='Tests ignore the statistics; counters drift only for particular branches (one-state hypotheses, wrapped oracles, cut runs).',
    files=['aalpy/base/SUL.py', 'aalpy/base/Oracle.py', 'aalpy/utils/HelperFunctions.py'],
    mech=[('query and step counters', 'aalpy/base/'), ('counters of oracles', 'aalpy/oracles/'), ('info dictionaries', 'aalpy/learning_algs/')],
    observe=['info returned with return_data=True', 'standard output', 'sessions and inputs seen by the system'],
    rule='one run = one learning session (any learner, options, oracle) run twice from the same decisions, silent and with drawn '
         'verbosity/return_data; non-trivial: at least one hypothesis was refuted',
    assume=[DET, 'KV counts refinement iterations as rounds; warnings may be printed at any verbosity; the one session that reads the initial '
                 'output of an MDP is not counted'],
    real=[LEARNERS, 'adaptive L#, non-deterministic and stochastic L*, KV for 1-SEVPA', BASE, AUTO, ORAC],
    stub=[SYS, TEACH, CLOCK, RNG, 'drawing of the classification tree (needs graphviz)'],
    how='the simulated system counts sessions and inputs per phase; the reported numbers are compared with them and the two runs with each other')

P['C18'] = dict(
    title='Passively learned deterministic models conform to the whole log',
    statement='For every log collected from a deterministic system, RPNI (both algorithms), EDSM and PAPNI return a model of the requested '
              'type that gives the logged output for every logged sequence, whatever records were lost, duplicated, truncated or reordered '
              'on the way. A log with two verdicts for one sequence is reported (None), a consistent one never. A log that contains all words '
              'up to the identifying length, and for RPNI already one that contains a characteristic sample without the verdicts in between, '
              'gives back exactly the minimal system. Requested input completeness is established. k-tails '
              'models explain every logged trace and produce no output that was never logged. k-tails and EDSM merge as their criterion demands.',
    over=['inputs', 'fault_sequences', 'configurations'],
    qtext='all systems (dfa, mealy, moore, visibly pushdown), logs of any sessions and log delivery faults, algorithms and options',
    why='The tests learn from large random samples of a few models; wrong merges depend on which records are present and in which order.',
    files=['aalpy/learning_algs/deterministic_passive/RPNI.py', 'aalpy/learning_algs/deterministic_passive/ClassicRPNI.py',
           'aalpy/learning_algs/general_passive/GeneralizedStateMerging.py'],
    mech=[('state merging with folding', 'aalpy/learning_algs/general_passive/'), ('classic RPNI', 'aalpy/learning_algs/deterministic_passive/')],
    observe=['returned model', 'None for contradictions'],
    rule='one run = one system, one collected and delivered log, one algorithm; non-trivial: the model has more than one state',
    assume=[DET, NOTNONE, 'PAPNI: only balanced sequences are used by the algorithm; symbols are no tuples'],
    real=['aalpy.learning_algs.deterministic_passive', 'aalpy.learning_algs.general_passive', AUTO], stub=[SYS, 'loggers and log channel', RNG],
    how='the log is collected from simulated sessions by loggers that crash and delivered over a channel that loses, duplicates and reorders '
        'records; the model is replayed on everything that arrived and, for complete logs, compared with the system')

P['C19'] = dict(
    title='Passively learned stochastic models carry exactly the logged frequencies',
    statement='Alergia, Alergia with EDSM and stochastic state merging return well-formed Markov chains, MDPs and stochastic Mealy machines for '
              'every log: every logged trace is possible, every transition is taken by the log, and its probability is its relative frequency '
              'when the log is replayed on the model. The log itself is not changed. Alergia keeps two states apart only if their '
              'logged futures differ significantly for the given epsilon, and merges only those that do not; its EDSM variant merges by its stated criterion and score.',
    over=['inputs', 'fault_sequences', 'configurations'],
    qtext='all stochastic systems (mc, mdp, smm), outcome sequences, log delivery faults, epsilons, scores and merging options',
    why='Tests compare a few large-sample models by size; lost or doubled counts in folding only shift probabilities slightly.',
    files=['aalpy/learning_algs/stochastic_passive/Alergia.py', 'aalpy/learning_algs/stochastic_passive/CompatibilityChecker.py',
           'aalpy/learning_algs/stochastic_passive/FPTA.py', 'aalpy/learning_algs/general_passive/GeneralizedStateMerging.py'],
    mech=[('folding of frequencies', 'aalpy/learning_algs/stochastic_passive/Alergia.py'),
          ('partitions and counts', 'aalpy/learning_algs/general_passive/GeneralizedStateMerging.py'),
          ('compatibility test', 'aalpy/learning_algs/stochastic_passive/CompatibilityChecker.py')],
    observe=['returned model', 'promoted states (instrumentation interface)'],
    rule='one run = one stochastic system, one collected and delivered log, one algorithm and options; non-trivial: more than one state',
    assume=['symbols are comparable (Alergia sorts prefixes)', 'outputs are no tuples', 'differences within 1e-9 of the Hoeffding bound are not judged'],
    real=['aalpy.learning_algs.stochastic_passive', 'aalpy.learning_algs.general_passive', AUTO], stub=[SYS + ' with drawn outcomes', 'loggers and log channel', RNG],
    how='logs of simulated sessions pass a faulty channel; the returned model is compared with the counts obtained by replaying the log on it, '
        'and its states with an independent Hoeffding test on the logged futures')

P['C20'] = dict(
    title='Active passive-learning adds only real behaviour and learns the whole log',
    statement='Active RPNI and active Alergia add to the log exactly what the system did in the sampled sessions, in the documented number and '
              'lengths, and keep the records given by the user. Every intermediate and the final model has the requested type and explains the '
              'log it was learned from. When the system goes down during sampling, the error reaches the user, the log stays truthful, and '
              'learning can be restarted from it. A contradicting log is reported; print_info=False prints nothing.',
    over=['inputs', 'fault_sequences', 'crash_points', 'configurations'],
    qtext='all systems (dfa, mealy, moore, mdp, smm), initial logs, sampling parameters and points at which the system goes down',
    why='There are no tests; misaligned samples still give a plausible model.',
    files=['aalpy/learning_algs/deterministic_passive/active_RPNI.py', 'aalpy/learning_algs/stochastic_passive/ActiveAleriga.py'],
    mech=[('sampling', 'aalpy/learning_algs/stochastic_passive/ActiveAleriga.py'),
          ('conversion of samples', 'aalpy/utils/HelperFunctions.py')],
    observe=['samples', 'log', 'models given to the sampler', 'returned model'],
    rule='one run = one system, one initial log, one loop with its restarts; non-trivial: more than one iteration and more than one state',
    assume=['deterministic systems for RPNI', 'the initial log contains at least one input', NOTNONE],
    real=['aalpy.learning_algs.deterministic_passive', 'aalpy.learning_algs.stochastic_passive', BASE, AUTO],
    stub=[SYS + ' with outages', CLOCK, RNG],
    how='the sampler is wrapped: what it returns is compared with the sessions the simulated system executed, models with the log')

P['C21'] = dict(
    title='Failures of external tools are never taken for results',
    statement='Model checking with PRISM hands over exactly the model (MDP or stochastic Mealy machine) and returns for every property '
              'the value reported for it; properties without a result (failed property, unknown label, dying or missing checker) have none and '
              'do not shift others. Stochastic L* with property based stopping stops because of the properties only if all of them were '
              'reported within the bound, does not continue then, and respects the round limits. JAlergia gets exactly the log, and its '
              'model, not a stale one, is returned or its failure is reported. No temporary files are left behind.',
    over=['inputs', 'fault_sequences', 'crash_points'],
    qtext='all stochastic models, bounded reachability properties, logs, and failures of the external programs',
    why='There are no tests (the tools are not installed); partial output looks like success.',
    files=['aalpy/utils/ModelChecking.py', 'aalpy/learning_algs/stochastic/StochasticLStar.py',
           'aalpy/learning_algs/stochastic_passive/Alergia.py', 'aalpy/automata/StochasticMealyMachine.py'],
    mech=[('PRISM translation and result parsing', 'aalpy/utils/ModelChecking.py'),
          ('SMM to MDP conversion', 'aalpy/automata/StochasticMealyMachine.py'),
          ('property based stopping', 'aalpy/learning_algs/stochastic/StochasticLStar.py')],
    observe=['model_check_experiment, stop_based_on_confidence, run_stochastic_Lstar, run_JAlergia', 'files in the working directory'],
    rule='one run = a model with properties and several invocations, a learning run with property based stopping, or several JAlergia runs; '
         'non-trivial: more than one state or round',
    assume=['labels and inputs are identifiers', 'PRISM prints "Model checking:" before and "Result:" after each property it evaluated',
            'outputs lines are not torn', 'differences within 1e-4 of the bound are not judged (results are rounded)'],
    real=['aalpy.utils.ModelChecking', 'run_JAlergia, run_stochastic_Lstar', 'aalpy.utils.FileHandler', AUTO],
    stub=['PRISM (parses and evaluates the written model) and java (both behind subprocess.Popen)', SYS, TEACH, CLOCK, RNG],
    how='subprocess.Popen is a simulated program with scheduled failures; the stub of PRISM evaluates the model file it is given and its values '
        'are compared with values computed from the model object')

P['C22'] = dict(
    title='Interactive learning does what the user enters, whatever mistakes are made',
    statement='With the interactive equivalence oracle, the system under learning receives exactly the inputs the user entered since the last '
              'reset, the outputs of system and hypothesis shown are those for that word, differences and only those are reported, and mistakes, '
              'requests for help and starting over change nothing. "end" means no counterexample; "cex" returns exactly the entered word. '
              'Every hypothesis is drawn in a file of its own, executed inputs are counted. '
              'Learning with a user who eventually finds every difference yields a model equivalent to the system.',
    over=['inputs', 'histories'],
    qtext='all systems, learners, and sequences of user entries, including mistakes',
    why='Tests cannot type; the dialogue interleaves with the sessions on the system over all rounds.',
    files=['aalpy/oracles/UserInputEqOracle.py'],
    mech=[('dialogue loop', 'aalpy/oracles/UserInputEqOracle.py')],
    observe=['inputs executed on the SUL, text printed, counterexample returned, learned model'],
    rule='one run = one learning run with a simulated user; non-trivial: more than one round',
    assume=['inputs are strings that are no commands of the dialogue', 'the drawing of the hypothesis is a stub'],
    real=['aalpy.oracles.UserInputEqOracle', 'run_Lstar, run_KV, L# (whole learning runs)', AUTO],
    stub=['terminal: input() is a simulated user, stdout is captured', 'visualisation', SYS, CLOCK, RNG],
    how='a simulated user knows a difference, mistypes, asks for help, starts over or closes the terminal at scheduled prompts; every prompt '
        'compares the text shown and the inputs executed with the reference')

P['C23'] = dict(
    title='A model answers by its structure, whatever was executed or asked before',
    statement='A model of any of the ten types, executed directly or through AutomatonSUL, gives the outputs and moves to the states that its '
              'transitions define (with the probabilities they state), from the state or the initial state asked for and with an empty stack, whatever '
              'was executed, asked or refused before. An input that is not defined in a state is refused and changes nothing; executing and '
              'questioning a model (alphabet, shortest paths, distinguishing sequences, prefixes, characterization set) never changes it, and the '
              'answers fit its structure. Copies and pickles are independent models with the same behaviour, whose access sequences reach their states.',
    over=['inputs', 'histories', 'fault_sequences'],
    qtext='all models of the ten types, partial ones included, and histories of sessions, executions, refused inputs, questions, copies and restarts',
    why='Tests execute a few fixed words on fresh models; state left by an earlier execution (stack, position, transitions added on the fly) shows '
        'only after a history of operations.',
    files=['aalpy/base/Automaton.py', 'aalpy/automata/*.py', 'aalpy/SULs/AutomataSUL.py'],
    mech=[('execution of automata', 'aalpy/base/Automaton.py'), ('steps of the ten types', 'aalpy/automata'),
          ('copies and pickles', 'to_state_setup, from_state_setup in aalpy/automata'), ('automata as SULs', 'aalpy/SULs/AutomataSUL.py')],
    observe=['outputs, current states and counters after every operation', 'transitions of the model after every operation', 'copies and unpickled models'],
    rule='one run = one model with a history of 8 to 40 operations; non-trivial: at least five steps executed',
    assume=['transitions are not edited while the model is in use', 'frequencies: deviations beyond 6.5 standard deviations in 1500 trials are reported'],
    real=['aalpy.automata (all ten types)', 'aalpy.base.Automaton', 'aalpy.SULs.AutomatonSUL'],
    stub=[RNG],
    how='an executable definition of the ten types over plain data taken from the model before its first use follows every operation of a seeded '
        'history with abandoned sessions, refused inputs, duplicates and restarts from pickles; the model is compared with it after every operation')

P['C24'] = dict(
    title='The SULs of the library answer as a fresh copy of what they wrap',
    statement='PyClassSUL, RegexSUL and TomitaSUL answer every word exactly as a fresh instance of the class, the language of the expression (whole '
              'words only) or the grammar does, whatever sessions were executed, abandoned or failed before, with a second SUL in between, and with a '
              'cache. Calls reach the object with exactly the arguments of the letter, on an instance created for the session; failures of the object '
              'reach the caller. Learned models agree with the definition.',
    over=['inputs', 'histories', 'fault_sequences'],
    qtext='all classes with deterministic methods, regular expressions, Tomita grammars, argument values, and histories of sessions and failures',
    why='Tests learn two expressions and one class with truthy arguments; state left by earlier sessions and unusual letters are not covered.',
    files=['aalpy/SULs/PyMethodSUL.py', 'aalpy/SULs/RegexSUL.py', 'aalpy/SULs/TomitaSUL.py', 'aalpy/base/SUL.py'],
    mech=[('adapters', 'aalpy/SULs'), ('queries', 'aalpy/base/SUL.py')],
    observe=['outputs, counters, calls and instances of the wrapped class', 'models learned from the SULs'],
    rule='one run = one wrapped thing with 6 to 30 operations on one or two SULs; non-trivial: at least five outputs compared',
    assume=['None is no argument', 'expressions are built from literals, sets, ., alternatives, repetition and groups'],
    real=['aalpy.SULs', 'aalpy.base.SUL', 'run_Lstar, run_KV, run_Lsharp (in a tenth of the runs)'],
    stub=['the wrapped classes (Mealy machines whose constructor and methods fail on schedule)', RNG],
    how='expressions are generated as syntax trees with their own matcher, grammars are checked against their usual definitions, classes record '
        'what reaches them and fail at scheduled calls; seeded histories interleave sessions of two SULs')

P['C25'] = dict(
    title='Generated models, logs and words are what was asked for',
    statement='Random models have the type, size, alphabets, reachability, minimality (or a warning) and probabilities that were requested (or are the default), and '
              'generating them terminates. Logs sampled from a model have the requested number, lengths and distribution, contain only what the model can do '
              'and leave it unchanged; the complete sample lets RPNI find the model again. Words offered as accepted are accepted. Tokenizers return '
              'exactly the log in the file or fail.',
    over=['inputs', 'histories', 'fault_sequences'],
    qtext='all requests, seeds of the random generator, models (also in the middle of an execution), log files and read errors',
    why='Each result is random: one wrong draw in many is not seen by a test, and wrong data silently falsifies everything learned from it.',
    files=['aalpy/utils/AutomatonGenerators.py', 'aalpy/utils/Sampling.py', 'aalpy/utils/HelperFunctions.py', 'aalpy/utils/DataHandler.py',
           'aalpy/automata/Sevpa.py', 'aalpy/automata/Vpa.py'],
    mech=[('random models', 'aalpy/utils/AutomatonGenerators.py'), ('samples', 'aalpy/utils/Sampling.py'),
          ('logs of models', 'aalpy/utils/HelperFunctions.py'), ('words of pushdown automata', 'aalpy/automata/Sevpa.py'),
          ('tokenizers', 'aalpy/utils/DataHandler.py')],
    observe=['returned models, logs, words and warnings', 'the model that was sampled'],
    rule='one run = one request; every run is non-trivial',
    assume=['requests are possible (e.g. at least two outputs, return letters for pushdown automata)',
            'searches for accepted words are only made if such words exist and are reachable', 'tokens do not contain delimiters'],
    real=['aalpy.utils (generators, sampling, tokenizers, conversions)', 'aalpy.automata', 'run_RPNI'],
    stub=['read errors of the disk', RNG],
    how='results are judged against the request and an executable definition of the model types; sampled traces are followed through all states the '
        'model could be in; distributions are compared in large samples; files fail when they are opened or read')

P['C26'] = dict(
    title='Comparing, reducing and converting models preserves what they mean',
    statement='Whatever a model was used for before: bisimilar and compare_automata report exactly real differences and terminate; characterization sets '
              'separate all states and contain what was asked for; minimize merges exactly the equivalent states and keeps the behaviour; generated '
              'test cases are all that the oracle ran, with the outputs of the model; conversions between model types keep outputs and probabilities; '
              'access strings and error states of 1-SEVPAs are right; statistical model checking estimates the true probability. None of them '
              'changes its arguments, except minimize and delete_state the model itself.',
    over=['inputs', 'histories'],
    qtext='all models, pairs of models and options, and histories of executions, comparisons and reductions of the same model',
    why='The answers depend on the shape of the models: which state is initial, equivalent, unreachable or incomplete; tests use a few regular ones.',
    files=['aalpy/base/Automaton.py', 'aalpy/utils/ModelChecking.py', 'aalpy/utils/HelperFunctions.py', 'aalpy/automata/*.py'],
    mech=[('reduction and separation', 'aalpy/base/Automaton.py'), ('comparison, test generation', 'aalpy/utils/ModelChecking.py'),
          ('conversions', 'aalpy/utils/HelperFunctions.py, aalpy/automata/StochasticMealyMachine.py, aalpy/automata/Vpa.py'),
          ('1-SEVPA helpers', 'aalpy/automata/Sevpa.py')],
    observe=['returned verdicts, counterexamples, sets, test cases, models and estimates', 'the models afterwards'],
    rule='one run = one model, disturbed by executions, with two to six comparisons, reductions or conversions; every run is non-trivial',
    assume=['compare_automata and test generation: input complete models, all states reachable', 'minimize: input complete models (others are refused)',
            'estimates: deviations beyond 6.5 standard deviations are reported'],
    real=['aalpy.base.Automaton', 'aalpy.utils.ModelChecking', 'aalpy.utils.HelperFunctions (conversions)', 'aalpy.automata',
          'equivalence oracles that generate test cases'],
    stub=[RNG],
    how='an executable definition of the model types over plain data taken before first use decides equivalence, separation, probabilities and language; '
        'histories contain abandoned sessions and changed copies of the model')

P['C27'] = dict(
    title='State merging obeys the criteria it is given and explains the log',
    statement='Generalized state merging with any user-supplied compatibility, score, order and processing functions returns a model of the requested '
              'type that explains the whole log (outputs, possible traces, or relative frequencies). A merge is performed only if no criterion refused '
              'it, with the best score available; a node becomes a state only if no merge of it was accepted. The composable criteria (k-tails, sinks, '
              'combinations, thresholds, evidence and information scores) judge as documented; candidates are taken in the requested order, none is left out. Contradicting deterministic data raise ValueError, an '
              'error of a user function reaches the user unchanged, and learning again with the same object gives the same model.',
    over=['inputs', 'schedules', 'fault_sequences', 'configurations'],
    qtext='all logs (labelled sequences, input-output traces, output traces) of all systems, criteria and their compositions, options, and points at '
          'which a user function fails',
    why='Tests learn a few large samples with two fixed criteria; order and extent of merges depend on every answer of the criteria.',
    files=['aalpy/learning_algs/general_passive/GeneralizedStateMerging.py', 'aalpy/learning_algs/general_passive/GsmNode.py',
           'aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py'],
    mech=[('red-blue framework and partitions', 'aalpy/learning_algs/general_passive/GeneralizedStateMerging.py'),
          ('compatibility and scores', 'aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py')],
    observe=['questions to and answers of the criteria', 'promotions and merges (instrumentation interface)', 'returned model'],
    rule='one run = one log, one composition of criteria and options, learned up to four times; non-trivial: at least one merge and more than one state',
    assume=['compatibility on futures only for nondeterministic and stochastic models (pairs of states do not exclude contradictory merges)',
            'the data format is given explicitly', 'information scores are not judged at their threshold'],
    real=['aalpy.learning_algs.general_passive', AUTO], stub=[SYS + ' with drawn outcomes', 'loggers and log channel', 'user functions', RNG],
    how='the simulator decides every answer of the user functions and lets one of them fail; each answer of a composed criterion is compared with an '
        'executable definition, each announced decision with the answers given, the model with the log')

P['C28'] = dict(
    title='Abstracted non-deterministic models merge traces by abstracted observations',
    statement='Learning an abstracted non-deterministic model ends with an accepted (or the last permitted) hypothesis, for every mapping of '
              'outputs to classes. In every hypothesis states have observed access traces, no two states have the same abstracted '
              'observations for its characterization set, every output observed after the access trace is offered, and every transition was '
              'observed (concrete output) in a trace with the same abstracted observations and leads to the state of what was observed '
              'afterwards. Every input was sampled at least n_sampling times per state; counterexamples are observed traces that the hypothesis '
              'cannot follow only at their last step; with an exact teacher the accepted model has a run for every behaviour of the system. '
              'Round limits are respected, statistics are right.',
    over=['schedules', 'histories', 'configurations'],
    qtext='all systems, schedules by which they resolve choices (outputs may first appear late), abstractions, sampling sizes and oracles',
    why='No test exercises this learner at all; its table merges rows of different traces, so what was observed where decides the model.',
    files=['aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py', 'aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py'],
    mech=[('abstracted table, completeness, cleaning', 'aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py'),
          ('learning loop', 'aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py')],
    observe=['hypotheses with their access traces and characterization set, counterexamples, returned model and statistics'],
    rule='one run = one system, one schedule of its choices, one abstraction, one oracle; non-trivial: non-deterministic system or refuted hypothesis',
    assume=['the system is observable (one successor per input/output)', 'resolution of choices is fair per history',
            'symbols are comparable with each other (the table sorts its rows)', 'runs in which a rare trace is not sampled within 8000 inputs are discarded'],
    real=['aalpy.learning_algs.non_deterministic', ORAC, AUTO], stub=[SYS + ' with scheduled choices', TEACH, CLOCK, RNG],
    how='every output choice is a scheduler decision; a tree of all recorded traces decides which rows are equivalent, and every hypothesis is compared with it')
