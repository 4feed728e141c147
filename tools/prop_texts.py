LEARN_NOTE = ('Verdicts come from an independent reference model (product search, own minimisation) over the runs '
              'generated from the seed; nothing is claimed beyond the sizes and configurations listed in the evidence.')
TESTS = ('The existing tests run a handful of fixed or randomly generated machines with sampling-based equivalence '
         'oracles and mostly compare sizes; ')

prop('C01', 'L* with an exact equivalence oracle learns the minimal equivalent model',
     'For every finite deterministic system (DFA, Moore or Mealy) and every documented configuration, L* with an '
     'equivalence oracle that always finds an existing difference terminates and returns a complete model of the '
     'requested type that answers every input word as the system does. The returned model has exactly as many states '
     'as the minimal machine of the system, lists each of them once and can reach all of them.',
     ['inputs', 'configurations', 'histories'],
     'all machines up to 40 states and 5 inputs over hostile alphabets and outputs, all 504 configurations, short, '
     'random and padded counterexamples, optional initial samples',
     TESTS + 'correctness must hold for every target, closing strategy, counterexample processing and counterexample.',
     [D + 'LStar.py', D + 'ObservationTable.py', D + 'CounterExampleProcessing.py', 'aalpy/base/SUL.py'],
     [('observation table closing and consistency', D + 'ObservationTable.py'),
      ('counterexample processing', D + 'CounterExampleProcessing.py')],
     'runtime monitoring: reference-model oracle over generated learning runs, logical-step progress budget', LEARN_NOTE,
     'hypotheses handed to the equivalence oracle, returned model')

prop('C02', 'KV with an exact equivalence oracle learns the minimal equivalent model',
     'For every finite deterministic system (DFA, Moore or Mealy) and every counterexample processing strategy, KV with '
     'an equivalence oracle that always finds an existing difference terminates and returns a complete, minimal model '
     'of the requested type that answers every input word as the system does.',
     ['inputs', 'configurations', 'histories'],
     'all machines up to 40 states, counterexample strategies, cache on and off, short, random and padded '
     'counterexamples', TESTS + 'KV is only exercised on few targets.',
     [D + 'KV.py', D + 'ClassificationTree.py', D + 'CounterExampleProcessing.py'],
     [('classification tree sifting and splitting', D + 'ClassificationTree.py')],
     'runtime monitoring: reference-model oracle over generated learning runs, logical-step progress budget', LEARN_NOTE,
     'hypotheses handed to the equivalence oracle, returned model')

prop('C03', 'L# with an exact equivalence oracle learns the minimal equivalent model',
     'For every finite deterministic system (DFA, Moore or Mealy) and every extension and separation rule, L# with an '
     'equivalence oracle that always finds an existing difference terminates and returns a complete, minimal model of '
     'the requested type that answers every input word as the system does.',
     ['inputs', 'configurations', 'histories'],
     'all machines up to 40 states, extension rules none/SepSeq/ADS, separation rules SepSeq/ADS, cache on and off, '
     'optional initial samples', TESTS + 'the adaptive distinguishing sequences are only reached by particular targets.',
     [D + 'LSharp.py', D + 'ObservationTree.py', D + 'Apartness.py', D + 'ADS.py'],
     [('observation tree, basis and frontier', D + 'ObservationTree.py'), ('apartness', D + 'Apartness.py'),
      ('adaptive distinguishing sequences', D + 'ADS.py')],
     'runtime monitoring: reference-model oracle over generated learning runs, logical-step progress budget', LEARN_NOTE,
     'hypotheses handed to the equivalence oracle, returned model')

prop('C04', 'Adaptive L# learns the minimal equivalent model whatever references it is given',
     'For every finite deterministic system and every list of reference models - equal to the system, mutated, '
     'unrelated, over a different alphabet, or none - adaptive L# with an equivalence oracle that always finds an '
     'existing difference terminates and returns a complete, minimal model that answers every input word as the system '
     'does. Reference models influence the number of queries only, and are left unchanged; with rebuilding, a single '
     'minimal reference that equals the system makes the first hypothesis correct.',
     ['inputs', 'configurations', 'histories'],
     'all machines up to 20 states, all rule, rebuilding and state matching settings, 0-3 references',
     TESTS + 'adaptive learning is tested with a few hand-made references.',
     ['aalpy/learning_algs/adaptive/AdaptiveLSharp.py', 'aalpy/learning_algs/adaptive/AdaptiveObservationTree.py',
      'aalpy/learning_algs/adaptive/StateMatching.py'],
     [('rebuilding from references', 'aalpy/learning_algs/adaptive/AdaptiveObservationTree.py'),
      ('state matching', 'aalpy/learning_algs/adaptive/StateMatching.py')],
     'runtime monitoring: reference-model oracle over generated learning runs, logical-step progress budget', LEARN_NOTE,
     'hypotheses handed to the equivalence oracle, returned model, reference models before and after')

prop('C05', 'KV for visibly pushdown languages learns the language of the system',
     'For every visibly pushdown system given by a deterministic one-module stack acceptor, KV for visibly pushdown '
     'alphabets with an equivalence oracle that returns real well-matched counterexamples terminates with an automaton '
     'that accepts exactly the well-matched words the system accepts.',
     ['inputs', 'configurations', 'histories'],
     'random and structured visibly pushdown acceptors, several call/return/internal alphabets, both counterexample '
     'processing strategies, nested counterexamples', TESTS + 'a few fixed benchmark languages are learned.',
     [D + 'KV.py', D + 'ClassificationTree.py', D + 'CounterExampleProcessing.py', 'aalpy/automata/Sevpa.py'],
     [('classification tree over contexts', D + 'ClassificationTree.py'),
      ('stack-aware counterexample processing', D + 'CounterExampleProcessing.py')],
     'runtime monitoring: independent pushdown reference model and congruence search as oracle', LEARN_NOTE,
     'hypotheses handed to the equivalence oracle, returned automaton')

prop('C06', 'Learning progresses every round, obeys round limits and reports true numbers',
     'In every run of L*, KV, L# and adaptive L#, each counterexample is corrected by the next hypothesis, the number of '
     'states grows with every counterexample and never exceeds that of the minimal machine, so there are at most as many '
     'rounds as states; hypotheses of L# and adaptive L# agree with everything the system was asked. A limit on learning rounds ends learning after exactly that many rounds with the last '
     'hypothesis, and the reported queries, steps and sizes equal what the system saw.',
     ['inputs', 'configurations', 'histories'],
     'all machines up to 14 states, all four learners and their settings, round limits 1-5, samples, cache on and off',
     TESTS + 'no test looks at intermediate hypotheses, round limits or statistics.',
     [D + 'LStar.py', D + 'KV.py', D + 'LSharp.py', 'aalpy/learning_algs/adaptive/AdaptiveLSharp.py'],
     [('learning loops', D + 'LStar.py'), ('statistics', 'aalpy/base/SUL.py')],
     'runtime monitoring: online monitor of every hypothesis and of the system boundary', LEARN_NOTE,
     'hypotheses handed to the equivalence oracle, calls on the system, returned statistics')

prop('C07', 'Equivalence oracles return real counterexamples and overlook none they executed',
     'For every equivalence oracle, hypothesis and deterministic system, a returned counterexample is a non-empty input '
     'word over the alphabet whose last output is the first on which system and hypothesis differ. If an oracle answers '
     '"no counterexample", hypothesis and system agreed on every test it executed; the hypothesis it was asked about is '
     'left unchanged. For ONFSM, MDP and stochastic Mealy hypotheses, the random walk and random word oracles return the '
     'executed trace whose last output is the first one the hypothesis cannot produce, in the form the learner needs.',
     ['inputs', 'configurations', 'histories'],
     '15 oracles with random parameters, one to many successive hypotheses, direct use and use by L*, KV and L#, with '
     'and without cache',
     'The tests only check that learning with an oracle ends with a model of the right size on a few targets.',
     ['aalpy/oracles/'], [('test execution loops', 'aalpy/oracles/')],
     'runtime monitoring: every executed test replayed offline on reference models',
     'Covers the tests that were executed in the generated sessions; the interactive user oracle is not covered.',
     'calls on the system, value returned by the oracle')

prop('C08', 'W, Wp, breadth-first and perfect-knowledge oracles are complete in their bound',
     'For every system, the W- and Wp-method oracles find a counterexample for a hypothesis that differs from a system '
     'whose minimal machine has at most the given number of states, the breadth-first oracle finds every difference of '
     'length up to its depth, and the perfect-knowledge oracle finds every difference. This holds for every sequence of '
     'hypotheses asked of one oracle object, so learning with such an oracle ends with a model that is correct (within '
     'the depth, for breadth-first search).',
     ['inputs', 'configurations', 'histories'],
     'systems up to 12 states, hypotheses that are mutants or partial merges, successive hypotheses, six learner '
     'configurations', 'Tests check sizes of a few learned models; a missing test in a suite goes unnoticed.',
     ['aalpy/oracles/WMethodEqOracle.py', 'aalpy/oracles/WpMethodEqOracle.py',
      'aalpy/oracles/BreadthFirstExplorationEqOracle.py', 'aalpy/oracles/PerfectKnowledgeEqOracle.py',
      'aalpy/base/Automaton.py'],
     [('W test suite', 'aalpy/oracles/WMethodEqOracle.py'), ('Wp phases', 'aalpy/oracles/WpMethodEqOracle.py'),
      ('characterization set', 'aalpy/base/Automaton.py')],
     'runtime monitoring: oracle answers judged by an independent exact product search',
     'Bounded by the machine sizes generated; within them the true answer is decided exactly.',
     'value returned by the oracle, learned model')

prop('C09', 'Randomized and coverage oracles carry out the campaign their parameters describe',
     'For all parameters, an oracle that answers "no counterexample" has executed the documented number of tests with '
     'lengths in the documented range: walks from every state with access sequence prefixes, extensions of cached '
     'traces, provided sequences in turn, walks focused on self-loops or on state changes, and the number of tests the '
     'PAC bound asks for. The k-way oracles have visited every combination or permutation of k states, respectively '
     'every k-step transition, of the hypothesis; step and test limits are never exceeded. Random walks and words of '
     'non-deterministic and stochastic hypotheses keep to the same numbers; resetting the counter starts them anew.',
     ['inputs', 'configurations', 'histories'],
     '11 oracles, random small parameters, successive hypotheses, direct use and use by L*, KV and L#',
     'No test observes which tests an oracle executes.',
     ['aalpy/oracles/'], [('test selection', 'aalpy/oracles/')],
     'runtime monitoring: offline coverage and budget checker over the log of executed tests',
     'Judges the executed tests at the system boundary; distribution of random choices is not judged.',
     'calls on the system')

prop('C10', 'The query cache is transparent and contradictory answers stop learning at once',
     'With caching, every query is answered exactly as the system would answer it, a query whose answer follows from '
     'earlier observations is not executed again by L* and KV, and the counters of executed and saved queries are '
     'exact. If the system (or a given sample) ever contradicts an earlier answer for a non-empty input word, learning '
     'aborts before the next interaction with the system starts; without a contradiction it never aborts.',
     ['inputs', 'histories', 'fault_sequences'],
     'random operation sequences on tree and dictionary caches; L*, KV, L# and adaptive L# with transient, permanent '
     'and rare output faults, drifting systems, missed resets and wrong samples injected at random points',
     'Tests use one non-deterministic system; detection must work for every fault point and learner.',
     ['aalpy/base/CacheTree.py', 'aalpy/base/SUL.py', D + 'LStar.py'],
     [('cache tree and dictionary', 'aalpy/base/CacheTree.py'), ('cached system', 'aalpy/base/SUL.py')],
     'runtime monitoring with fault injection: observation log and contradiction detector at the system boundary',
     'Faults are injected at random points of the generated runs; contradictions on the empty word are not claimed.',
     'calls on the wrapped system, process exit of the learner')

prop('C11', 'Systems are driven by the protocol; all queries and steps are counted',
     'Learners and equivalence oracles step a system only after a reset, never reset it while the previous interaction '
     'is still open, and only use inputs of the given alphabet, which they leave unchanged. The queries and steps '
     'counted by an oracle equal the resets and steps the system saw during its searches, and those reported for a '
     'complete learning run add up to exactly what the system saw.',
     ['inputs', 'configurations', 'histories'],
     '15 oracles, L*, KV, L#, adaptive L#, learners of non-deterministic and stochastic systems and active passive learning, with and without cache and round limits',
     'No test compares the reported numbers with the interactions that took place.',
     ['aalpy/base/SUL.py', 'aalpy/base/Oracle.py', 'aalpy/oracles/', D],
     [('query and reset', 'aalpy/base/SUL.py'), ('reset of hypothesis and system', 'aalpy/base/Oracle.py')],
     'runtime monitoring: protocol automaton and counters at the system boundary',
     'Covers the generated sessions; the one query for the initial output of an MDP precedes learning and is not reported.', 'calls on the system, statistics')

prop('C12', 'Analysis of deterministic automata is exact',
     'For every complete deterministic automaton, minimization yields an equivalent automaton with the minimal number '
     'of states, characterization sets distinguish every pair of inequivalent states and minimality is decided '
     'correctly. Distinguishing sequences distinguish the given states and exist whenever the states are inequivalent, '
     'shortest paths are valid and shortest, access sequences reach their states, and analysis does not alter the '
     'automaton.',
     ['inputs', 'histories'],
     'all machines up to 14 states with unreachable, equivalent and relabelled states, any state order, repeated calls',
     'Tests check a few fixed automata.',
     ['aalpy/base/Automaton.py', 'aalpy/automata/Dfa.py', 'aalpy/automata/MooreMachine.py',
      'aalpy/automata/MealyMachine.py'],
     [('partition refinement', 'aalpy/base/Automaton.py'), ('breadth-first searches', 'aalpy/base/Automaton.py')],
     'runtime monitoring: results judged by independent partition refinement and breadth-first search',
     'Exact on each generated automaton; nothing beyond the generated sizes.', 'results of the analysis calls')

prop('C13', 'Equivalence and comparison of automata agree with their languages',
     'For all deterministic automata of the same type, the equivalence test and the equality operator say equal exactly '
     'if the automata answer every input word alike, and a reported difference is a word on which they differ. '
     'Reported sets of differences contain only words that the automata answer differently, and are empty only if no '
     'difference exists; comparison does not alter the automata.',
     ['inputs'], 'pairs of machines: isomorphic copies, mutants, unrelated machines, different alphabets',
     'Tests compare a few automata with themselves.',
     ['aalpy/utils/HelperFunctions.py', 'aalpy/utils/ModelChecking.py', 'aalpy/base/Automaton.py'],
     [('bisimilarity', 'aalpy/utils/ModelChecking.py'), ('model comparison', 'aalpy/utils/ModelChecking.py')],
     'runtime monitoring: results judged by an independent product search',
     'Exact on each generated pair.', 'results of the comparison calls')

prop('C21', 'Automata execute as their transition structure says',
     'For every automaton of every kind (DFA, Moore, Mealy, observable non-deterministic, Markov, stochastic Mealy, '
     'visibly pushdown), stepping, resetting and executing sequences yield exactly the outputs, successors and '
     'rejections its states and transitions define, independently of earlier executions, falsy letters and outputs '
     'included. Undefined inputs and impossible outputs are rejected without changing the automaton, and probabilistic '
     'automata choose successors with the declared probabilities.',
     ['inputs', 'histories'],
     'machines of all kinds, interleaved resets, queries and undefined inputs; frequencies over thousands of steps',
     'Tests step a few fixed automata once.',
     ['aalpy/automata/', 'aalpy/base/Automaton.py', 'aalpy/SULs/AutomataSUL.py'],
     [('step functions', 'aalpy/automata/'), ('sequence execution', 'aalpy/base/Automaton.py')],
     'runtime monitoring: every step compared with an independent interpreter of the transition structure; '
     'frequency test for probabilistic choices',
     'Covers the executed sequences; frequencies are judged with an error probability below 1e-6 per run.',
     'outputs and current states')

prop('C14', 'Saving and loading an automaton gives the same automaton',
     'For every automaton of every kind whose state names, letters and outputs the file format can express, writing it '
     'to a DOT file or string and loading it again yields an automaton of the same kind with the same states, initial '
     'state, outputs or acceptance, transitions and probabilities. Saving does not change the automaton, requested '
     'prefixes lead to their states, and differently formatted DOT text of the same automaton loads alike.',
     ['inputs', 'configurations'],
     'ten kinds of automata, letters and outputs with blanks, digits, punctuation, falsy and non-ASCII values; '
     'hand-formatted text with comments, reordered lines and attributes',
     'Tests round-trip a few example automata with simple names.',
     ['aalpy/utils/FileHandler.py'],
     [('writer', 'aalpy/utils/FileHandler.py'), ('parser', 'aalpy/utils/FileHandler.py')],
     'runtime monitoring: state-by-state comparison of the original and the reloaded automaton',
     'Names outside the expressible domain (documented in DESIGN.md) are not claimed.', 'files, loaded automata')

prop('C15', 'Deterministic passive learning reproduces every sample',
     'For all consistent labelled samples, RPNI (classic and state merging), EDSM, PAPNI and active RPNI return an '
     'automaton of the requested type that gives each sample its label, has no more states than the samples have '
     'prefixes, and is input complete if that is requested; contradictory samples are reported by returning no model. '
     'With a characteristic sample, RPNI returns the minimal automaton of the sampled language; the given data are left '
     'unchanged.',
     ['inputs', 'configurations'],
     'samples of random machines with falsy, mixed and unusual letters and labels; contradictory samples; '
     'characteristic samples; visibly pushdown samples; active learning iterations',
     'Tests use a few sample sets, mostly of DFA.',
     ['aalpy/learning_algs/deterministic_passive/', 'aalpy/learning_algs/general_passive/'],
     [('red-blue merging', 'aalpy/learning_algs/deterministic_passive/ClassicRPNI.py'),
      ('state merging', 'aalpy/learning_algs/general_passive/GeneralizedStateMerging.py'),
      ('input completeness and model construction', 'aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py')],
     'runtime monitoring: samples replayed on the learned model, minimal target machine as oracle',
     'Covers the generated sample sets.', 'learned model, returned value, data of the caller')

prop('C16', 'State merging conserves counts and performs only merges it accepted',
     'For all trace data and settings, the model of generalized state merging contains every trace, and every transition '
     'carries exactly the number of times the data take it. Only candidates accepted by compatibility and score are '
     'merged, the best-scored one first, and a state is promoted only if no merge into a promoted state is accepted; '
     'with a compatibility test that knows the true states, the result is the sampled machine. k-tails models contain '
     'every trace.',
     ['inputs', 'configurations', 'histories'],
     'deterministic, non-deterministic and stochastic traces; all predefined score functions and combinators; futures, '
     'prefix tree and blue-state settings',
     'Tests run a few score functions on a few data sets.',
     ['aalpy/learning_algs/general_passive/'],
     [('red-blue framework', 'aalpy/learning_algs/general_passive/GeneralizedStateMerging.py'),
      ('nodes, counts and conversion', 'aalpy/learning_algs/general_passive/GsmNode.py'),
      ('scores', 'aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py')],
     'runtime monitoring: online monitor of compatibility, score, merge and promotion events; replay of all traces; '
     'independent merger as oracle',
     'Covers the generated data; where rounding or folding order decides, only the invariants are checked.',
     'score and instrumentation callbacks, learned model')

prop('C17', 'Alergia returns the model its data determine',
     'For all trace data, Alergia returns a Markov chain, MDP or stochastic Mealy machine (as requested) that contains '
     'every trace and whose probabilities are the relative frequencies of the data replayed on it. Its states are those '
     'of red-blue merging in the order of shortest, then smallest prefixes under the Hoeffding bound (or the given '
     'compatibility check). Active Alergia performs the requested samplings and learns from exactly what the system did.',
     ['inputs', 'configurations', 'histories'],
     'traces of random machines; epsilon between 0.005 and 2 and automatic; custom compatibility checks; EDSM variant; '
     'active learning', 'Tests learn a few benchmark models with fixed data.',
     ['aalpy/learning_algs/stochastic_passive/'],
     [('merging and normalization', 'aalpy/learning_algs/stochastic_passive/Alergia.py'),
      ('Hoeffding test', 'aalpy/learning_algs/stochastic_passive/CompatibilityChecker.py'),
      ('active learning', 'aalpy/learning_algs/stochastic_passive/ActiveAleriga.py')],
     'runtime monitoring: replay of the data on the model, independent merger as oracle',
     'Where rounding or folding order decides, only replay and frequencies are checked. JAlergia (external jar) is not '
     'covered.', 'learned model, calls on the system')

prop('C18', 'The ONFSM learner returns the machine that produced all observed traces',
     'For every observable non-deterministic system, run_non_det_Lstar returns a model that can do every trace it observed; '
     'with a sound and complete oracle it can do every trace of the system, and once sampling has seen all outputs it has '
     'no more states than the minimal machine. The outputs of each state are those observed after its prefix, its rows '
     'over the characterization set are distinct, and stochastic models carry the observed frequencies. Round limits, '
     'reported queries, steps and rounds match what the system and the oracle saw.',
     ['inputs', 'schedules', 'configurations'],
     'random machines with up to 6 states and 3 outputs per input, fair and random choice of outputs, exact and random '
     'oracles, sampling sizes, initial samples, round limits', 'Tests learn one machine and look at its size.',
     ['aalpy/learning_algs/non_deterministic/OnfsmLstar.py',
      'aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py',
      'aalpy/learning_algs/non_deterministic/TraceTree.py'],
     [('learning loop', 'aalpy/learning_algs/non_deterministic/OnfsmLstar.py'),
      ('table and hypothesis', 'aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py'),
      ('trace tree', 'aalpy/learning_algs/non_deterministic/TraceTree.py')],
     'runtime monitoring: recorded traces replayed on the model, true machine as oracle',
     'Minimality is judged only where the recorded traces show every output of the rows involved.',
     'step of the system, find_cex, learned model')

prop('C19', 'The abstracted ONFSM learner merges states only by abstracted rows',
     'For every observable non-deterministic system, output abstraction and oracle that decides trace inclusion, '
     'run_abstracted_ONFSM_Lstar terminates with a model that can do every trace of the system. Once sampling has seen all '
     'outputs, its states have distinct abstracted rows, no more than the system has, and its transitions are exactly the '
     'concrete outputs and target rows of system states with that row; with an injective abstraction it is the minimal '
     'machine. Reported queries, steps and rounds match what the system saw, and the caller\'s mapping stays unchanged.',
     ['inputs', 'schedules', 'configurations'],
     'random machines with up to 5 states, identity, renaming, partial and coarse abstractions, exact and random oracles, '
     'sampling sizes, round limits', 'Tests learn one system with one abstraction.',
     ['aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py',
      'aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py'],
     [('learning loop', 'aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py'),
      ('abstracted table', 'aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py')],
     'runtime monitoring: recorded traces replayed on the model, abstracted rows of the true machine as oracle',
     'Rows are judged only where the recorded traces show every output involved. Termination is judged by a step budget '
     'and not for oracles that follow only the first of several transitions with the same output.',
     'step of the system, find_cex, learned model')

prop('C20', 'Stochastic L* returns a model of the frequencies it observed',
     'For every MDP or stochastic Mealy machine, difference check and sampling strategy, run_stochastic_Lstar returns a '
     'model of the requested type whose distributions are the relative frequencies observed after the prefixes of its '
     'states, and whose transition targets are statistically compatible with what was observed after the transition; '
     'unknown behaviour is exactly what leads to the chaos state. Runs respect round limits, stop early only without '
     'counterexample and chaos (with property-based stopping: as soon as, after min_rounds, every model-checked value is within '
     'the bound, and at max_rounds), and report the queries and steps the system saw; with proportional samples the model has no '
     'state too many and, given enough of them, is the system. The predefined difference checkers follow their tests, oracles '
     'of other kinds are refused unless declared as custom.',
     ['inputs', 'schedules', 'configurations'],
     'random machines with up to 6 states; all predefined and own difference checks, counterexample processing and search '
     'strategies, stopping ranges; proportional and random sampling', 'Tests learn benchmark models and only see no crash.',
     ['aalpy/learning_algs/stochastic/'],
     [('learning loop', 'aalpy/learning_algs/stochastic/StochasticLStar.py'),
      ('table, classes, hypothesis, stopping', 'aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py'),
      ('tree of traces, counterexamples', 'aalpy/learning_algs/stochastic/StochasticTeacher.py'),
      ('statistical tests', 'aalpy/learning_algs/stochastic/DifferenceChecker.py')],
     'runtime monitoring: recorded frequencies at every moment of the run compared with the model; true machine as oracle',
     'Compatibility is judged on single inputs; exactness only for proportional samples of at least 30 per cell and '
     'separated states. The experimental rs processing and property-based stopping (PRISM) are not covered.',
     'step of the system, find_cex, learned model')


prop('C22', 'Conversions between kinds of automata keep the behaviour',
     'Every conversion keeps the behaviour: a stochastic Mealy machine and its MDP give every trace the same probability, '
     'an MDP and its Markov chain (for a selected input, whatever its value) too, a Moore machine with boolean outputs and '
     'its DFA answer every word alike, and trace data are converted without loss, additions or duplicates. States of the '
     'result have unique ids and are all listed; ambiguous or unsuitable sources are rejected with ValueError; the source '
     'stays as it was.',
     ['inputs'], 'random machines with up to 9 states (non-observable and partial ones too), ids of any type, falsy inputs, '
     'all short and random longer traces', 'No test converts anything.',
     ['aalpy/automata/StochasticMealyMachine.py', 'aalpy/utils/HelperFunctions.py'],
     [('SMM to MDP', 'aalpy/automata/StochasticMealyMachine.py'), ('other conversions', 'aalpy/utils/HelperFunctions.py')],
     'runtime monitoring: trace probabilities and answers of source and result compared, snapshot of the source',
     'Probabilities of traces up to length 4 (breadth limited) and random ones up to 12.', 'result of the conversion')

prop('C23', 'Input completion adds exactly the missing transitions',
     'For every automaton, make_input_complete adds a transition exactly where a state has none for an input of the '
     'automaton: to the state itself or to one new sink state, with output epsilon where transitions carry outputs and '
     'probability one where they carry probabilities. The sink is rejecting (DFA) or outputs sink_state (Moore, '
     'non-deterministic Moore, MDP); all other states, transitions and the initial state stay as they were; complete '
     'automata stay unchanged and is_input_complete tells the two apart.',
     ['inputs', 'configurations'], 'random partial machines of seven kinds with up to 8 states, both modes',
     'Tests complete no automaton.', ['aalpy/utils/HelperFunctions.py', 'aalpy/base/Automaton.py'],
     [('completion', 'aalpy/utils/HelperFunctions.py'), ('completeness test', 'aalpy/base/Automaton.py')],
     'runtime monitoring: snapshot of every transition before and after, execution of the completed automaton',
     'Automata that already have a state named sink are not covered.', 'automaton after completion')

prop('C24', 'Random generators return the automaton that was asked for',
     'For all parameters, the generators of random DFAs, Moore and Mealy machines, MDPs, SMMs, ONFSMs, Markov chains and '
     'SEVPAs return an automaton of that kind with the given number of states, alphabets, accepting states and '
     'distributions: input complete, deterministic or observable, all states reachable (except ONFSM and SEVPA), '
     'probabilities adding up to one. Deterministic automata are minimal if requested, or returned with a warning after '
     'finitely many attempts, and their states carry shortest prefixes.',
     ['inputs', 'configurations'], 'up to 20 states, 4 inputs, 5 outputs, custom alphabets, distributions, impossible requests',
     'Tests generate a few automata and do not look at them.', ['aalpy/utils/AutomatonGenerators.py'],
     [('generators', 'aalpy/utils/AutomatonGenerators.py')],
     'runtime monitoring: every generated automaton judged by the reference interpreter',
     'Distributions given by the user must not be longer than the number of outputs and states.', 'returned automaton')

prop('C25', 'Bundled systems under learning answer for exactly the executed word',
     'The systems under learning that come with AALpy answer every word as their definition says: RegexSUL accepts exactly '
     'the words its expression fully matches, TomitaSUL exactly the words of the grammar, AutomatonSUL what the automaton '
     'does, PyClassSUL and FunctionDecorator call the given methods of a fresh object with exactly the given arguments '
     '(falsy ones too), balanced-string, mock MQTT and benchmark VPA/SEVPA systems answer for their documented languages. '
     'The date validator accepts exactly the dates of a calendar without leap years; bundled stochastic models are complete with '
     'probabilities adding up to one. The empty word is answered too, nothing of a query leaks into the next one, queries and '
     'steps are counted as asked.',
     ['inputs', 'histories'], 'random expressions, grammars, call sequences and automata of every kind; words of up to 20 '
     'letters, as query, io_query and single steps', 'Tests learn some of these systems and compare model sizes.',
     ['aalpy/SULs/', 'aalpy/utils/BenchmarkSULs.py', 'aalpy/utils/BenchmarkVpaModels.py',
      'aalpy/utils/BenchmarkSevpaModels.py'],
     [('regular expressions and Tomita grammars', 'aalpy/SULs/RegexSUL.py'), ('Python classes', 'aalpy/SULs/PyMethodSUL.py'),
      ('automata', 'aalpy/SULs/AutomataSUL.py'), ('balanced words, MQTT', 'aalpy/utils/BenchmarkSULs.py')],
     'runtime monitoring: every answer compared with an independent definition of the language or a recorded call log',
     'Benchmark languages without an unambiguous description (vpa_for_even_parentheses, sevpa_for_L10, L11) are left '
     'out, numbers written with signs or blanks are not given to the date validator.', 'answer of the system to a query')

prop('C26', 'Data sets and test cases derived from automata say what the automaton does',
     'For every automaton, the data helpers return exactly what the automaton does: input-output traces (with the initial '
     'output first for Moore-like automata), labelled words, samples with the requested number, lengths and letters, random '
     'data for deterministic, non-deterministic, stochastic and visibly pushdown automata. The complete sample lets RPNI '
     'find the automaton again; test cases generated with an equivalence oracle carry the right outputs, and the '
     'W-method set detects every change of one transition. Tokenizers read files as they were written, data '
     'formats are detected or refused as ambiguous, is_balanced tells matched words.',
     ['inputs', 'configurations'], 'random automata of nine kinds; words up to length 12; seven test oracles; ASCII files '
     'with several delimiters', 'Tests use two of the helpers on one automaton.',
     ['aalpy/utils/Sampling.py', 'aalpy/utils/HelperFunctions.py', 'aalpy/utils/DataHandler.py',
      'aalpy/utils/ModelChecking.py', 'aalpy/learning_algs/general_passive/GsmNode.py'],
     [('samples and traces', 'aalpy/utils/Sampling.py'), ('random data', 'aalpy/utils/HelperFunctions.py'),
      ('tokenizers', 'aalpy/utils/DataHandler.py'), ('test cases', 'aalpy/utils/ModelChecking.py')],
     'runtime monitoring: every data point judged by the reference machine; RPNI and mutated machines as probes',
     'Complete samples and test cases only for minimal connected automata with at least two states.',
     'returned data set or test case')

prop('C27', 'PRISM export and model checking results are faithful',
     'For every MDP with string inputs and outputs, the PRISM text describes exactly that MDP: initial location, one command '
     'per defined state and input with its targets and probabilities, a label per atomic proposition (outputs split at a '
     'double underscore, reserved words escaped). Model checking hands that text and the properties file to PRISM, leaves no '
     'file behind, and returns all printed numeric results in order, in any notation, with errors to the correct values and '
     'rounding as requested; stopping needs results and every error within the bound. Statistical model checking runs the '
     'requested number of bounded random tests and returns the fraction that reached a goal.',
     ['inputs', 'configurations'], 'random MDPs with up to 8 states (partial ones too, ids of any type); a stand-in for PRISM '
     'that prints generated results; recording models', 'No test exports a model or runs PRISM.',
     ['aalpy/utils/ModelChecking.py'],
     [('export', 'aalpy/utils/ModelChecking.py'), ('results and stopping', 'aalpy/utils/ModelChecking.py'),
      ('statistical model checking', 'aalpy/utils/ModelChecking.py')],
     'runtime monitoring: parser of the exported text with bisimulation check; log of the stand-in and of recording models',
     'PRISM itself is not available: that it accepts the text is judged by an own parser of the used fragment; only the five '
     'reserved words AALpy escapes are used as symbols.', 'export, printed results, executed tests')

prop('C30', 'Words and access strings made from VPAs and SEVPAs belong to their language',
     'For every SEVPA that accepts enough words, get_accepting_words_bfs returns as many different accepted words as requested, '
     'shortest first and none of them shorter than requested, and leaves no shorter accepted word out; get_random_accepting_word '
     'returns an accepted word of at least the requested length; for every VPA, generate_random_accepting_word returns None or an accepted '
     'word of min_steps to max_steps letters, and such a word in the end where random runs accept often. A state is recognised as error state exactly if it is neither '
     'initial nor accepting and nothing leads out of it, deleting it keeps the accepted language, and deleting any state removes '
     'exactly the transitions that involve it; access strings lead to the given state and stack, a daisy automaton loops on '
     'every letter, the input alphabet and all other parts of the automaton stay as they were.',
     ['inputs'], 'random one-module single-entry automata with up to 6 states and up to two internal, call and return '
     'letters; minimum lengths up to 6, up to 8 words', 'No test calls these helpers except through KV.',
     ['aalpy/automata/Sevpa.py', 'aalpy/automata/Vpa.py'],
     [('words', 'aalpy/automata/Sevpa.py'), ('error states', 'aalpy/automata/Sevpa.py'), ('access strings', 'aalpy/automata/Sevpa.py')],
     'runtime monitoring: reference pushdown interpreter, number of accepted words per length, exact language comparison',
     'Only automata that accept enough words are asked for words (otherwise the search does not end, as documented nowhere); '
     'random words only where acceptance can be reached from every state. States without any transition may or may not count '
     'as error states. delete_state does not recompute the input alphabet.', 'call of a helper')

prop('C29', 'Copies of automata are equal, complete and independent',
     'For every deterministic, non-deterministic Moore, stochastic Mealy, MDP, VPA or SEVPA automaton, copy, deepcopy, pickle '
     'and the way through its state setup return an automaton of the same kind with the same states (ids, outputs, '
     'unreachable ones too), transitions, probabilities and initial state, that starts in its initial state. Copying does not '
     'change the original or its current state, and later changes of either automaton do not show in the other one. An '
     'automaton made from a written state setup is the one described, its first state being the initial one, and the setup '
     'stays as it was.',
     ['inputs', 'histories'], 'random partial and complete automata with up to 9 states, ids of any type, any order of the '
     'states; chains of 400 states', 'Tests load a few automata from setups and never change a copy.',
     ['aalpy/base/Automaton.py', 'aalpy/automata/'],
     [('copy and pickle', 'aalpy/base/Automaton.py'), ('state setups', 'aalpy/automata/')],
     'runtime monitoring: structural comparison, object identity and change of one automaton while the other is watched',
     'ONFSMs and Markov chains have no state setup (NotImplementedError). The common error state VPAs list after loading a '
     'setup is ignored, prefixes and characterization sets are not compared.', 'copy of an automaton')

prop('C28', 'Seeded experiments are reproducible in every process',
     'With the same seed of the random module, every learning algorithm (active, passive, stochastic, non-deterministic, visibly '
     'pushdown), equivalence oracle, random generator, sampler and model conversion does exactly the same again: same queries '
     'in the same order, same answers, same statistics, same model with the same state names and order. This holds in another '
     'process and after other experiments: nothing depends on string hashing, memory addresses or what was learnt before.',
     ['histories', 'configurations'], 'seeded experiments with all algorithms and 18 oracles on random systems with up to 7 states; '
     'processes with different hash seeds, memory layout and order of experiments',
     'Tests run each experiment once, in one process, and never compare two runs; the README promises reproducible experiments '
     'after seed().',
     ['aalpy/learning_algs/', 'aalpy/oracles/', 'aalpy/utils/', 'aalpy/automata/'],
     [('learning', 'aalpy/learning_algs/'), ('oracles', 'aalpy/oracles/'), ('generation', 'aalpy/utils/')],
     'runtime monitoring: recorded logs of the same experiment in three differently prepared processes are compared',
     'Times are ignored; the system under learning itself must be deterministic or use the random module.',
     'every query, answer and result of an experiment')

prop('C31', 'Reporting changes nothing, and what is reported is true',
     'For every learner, print level and print_info setting, the same seed gives the same queries, results and statistics as '
     'without reports, also when the statistics are not asked for (return_data); printed summaries (rounds, states, queries, steps) and the printed L* observation table state the numbers '
     'and answers that really occurred. State-merging instrumentation (ProgressReport, MergeViolationDebugger) does not change the '
     'learned model, runs with every ground truth, and the debugger reports a wrong merge or wrong promotion exactly when the ground '
     'truth says so. The interactive UserInputEqOracle asks about the hypothesis it was given, shows its true outputs, follows '
     'the typed commands and returns exactly the inputs typed before the reported difference.',
     ['inputs', 'configurations'], 'seeded experiments with all learners on random systems with up to 7 states at all print levels; '
     'state merging with ground truths that agree and that do not; random dialogues', 'Tests switch reports off and use no instrumentation.',
     ['aalpy/utils/HelperFunctions.py', 'aalpy/learning_algs/general_passive/Instrumentation.py', 'aalpy/oracles/UserInputEqOracle.py'],
     [('reports', 'aalpy/utils/HelperFunctions.py'), ('merge debugger', 'aalpy/learning_algs/general_passive/Instrumentation.py'),
      ('dialogue', 'aalpy/oracles/UserInputEqOracle.py')],
     'runtime monitoring: recorded runs with and without reports are compared; printed text against the harness\'s own counts',
     'Times are ignored; exact wording of the text is not judged, only the numbers and words in it.', 'run with reports')

prop('C32', 'run_JAlergia hands over the data and returns the model that was written',
     'run_JAlergia gives jAlergia exactly the given traces (one per line, same symbols, same order), model type, epsilon and heap '
     'size, whether they are passed as a file or as lists, and returns the automaton jAlergia wrote: same '
     'initial state, transitions, outputs and probabilities, of the requested type. A missing jar or data file, or a run without '
     'a model, gives None; a successful run leaves no file behind and none of the user\'s files is changed.',
     ['inputs', 'configurations'], 'random samples of Markov chains, MDPs and stochastic Mealy machines and random models with up '
     'to 7 states; a stand-in for java that records its call, and the real jar on small samples', 'No test runs jAlergia.',
     ['aalpy/learning_algs/stochastic_passive/Alergia.py'],
     [('interface', 'aalpy/learning_algs/stochastic_passive/Alergia.py')],
     'runtime monitoring: recorded call and data of a stand-in, bisimulation of the returned model with the written one',
     'What jAlergia computes is not judged.', 'call of run_JAlergia')

prop('C33', 'Pictures show exactly the automaton',
     'For every automaton of any kind, visualize_automaton and save_automaton_to_file in a picture format (svg, pdf, png) write a '
     'picture that shows each state, the start, acceptance or output, and each transition with its label and (rounded) probability '
     'exactly once; the graph of a state-merging result does the same for its nodes, transitions and counts, and the tree KV draws at print level 3 '
     'can always be written. Drawing changes neither the automaton nor its current state.',
     ['inputs'], 'random automata of ten kinds with up to 8 states, state-merging results, classification trees; pictures are read back',
     'No test draws a picture.',
     ['aalpy/utils/FileHandler.py', 'aalpy/learning_algs/general_passive/GsmNode.py'],
     [('drawing', 'aalpy/utils/FileHandler.py'), ('node graphs', 'aalpy/learning_algs/general_passive/GsmNode.py')],
     'runtime monitoring: the written picture is parsed and compared with the object as multisets',
     'Layout is not judged; needs the graphviz program, which the sandbox has.', 'picture')

prop('C34', 'Requests outside the documented options are refused',
     'Learners, k-way oracles, file and data utilities refuse, with an error that says so, every value outside their documented options '
     '(kind of automaton, counterexample and closing strategies, rules, matching, algorithm, completion, data format, epsilon, k, kinds of '
     'oracle) and data that contradict the requested kind of model; they return nothing and leave data and automata as they were. '
     'Active learners refuse before the system is used (except the closing strategy and the round bounds). Documented options are '
     'answered, also after a refusal.',
     ['inputs', 'configurations'], 'misspelled, foreign and out-of-range values of every enumerated option; non-deterministic, contradictory '
     'and unlabelled data; valid requests on the same objects afterwards',
     'Tests only use valid options.',
     ['aalpy/learning_algs/', 'aalpy/oracles/', 'aalpy/utils/'],
     [('option checks of the learners', 'aalpy/learning_algs/deterministic/LStar.py'),
      ('option checks of state merging', 'aalpy/learning_algs/general_passive/GeneralizedStateMerging.py'),
      ('format checks', 'aalpy/utils/FileHandler.py')],
     'runtime monitoring: each invalid request must raise a refusal with the system monitored as unused, each valid twin must be answered',
     'print_level of L# and the ONFSM learners is not validated by the library and is not judged; KV\'s docstring names longest_prefix, '
     'which KV does not implement and refuses.', 'raised error')
