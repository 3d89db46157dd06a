#!/usr/bin/env python3
"""Single source of the property texts: writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["xcsf/"+f for f in files],
            mechanism=[dict(name=n, where="xcsf/"+w) for n, w in mech],
            state=[dict(name=a, meaning=b, where="xcsf/"+c) for a, b, c in (state or [])],
            observe_at=observe, hook_needed=None)))

I, H, C, S = "inputs", "histories", "configurations", "schedules"

prop("P01", "Memory safety and defined behaviour over the whole life cycle",
 "For every valid configuration and every sequence of create, train, predict, score, save, load, export, import, store, retrieve and free operations on valid data, the library never touches memory outside a live object, never uses an uninitialised value, never executes undefined arithmetic or conversions, and never aborts the process. Populations, networks, trees and graphs stay valid to use after any number of evolutionary steps.",
 [I, H, C], "all representations x parameters x data x operation sequences",
 "The unit tests run without sanitizers, mostly on one hand-built classifier with four inputs; they never combine representations with long histories, reloads or unusual dimensions.",
 ["xcsf.c","clset.c","cl.c","ea.c","gp.c","dgp.c","neural.c","neural_layer.c","pybind_wrapper.cpp"],
 [("set/kill-list life cycle of classifiers","clset.c"),("copy/resize/free of representations","neural_layer_connected.c")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer and memcheck reports","process exit status"])

prop("P02", "Freeing a system releases all memory it ever acquired",
 "After a system is freed, every block it allocated during any history of training, covering, deletion, subsumption, save/load, store/retrieve and export has been released exactly once; dropping a Python system or callback leaves nothing behind. While it runs, memory held stays bounded by the population limit and does not grow with the number of trials.",
 [H, C], "all histories ending in a free",
 "No existing test counts allocations; a leak is invisible to value assertions.",
 ["clset.c","cl.c","xcsf.c","ea.c","param.c","neural.c","xcs_rl.c"],
 [("kill set drained at the end of every trial","xcs_supervised.c"),("per-representation free functions","condition.h")],
 ["LeakSanitizer at exit","live-allocation counter sampled across trials"])

prop("P03", "Parallel execution is race free and does not change results",
 "Matching, prediction and updating run in parallel over classifiers without data races. For every thread count and every interleaving of the parallel work the predictions, the population and the error trace are bit-for-bit the same as in a single-threaded run from the same seed.",
 [S, C, I], "all thread counts, chunk schedules and interleavings of the parallel loops",
 "Tests use whatever schedule the OpenMP runtime happens to give on small sets, and compare no two schedules; a race rarely changes a unit-test value.",
 ["clset.c","pa.c","cl.c","pred_neural.c","cond_neural.c","dgp.c","gp.c"],
 [("per-classifier private state in parallel loops","clset.c"),("sequential, list-ordered reductions after each parallel loop","pa.c")],
 ["ThreadSanitizer reports under an instrumented OpenMP runtime","trace hash per schedule"])

prop("P04", "Same seed, same data, same configuration: same run",
 "Two runs that start from the same seed, parameters and data and perform the same calls produce identical populations, predictions, errors and decisions, whatever happened in the process before seeding, whatever the memory contents and whatever other system was built and freed earlier. Different seeds give different runs.",
 [H, C, I], "all configurations and call sequences; all prior process histories",
 "The existing determinism tests compare one short supervised run per representation in a fresh process, so state leaking between runs or uninitialised bytes are not seen.",
 ["utils.c","param.c","xcsf.c","xcs_supervised.c","xcs_rl.c"],
 [("one seeded generator for every random decision","utils.c"),("state reset when a system is created","xcsf.c")],
 ["digest of the full population, prediction array and error after every trial"])

prop("P05", "Population bookkeeping is exact and the size limit holds",
 "After every trial the reported number of rules equals the number of distinct rules held, the reported total numerosity equals the sum of their numerosities, every rule has numerosity at least one, and the total never exceeds the configured limit. Every change of the total is accounted for: covering, evolution and insertion add, deletion removes exactly the excess one unit at a time, and subsumption leaves it unchanged; no rule is in the population twice and no live rule is lost or released.",
 [H, C, I], "all histories of covering, evolution, subsumption, deletion, insertion",
 "The set tests exercise add and validate on a list of a few rules; totals after long mixed histories are never audited.",
 ["clset.c","ea.c","xcs_supervised.c","xcs_rl.c"],
 [("limit enforcement after covering, evolution and insertion","clset.c"),("set validation after removals","clset.c")],
 ["population list after every trial and around every evolutionary step"],
 [("size/num","macro and micro counts of a set","xcsf.h")])

prop("P06", "Match and action sets contain exactly the right rules, covering fills gaps",
 "For every input, the match set is exactly the rules of the population whose condition accepts that input, each once; the action set is exactly the members of the match set that advocate the chosen action. When covering is requested every action ends up advocated by at least one matching rule; a new rule is created only for a missing action, matches the current input, advocates the missing action and starts with the configured initial error and fitness, the current time, no experience and numerosity one.",
 [I, H, C], "all populations and inputs, all condition and action types",
 "Tests check matching of single hand-made rules; they do not compare whole match sets with independent evaluation nor cover with several actions at a full population.",
 ["clset.c","cl.c","cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","cond_gp.c","cond_dgp.c","cond_neural.c","rule_dgp.c","rule_neural.c"],
 [("match loop and covering loop","clset.c"),("rule covering","cl.c")],
 ["match set, action set and population after every match"])

prop("P07", "Each condition accepts exactly the region it describes",
 "A rule's accept/reject decision for an input equals the documented meaning of its exported condition: all attributes within the interval (both hyperrectangle encodings, bounds inclusive), weighted squared distance below one for an ellipsoid, no specified bit contradicted for a ternary string at the configured number of bits, program or network output above one half for trees, graphs and networks, and always for the trivial condition. The match counters (samples seen and samples matched) rise by exactly the evaluations and acceptances made.",
 [I, C, H], "all condition parameters and inputs including boundary values",
 "Unit tests try two or three inputs per condition type at fixed dimension.",
 ["cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","cond_gp.c","cond_dgp.c","cond_neural.c","cond_dummy.c","gp.c","dgp.c"],
 [("match functions","condition.h"),("tree/graph evaluation","gp.c")],
 ["accept decision, counters and exported condition of every rule"])

prop("P08", "Subsumption only merges rules into genuinely more general, reliable ones",
 "A rule is absorbed only by another rule with the same action that is experienced beyond the configured threshold, has error below the target, and whose interval or ternary condition accepts every input the absorbed rule accepts (for ellipsoids, every axis extreme of it); tree, graph and network conditions are never judged more general. When set subsumption runs, a most general reliable member absorbs every less general member, and an offspring that a reliable parent covers is absorbed. The absorber's numerosity grows by exactly what was absorbed and the absorbed rule disappears from every set; with subsumption switched off nothing is ever absorbed.",
 [I, H, C], "all pairs of rules and all set contents",
 "Generality tests use single pairs in low dimension; nothing checks that subsumption in a full run conserves numerosity and is sound on the input space.",
 ["clset.c","ea.c","cl.c","cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","act_integer.c"],
 [("set subsumption","clset.c"),("offspring subsumption","ea.c"),("subsumer and generality tests","cl.c")],
 ["rules before/after each update and evolutionary step"])

prop("P09", "System output is the fitness-weighted mean of the matching rules",
 "For every input and action, each predicted value equals the mean of the matching rules' predictions for that action weighted by their fitness, computed on the current input, and zero where no rule advocates the action. Exploiting picks an action with the maximal predicted payoff, exploring only actions that some matching rule advocates; when nothing matches and a default answer was supplied, predictions and scores use exactly that default and no rule is created.",
 [I, H, C], "all match sets, actions, outputs and defaults",
 "The prediction-array tests use one rule set with two outputs.",
 ["pa.c","xcs_supervised.c","xcs_rl.c"],
 [("prediction array construction","pa.c"),("default answer for an empty match set","xcs_supervised.c")],
 ["prediction array, chosen action, returned predictions"])

prop("P10", "Credit assignment follows the XCS update rules",
 "Each time a set is updated, every member's experience rises by one; its error and set-size estimates move by the cumulative average while its experience is below the inverse learning rate and by the learning rate afterwards, using the rule's own prediction error under the configured loss; its fitness moves by the learning rate toward its numerosity-weighted share of relative accuracy, accuracy being one at or below the target error and the configured power law above it. The rule's predictor makes one learning step, a condition changes only by the configured drift toward the input, and rules outside the set are not altered.",
 [I, H, C], "all sets, learning parameters and targets",
 "Unit tests check a single update of a single rule.",
 ["cl.c","clset.c"],
 [("error, size and experience update","cl.c"),("accuracy and fitness sharing","clset.c")],
 ["all rule attributes before and after every set update"])

prop("P11", "Evolution runs when due and produces correctly initialised offspring",
 "The evolutionary step runs exactly when the set is non-empty and the mean time since its members' last participation reaches the configured threshold, and it then stamps all members with the current time. It creates the configured number of offspring (in pairs) from parents in the set: each is either counted as another copy of its parent (if nothing changed), absorbed, or inserted with no experience, numerosity one, its parent's set size and time, and error and fitness discounted from its parent (averaged over both parents after crossover); the parents' conditions, predictions and statistics are otherwise untouched.",
 [H, C, I], "all sets, selection schemes, rates and offspring counts",
 "No existing test runs the evolutionary step and inspects parents and offspring.",
 ["ea.c","clset.c","cl.c"],
 [("trigger, selection, offspring initialisation","ea.c")],
 ["population before and after each evolutionary step"])

prop("P12", "Deletion and selection favour rules as configured",
 "Deletion removes a rule that never matched within its probation period before any other; otherwise rules are chosen with probability proportional to the deletion vote (set size times numerosity, raised for experienced rules with low fitness), with the larger of two draws removed when compaction applies. Parents are chosen in proportion to fitness under roulette and the fittest of a random subset under tournament selection, and every random helper stays within its documented range.",
 [H, C, I], "all populations and vote/fitness profiles",
 "Random choices are never tested for distribution or range over many draws.",
 ["clset.c","cl.c","ea.c","utils.c"],
 [("deletion vote and roulette","clset.c"),("roulette and tournament selection","ea.c")],
 ["which rule is removed/reproduced over repeated draws; frequencies against the specified probabilities"])

prop("P13", "Linear and constant predictors compute and learn as specified",
 "A rule's constant prediction is the running estimate of the payoffs it was updated with; a linear or quadratic prediction is the exact inner product of its weights with the offset and the input terms (including all squares and pairwise products for quadratic). One update changes the weights exactly by the normalised-least-mean-squares or recursive-least-squares step for the given target and learning rate or forgetting parameters, for each output independently, and leaves inputs and targets untouched.",
 [I, H, C], "all input/output dimensions, weights, targets and update sequences",
 "Tests check four inputs, one output and a few steps.",
 ["pred_constant.c","pred_nlms.c","pred_rls.c","prediction.c","blas.c"],
 [("prediction and update functions","pred_nlms.c"),("input expansion","prediction.c")],
 ["predictions and weights before/after each update"])

prop("P14", "Networks compute the function they describe and learn by gradient descent",
 "For every stack of layers the network output equals the mathematical composition of its layers on the input, inference uses no randomness, and softmax outputs are a probability distribution. In feed-forward stacks one training step moves every active weight and bias along the negative gradient of the squared output error (of the cross-entropy where the stack ends in a unit-scale softmax; with the configured momentum, decay and learning rate, within the weight bounds), and inactive connections stay zero.",
 [I, H, C], "all architectures, activations, weights, inputs and targets",
 "Layer tests check one small instance of each layer against hard-coded numbers.",
 ["neural.c","neural_layer_connected.c","neural_layer_convolutional.c","neural_layer_recurrent.c","neural_layer_lstm.c","neural_layer_maxpool.c","neural_layer_avgpool.c","neural_layer_softmax.c","neural_layer_dropout.c","neural_layer_noise.c","neural_layer_upsample.c","neural_activations.c","image.c","blas.c"],
 [("forward/backward/update of each layer type","neural_layer.h"),("network propagate/learn","neural.c")],
 ["layer outputs, weights and weight changes"])

prop("P15", "Variation keeps every rule well formed, bounded and independent",
 "Random creation, crossover and mutation always yield a rule of the same kind that is well formed: intervals, centres and spreads stay within the configured ranges, ternary symbols stay legal, trees are created within the size limit and stay syntactically complete, graphs only reference existing nodes, functions and inputs, networks keep consistent layer dimensions within the configured neuron bounds, actions stay in range and self-adaptive rates stay within their bounds. Networks keep the layers and learning settings they were configured with except for what is configured to evolve, crossover only exchanges material between its two rules, and whenever the operators report that nothing changed the rule is unchanged apart from its self-adaptive rates, and a copy shares nothing with its original, so altering one never alters the other.",
 [H, C, I], "all representations, rates and chains of operators",
 "Tests mutate once and only check the return value.",
 ["cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","gp.c","dgp.c","neural_layer.c","sam.c","act_integer.c","neural.c"],
 [("mutation and crossover operators","condition.h"),("self-adaptive mutation rates","sam.c")],
 ["full contents of rules before and after each operator"])

prop("P16", "A saved system loads back identical and continues identically",
 "Saving at any point and loading into any other system yields the same parameters, statistics, population and predictions, and given the same subsequent seed and calls the loaded system and the original evolve identically, for every representation and dimension. Saving changes nothing, the element counts reported by save and load agree, loading fully replaces whatever the target held, and a file written by another major or minor version is refused.",
 [H, C, I], "all save points, configurations and target systems",
 "The test saves and reloads one untrained default system and compares only element counts.",
 ["xcsf.c","param.c","clset.c","cl.c","cond_rectangle.c","pred_rls.c","neural.c","gp.c","dgp.c","neural_layer_lstm.c","neural_layer_recurrent.c"],
 [("binary save/load of parameters and population","xcsf.c")],
 ["digest of the loaded system, its predictions and its continued run"])

prop("P17", "Rules survive JSON export and import unchanged",
 "Exporting a population as JSON and importing it into an empty system with the same parameters reproduces every rule (statistics, condition, action, prediction, mutation rates) up to decimal rounding, in an order-preserving way, and the two systems make the same predictions. Inserting JSON adds exactly the given rules to those present, respects the population limit, and parts missing from the JSON are given valid initial values. The exported text shows the actual contents of every rule, including trees (in infix order) and networks, whose import is not supported.",
 [H, C, I], "all populations for the export; those of the representations whose import is supported (not trees and networks) for the import",
 "One Python test round-trips a population of hyperrectangles with NLMS.",
 ["clset.c","cl.c","cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","gp.c","dgp.c","pred_nlms.c","pred_rls.c","pred_constant.c","act_integer.c","sam.c"],
 [("JSON export/import of rules","cl.c")],
 ["exported JSON against rule contents; re-imported population"])

prop("P18", "Accepted parameters take effect exactly; invalid ones are refused",
 "Every parameter value within its documented range that is supplied by JSON or keyword is the value the system then uses and reports, independent of the other parameters given; exporting the parameters and importing them elsewhere gives an equal configuration. A number outside its range, a value of the wrong JSON kind, or an unknown name is never silently used: it is refused with an error, or replaced by the nearest legal value with a warning.",
 [I, C], "all parameters, values at and beyond the range limits, and combinations",
 "Tests set a few valid values of a few parameters.",
 ["param.c","ea.c","condition.c","prediction.c","action.c","neural_layer_args.c","cond_dgp.c","gp.c","dgp.c","config.c"],
 [("range-checked setters","param.c"),("JSON parameter import/export","param.c")],
 ["value used and reported after each import; exit status on refusal"])

prop("P19", "A stored population is restored exactly, and early stopping keeps the best",
 "Retrieving a stored population brings back exactly the rules, statistics and predictions (but not the predictors' training accumulators or network memory) held when it was stored, however much training happened since, and continued training of the original never alters the stored copy. With early stopping and best-restoration the population left after fitting is the one that achieved the best monitored error, and checkpoints contain the system as it was when written.",
 [H, C], "all training histories between store and retrieve; all metric sequences",
 "One test stores an untrained population and checks nothing afterwards.",
 ["xcsf.c","cl.c","pred_constant.c","pred_rls.c","pred_nlms.c","pybind_callback_earlystop.h","pybind_callback_checkpoint.h"],
 [("population copy","xcsf.c"),("early stopping and checkpoint callbacks","pybind_callback_earlystop.h")],
 ["population digest and predictions at store, during training and after retrieve"])

prop("P20", "Python arrays of any layout and type mean what they mean in NumPy",
 "Training, scoring, predicting and acting with arrays of any numeric type, memory order, stride or offset gives the same results as with a contiguous double-precision copy, and never modifies or keeps depending on the caller's arrays. Arrays whose shape does not fit the configured inputs, outputs or samples are refused with a Python exception and leave the system usable.",
 [I, H], "all array layouts, dtypes and shapes accepted by the interface",
 "Python tests only pass contiguous float64 arrays of the right shape.",
 ["pybind_wrapper.cpp"],
 [("array access and shape checks","pybind_wrapper.cpp")],
 ["results for each layout vs. the contiguous copy; exceptions; caller's arrays before/after"])

prop("P21", "The Python training loop does the work it reports",
 "A fit runs exactly the configured number of trials over the given rows (in order when not shuffling, each row equally likely when shuffling), starting from scratch unless a warm start is requested, and records one entry per reporting period whose trial counts, training error, validation error and set sizes are those of that period. A score equals the mean loss of the predictions on the scored rows, and callbacks run once per period, stop training when they ask to, and finish once.",
 [I, H, C], "all trial counts, reporting periods, data sizes, callbacks and warm starts",
 "Python tests run one fit with the trial count a multiple of the period and look only at predictions.",
 ["pybind_wrapper.cpp","xcs_supervised.c","pybind_callback.h","pybind_callback_earlystop.h","pybind_callback_checkpoint.h"],
 [("epoch loop and metrics","pybind_wrapper.cpp"),("training loop","xcs_supervised.c")],
 ["metrics, trial clock, callback effects, scores vs. recomputed losses"])

prop("P22", "Pickled and separate Python systems behave like the original and independently",
 "A pickled or deep-copied system unpickles to one with the same parameters, population, predictions and scores, for every dimension and representation, and can be trained further exactly as the original. Several systems alive at once never affect one another's population, parameters or predictions.",
 [H, C, I], "all systems, save points and interleavings of operations on several systems",
 "One test pickles a single-output default system.",
 ["pybind_wrapper.cpp","xcsf.c"],
 [("serialize/deserialize","pybind_wrapper.cpp")],
 ["parameters, JSON population, predictions of both systems"])

prop("P23", "Reinforcement learning steps credit the right action sets",
 "In a multi-step trial, after each step the previous step's action set is updated on the previous state with the previous reward plus the discounted best predicted payoff of the current state, and on the terminal step the current action set is updated with the received reward only; single-step problems update the current action set with the reward. Evolution happens only while exploring (with the configured probability), exploiting takes a best-paying action, trials are bounded by the step limit, and the reported error is the configured loss of the corresponding payoff predictions normalised by the maximum payoff.",
 [H, I, C], "all environments, step sequences, rewards and trial lengths",
 "The C tests never run a reinforcement-learning trial.",
 ["xcs_rl.c","pa.c","clset.c","env.h"],
 [("step update","xcs_rl.c"),("previous action set hand-over","xcs_rl.c")],
 ["rule attributes after every step; recorded environment calls"])

prop("P24", "Built-in environments and data files are presented faithfully",
 "For rectangular mazes and complete files, the multiplexer pays the maximum exactly when the action equals the addressed data bit; the maze reports the eight neighbouring cells with toroidal wrap-around, moves only onto free or goal cells, ends with the maximum payoff exactly on reaching the goal, and starts on any free cell with equal probability; comma-separated files are presented row by row and column by column as written. Configuration files give the same parameters as the same JSON given directly.",
 [I, H], "all problem sizes, mazes, files, states and actions",
 "No existing test covers the environments or the configuration reader.",
 ["env_mux.c","env_maze.c","env_csv.c","env.c","config.c","main.c"],
 [("environment tables","env.h"),("configuration reader","config.c")],
 ["environment state, rewards and data against an independent model of the file or problem"])

prop("P25", "Loss functions and activation functions are their mathematical definitions",
 "Each selectable loss returns its defining value for any prediction and target (mean absolute, mean squared, root mean squared, log, binary log, one-hot classification error and Huber), is finite on finite data, and is non-negative (the log losses for probabilities). Each activation returns its defining value and each gradient is the derivative of that activation.",
 [I, C], "all vectors, sizes and function parameters",
 "Tests evaluate each function at a few points.",
 ["loss.c","neural_activations.c","neural_activations.h","utils.h"],
 [("loss functions","loss.c"),("activation table","neural_activations.h")],
 ["function values against independent formulas"])

prop("P26", "Inference and inspection do not disturb the model",
 "Predicting, scoring with a default answer, exporting, printing, saving and reading parameters or metrics never change any rule's condition, prediction, error, fitness, numerosity or experience, add or remove rules, or alter the parameters; rows that are only evaluated during training are never learnt from. The prediction for an input is the same in any batch, in any position and however often it is repeated, for models without recurrent state.",
 [I, H, C], "all trained systems, query batches and inspection sequences",
 "Tests call predict once per model.",
 ["xcs_supervised.c","pa.c","clset.c","param.c","pybind_wrapper.cpp"],
 [("exploit-mode trial","xcs_supervised.c")],
 ["population digest before/after; per-row predictions over permuted batches"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
prop("P27", "Network surgery and population figures describe the rules held",
 "Expanding the prediction networks adds to every rule exactly one connected layer directly before the output layer, as large as the top hidden layer and with the configured learning settings, leaves the other layers, conditions and actions as they were, and restarts error, fitness, experience and time; converting autoencoders to classifiers keeps the requested number of first layers of every network unchanged (at least one) and adds a linear and a softmax layer whose outputs form a distribution over the configured outputs. The reported population figures (mean sizes, neurons, layers, connections and rates, and the moving averages of set sizes and match fraction) equal those computed from the rules held.",
 [I, H, C], "all populations of network rules, all numbers of layers, all histories before and after",
 "The repository has one smoke test per operation on a freshly made rule; nothing compares the layers left behind or recomputes the reported figures.",
 ["clset_neural.c","xcsf.c","clset.c","pred_neural.c","neural.c"],
 [("layer insertion and removal on every rule","xcsf.c"),("means over the population","clset_neural.c"),("moving averages of set statistics","clset.c")],
 ["layer lists of every rule before and after","figures recomputed from an independent walk over the rules"])

prop("P28", "The Python object performs the core operation it names",
 "Whatever sequence of methods is called on a Python system (fitting, scoring, predicting, trial steps, deciding, updating, saving, loading, storing, retrieving, reading, writing and inserting JSON, network surgery, parameter changes), each call performs the corresponding core operation on that object's own state with exactly the given arguments. It returns that operation's result and leaves the same population, parameters, statistics and files behind as the core operation does.",
 [I, H, C], "all method sequences, arguments and representations",
 "The Python tests call a few methods once on small problems and check shapes and error thresholds; the binding layer's own state between calls is never compared with the core.",
 ["pybind_wrapper.cpp","pybind_utils.h","xcs_rl.c","xcs_supervised.c","xcsf.c"],
 [("method bodies forwarding to the core","pybind_wrapper.cpp"),("per-object state: current state vector, action, payoff, first flag","pybind_wrapper.cpp")],
 ["complete saved state and returned values after every call, against a twin system driven through the C functions"])

prop("P29", "A picture of a rule shows the rule",
 "Drawing an exported tree condition gives one tree whose inner nodes are the rule's functions with their two operands in order and whose leaves are its inputs and constants; drawing an exported graph condition gives every node with its function, the match node shaded, and exactly the connections its functions use. Inputs carry the given feature names where there are any, notes and captions are shown, and the exported rule is not altered.",
 [I, C], "all trees and graphs that can be exported, all feature names and notes",
 "Nothing in the repository exercises the drawing classes, and a wrong edge in a picture does not fail anything.",
 ["utils/viz.py","gp.c","dgp.c"],
 [("recursive descent over the exported expression","utils/viz.py"),("nodes and connections of a graph","utils/viz.py")],
 ["nodes, edges and attributes handed to the graph drawing package"])

prop("P30", "The stand-alone program runs and reports the experiment it is given",
 "For every data set, multiplexer or maze, configuration file and optionally a saved system to resume, the program runs the configured number of trials (alternating exploring and exploiting trials in reinforcement learning), prints the parameters in force, and after every perf_trials trials prints the trial number, from the second report on the mean of both performance figures over the trials since the previous report, and the population size at that moment. Reports are those of the same experiment performed through the library from the same seed; the program ends with success, and ends with failure and a message on wrong usage or missing problem or system files.",
 [I, H], "all problems, configurations with a seed, and saved systems",
 "No test runs the program; a wrong window, order of calls or figure still prints plausible numbers.",
 ["main.c","perf.c","xcs_rl.c","xcs_supervised.c","config.c","env.c"],
 [("order of initialisation and windowed reports","main.c"),("windowed means","perf.c"),("explore and exploit trials","xcs_rl.c")],
 ["standard output and exit status of the program"])

prop("P31", "Chance acts with the configured and evolved probabilities",
 "Crossover takes place with the configured probability and then exchanges each bound, centre, spread or symbol of the two conditions with even chance; new and covering ternary conditions hold don't-care symbols with the configured probability; new bounds, centres, spreads, actions, tree symbols and graph functions are spread evenly over their legal values; an exploring step takes a random action with the configured probability and otherwise, like every exploiting step, the best one. Mutation changes each symbol, function, connection, activation, action or neuron count with the probability given by the rule's own current rate (ten times that for neuron counts, up to certainty), and moves each bound, centre, spread, weight and evolved learning rate by a normal step whose standard deviation is that rate. Before each mutation the rates themselves adapt: by a log-normal step of unit deviation, or, for trees and networks, one time in ten by choosing anew among the ten fixed rates.",
 [H, C], "all representations with variation operators, probabilities and rates",
 "Tests run each operator once or twice; a wrong probability never shows in a single draw.",
 ["sam.c","ea.c","cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","gp.c","cond_gp.c","dgp.c","act_integer.c","pred_nlms.c","neural_layer.c","xcs_rl.c","utils.c"],
 [("self-adaptive rates","sam.c"),("uniform crossover","cond_rectangle.c"),("don't-care probability","cond_ternary.c"),("explore or exploit","xcs_rl.c")],
 ["contents of rules around each operator; action chosen in each step"])

with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
