TRIAL = ["clset_match", "clset_update", "ea"]
PROPS = {
    "P01": {
        "rule": "distinct (configuration, operation history) pairs run to completion under the sanitizers",
        "parts": [
            {"name": "life", "src": "p01.cpp", "variant": "asan", "require": {"histories": 500}},
            {"name": "uninit", "src": "p01.cpp", "variant": "vg", "defs": ["-DMEMCHECK"], "libs": ["-lgomp"], "cpu": 90,
             "prefix": ["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=yes", "--leak-check=no", "--num-callers=8"],
             "require": {"histories": 100}},
        ],
    },
    "P05": {
        "rule": "distinct full population contents audited (hash over all rules)",
        "parts": [
            {"name": "audit", "src": "p05.cpp", "wrap": TRIAL + ["cl_free"],
             "require": {"audits": 1000}},
        ],
    },
    "P06": {
        "rule": "distinct (population, input) pairs whose match set was recomputed",
        "parts": [
            {"name": "sets", "src": "p06.cpp", "wrap": ["clset_match", "clset_action"],
             "require": {"match_sets": 1000}},
        ],
    },
    "P07": {
        "rule": "distinct (rule, input, decision) triples judged by the independent evaluator",
        "parts": [
            {"name": "match", "src": "p07.cpp", "wrap": ["clset_match"],
             "require": {"single_evaluations": 1000}},
        ],
    },
    "P08": {
        "rule": "distinct (rule pair, verdict) and (set before, set after) contents judged",
        "parts": [
            {"name": "subsume", "src": "p08.cpp",
             "wrap": ["clset_update", "ea", "cl_free", "clset_pset_enforce_limit"],
             "require": {"pairs": 1000, "set_updates": 1000}},
        ],
    },
    "P09": {
        "rule": "distinct (match set, input) contents whose prediction array was recomputed",
        "parts": [
            {"name": "output", "src": "p09.cpp", "wrap": ["clset_match", "pa_build"],
             "require": {"predicted_rows": 1000, "decisions": 100}},
            {"name": "python", "py": "pytwin.py", "env": {"TWIN": "cover"}, "require": {"histories": 500, "rows": 2000, "call_score": 300}},
        ],
    },
    "P10": {
        "rule": "distinct set contents whose update was recomputed",
        "parts": [
            {"name": "credit", "src": "p10.cpp", "wrap": ["clset_update"],
             "require": {"histories": 1000}},
        ],
    },
    "P11": {
        "rule": "distinct (set, time) states at which the evolutionary step was observed",
        "parts": [
            {"name": "evolve", "src": "p11.cpp",
             "wrap": ["ea", "cl_free", "cl_copy", "cl_crossover", "cl_mutate", "clset_pset_enforce_limit"],
             "require": {"histories": 1000}},
        ],
    },
    "P12": {
        "rule": "distinct (population, vote or fitness profile) for which repeated draws were counted",
        "parts": [
            {"name": "chance", "src": "p12.cpp", "require": {"cases": 400}},
        ],
    },
    "P13": {
        "rule": "distinct (weights, input, target) states whose prediction and update were recomputed",
        "parts": [
            {"name": "linear", "src": "p13.cpp", "wrap": ["clset_update", "pa_build"],
             "require": {"histories": 1000}},
        ],
    },
    "P14": {
        "rule": "distinct (architecture, weights, input) triples evaluated independently",
        "parts": [
            {"name": "network", "src": "p14.cpp", "require": {"histories": 500, "gradients": 5000}},
        ],
    },
    "P15": {
        "rule": "distinct rule contents after an operator",
        "parts": [
            {"name": "variation", "src": "p15.cpp", "require": {"histories": 500, "copies": 1000, "crossovers": 100}},
        ],
    },
    "P16": {
        "rule": "distinct system states saved and loaded (hash over all parameters, statistics and rules)",
        "parts": [
            {"name": "saveload", "src": "p16.cpp", "require": {"histories": 500, "continued_runs": 500}},
        ],
    },
    "P25": {
        "rule": "distinct argument values judged (at most eight vectors and eight points counted per case)",
        "parts": [
            {"name": "functions", "src": "p25.cpp", "require": {"vectors": 1000}},
        ],
    },
    "P17": {
        "rule": "distinct rule contents exported and imported (at most 40 counted per population)",
        "parts": [
            {"name": "json", "src": "p17.cpp", "require": {"trees_exported": 1000, "networks_exported": 1000, "histories": 500, "imports": 500, "partial_rules": 500}},
            {"name": "python", "py": "pytwin.py", "env": {"TWIN": "json"}, "require": {"histories": 500, "call_json": 500, "call_json_read": 50, "call_json_insert_cl": 50}},
        ],
    },
    "P18": {
        "rule": 'distinct parameter documents imported (valid, invalid and complete configurations)',
        "parts": [
            {'name': 'params', 'src': 'p18.cpp', 'require': {'values_set': 20000, 'refusals_judged': 2000, 'exports_reimported': 1000, 'full_configurations': 500}},
            {'name': 'keywords', 'py': 'p18.py', 'require': {'values': 5000, 'others_checked': 5000, 'systems': 500}},
        ],
    },
    "P23": {
        "rule": 'distinct reinforcement learning histories (configuration, final population size and error)',
        "parts": [
            {'name': 'rl', 'src': 'p23.cpp', 'wrap': ['pa_build', 'clset_action', 'clset_update', 'ea'], 'require': {'steps': 5000, 'previous_sets': 2000, 'terminal_sets': 1000, 'errors_judged': 2000}},
            {'name': 'python', 'py': 'pytwin.py', 'env': {'TWIN': 'rl'}, 'require': {'histories': 500, 'steps': 2000, 'call_error': 1000, 'states_compared': 1000}},
        ],
    },
    "P24": {
        "rule": 'distinct multiplexer problems, mazes, data sets and configuration texts',
        "parts": [
            {'name': 'env', 'src': 'p24.cpp', 'require': {'mux_actions': 10000, 'maze_percepts': 10000, 'maze_goals': 200, 'csv_values': 20000, 'config_files': 500}},
        ],
    },
    "P30": {
        "rule": 'distinct (problem, configuration) pairs the program ran to its end',
        "parts": [
            {'name': 'program', 'src': 'p30.cpp', 'variant': 'asan', 'extra': ['p30_main.c'], 'require': {'programs_csv': 300, 'programs_mp': 300, 'programs_maze': 200, 'resumed': 150, 'reports': 1500, 'second_figures': 800, 'refusals': 30}},
        ],
    },
    "P31": {
        "rule": 'distinct (configuration, probabilities) pairs whose draws were tallied',
        "parts": [
            {'name': 'rates', 'src': 'p31.cpp', 'require': {'draws': 5000000, 'tallies': 5000, 'mutations': 500000, 'crossovers': 50000, 'covers': 50000, 'decisions': 20000, 'cases_networks': 100}},
        ],
    },
    "P26": {
        "rule": 'distinct trained systems inspected and used for inference',
        "parts": [
            {'name': 'purity', 'src': 'p26.cpp', 'wrap': ['clset_update', 'ea'], 'require': {'test_evaluations': 1000, 'rules_compared': 10000, 'predictions_repeated': 5000, 'op_predict': 500, 'op_save': 200, 'op_export': 200}},
        ],
    },
    "P04": {
        "rule": 'distinct (final state, call sequence) pairs reproduced by a second run',
        "parts": [
            {'name': 'repeat', 'src': 'p04.cpp', 'wrap': ['time'], 'require': {'histories': 500, 'states_compared': 3000, 'other_seeds': 100}},
        ],
    },
    "P02": {
        "rule": 'distinct (configuration, history) pairs after which every block was accounted for',
        "parts": [
            {'name': 'account', 'src': 'p02.cpp', 'wrap': ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'fopen', 'fclose'], 'libs': ['-rdynamic', '-ldl'], 'require': {'histories': 1000, 'growth_histories': 100, 'parameter_histories': 100, 'program_csv': 20, 'program_mp': 20, 'program_maze': 20}},
            {'name': 'python', 'py': 'p02.py', 'preload': 'memtrack.c', 'env': {'OMP_NUM_THREADS': '1'}, 'require': {'lives': 2000, 'lives_balanced': 1000, 'blocks_followed': 1000000, 'op_fit': 50, 'op_json': 50, 'op_saveload': 50}},
        ],
    },
    "P03": {
        "rule": 'distinct (configuration, drawn interleaving) pairs compared with the single-threaded run, and distinct histories under the race detector',
        "parts": [
            {'name': 'races', 'src': 'p03.cpp', 'variant': 'tsan', 'extra': ['gomp.cpp'], 'defs': ['-DRACES'], 'cpu': 90, 'require': {'histories': 200, 'parallel_regions': 5000}},
            {'name': 'schedules', 'src': 'p03.cpp', 'variant': 'sched', 'extra': ['gomp.cpp'], 'cpu': 90, 'require': {'schedules': 1000, 'switches': 5000, 'parallel_regions': 10000}},
        ],
    },
    "P20": {
        "rule": 'distinct (layout, type, shape) of arrays, refused kinds of call and histories compared with the contiguous run',
        "parts": [
            {'name': 'layouts', 'py': 'p20.py', 'require': {'histories': 500, 'arrays': 2000, 'refusals': 500}},
            {'name': 'asan', 'py': 'p20.py', 'variant': 'asan', 'require': {'histories': 50}},
        ],
    },
    "P21": {
        "rule": 'distinct (workload, trial count, period, row count, options) histories whose records were recomputed',
        "parts": [
            {'name': 'fit', 'py': 'p21.py', 'require': {'exact_histories': 200, 'twin_histories': 200, 'scores': 500, 'drawn_scores': 500, 'callback_runs': 100}},
            {'name': 'python', 'py': 'pytwin.py', 'env': {'TWIN': 'fit'}, 'require': {'histories': 500, 'call_fit': 1000}},
        ],
    },
    "P19": {
        "rule": 'distinct stored populations followed to their retrieval, and distinct callback histories',
        "parts": [
            {'name': 'store', 'src': 'p19.cpp', 'require': {'retrievals': 1000, 'stored_copies_checked': 1000, 'predictions_compared': 1000}},
            {'name': 'callbacks', 'py': 'p19.py', 'require': {'best_populations_compared': 200, 'checkpoints_loaded': 200, 'early_stops': 100, 'restored_at_end': 50}},
        ],
    },
    "P27": {
        "rule": "distinct (configuration, network contents) before surgery and distinct histories whose figures were recomputed",
        "parts": [
            {"name": "surgery", "src": "p27.cpp", "wrap": ["clset_match", "clset_action"], "require": {"networks_compared": 5000, "classifiers": 500, "expansions": 500, "match_averages": 5000, "layer_figures": 1000}},
        ],
    },
    "P28": {
        "rule": "distinct (configuration, history of method calls) pairs mirrored by the core's own operations",
        "parts": [
            {"name": "twin", "py": "pytwin.py", "env": {"TWIN": "all"}, "require": {"histories": 800, "states_compared": 3000, "call_fit": 500, "call_pred_expand": 50, "call_load": 50, "call_print_pset": 100}},
        ],
    },
    "P29": {
        "rule": "distinct trees and graphs (of trained systems and generated) whose recorded picture was read back",
        "parts": [
            {"name": "pictures", "py": "p29.py", "require": {"trees": 3000, "graphs": 3000, "trained_rules": 2000, "named_pictures": 2000}},
        ],
    },
    "P22": {
        "rule": 'distinct populations copied (by way of copying) and distinct interleavings of several systems',
        "parts": [
            {'name': 'copies', 'py': 'p22.py', 'require': {'pickles': 500, 'several': 200, 'others_checked': 500, 'continued_fit': 200}},
        ],
    },
}

# method that decides each property, and what the verdict rests on
_META = {
    "P01": ("AddressSanitizer + UndefinedBehaviorSanitizer + memcheck over random life-cycle histories",
            "No sanitizer report on the histories run; assumes the sanitizers' own soundness. Inputs are finite; configurations come from the documented ranges."),
    "P05": ("online audit of the population around every trial, match, update and evolutionary step",
            "Exact on every observed state; states come from random configurations and operation histories."),
    "P06": ("online oracle: every match/action set recomputed by evaluating each rule independently",
            "Exact on every observed match; the acceptance of tree, graph and network conditions is re-evaluated on copies."),
    "P07": ("online oracle: independent re-implementation of every condition's meaning, boundary-biased inputs",
            "Exact on every observed evaluation; values within rounding of a boundary are only judged when exactly representable."),
    "P08": ("online oracle on subsumption decisions plus witness search for inputs the absorbed rule accepts and the absorber does not",
            "Soundness of generality judged by exact interval/ternary reasoning; ellipsoids by axis extremes as specified."),
    "P09": ("online oracle: prediction arrays, decisions and default answers recomputed from the match set",
            "Relative tolerance 1e-9 on weighted means; ties between best actions are all accepted."),
    "P10": ("online oracle: every set update recomputed from the state before it",
            "Relative tolerance 1e-9; the rule's own prediction and loss are computed independently."),
    "P11": ("trace checker over selection, crossover, mutation, insertion and deletion events of every evolutionary step",
            "Exact on every observed step; averaging in either order of the two parents is accepted within tolerance."),
    "P12": ("statistical monitor: observed frequencies of repeated draws against the specified probabilities (false-alarm bound below 1e-9 per run)",
            "Detects deviations larger than the sampling error of the number of draws made."),
    "P13": ("online oracle: predictions and weight steps recomputed in extended precision",
            "Relative tolerance on weights scaled by conditioning; ill-conditioned RLS states are skipped and counted."),
    "P14": ("online oracle: independent forward evaluation of every layer; weight steps against numerical gradients of that evaluation",
            "Gradients are compared for feed-forward stacks away from kinks of the activations."),
    "P15": ("well-formedness monitor after every operator; byte-level comparison of rules around copies and no-change reports",
            "Exact on every observed operator application."),
    "P16": ("differential monitor: original and reloaded system compared field by field and run on in lockstep",
            "Bit-for-bit on every observed save point; same machine and build on both sides."),
    "P25": ("value oracle: every loss and activation compared with independently written formulas and numerical derivatives",
            "Relative tolerance 1e-9 (values), 1e-8 (gradients); activations on the clamped neuron range."),
    "P17": ("differential monitor: exported JSON parsed and compared with the rules' contents; re-imported populations compared field by field and by prediction",
            "Decimal rounding of 1e-14 allowed; predictions compared bit for bit where the import is exact."),
    "P18": ('range-table oracle: each parameter document imported into a live system, the fields in force and the report read back; refusals observed as exit status and message of a forked process',
            'Exact for values in force; 1e-14 for reported decimals. Keyword arguments are covered through the Python part.'),
    "P23": ('trace checker over environment conversations and intercepted set updates: which rules, on which state, with which payoff, with or without evolution, and the resulting error',
            'Exact sets and states, payoffs and errors to 1e-9; steps whose previous action set has been deleted completely are accepted either way.'),
    "P24": ('model oracle: every environment call compared with an independent model of multiplexer, maze, table and configuration text, also inside learning runs',
            'Exact. Rectangular mazes, tables without empty fields.'),
    "P30": ("twin-run monitor: the program's main() in a process of its own under AddressSanitizer and UBSan; every printed line compared with the same experiment performed trial by trial through the library",
            "Printed figures to their five decimals; the first report's mean (one trial more) within that slack. Configurations fix the random seed."),
    "P31": ("frequency monitor: every draw left to chance is tallied against the probability it should have at that moment (configured, or read from the rule's own rates), judged by the deviation of the sums",
            "A deviation of seven standard deviations plus six events is reported, so chance never raises an alarm; smaller biases than about a tenth are not seen in one configuration."),
    "P26": ("before/after monitor: every field of every rule, the parameters and the caller's data compared around each inference and inspection call; predictions repeated in other batches",
            'Exact for state; 1e-12 for repeated predictions. Match counters and running set-size averages are outside the claim for inference.'),
    "P04": ('twin-run monitor: every history repeated from the same seed in a disturbed process (other systems, heap contents, clock, leftover Gaussian), complete state compared after each call',
            'Bit-for-bit on every compared state; histories come from random configurations. Runs with more than one thread leave out stochastic layers.'),
    "P02": ('allocation monitor: wrapped allocator and JSON allocation hooks record every block; quarantine for double release; blocks held compared with a fresh system of the same contents',
            'Exact for blocks from the C allocator and files opened by the library; growth is judged within half of what the contents need.'),
    "P03": ('ThreadSanitizer on an instrumented OpenMP runtime, plus controlled-interleaving twin runs compared bit for bit with the single-threaded run',
            'Happens-before race detection on the executed paths; interleavings are drawn at function entries, team sizes 1 to 8.'),
    "P20": ('online monitor: the same history run with contiguous doubles and with hostile layouts; refusals injected; AddressSanitizer build',
            'all comparisons are bit for bit'),
    "P21": ('online monitor: recorded metrics, row visits, scores and callback effects against an independent simulation of the rows and against the same fit cut into single periods',
            'chi-square bounds below 1e-9 for the two randomised parts'),
    "P27": ("online monitor: networks compared layer by layer around surgery and re-evaluated independently; every reported figure recomputed from the rules",
            "Exact for layers kept; 1e-9 for figures, 1e-7 for network outputs."),
    "P28": ("call-by-call twin: every method of the Python object mirrored by the documented core operations on a second system from the same random numbers; results and complete saved states compared",
            "Bit for bit on every mirrored call; the core operations themselves are judged by the other properties."),
    "P29": ("recording stand-in for the graphviz package: every picture read back as a tree or graph and compared with the exported rule it was made from",
            "Exact structure and order of operands; constants to four digits."),
    "P19": ('online monitor: the stored copy and the retrieved population against the contents read at the time of storing; callback outcomes against a twin system fitted period by period',
            'store/retrieve of the C library, and early stopping and checkpoints of the Python interface'),
    "P22": ('online monitor: original and copy driven in lockstep from equal random numbers; interleaved systems against each system alone',
            'pickle, copy, deepcopy, save/load and interleavings of 2-4 systems'),
}
for _k, (_t, _n) in _META.items():
    if _k in PROPS:
        PROPS[_k]["technique"], PROPS[_k]["note"] = _t, _n
