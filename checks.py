"""What each check builds and runs.  Read by check.py and tools/gen_manifest.py."""
_COMMON = ["-std=c++11", "-msse4.1", "-mfpmath=sse", "-fno-omit-frame-pointer", "-w", "-fPIC"]
CONFIGS = {
    # assertions on, AddressSanitizer, bounds-checked standard containers
    "chk": {"flags": _COMMON + ["-O1", "-g", "-DDIST_DEBUG_LEVEL=3", "-DDIST_THROW_ON_ERROR", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address"],
            "link": ["-fsanitize=address"]},
    # assertions on, no sanitizer, optimised (for large numeric sweeps)
    "dbg": {"flags": _COMMON + ["-O2", "-DDIST_DEBUG_LEVEL=3", "-DDIST_THROW_ON_ERROR"], "link": []},
    # the release configuration of CMakeLists.txt
    "rel": {"flags": _COMMON + ["-O3", "-ffast-math", "-funsafe-math-optimizations", "-DNDEBUG=1", "-DDIST_THROW_ON_ERROR"], "link": []},
    # assertions on, no sanitizer, barely optimised (models on Eigen, which are slow to compile)
    "niw": {"flags": _COMMON + ["-O1", "-DDIST_DEBUG_LEVEL=3", "-DDIST_THROW_ON_ERROR"], "link": []},
    "plain": {"flags": ["-std=c++17", "-O1", "-w", "-fPIC"], "link": []},
}
MC = "model_checking"


def parts(name, src, config, n, **kw):
    """The harness compiled n times, each with a part of its jobs (compiles in parallel)."""
    return [dict({"name": "%s_%d" % (name, i), "srcs": [src], "config": config, "harness_flags": ["-DPART=%d" % i]}, **kw) for i in range(n)]



SCHED = ["-rdynamic", "-ldl", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free"]

PYMODULES = ["has_cython", "rng_cc", "global_rng", "_eigen", "hp", "lp"]

CHECKS = {
    "C01": {
        "bins": parts("C01", "C01.cc", "chk", 3) + [
                 {"name": "C01niw", "srcs": ["C01niw.cc"], "config": "niw", "skip": []}],
        "level": MC, "technique": "explicit-state exploration of the real Group code",
        "note": "Exhaustive operation sequences (depth-first to a depth, breadth-first with state deduplication beyond) on the compiled Group code of all 7 models; every state is compared with a group rebuilt from its multiset of data. Bounded alphabets and depth.",
        "bounds": {"quick": "every operation sequence up to depth 4 (3 for the 256-dimensional model) over 17 operations on two groups, plus breadth-first closure to depth 6 with state deduplication, 2-3 hyperparameter settings per model",
                   "thorough": "depth 5 sequences, breadth-first depth 9"},
    },
    "C04": {
        "bins": parts("C04", "C04.cc", "chk", 4),
        "level": MC, "technique": "explicit-state exploration of the real mixture code against per-group scoring",
        "note": "Exhaustive histories of init, add/remove group and add/remove value on the compiled fast and small mixtures of all six models; after every step every value is scored for every group both ways. Bounded groups, values and depth.",
        "bounds": {"quick": "from 4 initial configurations: all histories to depth 4-5 (1-2 for the 256-dimensional model) with up to 3 groups, 3 values, counts up to 2; breadth-first to depth 4-6 with deduplication on all observable bits; every group count 1..37 with every 4th group dissolved; groups grown to 66000 values of one kind and emptied, checked at small and round sizes and around every power of two",
                   "thorough": "depth 5-6 histories, breadth-first depth 6-8, group counts 1..70"},
    },
    "C05": {
        "bins": parts("C05", "C05.cc", "chk", 3),
        "level": MC, "technique": "exhaustive enumeration of grids over enumerated mixture states on the real code",
        "note": "Every ordered list (with repetitions) of settings up to a length, on every small data configuration, executed on the compiled mixtures and compared with scoring each setting alone on a fresh mixture.",
        "bounds": {"quick": "all lists of length <= 4 over 5-6 settings plus one walk through all ordered pairs, over all 1-group and half of all 2-group data configurations with counts up to 2, some with 3 groups, none, or empty ones; dimension 256: length <= 2 on a fifth of the configurations; 20 larger configurations (groups of up to 1000 values, up to 130 groups) with all pairs, runs and lists of up to 300 settings",
                   "thorough": "lists of length <= 5"},
    },
    "C02": {
        "bins": parts("C02", "C02.cc", "chk", 2) + [{"name": "C02niw", "srcs": ["C02niw.cc"], "config": "niw", "skip": []}],
        "level": MC, "technique": "exhaustive enumeration of observation sequences on the real code against double-precision closed forms",
        "note": "Every ordered sequence of observations up to a length (all orders of every multiset), over a hyperparameter grid of every model; each state compared with an independent closed form and with the chained predictives. Known finding: bnb leaves out the binomial coefficient.",
        "bounds": {"quick": "25 bb, 36 bnb, 20 gp, 81 nich, 24 dd (dimensions 1..256), 32 dpd and 9 niw settings; all sequences of length 5-12 (4 for dd256) over 2-4 values; repeated data up to 400 copies of two values",
                   "thorough": "sequences of length 6-15"},
        "assumptions": ["tolerance per score: the stated accuracy of fast_log (6.2e-5), fast_lgamma (7e-6 of its argument) and fast_lgamma_nu (0.016) times their coefficients"],
    },
    "C03": {
        "bins": parts("C03", "C03.cc", "dbg", 2) + [{"name": "C03niw", "srcs": ["C03niw.cc"], "config": "niw", "skip": []}],
        "level": MC, "technique": "exhaustive enumeration of group states, each summed or integrated over its whole value domain",
        "note": "Every multiset of data up to a size over a hyperparameter grid of every model; the real scoring code is evaluated on the whole value domain (truncated where the remaining mass is bounded analytically). Known finding: bnb leaves out the binomial coefficient.",
        "bounds": {"quick": "data multisets of size <= 4-15 (40 for bb) plus repeated data; whole domain for bb, dd (dimension <= 256) and dpd including 'other'; gp to mean + 12 sd, bnb with a power-law tail, nich 600 and niw 70-800 quadrature points per axis (dimension 1-3)",
                   "thorough": "multisets of size <= 6-25"},
        "assumptions": ["quadrature error below 0.05 for 2- and 3-dimensional niw"],
    },
    "C06": {
        "bins": [{"name": "C06", "srcs": ["C06.cc"], "config": "chk", "proto": False}],
        "level": MC, "technique": "explicit-state exploration of the real clustering mixtures against a vector of sizes",
        "note": "All add/remove/init histories to a depth, then breadth-first until the bounded state space is closed, on the compiled MixtureDriver and PitmanYor::CachedMixture; sizes, empty ids, sample size and flags compared after every call.",
        "bounds": {"quick": "8 initial size vectors; all sequences to depth 7 (single values) or 5 (multiplicities), minus one from the longer vectors; breadth-first to closure or 60000 states with up to 8-12 values in 6-7 groups; long lives through 200 groups and groups of 1000 values, emptied in four orders",
                   "thorough": "depth 9 / 6, 400000 states"},
    },
    "C07": {
        "bins": [{"name": "C07", "srcs": ["C07.cc"], "config": "chk", "proto": False}],
        "level": MC, "technique": "explicit-state exploration of the real clustering mixtures against the priors' definitions",
        "note": "At every explored state the score vector, the data score and the removal scores are compared with the prior's own functions and with their definitions in double precision.",
        "bounds": {"quick": "20 Pitman-Yor and 6 low-entropy settings; all sequences to depth 5 (4 with multiplicities 1, 4, 20) from 8 initial size vectors, breadth-first to closure or 8000 states with up to 8 (50) values in 6 groups; long lives through 150 groups and groups of 400 values",
                   "thorough": "depth 7 / 5, 100000 states"},
    },
    "C09": {
        "bins": [{"name": "C09", "srcs": ["C09.cc"], "config": "chk", "proto": False}],
        "level": MC, "technique": "explicit-state exploration of the real id tracker against a list of ids",
        "note": "All init/add/remove sequences to a depth and breadth-first id states; both translations and the refusal of dead ids checked after every call.",
        "bounds": {"quick": "all sequences of depth 7 with init(0..3) and of depth 9 without, up to 5 groups; breadth-first depth 11 with up to 6 groups; sizes 1..150 with removals at every or every 7th position",
                   "thorough": "depth 8 / 11 / 13, sizes 1..400"},
    },
    "C08": {
        "bins": [{"name": "C08", "srcs": ["C08.cc"], "config": "chk"}],
        "level": MC, "technique": "explicit-state exploration of the combined clustering, feature mixtures and id tracker against a table of assignments",
        "note": "All assign/unassign histories of a few rows, driving the real clustering mixture, two or three real feature mixtures (all six models) and the real id tracker by the documented protocol; sizes, every group's data, ids and combined scores compared after every step with a rebuild from scratch.",
        "bounds": {"quick": "Pitman-Yor and low-entropy priors x 4 feature sets x 5 start configurations of 3-5 rows: all histories to depth 3-5, breadth-first 2500 states each from two of them",
                   "thorough": "depth 5-7, 30000 states"},
    },
    "C10": {
        "bins": [{"name": "C10", "srcs": ["C10.cc"], "config": "chk", "proto": False}],
        "level": MC, "technique": "exhaustive enumeration of all partitions and arrival orders, scored by the real code",
        "note": "Every integer partition (weighted by its number of set partitions), every order of its sizes with empty groups inserted anywhere, every labelled partition built along every arrival order; compared with the Ewens-Pitman formula in double precision.",
        "bounds": {"quick": "30 (concentration, discount) settings; totals over all partitions of up to 30 items, all size orders up to 10 items, all arrival orders of 10 items, removal scores on a grid of sizes up to 1e9, size lists up to 1e6",
                   "thorough": "45 / 12 / 12 items"},
    },
    "C11": {
        "bins": [{"name": "C11", "srcs": ["C11.cc"], "config": "chk", "proto": False}],
        "level": MC, "technique": "exhaustive enumeration of all partitions, scored by the real code, against exact partition functions",
        "note": "Every integer partition of full and partial data sets; the exact partition function comes from an independent recursion, partial data are compared with the documented approximation and (small data sets) with the exact marginal.",
        "bounds": {"quick": "full data sets of 1..42 items, 10 data set sizes with partitions of up to 24 items in every order (up to 8), exact marginals of data sets up to 20 items, partition function 0..420 exactly and to 2e9 against its documented form, add/remove scores over a grid to 1.6e7",
                   "thorough": "47 / 32 / 30 items"},
    },
    "C13": {
        "bins": [{"name": "C13", "srcs": ["C13.cc"], "config": "dbg", "proto": False},
                 {"name": "C13rel", "srcs": ["C13.cc"], "config": "rel", "proto": False}],
        "level": MC, "technique": "exhaustive enumeration of weight vectors, each measured over all generator states by interval bisection",
        "note": "Every weight vector of a length over an alphabet with zeros, tiny and huge entries; the set of generator states (2^31-2 of them) leading to each outcome is measured exactly by a lattice of states plus bisection of every interval's end. Assumes an outcome's states form intervals wider than the lattice step, as they do for inversion samplers.",
        "bounds": {"quick": "all likelihood vectors of length <= 4 over 7 values, all score vectors of length <= 4 over 7 values (with -inf) and 3 shifts, lengths 1..70 with patterned weights, urns of 1..40; 256-2048 lattice points plus 128 end states per vector",
                   "thorough": "score vectors of length 5, lengths 1..120, 1024-8192 lattice points"},
    },
    "C12": {
        "bins": [{"name": "C12", "srcs": ["C12.cc"], "config": "dbg", "proto": False}],
        "level": MC, "technique": "enumeration of generator states against the exact tree of label vectors",
        "note": "sample_assignments runs from every q-th state of the generator's cycle of 2^31-2 states; the fraction of states giving each label vector is compared with the exact sequential probability over the whole tree of label vectors (all 1..6 item partitions), long vectors by the conditional law of each join.",
        "bounds": {"quick": "20 Pitman-Yor and 5 low-entropy settings; 1.6-3.2 million states for every vector of up to 6 items, 19026 states for 200 items, and the first and last 2000 states",
                   "thorough": "51-119 million states, 590 thousand for 200 items"},
        "assumptions": ["fractions are compared within 7 standard deviations of the number of states plus 1e-4 absolute"],
    },
    "C15": {
        "bins": [{"name": "C15", "srcs": ["C15.cc"], "config": "dbg"}, {"name": "C15niw", "srcs": ["C15niw.cc"], "config": "niw", "flags": ["-O2"], "skip": []}],
        "level": MC, "technique": "enumeration of generator states against the scored probability of every cell of the value domain",
        "note": "sample_value and Sampler run from every q-th state of the generator's cycle of 2^31-2 states; the fraction of states whose result lies in each cell of the value domain is compared with the cell's total score, and every sampled value must be in the domain and score finitely. Equidistribution of the enumerated states is an assumption.",
        "bounds": {"quick": "nine hyperparameter settings per model (three for the normal inverse Wishart in 1-5 dimensions) x 4-6 data sets each; 349866 states per setting (209290 or 14949 for the large models), two draws per state for NIW",
                   "thorough": "every setting of the grids (8-81 per model); 11 million states per setting"},
        "assumptions": ["fractions are compared within 7 standard deviations of the number of states plus 1.5e-4 absolute and the documented accuracy of the scores", "beta negative binomial settings keep alpha >= 3 except where only termination is checked"],
    },
    "C14": {
        "bins": [{"name": "C14", "srcs": ["C14.cc"], "config": "niw", "skip": []}],
        "py": "C14.py", "pybuild": PYMODULES,
        "level": MC, "technique": "exhaustive enumeration of call histories (ordered pairs and triples) on the real samplers and scorers",
        "note": "Every operation's result and final generator state, as the first call of a process, is compared with what it gives after every other operation, pair of operations, on shared and separate generators, on the global generator, in a new thread, over different heap and stack garbage; scoring and updating operations must leave the generator alone. The Python samplers of every flavor get the same treatment: equal seeds, every ordered pair of operations, and which of the three generators of a Python program moved.",
        "bounds": {"quick": "about 114 Python operations, all ordered pairs from 1 seed (thorough: 3 seeds, three settings a model); about 110 operations (random.hpp, both priors, nine model instances: groups, scorers, samplers, mixtures): all ordered pairs from 4 generator states, all ordered triples of the sampling operations from 1",
                   "thorough": "12 generator states, triples from all of them"},
    },
    "C16": {
        "bins": [{"name": "C16", "srcs": ["C16.cc"], "config": "dbg", "proto": False}, {"name": "C16rel", "srcs": ["C16.cc"], "config": "rel", "proto": False},
                 {"name": "C16chk", "srcs": ["C16.cc"], "config": "chk", "proto": False, "harness_flags": ["-DFEW"]}],
        "level": MC, "technique": "exhaustive enumeration of the functions' float inputs against double precision",
        "note": "Every positive float (thorough; in the quick tier one of every 512-4096 at changing places, plus 600 floats around every half binade and both ends of each domain) goes through the real functions; errors are judged per binade against twice the published approximation's error. Checked, optimised and fast-math builds; the table accesses of the checked build are under AddressSanitizer.",
        "bounds": {"quick": "about 16 million floats per build for logarithm, exponential, log gamma and its difference; log factorial of 0..2^20 and of 27000 larger integers; log beta, log binomial, log-sum-exp and multivariate log gamma on grids",
                   "thorough": "every float of every domain (2^31 for the logarithm)"},
        "assumptions": ["subnormal inputs are only required to give a finite result below -87"],
    },
    "C17": {
        "bins": [{"name": "C17", "srcs": ["C17.cc"], "config": "dbg", "proto": False}, {"name": "C17rel", "srcs": ["C17.cc"], "config": "rel", "proto": False},
                 {"name": "C17chk", "srcs": ["C17.cc"], "config": "chk", "proto": False}],
        "level": MC, "technique": "exhaustive enumeration of lengths, layouts and distinguished elements on the real kernels",
        "note": "Every kernel at every length, at six placements against inaccessible pages, with a distinguished element at every position, against double precision (elementwise within rounding, minimum and maximum exactly); inputs and surroundings must keep their bits. Allocator: every size, and every short history of growth, copy, move and removal.",
        "bounds": {"quick": "lengths 0..70 and four up to 4099, every position, 2-5 marks, three builds; allocations of 1..800 elements, vector histories of depth 6 over 8 operations",
                   "thorough": "lengths 0..300, every position; allocations to 4000, depth 7"},
    },
    "C20": {
        "bins": [{"name": "C20", "srcs": ["C20.cc"], "config": "chk", "proto": False}],
        "level": MC, "technique": "exhaustive enumeration of operation histories on the real containers against std::map and std::vector",
        "note": "Every sequence of legal operations on the sparse map, on a pair of sparse counters (merging both ways, renaming, debts) and on packed vectors of three element types; content, iteration, totals and return values compared after every step.",
        "bounds": {"quick": "map: 3 keys, 18-20 operations, depth 4, three key/value types; counters: about 90 operations, depth 3, and breadth-first over 12000 contents with counts -4..4; packed vector: depth 7-8; 2000 keys at six strides",
                   "thorough": "map depth 5, counter depth 4, 200000 contents, packed depth 9"},
    },
    "C21": {
        "bins": [{"name": "C21", "srcs": ["C21.cc"], "config": "dbg"}],
        "level": MC, "technique": "exhaustive enumeration of operation histories and generator states on the real shared state",
        "note": "Every sequence of adding, removing, saving and loading over three values, each new value under several generator states including the extreme ones, realised at every point and continued after it; after every step weights, counts and total mass are compared with a plain record of the history.",
        "bounds": {"quick": "depth 4 from the empty state for eight concentrations (0.001 to 1000000) and from four loaded states, 5 generator states per new value; 400 new values in a row; 600 add/remove cycles",
                   "thorough": "depth 5, 12 generator states"},
        "assumptions": ["the total may exceed one by 1.2e-6 per new value, the documented minimal weight"],
    },
    "C22": {
        "bins": [{"name": "C22", "srcs": ["C22.cc"], "config": "dbg"}, {"name": "C22niw", "srcs": ["C22niw.cc"], "config": "niw", "skip": []}],
        "level": MC, "technique": "exhaustive enumeration of reachable states, objects to load into, and continuations on the real dump and load code",
        "note": "Every group reached by a short history of each model is dumped, serialized, parsed and loaded into fresh and differently used objects; content, internal state, scores, samples and every continuation are compared with the original. Likewise hyperparameters, clustering priors and Dirichlet-process states; messages of every inconsistent shape must be rejected.",
        "bounds": {"quick": "histories of depth 4 (2 for the normal inverse Wishart), continuations of depth 2, up to 5 objects to load into, three settings per model; extreme field values; all small shape combinations",
                   "thorough": "depth 6, continuations of depth 3"},
        "assumptions": ["sampled values of the Dirichlet process depend on table order and are not compared draw by draw"],
    },
    "C23": {
        "bins": [{"name": "C23", "srcs": ["C23.cc"], "config": "chk"}],
        "level": MC, "technique": "exhaustive enumeration of small object states times a catalogue of misuse on the real checked build",
        "note": "Every small reachable state of clustering mixtures, id trackers, containers, Dirichlet-process weights, groups and feature mixtures meets every recognisable misuse: an error must be raised and the object must afterwards show the same content and scores as before, and evolve as an untouched copy does. Compiled with checks and AddressSanitizer.",
        "bounds": {"quick": "clustering mixtures to depth 4, trackers to depth 5, groups with counts up to 2 of three values, mixtures of up to two groups, six models",
                   "thorough": "depth 5 and 6, counts up to 3, mixtures of three groups"},
        "assumptions": ["only misuse the checked build can recognise is in the catalogue (removing a value a group does not hold is allowed debt for some models and unrecognisable for others)"],
    },
    "C24": {
        "bins": [{"name": "C24", "srcs": ["C24.cc"], "config": "dbg", "harness_flags": ["-DPEER_ENV=\"BIN_C24rel\""]},
                 {"name": "C24niw", "srcs": ["C24niw.cc"], "config": "niw", "skip": [], "harness_flags": ["-DPEER_ENV=\"BIN_C24niwrel\""]},
                 {"name": "C24rel", "srcs": ["C24.cc"], "config": "rel", "driver_only": True, "harness_flags": ["-DPEER_ENV=\"none\""]},
                 {"name": "C24niwrel", "srcs": ["C24niw.cc"], "config": "rel", "skip": [], "driver_only": True, "harness_flags": ["-DPEER_ENV=\"none\""]}],
        "level": MC, "technique": "exhaustive enumeration of call histories, run in lockstep by the checked and the release build of the real code",
        "note": "Every history of legal calls runs in a build with the checks on and in one compiled as the project releases it (optimised, fast math, checks off); every integer result must be the same, every score and statistic the same to rounding, every sampled result and generator state the same except for isolated rounding ties.",
        "bounds": {"quick": "six models plus the normal inverse Wishart: group and mixture histories of depth 3-4, 600 samples of three groups each (300 for NIW); clustering mixtures to depth 4, id trackers to 7, containers and Dirichlet-process weights to 4; 4000 draws of every sampler",
                   "thorough": "one to two steps deeper, 4000 samples, 20000 draws"},
        "assumptions": ["one in 500 sampled results may differ, because rounding may tip a comparison"],
    },
    "C18": {
        "bins": [{"name": "C18", "srcs": ["C18.cc"], "config": "dbg", "proto": False, "harness_flags": ["-fsanitize=thread", "-DSCHEDULES"], "lib_flags": ["-fsanitize=thread"], "plain_srcs": ["sched_rt.cc"], "link": SCHED},
                 {"name": "C18chk", "srcs": ["C18.cc"], "config": "chk", "proto": False}, {"name": "C18rel", "srcs": ["C18.cc"], "config": "rel", "proto": False}],
        "level": MC, "technique": "stateless exploration of thread schedules of the real code with a happens-before race detector; exhaustive enumeration of rows",
        "note": "The compiler reports every memory access, lock, guard and atomic of the real code to a scheduler that runs one thread at a time in a fresh process per schedule: all interleavings of the lock operations, and every single preemption at each memory access. Any unordered conflicting pair of accesses is a race; rows must be what one thread gets alone. Row values are compared with the recurrence in double precision.",
        "bounds": {"quick": "2 threads x 1-2 rows, 3-4 threads x 1-2 rows: all interleavings where there are at most 800, otherwise two preemptions; one preemption at every access for small rows; caches of 0-32 rows; values of rows 0..1500",
                   "thorough": "all interleavings up to 500000 per program, rows to 6000"},
        "assumptions": ["atomics are explored as sequentially consistent (ordering edges follow the requested memory order)", "approximate rows are judged against the approximation documented in the code, in double precision"],
    },
    "C19": {
        "bins": [dict(name="C19_%d" % i, srcs=["C19.cc"], config="dbg", harness_flags=["-fsanitize=thread", "-DPART=%d" % i], lib_flags=["-fsanitize=thread"], plain_srcs=["sched_rt.cc"], link=SCHED) for i in range(4)]
                + [dict(name="C19niw", srcs=["C19niw.cc"], config="niw", skip=[], harness_flags=["-fsanitize=thread"], lib_flags=["-fsanitize=thread"], plain_srcs=["sched_rt.cc"], link=SCHED)],
        "level": MC, "technique": "stateless exploration of thread schedules of the real code with a happens-before race detector",
        "note": "Two and three real threads score shared groups, mixtures, clustering mixtures and priors: every order of synchronisations, then one preemption at points spread over all memory accesses, a fresh process per schedule. Every unordered pair of conflicting accesses is reported in whichever schedule runs (the code under test has no synchronisation, so a schedule without a race stands for all); results must equal those of each thread alone.",
        "bounds": {"quick": "all pairs of about 18 operations per model (seven models), both priors, 8 library functions; selected triples and two-operation threads; one preemption at about 25 points",
                   "thorough": "three hyperparameter settings, all triples, preemption at about 300 points"},
        "assumptions": ["memory accesses inside the C and C++ runtime libraries are not instrumented", "data scoring of the Dirichlet mixture is excepted, as documented"],
    },
    "C25": {
        "py": "C25.py", "pybuild": PYMODULES, "timeout": 600,
        "level": MC, "technique": "exhaustive enumeration of operation histories run in all Python flavors at once",
        "note": "Every sequence of add, repeated add, remove, merge and init on two groups, in the debug, high-precision and low-precision modules built from the working tree; after every step all statistics are compared with the list of values each group should hold, all predictive and data scores between the flavors and with the debug flavor's posterior.",
        "bounds": {"quick": "2-6 parameter settings per model; depth 7 (beta-bernoulli), 5 (counts and categories), 4 (normal), 3 (multivariate normal); 2-3 values; long histories to counts of 1000; Dirichlet-process weights to depth 6",
                   "thorough": "one to two steps deeper, repeats of 0, 2 and 3 values"},
        "assumptions": ["the package is translated to Python 3 as the sandbox's build does", "the low-precision flavor is allowed its documented approximations (3e-2 for the Student-t score below 17 degrees of freedom, else 4e-4 to 3e-3)"],
    },
    "C26": {
        "py": "C26.py", "pybuild": PYMODULES, "timeout": 600,
        "level": MC, "technique": "exhaustive enumeration of reachable states times dump/load paths times continuations on the real modules",
        "note": "Every reachable pair of groups, every parameter setting, Dirichlet-process history and clustering prior goes through every dump and load path (dict, message, text of a message, mixin helpers), into fresh and used objects; dumps, scores and every continuation are compared with the original, and dicts, messages and other objects must stay as they were when either side is changed.",
        "bounds": {"quick": "group histories of depth 2-4 per model, setting and flavor; 3-9 shared settings with extremes; Dirichlet-process histories of depth 4 with realization under 3 generator states; 12 low-entropy sizes, 20 Pitman-Yor settings",
                   "thorough": "one to two steps deeper, 10 generator states"},
        "assumptions": ["the package is translated to Python 3 as the sandbox's build does"],
    },
    "C28": {
        "py": "C28.py",
        "level": MC, "technique": "exhaustive enumeration of record lists times crash points on the real stream code",
        "note": "Every list of records over a small alphabet is written by the real stream code in every format, the file is cut at every byte, and every reader must give leading records that were written, unchanged.",
        "bounds": {"quick": "lists of up to 3 records, all JSON and message formats, plain, gzip and bzip2, every byte", "thorough": "lists of up to 4 records"},
        "assumptions": ["stream.py runs from the working tree under Python 2 semantics supplied by the harness, because the sandbox's Python 3 translation of it cannot run"],
    },
    "C27": {
        "py": "C27.py", "pybuild": PYMODULES, "timeout": 600,
        "level": MC, "technique": "exhaustive enumeration of operation histories and draws on the real Python extension modules against plain lists",
        "note": "Every history of appending, adding and removing groups and values in each model's Python mixture, of both clustering mixtures and of the id tracker; sizes, flags, ids and every score are compared with plain lists and with groups kept one by one, including the arrays the scores are written into. Both low-entropy priors answer every small query, and the debug sampler runs through every sequence of draws.",
        "bounds": {"quick": "mixtures: four starts, depth 3-4, 2-6 settings of six models, churn to 24 groups; clustering mixtures: 26 starts, depth 5, 3-4 priors; tracker: depth 7; assignments of up to 6 values to 4 groups; partitions of up to 14 values and dataset sizes to a million",
                   "thorough": "one to two steps deeper, partitions of up to 20 values"},
        "assumptions": ["the package is translated to Python 3 as the sandbox's build does", "scores may differ by the tables' documented resolution"],
    },
    "C29": {
        "bins": [{"name": "C29", "srcs": ["C29.cc"], "config": "niw", "flags": ["-O2"], "skip": []}],
        "level": MC, "technique": "enumeration of generator states against the cells of the named distribution",
        "note": "Every sampler of random.hpp run from every q-th state of the generator's cycle of 2^31-2 states over a grid of parameters; the fraction of states in each cell is compared with the exact distribution function (double precision). Vectors and matrices through the exact law of every axis, sum and difference. Densities against double-precision closed forms. Equidistribution of the enumerated states is an assumption.",
        "bounds": {"quick": "349866 states per setting (209290 for the matrix samplers), 24 cells each and 16 cells for two draws in a row; 48 gamma, 7 chi-square, 36 beta and 108 safe beta, 42 count, 23 Dirichlet and 10 matrix settings in 1-5 dimensions with 3 degrees of freedom each",
                   "thorough": "1.5 million states per setting (450000 for the matrices)"},
        "assumptions": ["fractions are compared within 7 standard deviations of the number of states plus 2e-4", "values below float's range or within 1e-6 of one are not told apart"],
    },
    "C30": {
        "py": "C30.py", "pybuild": PYMODULES, "timeout": 800,
        "level": MC, "technique": "enumeration of generator states against the cells of the scored distribution",
        "note": "Every Python sampler runs from a coset of the generator's states: the C++ generator is put into each state, numpy's is given the words a multiplicative generator puts out from each. The fraction of states in each cell is compared with the exponentiated scores of the same flavor (discrete values) or the exact posterior predictive law (real values and vectors, along axes, sums, differences and distance), and the first two values of sample_group with their joint law. The random functions of the debug, high- and low-precision modules are compared with the distributions they are named after.",
        "bounds": {"quick": "209286 states (high and low precision) or 19026 (debug), 4774-42966 for matrices and wide alphabets; 2-8 parameter settings per model and flavor, groups of 0, 1, 3, 30 and some 450 values; 12-16 cells each, 16 cells for pairs",
                   "thorough": "644490 and 209286 states"},
        "assumptions": ["the package is translated to Python 3 as the sandbox's build does", "fractions are compared within 6 standard deviations of the number of states plus 2e-4 (and 2e-3 for low-precision scores)"],
    },
    "C32": {
        "bins": [{"name": "C32", "srcs": ["C32.cc"], "config": "chk", "skip": []}, {"name": "C32niw", "srcs": ["C32niw.cc"], "config": "niw", "skip": []}],
        "py": "C32.py", "pybuild": PYMODULES,
        "level": MC, "technique": "exhaustive enumeration of pairs of data multisets on the real code, in two stages and at once",
        "note": "Every pair of data multisets up to a size, and pairs with large ones, over the hyperparameter grid of every model: the hyperparameters updated by the first (plus_group; the conjugate update for models without one), a group of the second under them, against one group of all the data under the first hyperparameters.",
        "bounds": {"quick": "the grids of C02; pairs of multisets of size <= 3-9 over 2-4 values, and with 20 or 300 copies of a value", "thorough": "sizes <= 4-13"},
        "assumptions": ["tolerances as in C02"],
    },
    "C31": {
        "py": "C31.py",
        "level": MC, "technique": "exhaustive enumeration of multinomial outcomes and generator states on the real goodness-of-fit code",
        "note": "Every outcome of a multinomial sample is given to the real test, with its exact probability, so that the distribution of the p-value is known exactly; continuous and discrete samples come from every state of a coset of generator states. Wrong distributions, impossible and certain outcomes, samples on the ends of the interval and every short list for the helpers are enumerated as well.",
        "bounds": {"quick": "8 multinomials of 2-4 cells and 36-1000 draws, with every truncation; 4774 states for 3 sizes of uniform samples, 7 densities and 9 discrete settings; 154 states per wrong distribution; lists of up to 6 samples, 3 scores",
                   "thorough": "multinomials of up to 5 cells, 19026 states, lists of up to 7 samples, 4 scores"},
        "assumptions": ["util.py runs from the working tree under Python 2 semantics supplied by the harness", "the chi-squared approximation is allowed 15% (at 0.5) to a factor 2.6 (at 0.001)"],
    },
}
