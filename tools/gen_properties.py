import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M="include/distributions/models/"
ALLM=[M+x+".hpp" for x in "bb bnb dd dpd gp nich niw".split()]
p("C01","A group's statistics depend only on the data it holds",
"For every component model, after any sequence of adding, repeatedly adding, removing and merging observations, a group scores and serializes like a group built from scratch out of the observations it then holds. The order of the operations, and the path by which the group came to hold its data, never matter (up to float rounding).",
["histories","inputs"],"every sequence of init/add/remove/add-repeated/merge operations on groups of each model, over small value alphabets and several hyperparameter settings",
"test_add_remove, test_add_repeated and test_add_merge run one shuffled order of one example list per model and only compare end points; add-repeated is tested only on an empty group and merge only on scores close to each other.",
ALLM+["include/distributions/sparse.hpp"],
[("incremental sufficient statistics: add_value / remove_value / add_repeated_value / merge of each Group","include/distributions/models/*.hpp"),("SparseCounter add / merge","include/distributions/sparse.hpp")],
[("sufficient statistics","counts, sums, means and variances of the group's data","Group structs in include/distributions/models/*.hpp")],["Group::score_value","Group::score_data","Group::protobuf_dump"])
p("C02","Data scores equal chained predictive scores and the closed form",
"For every component model and hyperparameter setting, the log score of a group's data equals the sum of the predictive log scores of the same observations added one at a time, in every order. Both equal the conjugate model's closed-form marginal and predictive likelihood within float accuracy.",
["inputs","histories"],"every multiset of observations up to a size over small alphabets, every order of adding it, over a grid of hyperparameters",
"Tests check one ordering of one example dataset per model (test_group) against the same code, with loose tolerances, and never against an independent closed form.",
ALLM+["include/distributions/special.hpp","include/distributions/random.hpp","src/models/niw.cc"],
[("Group::score_data, Group::score_value, Scorer","include/distributions/models/*.hpp"),("plus_group posterior update","gp, bnb, nich, niw headers")],None,["Group::score_value","Group::score_data"])
p("C03","Predictive scores are normalised over the whole value domain",
"For every component model, hyperparameter setting and group state, the exponentiated predictive scores sum (discrete values, including the 'other' value of the Dirichlet process) or integrate (real values) to one over the whole value domain.",
["inputs","histories"],"every group state reachable within the depth bound, each over its entire (effectively truncated) value domain and a hyperparameter grid",
"test_joint/test_sample_value estimate this from a few hundred random samples for one example per model; a biased normaliser for other counts or hyperparameters is invisible.",
ALLM+["include/distributions/special.hpp"],
[("Scorer::init / Scorer::eval of each model","include/distributions/models/*.hpp"),("fast_lgamma, fast_lgamma_nu, fast_log","include/distributions/special.hpp")],None,["Group::score_value"])
p("C04","Incremental mixture scores equal scoring each group on its own",
"For every component model with a mixture, after any history of initialising, adding and removing groups and adding and removing values, the mixture's predictive score of any value for any group, and the vector of scores it adds into the caller's buffer, equal those of that group scored on its own. Its total data score equals the sum over its groups.",
["histories"],"every sequence up to a depth of init/add-group/remove-group/add-value/remove-value on mixtures of each model, probing every value in the alphabet after each step",
"test_mixture_score performs one fixed add-all-then-remove-all pass per model; group removal from the middle, re-initialisation and values that disappear and return are not combined.",
["include/distributions/mixture.hpp"]+ALLM[:6]+["src/models/gp.cc","src/models/nich.cc","include/distributions/vector.hpp"],
[("MixtureSlave and the per-model MixtureValueScorer caches","include/distributions/mixture.hpp and include/distributions/models/*.hpp"),("packed_remove / packed_add swapping","include/distributions/vector.hpp"),("DPD value reference counts","include/distributions/models/dpd.hpp")],
[("cached score vectors","one entry per group kept in packed order","MixtureValueScorer private members")],["MixtureSlave::score_value","MixtureSlave::score_value_group","MixtureSlave::score_data"])
p("C05","Grid scoring of hyperparameters matches scoring them one at a time",
"For every mixture and every list of hyperparameter settings, in any order and with repetitions, grid scoring returns for each setting what scoring the whole mixture under that setting alone returns. Scoring one grid leaves the results of later scoring unchanged.",
["inputs","histories"],"every sequence up to a length of settings from a small hyperparameter set, on mixtures holding every small data configuration, including empty groups",
"No test exercises grid scoring at all; the Dirichlet model updates its answer incrementally from one setting to the next, so correctness depends on the order of settings.",
["include/distributions/mixture.hpp","include/distributions/models/dd.hpp"]+[M+x+".hpp" for x in "bb bnb dpd gp nich".split()],
[("score_data_grid default loop","include/distributions/mixture.hpp"),("incremental _update of the Dirichlet data scorer","include/distributions/models/dd.hpp")],None,["MixtureSlave::score_data_grid","MixtureSlave::score_data"])
p("C06","Cluster bookkeeping stays consistent under any add/remove history",
"After any sequence of adding and removing values (one or several at a time) in a clustering mixture, group sizes, the total sample size and the set of empty groups describe exactly the values currently assigned, and the number of empty groups never changes. The calls report exactly when a group was created or dissolved, and a dissolved group's slot is taken by the last group while all other ids keep their group.",
["histories"],"every sequence up to a depth of add/remove with group choice and multiplicity, from several initial size vectors, for both clustering priors",
"Tests drive one random sequence through the Pitman-Yor mixture only, and look at scores, not at sizes, empty ids or reported flags.",
["include/distributions/mixture.hpp","include/distributions/clustering.hpp"],
[("MixtureDriver::init/add_value/remove_value","include/distributions/mixture.hpp"),("CachedMixture forwarding","include/distributions/clustering.hpp")],
[("counts, empty ids, sample size","sizes of packed groups, which are empty, total","MixtureDriver")],["Mixture::counts","Mixture::empty_groupids","Mixture::sample_size"])
p("C07","Clustering mixture scores equal the prior's own assignment scores",
"After any history of the clustering mixture, the score vector it reports equals, for every group, the prior's posterior-predictive score of joining that group given the current sizes, with the new-cluster mass shared equally among the empty groups. For Pitman-Yor those probabilities sum to one, and the mixture's data score equals the prior's score of the non-empty group sizes.",
["histories","inputs"],"every add/remove sequence up to a depth from several initial size vectors over a grid of prior hyperparameters",
"One test compares the vector after a random sequence for five hyperparameter settings with a loose tolerance and always one empty group.",
["include/distributions/clustering.hpp","include/distributions/mixture.hpp","src/clustering.cc"],
[("CachedMixture _update_nonempty_group/_update_empty_groups and the score shift","include/distributions/clustering.hpp"),("score_add_value","include/distributions/clustering.hpp")],None,["Mixture::score_value","Mixture::score_data"])
p("C08","Any reassignment history leaves prior, features and ids in agreement",
"When rows are assigned to and removed from clusters in any order using the documented protocol (cluster mixture, feature mixtures and id tracker updated together), the cluster sizes, every feature group's data, and the row-to-cluster ids remain those of the actual assignment. The combined scores equal those of the same state rebuilt from scratch.",
["histories","programs"],"every sequence up to a depth of assign/unassign moves of a few rows over the clusters, with several feature models attached at once",
"No test combines the clustering mixture, feature mixtures and the id tracker; each is only exercised alone, so a renumbering disagreement between them is invisible.",
["include/distributions/mixture.hpp","include/distributions/clustering.hpp","doc/overview.rst"]+ALLM[:6],
[("returned created/dissolved flags drive MixtureSlave::add_group/remove_group and MixtureIdTracker","include/distributions/mixture.hpp"),("identical packed swap rule in all three","include/distributions/vector.hpp")],None,["MixtureDriver","MixtureSlave","MixtureIdTracker"])
p("C09","Global group ids are stable, unique and never reused",
"After any sequence of initialising, adding and removing groups, the id tracker's two translations are inverse to each other and cover exactly the live groups, each live group keeps the global id it was given when created, and a removed group's global id is never given out again (until re-initialised) nor translated.",
["histories"],"every sequence up to a depth of init(n)/add/remove(i)",
"The id tracker has no test at all.",
["include/distributions/mixture.hpp","distributions/lp/mixture.pyx"],
[("MixtureIdTracker add_group/remove_group swap fix-up","include/distributions/mixture.hpp")],None,["MixtureIdTracker::packed_to_global","MixtureIdTracker::global_to_packed"])
p("C10","Pitman-Yor scores form an exchangeable probability over partitions",
"For every concentration and discount, the exponentiated scores of all partitions of n items sum to one, the score does not depend on the order of the sizes or on empty groups, and it equals the sum of the sequential assignment scores along any order of arrival. The removal score is always the negative of the score of adding the value back.",
["inputs"],"every set partition of up to n items (and every composition and arrival order of its sizes) over a grid of hyperparameters",
"Tests normalise over partitions of one small size and one arrival order, by sampling; discount close to one, large concentration and larger sizes are not covered.",
["src/clustering.cc","include/distributions/clustering.hpp"],
[("PitmanYor::score_counts","src/clustering.cc"),("PitmanYor::score_add_value/score_remove_value","include/distributions/clustering.hpp")],None,["score_counts","score_add_value","score_remove_value"])
p("C11","The low-entropy prior matches its definition on every partition",
"On a full data set the low-entropy prior scores every partition by its cluster-size entropy minus the exact log partition function, so that all partitions' probabilities sum to one; for partial data it is exact up to its documented approximation, ignoring empty groups and the order of sizes. The score of removing a value is always the negative of the score of adding it back.",
["inputs"],"every set partition of up to n items, every data set size and sample size within bounds; the log partition function for every n up to several thousand",
"Tests check only two example data set sizes with the sampler's own approximate scores at loose tolerance; the removal score is never called.",
["src/clustering.cc","include/distributions/clustering.hpp","distributions/dbg/clustering.py"],
[("LowEntropy::score_counts, log_partition_function and its table","src/clustering.cc"),("LowEntropy::score_add_value/score_remove_value","include/distributions/clustering.hpp")],None,["score_counts","score_add_value","score_remove_value","log_partition_function"])
p("C12","Sampled partitions follow the clustering prior",
"For every prior setting, a sampled assignment vector labels clusters contiguously from zero in order of first appearance, and over the random generator's states each labelled partition occurs with the sequential probability that prior assigns to it.",
["inputs"],"the random generator's state space enumerated on a full or regularly spaced lattice, for each prior setting and small sample size, against the exact distribution over all partitions",
"Tests draw a few hundred random vectors and apply a chi-square test for two or three settings; a small bias or a rare invalid labelling passes.",
["src/clustering.cc"],
[("PitmanYor::sample_assignments","src/clustering.cc"),("LowEntropy::sample_assignments","src/clustering.cc")],None,["sample_assignments"])
p("C13","Discrete sampling returns each outcome with its stated probability",
"For every vector of probabilities, likelihoods or log scores, sampling returns an index in range, never an outcome of zero probability, and each index for the fraction of generator states equal to its normalised probability. The probability or score reported for an outcome is its normalised probability, whatever the scale of the scores.",
["inputs"],"every vector over a small alphabet of weights up to a length (including zeros and very large or very negative scores) times all outcomes of the uniform draw on a fine lattice including both extremes",
"Tests use a handful of random vectors and a chi-square test; the extreme draws that select zero-probability outcomes occur about once in two billion.",
["include/distributions/random.hpp","src/random.cc"],
[("sample_discrete, sample_from_likelihoods","include/distributions/random.hpp"),("scores_to_likelihoods, score_from_scores_overwrite, log_sum_exp","src/random.cc")],None,["sample_* and scores_to_* functions"])
p("C14","Sampling is reproducible and draws only from the given generator",
"Every sampling operation is a function of its arguments and the state of the generator it is given: from equal states it returns equal results and leaves equal states, independently of any other sampling done before, in between or on other generators. Operations that only score or update statistics do not advance the generator, except where scoring deliberately consumes as much as the matching sampler. In Python a seed fixes all later draws, the fast and high-precision flavors draw from the package's own generator only and the debug flavor from numpy's only.",
["histories","inputs"],"every ordered pair and triple of operations from the catalogue of sampling and scoring operations, from several generator states, with and without interleaved use of another generator",
"test_sample_seed repeats one call with one seed per model; hidden state carried from one call to the next, or use of another generator, is not excluded.",
["include/distributions/random.hpp","src/random.cc","distributions/global_rng.pyx","distributions/rng.py","distributions/lp/random.pyx","distributions/hp/random.pyx","distributions/dbg/random.py"]+ALLM,
[("samplers construct their distributions per call from the passed generator","include/distributions/random.hpp"),("SYNCHRONIZE_ENTROPY_FOR_UNIT_TESTING","src/random.cc")],None,["generator state before and after each call"])
p("C15","Sampled observations follow the predictive distribution",
"For every component model and group state, the values sampled for the group occur over the generator's states with the probabilities that its predictive scores state, and every sampled value lies in the model's domain with a finite score.",
["inputs"],"a regular lattice of the random generator's states (the complete state space in the thorough tier for the cheap models) for each model, hyperparameter setting and group state in a bounded set",
"test_sample_value and test_sample_group test 1000 random draws for the example parameters with a chi-square test and skip the multivariate normal and large-count cases.",
ALLM+["include/distributions/random.hpp","src/random.cc"],
[("Sampler::init / Sampler::eval","include/distributions/models/*.hpp"),("sample_dirichlet, sample_beta, sample_gamma, sample_normal_inverse_wishart","include/distributions/random.hpp, src/random.cc")],None,["Group::sample_value"])
p("C16","Fast math approximations are accurate on their whole domain",
"For every positive normal float, the fast logarithm, log-gamma, log-gamma-difference and log-factorial functions, and for every input in range the fast exponential, agree with the exact functions within a fixed small error bound, without jumps between table segments and without invalid memory access.",
["inputs"],"every 32-bit float in the domain of each function (thorough; in the quick tier every exponent with a dense lattice of mantissas and all table boundaries), every integer for log-factorial up to a bound",
"test_special compares a few thousand random points; a wrong table segment or coefficient affects one binade only.",
["include/distributions/special.hpp","src/special.cc","include/distributions/vendor/fmath.hpp"],
[("fast_log table lookup, piecewise polynomials and their coefficient tables","include/distributions/special.hpp, src/special.cc")],None,["fast_log","fast_exp","fast_lgamma","fast_lgamma_nu","fast_log_factorial","fast_log_beta","fast_log_binom","lmultigamma"])
p("C17","Vector kernels match scalar arithmetic at every length",
"For every length and content, each vector operation returns or stores exactly what the element-by-element definition gives, including for lengths that are not a multiple of the SIMD width, and touches no memory outside the given range. Memory handed out for vectors is always aligned as promised.",
["inputs","configurations"],"every length up to a bound, every position of a distinguished element, each kernel, in the checked and in the optimised fast-math build",
"No test calls the vector kernels directly; they are only used through one model's scores at one length.",
["src/vector_math.cc","include/distributions/vector_math.hpp","include/distributions/aligned_allocator.hpp","include/distributions/vector.hpp"],
[("vector_* kernels","src/vector_math.cc"),("aligned_allocator","include/distributions/aligned_allocator.hpp")],None,["vector_*","aligned_allocator"])
p("C18","Stirling-number rows are right for every size and thread schedule",
"For every n, the row of log Stirling numbers of the first kind has n+1 entries that are exact for small n and within the documented approximation for large n. Any number of threads asking for rows at the same time get the same rows as one thread asking alone, under every interleaving and without data races.",
["schedules","inputs"],"every n up to a bound; every interleaving, up to a preemption bound, of two or three threads requesting combinations of rows from a cold or partly filled cache",
"The test checks a few rows from a single thread; the cache grows under a lock that no test ever contends.",
["src/special.cc","include/distributions/special.hpp"],
[("mutex-guarded row cache","src/special.cc"),("exact recurrence below 32 and softmin approximation above","src/special.cc")],[("row cache","rows computed so far","src/special.cc")],["log_stirling1_row"])
p("C19","Concurrent read-only scoring gives the sequential results",
"Threads that score values against the same mixtures, groups and clustering mixtures at the same time, each with its own output buffer and generator and nobody modifying the shared objects, obtain exactly the results of a single thread, under every interleaving and without data races (data scoring of the Dirichlet mixture, documented as not thread safe, excepted).",
["schedules"],"every interleaving, up to a preemption bound at conflicting accesses, of two or three threads scoring different values and different mixtures for each model",
"No test uses threads.",
["src/models/gp.cc","src/models/nich.cc","include/distributions/mixture.hpp","include/distributions/clustering.hpp"]+ALLM[:6],
[("thread-local scratch vectors","src/models/gp.cc, src/models/nich.cc"),("const scorers without mutable state","include/distributions/models/*.hpp")],None,["MixtureSlave::score_value","MixtureSlave::score_data","CachedMixture::score_value"])
p("C20","Sparse and packed containers behave as plain maps and bags",
"After any sequence of operations, the sparse map and the sparse counter hold exactly the entries a plain map would, the counter never stores zeros and its total is the sum of its counts, also after merging and renaming. The packed vector removes exactly the requested element, moving only the last one.",
["histories"],"every sequence of operations up to a depth over a few keys and values, for the sparse map, the sparse counter (pairs of them, for merging) and the packed vector",
"The containers have no tests of their own; the models exercise only the add/remove pattern.",
["include/distributions/sparse.hpp","include/distributions/vector.hpp","include/distributions/trivial_hash.hpp"],
[("SparseCounter add/remove/merge/rename and total","include/distributions/sparse.hpp"),("packed_add/packed_remove","include/distributions/vector.hpp")],[("total","sum of all counts","SparseCounter")],["Sparse_","SparseCounter","Packed_"])
p("C21","Dirichlet-process weights conserve probability mass",
"After any sequence of adding and removing values, the shared Dirichlet-process state keeps weights for exactly the values in use, all positive, which together with the unused mass sum to one; known values keep their weight as long as they are in use. Realising the process leaves no unused mass and weights that still sum to one.",
["histories","inputs"],"every add/remove/realise/save-and-load sequence up to a depth over a few values, under a lattice of generator states and several concentrations including extreme ones",
"Tests add example values once, and never remove a value from the shared state and add it again.",
["include/distributions/models/dpd.hpp","include/distributions/sparse.hpp","distributions/dbg/models/dpd.py"],
[("Shared::add_value/remove_value/realize","include/distributions/models/dpd.hpp")],[("betas, beta0, counts","stick weights of known values, remaining mass, use counts","Shared")],["Shared::protobuf_dump","Shared::betas","Shared::beta0"])
p("C22","Serialized state restores a model that behaves identically",
"For every reachable shared and group state of every model and clustering prior, dumping to a message, serializing, parsing and loading gives an object that dumps to the same content, scores identically and evolves identically under further operations, whatever the loaded object held before. Messages of inconsistent shape are rejected.",
["histories","inputs"],"every state reachable within the depth bound of each model's groups and shared parameters, loaded into both fresh and previously used objects, followed by every continuation of a short length",
"test_protobuf round-trips the example shared parameters and one group per model, always into fresh objects, and never continues using them.",
ALLM+["include/distributions/clustering.hpp","distributions/io/schema.proto"],
[("protobuf_load / protobuf_dump","include/distributions/models/*.hpp, include/distributions/clustering.hpp")],None,["protobuf_load","protobuf_dump"])
p("C23","Checked builds report misuse and leave the object unchanged",
"In a build with checks on, misuse that can be recognised (bad group id, adding or removing zero values, removing more than a group holds, values outside the domain or unknown, duplicate or missing keys, stale ids, sizes that do not match, a clustering without an empty group) raises an error rather than corrupting state: afterwards the object behaves as before the call.",
["histories","inputs"],"every reachable small state of drivers, trackers, containers, groups and samplers times every misuse in a catalogue",
"No test triggers any of these checks.",
["include/distributions/common.hpp","include/distributions/mixture.hpp","include/distributions/sparse.hpp","include/distributions/models/dd.hpp","include/distributions/models/dpd.hpp","include/distributions/clustering.hpp"],
[("DIST_ASSERT family","include/distributions/common.hpp"),("precondition checks before mutation","include/distributions/mixture.hpp, include/distributions/sparse.hpp")],None,["exceptions under DIST_THROW_ON_ERROR"])
p("C24","The optimised release build computes what the checked build computes",
"Every history of operations gives the same group sizes, ids, statistics, sampled values and (up to float rounding) scores in the optimised release configuration without checks as in the checked configuration.",
["configurations","histories"],"every operation sequence up to a depth on clustering mixtures, feature mixtures, id trackers, Dirichlet-process weights and samplers, executed in both build configurations and compared step by step",
"The test build is always the checked configuration; the release configuration that users run is never executed.",
["CMakeLists.txt","include/distributions/common.hpp","include/distributions/mixture.hpp"]+ALLM,
[("checks have no side effects","include/distributions/common.hpp and every DIST_ASSERT use"),("fast-math flags","CMakeLists.txt")],None,["transcripts of both builds"])
p("C25","The model flavors agree on every operation history",
"For every model available in more than one Python flavor (debug, high-precision, low-precision), any history of add, repeated add, remove and merge operations on groups gives the same statistics and, within low-precision accuracy, the same predictive and data scores in all flavors.",
["histories","inputs"],"every operation sequence up to a depth over a small alphabet of values for each model and flavor, over each model's example parameters and more",
"test_model_flavors compares one add-only sequence per model and example.",
["distributions/dbg/models","distributions/hp/models","distributions/lp/models"],
[("three implementations of each Group/Shared interface","distributions/dbg/models, distributions/hp/models, distributions/lp/models")],None,["Group.score_value","Group.score_data","Group.dump"])
p("C26","Python model state round-trips through dicts and messages",
"In every flavor and for every reachable state, dumping a model or group to a plain dict or to a message and loading it back gives an equal object that behaves identically, the two formats agree with each other, and neither dumping nor loading aliases or alters the caller's data. This includes the clustering priors.",
["histories","inputs"],"every group state reachable within the depth bound and every example and boundary setting of shared parameters, in every flavor, through every dump/load path",
"Tests round-trip example states into fresh objects only; the low-entropy prior's message dump is never called in the fast flavor.",
["distributions/mixins.py","distributions/dbg/models","distributions/hp/models","distributions/lp/models","distributions/lp/clustering.pyx","distributions/dbg/clustering.py"],
[("load/dump/protobuf_load/protobuf_dump and the from_/to_ helpers","distributions/mixins.py and each model module")],None,["dump","protobuf_dump","from_dict","from_protobuf","to_protobuf"])
p("C27","Python mixtures and clusterings mirror the sequential definitions",
"Through the Python interface, any history of the model mixtures, the clustering mixture and the id tracker reports the sizes, ids, flags and scores that plain Python lists of groups and the clustering prior's own scores give, and the fast low-entropy prior agrees with the debug one on every query.",
["histories","inputs"],"every operation sequence up to a depth on each Python-visible mixture, clustering mixture and id tracker; every small clustering query for both low-entropy implementations",
"Tests run one fixed pass per model; removal of middle groups and the id tracker are not reached from Python.",
["distributions/lp/models","distributions/lp/clustering.pyx","distributions/lp/mixture.pyx","distributions/lp/vector.pyx","distributions/dbg/clustering.py"],
[("Cython wrappers and float-buffer conversion","distributions/lp")],None,["Mixture.score_value","PitmanYorMixture","MixtureIdTracker","count_assignments"])
p("C28","A cut-off stream file never yields a wrong record",
"Writing records to a JSON or message stream file, plain or compressed, and reading them back returns exactly those records in order. If the file is cut at any byte, as after a crash during writing, reading yields only leading records that were written, unchanged, and then ends or reports an error; it never yields a damaged record.",
["crash_points","inputs"],"every record list over a small alphabet up to a length, every stream format, every byte position at which the file may end",
"test_io writes and reads complete files only.",
["distributions/io/stream.py"],
[("length-prefixed and line-based framing","distributions/io/stream.py")],None,["json_stream_load","protobuf_stream_load","protobuf_stream_read"])
p("C29","Random samplers follow the distributions they are named after",
"Over the states of the random number generator, each sampler of the random library (uniform, integer, Bernoulli, normal, chi-square, gamma, beta, Poisson, negative binomial, Dirichlet, multivariate normal, Wishart, inverse Wishart, normal-inverse-Wishart, and the safe variants) returns values with the frequencies of the named distribution for every admissible parameter, including tiny and huge ones; successive draws are independent and results stay in the distribution's domain. The Student-t densities equal their closed forms.",
["inputs","schedules"],"every state in a coset of the generator's cycle, over a grid of parameters from tiny to huge, for scalar, vector and matrix samplers",
"Tests draw a few thousand values for one or two parameters and compare a moment; tails, tiny parameters and joint laws are not looked at.",
["include/distributions/random.hpp","src/random.cc"],
[("samplers built on the standard library's distributions","include/distributions/random.hpp"),("Dirichlet samplers","src/random.cc"),("score_student_t, fast_score_student_t, score_mv_student_t","include/distributions/random.hpp")],None,["sample_*","score_*student_t"])
p("C30","Python samplers follow the scores of their own flavor",
"In every Python flavor and for every model, parameter setting and group, the values drawn by sample_value, by a sampler and by sample_group come up as often as the flavor's own predictive scores say, jointly as well as singly, whatever the generator's state, and are never values without mass. The random and special functions of the Python modules follow the distributions and functions they are named after, whatever kind of array they are given.",
["inputs","schedules"],"every generator state in a coset of the generator's cycle, for every model, flavor, parameter setting and a set of groups, and for every random function of the Python modules",
"Tests draw a thousand values per example from one seed and accept anything a loose goodness-of-fit test accepts; most of the debug samplers are never called.",
["distributions/dbg/random.py","distributions/dbg/models","distributions/hp/random.pyx","distributions/hp/models","distributions/lp/random.pyx","distributions/lp/models","distributions/rng_cc.hpp","distributions/vendor/stats.py"],
[("Sampler classes and sample_group of each model module","distributions/dbg/models, distributions/hp/models, distributions/lp/models"),("random functions","distributions/dbg/random.py, distributions/hp/random.pyx, distributions/lp/random.pyx, distributions/rng_cc.hpp")],None,["sample_value","sample_group","Sampler.eval"])
p("C31","Goodness-of-fit p-values are calibrated and notice misfits",
"The goodness-of-fit functions of distributions.util return p-values in [0, 1]. When the samples do follow the stated distribution, a p-value of at most a comes up with a probability close to a (never far more often), for multinomial counts with or without truncation, discrete samples, uniform samples including both ends of the interval, and samples with a density (where it may be rarer). Untruncated multinomial p-values are those of Pearson's chi-squared test, impossible outcomes that were seen give (almost) 0, and clearly wrong distributions are rejected. scores_to_probs normalises any scores, bin_samples and histogram count every sample exactly once, and none of them changes its arguments.",
["inputs"],"every outcome of a multinomial sample, every generator state in a coset for samples, every short list of samples or scores",
"The package's own tests rely on these functions and never test their p-values under the null distribution: a test that accepts too much hides every other defect, one that rejects too much raises false alarms.",
["distributions/util.py"],
[("multinomial_goodness_of_fit, unif01_goodness_of_fit, density_goodness_of_fit, discrete_goodness_of_fit, bin_samples, scores_to_probs","distributions/util.py")],None,["multinomial_goodness_of_fit","discrete_goodness_of_fit"])
p("C32","Updating on data in stages equals updating at once",
"Hyperparameters updated by the data of a group stand in for that data. For every model and flavor, every hyperparameter setting and any two sets of data: a group of the second set under the hyperparameters updated by the first scores every value, and itself, as a group of both sets does under the first hyperparameters (its data score less that of the first set). Updating twice (plus_group) gives the hyperparameters of updating once by all the data, the textbook posterior, and leaves the hyperparameters it starts from alone.",
["inputs","histories"],"every pair of data multisets up to a size, and pairs with large ones, over a grid of hyperparameters of every model, in C++ and every Python flavor",
"One test compares plus_group between flavors on the models' examples; none compares an updated prior with the data it stands for.",
["include/distributions/models","distributions/dbg/models","distributions/hp/models","distributions/lp/models"],
[("Shared::plus_group, Group::score_value, Group::score_data, Scorer","include/distributions/models"),("Shared.plus_group","distributions/dbg/models")],None,["plus_group","score_value","score_data","Scorer.eval"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
import jsonschema
