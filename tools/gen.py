#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below. A property whose harness exists is claimed."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/dcgp/"
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, observe, state=(), technique="", note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, observe=observe, state=list(state), technique=technique, note=note))


# ---------------------------------------------------------------- the type-erased function
P("F01", "A function object is an independent value that calls exactly what it holds",
  "A function object calls the callable it was built from with the arguments it is given, in order and with their value category, and returns or throws what the callable does. Copies are deep and independent, a moved-from object reports itself invalid and can be assigned again, an empty function throws std::runtime_error when called, and the held callable can be identified and extracted by its type only. The reported thread safety is that of the held callable, through every copy, move and assignment.",
  ["histories", "inputs"], "Every sequence of construction, copy, move, assignment (self-assignment too), swap, extraction, in-place change and call, on callables of every kind (null, function pointers, functors, lambdas, nested functions) and arguments of every category.",
  "The unit tests walk through a handful of fixed sequences with two or three callables; aliasing between copies, lifetime errors and self-assignment need histories they do not contain.",
  [I + "function.hpp"], [("clone-based copy, pointer move, thread safety stored next to the callable", I + "function.hpp: function"), ("forwarding call through the virtual call operator", I + "function.hpp: function_inner::operator()")],
  ["result and side effects of a call", "is_valid, is, extract, get_thread_safety", "number of live callables"],
  technique="model-based histories (property-based testing) under ASan/UBSan",
  note="Random histories against a reference model of which callable each object holds, with instance counting and sanitizers; bounded history length, eight kinds of callable.")
P("F02", "Functions and kernels survive a round trip through an archive",
  "Saving a function or a kernel and loading it, in a text or binary archive and any number of times, gives an object that calls the same callable with the same state, prints the same, has the same name and reports the same thread safety. Whatever the object loaded into held before leaves no trace, and if loading fails it is left as it was.",
  ["inputs", "histories", "fault_sequences"], "Every serializable callable with any state, every archive format, any mix of objects in one archive, any previous content of the target, and archives cut short at any byte.",
  "The tests round-trip one object of a few types into a fresh one; they never look at the thread safety after a load, at cut archives or at chains of loads.",
  [I + "function.hpp", I + "kernel.hpp", I + "s11n.hpp", I + "wrapped_functions_s11n_implement.hpp"],
  [("save/load of the callable and its thread safety through a temporary", I + "function.hpp: function::load"), ("kernel::serialize", I + "kernel.hpp")],
  ["calls, printed form, name and thread safety of the loaded object"],
  technique="round-trip property-based testing with archive truncation faults",
  note="Random states, archives and truncation points; text and binary archives of Boost.")
P("F03", "Functions and kernels can be used from many threads at once",
  "Calling, copying, inspecting or printing the same unmodified function or kernel from several threads at the same time gives in every thread what it gives in one, with no data race.",
  ["schedules", "inputs"], "Every interleaving of concurrent const operations by any number of threads on shared function and kernel objects holding thread safe callables.",
  "The existing tests never use one object from two threads.",
  [I + "function.hpp", I + "kernel.hpp"], [("const members without mutable state", I + "function.hpp, " + I + "kernel.hpp")],
  ["results in each thread", "ThreadSanitizer"],
  technique="randomised concurrent workloads under ThreadSanitizer against the sequential result",
  note="Schedules are sampled by the operating system, with random workloads and staggered starts; a race is detected if the two accesses are not ordered in the sampled run.")
P("K01", "A kernel evaluates, prints and names exactly what it was built from",
  "A kernel called on numbers, given as a vector or as a list, returns what its function returns on them; called on names it returns what its printing function returns; its name, and what streaming it writes, is the name it was given. Its thread safety is the weaker of those of its two callables, and copies, moves and assignments keep all of this.",
  ["inputs", "histories"], "Every value type, number and value of inputs, every pair of callables and name, every history of copies and assignments.",
  "The tests call two kernels on one fixed input each.",
  [I + "kernel.hpp"], [("kernel holds two functions and a name", I + "kernel.hpp: kernel")], ["call operators, get_name, operator<<, get_thread_safety"],
  technique="property-based testing against a reference model",
  note="Random callables, inputs, names and copy histories.")
# ---------------------------------------------------------------- random numbers, data sets, streaming
P("R01", "The global random sequence is the 32-bit Mersenne Twister of the seed",
  "After the global random device is seeded, the numbers it returns are, one by one, the sequence of the 32-bit Mersenne Twister of that seed, whatever was drawn before and however often it is seeded again.",
  ["inputs", "histories"], "Every seed and every sequence of seeding and drawing, of any length.",
  "The tests compare the device with itself for one seed and a few draws.",
  [I + "rng.hpp"], [("random_device::set_seed and next", I + "rng.hpp")], ["numbers returned"], technique="differential property-based testing against an independent MT19937",
  note="Reference is an MT19937 written in the harness, itself checked against the published 10000th value.")
P("R02", "The global random sequence is handed out to threads without loss or repetition",
  "When several threads draw from the global random device at once, the numbers they get are together exactly the next stretch of its sequence, each handed to one thread, in order within each thread, and seeding while others draw is atomic. There is no data race.",
  ["schedules"], "Every interleaving of any number of threads drawing and seeding.",
  "The data race test draws from threads without looking at what it gets and has no race detector.",
  [I + "rng.hpp"], [("mutex around the engine", I + "rng.hpp: random_device")], ["multiset and per-thread order of the numbers returned", "ThreadSanitizer"],
  technique="randomised concurrent histories checked for linearizability against MT19937, under ThreadSanitizer",
  note="Schedules are sampled by the operating system; per-thread order and multiset decide linearizability of draws exactly.")
P("G01", "Synthetic data sets are the documented functions on the documented points",
  "Every synthetic symbolic regression problem returns the documented number of points and labels, of the documented dimensions, with points in the documented range (equally spaced, or the fixed pseudo-random sample), and each label is the documented formula at its point. The result does not depend on what the output vectors held before nor on earlier calls or the global random state, and the general one-dimensional generator does this for any function, bounds and number of points.",
  ["inputs", "histories"], "Every problem, any previous content of the output vectors, any order of calls, any state of the global random device; any function, bounds and size at least two for the one-dimensional generator.",
  "The tests only check that points and labels come in equal number.",
  [I + "gym.hpp"], [("generators of the data sets", I + "gym.hpp")], ["points and labels returned"], technique="property-based testing against independently written formulas and grids",
  note="Formulas from the documentation and the cited papers; labels compared to a relative tolerance of 1e-9; pseudo-random samples compared to an independent MT19937 by value.")
P("G02", "Measured data sets are the published ones",
  "Every NIST and miscellaneous data set returns the published observations: the published number of points, each with its label, for which the certified parameters of the model give the certified residual sum of squares and are a stationary point of it. The result does not depend on what the output vectors held before nor on earlier calls.",
  ["inputs", "histories"], "Every data set, any previous content of the output vectors, any order and interleaving of calls.",
  "The tests only check that points and labels come in equal number.",
  [I + "gym.hpp", I + "nist_data.hpp", I + "misc_data.hpp"], [("tables of data copied into the output", I + "gym.hpp")], ["points and labels returned"],
  technique="property-based testing with the certified NIST residuals as oracle",
  note="A change to any single observation moves the residual sum of squares away from its certified value, to the digits the certificate has.")
P("S01", "Vectors stream element by element in order",
  "Streaming a vector writes an opening bracket, every element preceded by one space in order, and a closing bracket preceded by one space, to the stream given and nothing else, with the stream's own formatting of the elements, for nested vectors too; it returns the stream.",
  ["inputs"], "Every element type, length, nesting and stream state.",
  "No test looks at streamed vectors.",
  [I + "std_overloads.hpp"], [("operator<< for vectors", I + "std_overloads.hpp")], ["characters written, stream state"], technique="property-based testing against a reference printer and by parsing back",
  note="Random vectors of numbers, strings and vectors, random stream precision and flags.")
# ---------------------------------------------------------------- kernels
P("W01", "Every kernel computes its documented function for any number of inputs",
  "Each kernel of the catalogue, obtained by its name, evaluates on real inputs to its documented formula, for every number of inputs (those beyond the first ignored where the formula says so), and the protected ones return their fallback exactly when the plain operation has no finite value.",
  ["inputs"], "Every kernel, every number of inputs from one up, every combination of finite and special values.",
  "The tests check a few kernels at a few points with two or three inputs.",
  [I + "wrapped_functions.hpp", I + "kernel_set.hpp"], [("kernel implementations", I + "wrapped_functions.hpp")], ["kernel call on doubles"],
  technique="property-based testing against independently written formulas",
  note="Compared in long double with a relative tolerance scaled to the magnitude of the intermediate terms.")
P("W02", "The text of a kernel denotes the function it computes",
  "The text a kernel prints for given operand texts is a well-formed expression that evaluates, with the usual precedence of operators, to what the kernel computes on the values of the operands, whatever the operands are: names, signed numbers, or texts printed by other kernels.",
  ["inputs", "programs"], "Every kernel, any number of operands, any operands (names, numbers, printed kernels) and values, nested to any depth.",
  "The tests compare strings for a few kernels on bare names.",
  [I + "wrapped_functions.hpp"], [("printing functions of the kernels", I + "wrapped_functions.hpp")], ["text, evaluated by an independent parser"],
  technique="differential property-based testing: printed text, parsed and evaluated, against the numeric kernel",
  note="Parser and evaluator are the harness's own, with Python's precedence rules; comparison where both are finite and well conditioned.")
P("W03", "Kernels on truncated Taylor numbers agree with their values and derivatives",
  "Each kernel evaluated on truncated Taylor expansions, scalar or vectorized, has as constant term the kernel's value and as higher coefficients its derivatives, wherever the kernel is differentiable; a vectorized evaluation is the evaluation of each of its points.",
  ["inputs"], "Every kernel, number of inputs, point, and vector of points.",
  "The tests compare constant terms of two kernels at one point.",
  [I + "wrapped_functions.hpp"], [("overloads of the kernels on generalized dual numbers", I + "wrapped_functions.hpp")], ["constant term and derivatives"],
  technique="differential property-based testing against finite differences and the real kernels",
  note="AuDi is not installed here: the Taylor arithmetic is a stand-in written for this purpose (shim/audi), so this decides dcgp's kernels, not AuDi.")
P("W04", "A kernel set holds exactly the kernels asked for, in order",
  "A kernel set built from, or extended with, names and kernels holds those kernels in that order, each computing, printing and named as the catalogue says, for every name the catalogue documents; asking for a name that is not in it throws and leaves the set as it was. Clearing empties it, streaming lists the names, and indexing gives the kernel at that place.",
  ["inputs", "histories"], "Every sequence of additions by name and by kernel, valid and invalid, for every value type.",
  "The tests build a few fixed sets.",
  [I + "kernel_set.hpp"], [("kernel_set::push_back and its table of names", I + "kernel_set.hpp")], ["size, order, names, values and text of the kernels"],
  technique="model-based histories (property-based testing)", note="Random histories over the real, Taylor and vectorized Taylor sets.")
# ---------------------------------------------------------------- expressions
P("E01", "Expressions are built within documented bounds and reject impossible requests",
  "An expression built with any legal shape has a chromosome with every gene within its bounds, bounds that describe exactly the connections its levels-back allows, and constants with documented names and range; an illegal shape, chromosome, function gene or argument throws std::invalid_argument and leaves the expression as it was.",
  ["inputs", "configurations"], "Every number of inputs, outputs, rows, columns, levels-back, arity (per column too), kernels, constants and seed, legal or not; every chromosome handed in.",
  "The tests try a handful of shapes and illegal arguments.",
  [I + "expression.hpp"], [("sanity_checks, init_bounds, check_cgp_encoding", I + "expression.hpp")], ["accessors, exceptions"], technique="property-based testing against an independent model of the encoding",
  note="Shapes up to 5 inputs, 4 outputs, 4 rows, 6 columns, arity 4.")
P("E02", "Evaluating an expression is evaluating the encoded graph",
  "For every expression and input, evaluation returns for each output the value of the graph its chromosome encodes, computed node by node, on numbers, Taylor numbers and text alike, without changing the expression; a wrong number of inputs throws std::invalid_argument.",
  ["inputs", "programs"], "Every shape, arity, kernel list, chromosome and input.",
  "The tests evaluate a few hand-written chromosomes at a few points.",
  [I + "expression.hpp"], [("expression::operator()", I + "expression.hpp")], ["values returned"], technique="differential property-based testing against a reference CGP interpreter",
  note="Reference interpreter decodes the chromosome recursively from the documented encoding.")
P("E03", "Active nodes and genes are exactly those the outputs depend on",
  "After any history of changes, the active nodes are exactly those reachable from the outputs, and the active genes exactly those of the active nodes together with the output genes; changing any gene that is not active never changes a value, and the printed summary (of every class of expression) reports the same, with the shape, the bounds, the kernels and the constants, weights or biases.",
  ["histories", "programs"], "Every expression and every history of chromosome changes and mutations.",
  "The tests check a few fixed chromosomes.",
  [I + "expression.hpp"], [("update_data_structures", I + "expression.hpp")], ["active nodes and genes, values after changes of inactive genes"], technique="model-based histories with a reachability oracle and a metamorphic relation",
  note="Reachability recomputed independently after each operation.")
P("E04", "Mutations change what they promise and nothing else",
  "Each mutation changes genes only of its class (any, active, function, connection, output) and at most as many as asked for, to values within bounds and, where the gene has an alternative, different from before; a mutation of a given gene changes that gene; a request that is rejected leaves the expression entirely as it was. Evaluation afterwards follows the new chromosome.",
  ["histories", "inputs"], "Every expression, mutation, count and index, in every history.",
  "The tests run mutations and look at a few counts.",
  [I + "expression.hpp"], [("mutate and its variants", I + "expression.hpp")], ["chromosome before and after, evaluation"], technique="model-based histories (property-based testing)",
  note="Per-step check of class, count, bounds and consistency of evaluation.")
P("E05", "The text of an expression denotes its values",
  "The text an expression prints for its outputs, on any variable names, evaluates to its numeric outputs at every input, including constants.",
  ["inputs", "programs"], "Every expression over the kernel catalogue, any variable names and inputs.",
  "The tests compare a few strings.",
  [I + "expression.hpp", I + "wrapped_functions.hpp"], [("expression::operator() on strings", I + "expression.hpp")], ["text, evaluated by an independent parser"], technique="differential property-based testing through an independent parser",
  note="Compared where the value is finite and well conditioned.")
P("E06", "Taylor evaluation of an expression gives its derivatives",
  "Evaluating an expression on truncated Taylor numbers gives, at every point where it is smooth, its value and its derivatives of every order kept, also in vectorized form.",
  ["inputs", "programs"], "Every expression of smooth kernels, point, and order.",
  "The tests check a few expressions at one point.",
  [I + "expression.hpp"], [("expression::operator() on generalized dual numbers", I + "expression.hpp")], ["constant term and derivatives"], technique="differential property-based testing against finite differences",
  note="With the stand-in for AuDi.")
P("E07", "The loss is the documented average, however it is computed",
  "The loss of an expression over a data set is the documented mean squared error or cross entropy, averaged over the points, on numbers and Taylor numbers, and is the same whatever degree of parallelism is asked for; sizes that do not match, empty data, an unknown loss or an impossible split throw std::invalid_argument.",
  ["inputs", "schedules", "configurations"], "Every expression, data set, loss and degree of parallelism.",
  "The tests compare a few losses.",
  [I + "expression.hpp"], [("expression::loss", I + "expression.hpp")], ["loss returned"], technique="differential property-based testing against a reference loss, serial against parallel",
  note="Tolerance 1e-9 relative, for reordering of sums.")
P("E08", "Constants and phenotype corrections take part in every evaluation",
  "Ephemeral constants behave as extra inputs with the values last set, in numbers and in text; a phenotype correction, once set, is applied to every evaluation and loss of the expression, survives copies, and once removed leaves the plain values; setting a wrong number of constants or names throws.",
  ["inputs", "histories"], "Every expression, number and value of constants, correction, and history of settings.",
  "The tests set constants and one correction once.",
  [I + "expression.hpp"], [("set_eph_val, set_phenotype_correction", I + "expression.hpp")], ["values, loss, text"], technique="model-based histories (property-based testing)",
  note="Reference interpreter with constants appended and correction applied outside.")
P("E09", "An expression survives a round trip through an archive, future included",
  "Saving an expression of any class and loading it gives one with the same chromosome, bounds, kernels, constants, weights, biases, values and text, and whose random future is the same: the same mutations lead to the same chromosomes.",
  ["inputs", "histories"], "Every expression of every class after any history.",
  "The tests compare a printed summary for one expression.",
  [I + "expression.hpp", I + "expression_weighted.hpp", I + "expression_ann.hpp"], [("serialize members", I + "expression.hpp")], ["all accessors, values, mutations after loading"], technique="round-trip property-based testing",
  note="Text and binary archives.")
P("E10", "An expression is a deterministic function of its arguments and seed",
  "Two expressions built with the same arguments and seed, and put through the same operations, stay identical, whatever else happens in between, so do two that stand at the same chromosome and constants once they are seeded alike, and a copy behaves as its original without either affecting the other.",
  ["histories"], "Every pair of identical histories, interleaved with anything else.",
  "The tests do not compare histories.",
  [I + "expression.hpp"], [("own random engine", I + "expression.hpp")], ["chromosomes and values"], technique="metamorphic property-based testing (twin histories)",
  note="Twins are run interleaved with other expressions and draws.")
P("E11", "Expressions can be used from many threads at once",
  "Evaluating, printing, inspecting, copying, saving or taking a loss of the same unmodified expression, of any class and number type, from several threads at the same time gives in every thread what it gives in one, and the copies the threads make can be changed, seeded and trained independently: there is no hidden shared state and no data race.",
  ["schedules", "inputs"], "Every interleaving of const operations by any number of threads on one expression, and of any operation on their own copies.",
  "No existing test uses an expression from two threads other than through the library's own parallel loops.",
  [I + "expression.hpp", I + "expression_weighted.hpp", I + "expression_ann.hpp", I + "kernel.hpp", I + "wrapped_functions.hpp"],
  [("const members work on local buffers", I + "expression.hpp: operator(), loss"), ("kernels are deep copied", I + "kernel.hpp"), ("const forward and backward passes", I + "expression_ann.hpp: fill_nodes, d_loss")],
  ["results in each thread", "ThreadSanitizer"],
  technique="randomised concurrent workloads under ThreadSanitizer against the sequential result",
  note="Half of the time nothing is evaluated before the threads start, so that caches filled at first use are filled by them.")
P("E12", "Random programs and mutations are drawn evenly",
  "The program of an expression of any class, built at random, has each gene any of its allowed values alike and independently of the others, over the seeds. A mutation of one gene chooses any gene of its kind alike and gives it any other allowed value alike; a mutation of many makes as many independent choices. An epoch of gradient descent that shuffles visits the points in any order alike.",
  ["inputs", "histories"], "Every shape, chromosome, kind of mutation and number of genes, and sequence of seeds.",
  "A skewed choice passes any test of single results; it only makes part of the search space rare or unreachable.",
  [I + "expression.hpp", I + "expression_ann.hpp"], [("constructor, mutate members", I + "expression.hpp"), ("sgd", I + "expression_ann.hpp")], ["chromosomes, orders of points"],
  technique="statistical property-based testing (counts against even choices, chi-square)",
  note="Biases smaller than what even choices show once in 1e13 pass; connections are compared within a node, since the documentation leaves open how nodes of other arities weigh.")
P("C01", "A weighted expression evaluates the graph with its weights",
  "A weighted expression evaluates its graph with every connection multiplied by its weight, the weight given by the node and the input it belongs to; weights are one when built, each can be read and written alone by node and input or all together, and mutations of the chromosome leave them alone; a bad node, input or number of weights throws.",
  ["inputs", "histories"], "Every shape, arity per column, chromosome, weights, and history of settings.",
  "The tests use a few shapes with constant arity.",
  [I + "expression_weighted.hpp"], [("weights indexed by node and input", I + "expression_weighted.hpp")], ["values, weight accessors"], technique="differential property-based testing against a reference interpreter",
  note="Reference keeps a map from node and input to weight.")
P("C02", "The text of a weighted expression or network denotes its values",
  "The text a weighted expression or a network prints evaluates to its numeric outputs when its symbols for weights and biases are given the values of the weights and biases.",
  ["inputs", "programs"], "Every weighted expression and network, weights, biases and inputs.",
  "The tests compare a few strings.",
  [I + "expression_weighted.hpp", I + "expression_ann.hpp"], [("kernel_call on strings", I + "expression_weighted.hpp")], ["text, evaluated by an independent parser"], technique="differential property-based testing through an independent parser",
  note="Compared where the value is finite and well conditioned.")
P("A01", "A network evaluates its graph with weights, biases and activations",
  "A network evaluates each node as its activation of the weighted sum of its inputs and its bias, for every topology; building one with a kernel that is not an activation throws std::invalid_argument.",
  ["inputs", "programs"], "Every topology, arity, activation, weights, biases and input.",
  "The tests evaluate a few topologies.",
  [I + "expression_ann.hpp"], [("expression_ann::kernel_call", I + "expression_ann.hpp")], ["values returned"], technique="differential property-based testing against a reference network", note="Reference interpreter written from the documentation.")
P("A02", "Backpropagation returns the gradient of the loss it returns",
  "The loss a network returns with its gradient is its loss, and the gradient is that of the loss with respect to every weight and bias, zero for those the outputs do not depend on, for every topology, data set and loss, whatever degree of parallelism is asked for.",
  ["inputs", "programs", "schedules"], "Every topology (nodes shared, outputs repeated or wired to inputs), activation, loss, batch and degree of parallelism.",
  "The tests compare with numerical differentiation on a few random networks.",
  [I + "expression_ann.hpp"], [("expression_ann::d_loss", I + "expression_ann.hpp")], ["loss and gradients returned"], technique="differential property-based testing against finite differences of a reference network",
  note="Away from kinks of the activations; tolerance 1e-5 relative.")
P("A03", "One epoch of gradient descent is the documented sequence of steps",
  "One epoch of stochastic gradient descent visits every point exactly once, in batches of the requested size in the (possibly shuffled) order of the data, keeps points and labels paired, moves weights and biases against the batch gradient by the learning rate, returns the mean of the batch losses, and rejects bad arguments without touching the network.",
  ["inputs", "histories"], "Every network, data set, batch size (also not dividing the data), rate, loss, parallelism, shuffle.",
  "The tests check that the loss decreases.",
  [I + "expression_ann.hpp"], [("expression_ann::sgd", I + "expression_ann.hpp")], ["weights, biases, loss returned, data afterwards"], technique="differential property-based testing against a reference epoch", note="Reference uses the checked gradients.")
P("A04", "Weights, biases and activations of a network are what was set",
  "Weights and biases can be read and written singly and all together, random ones are normal draws of the given mean, deviation and seed, the number of active weights is that of the connections (or of the distinct ones) of active nodes, and setting the output activation changes exactly the nodes feeding the outputs; bad arguments throw and change nothing.",
  ["inputs", "histories"], "Every network and history of settings.",
  "The tests check a few values.",
  [I + "expression_ann.hpp", I + "expression_weighted.hpp"], [("accessors", I + "expression_ann.hpp")], ["accessors, values"], technique="model-based histories (property-based testing)", note="Random normal draws compared to the standard library's normal distribution on MT19937 of the seed.")
# ---------------------------------------------------------------- optimisation problem
P("P01", "The fitness of a candidate is the loss of the program it encodes",
  "The fitness of a decision vector is the loss over the data of the expression with those constants and genes, with its complexity as second objective when multi-objective, for every loss, degree of parallelism and correction, and does not depend on what was evaluated before.",
  ["inputs", "histories", "schedules"], "Every data set, shape, decision vector, configuration and history of evaluations.",
  "The tests compare a few fitnesses.",
  [I + "problems/symbolic_regression.hpp"], [("symbolic_regression::fitness and its cache", I + "problems/symbolic_regression.hpp")], ["fitness returned"], technique="differential property-based testing against an independently built expression",
  note="With the stand-in for AuDi.")
P("P02", "Gradient and Hessians are the derivatives of the fitness in the constants",
  "The gradient and the Hessians of a candidate are, in the places their sparsity patterns name, the first and second derivatives of the loss with respect to the constants, for any number of constants, before and after any other evaluation.",
  ["inputs", "histories"], "Every configuration with constants, decision vector and history of evaluations.",
  "The tests check a few candidates with few constants.",
  [I + "problems/symbolic_regression.hpp"], [("symbolic_regression::gradient, hessians", I + "problems/symbolic_regression.hpp")], ["gradient, hessians, sparsity"], technique="differential property-based testing against finite differences",
  note="Smooth kernels, finite well-conditioned values.")
P("P03", "The problem describes itself consistently and rejects impossible data",
  "Bounds, number of objectives and of integer variables, and sparsity patterns describe the decision vectors of the configuration; impossible data or configurations throw std::invalid_argument; the problem copies, serializes and reports itself without change.",
  ["configurations", "inputs"], "Every configuration, legal or not.",
  "The tests try a few.",
  [I + "problems/symbolic_regression.hpp"], [("sanity_checks, get_bounds", I + "problems/symbolic_regression.hpp")], ["metadata, exceptions"], technique="property-based testing against a model of the configuration", note="Random configurations.")
P("P04", "Predictions and texts of a candidate are those of its program",
  "Predicting with a candidate gives the values of the program it encodes, point by point, and its text, plain or simplified, denotes the same program with its constants.",
  ["inputs", "programs"], "Every candidate and points.",
  "The tests check a few strings.",
  [I + "problems/symbolic_regression.hpp"], [("predict, pretty, prettier", I + "problems/symbolic_regression.hpp")], ["predictions, texts"], technique="differential property-based testing through an independent parser", note="SymEngine is not installed here: simplification is the identity in the stand-in, so this decides what dcgp hands to it.")
# ---------------------------------------------------------------- algorithms
P("P05", "Copies of a symbolic regression work side by side",
  "Copies of one symbolic regression, made before or at the same time, by themselves or inside a pagmo::problem, can be used each by its own thread: fitnesses, gradients, Hessians, predictions and texts are those of a copy used alone, with no data race, and the original is unaffected. The thread safety the problem declares (basic) promises this, and pagmo's islands and parallel batch evaluators rely on it.",
  ["schedules", "histories"], "Every interleaving of histories of questions on any number of copies.",
  "The tests never use two copies at once other than through one batch evaluation.",
  [I + "problems/symbolic_regression.hpp", I + "expression.hpp"],
  [("mutable program and caches belong to the problem", I + "problems/symbolic_regression.hpp")],
  ["answers in each thread", "ThreadSanitizer"],
  technique="randomised concurrent workloads under ThreadSanitizer against the sequential result",
  note="Two to five threads, random histories; schedules are those of the operating system under random delays.")
P("L01", "Evolution never loses the best individual",
  "Evolving a population never makes its best fitness worse (its non-dominated front, for several objectives), keeps its size, keeps every individual a legal program, and every stored fitness is that of its decision vector. With one objective, nobody is replaced but by something better: in the evolution strategy an individual by the last mutant made in its place, then one of the worst individuals by the best found.",
  ["histories", "inputs", "configurations"], "Every algorithm, configuration, problem, population and seed.",
  "The tests evolve a few fixed configurations.",
  [I + "algorithms/es4cgp.hpp", I + "algorithms/moes4cgp.hpp", I + "algorithms/mes4cgp.hpp", I + "algorithms/momes4cgp.hpp", I + "algorithms/gd4cgp.hpp"], [("evolve", I + "algorithms")], ["population before and after"], technique="property-based testing of invariants over evolution histories", note="Small populations and generations.")
P("L02", "Evolution is deterministic given its seeds",
  "The same algorithm with the same seed on the same population gives the same population and log, also from a copy or a loaded archive of the algorithm, and independently of verbosity.",
  ["histories", "configurations"], "Every algorithm, configuration, seed and history.",
  "The tests do not compare runs.",
  [I + "algorithms/es4cgp.hpp", I + "algorithms/moes4cgp.hpp", I + "algorithms/mes4cgp.hpp", I + "algorithms/momes4cgp.hpp", I + "algorithms/gd4cgp.hpp"], [("own random engine", I + "algorithms")], ["populations, logs"], technique="metamorphic property-based testing (twin runs)", note="Non-parallel evaluation.")
P("L03", "Evolution stops when told to and logs what happened",
  "Evolution runs at most the generations asked for, stops early exactly when the target fitness is reached, writes nothing unless verbose, and logs lines whose generation, evaluations and best fitness are those of the run; what it prints are the lines it logs and the reason why it ended. Given a batch evaluator, the strategies that evaluate in batches use it, once per generation. Gradient descent raises its rate after a success, lowers it after a failure, and ends when the rate or the gradient vanishes.",
  ["histories", "configurations"], "Every algorithm, verbosity, number of generations and target.",
  "The tests look at a few logs.",
  [I + "algorithms/es4cgp.hpp", I + "algorithms/moes4cgp.hpp", I + "algorithms/mes4cgp.hpp", I + "algorithms/momes4cgp.hpp", I + "algorithms/gd4cgp.hpp"], [("evolve, get_log", I + "algorithms")], ["log, evaluations, output"], technique="property-based testing of invariants over evolution histories", note="Evaluations counted by the problem itself.")
P("L04", "Algorithms reject what they cannot evolve",
  "Constructing an algorithm with an impossible parameter, or evolving a population whose problem or size it does not support, throws std::invalid_argument and leaves the population as it was.",
  ["configurations", "inputs"], "Every parameter, problem and population size.",
  "The tests try a few.",
  [I + "algorithms/es4cgp.hpp", I + "algorithms/moes4cgp.hpp", I + "algorithms/mes4cgp.hpp", I + "algorithms/momes4cgp.hpp", I + "algorithms/gd4cgp.hpp"], [("argument checks", I + "algorithms")], ["exceptions"], technique="property-based testing", note="Random legal and illegal parameters.")
P("L05", "Each generation tries legal mutations of its parents",
  "Every candidate an evolutionary strategy evaluates is a legal program that differs from its parent (the best so far, or its own individual with several objectives) in at most the allowed number of active genes; its constants are the parent's unless constants are learned. The memetic strategies change the constants by one Newton step (constants the loss ignores are drawn anew or kept); gradient descent leaves the program alone and moves the constants against the gradient.",
  ["histories", "inputs", "configurations"], "Every algorithm, configuration, problem, population and seed.",
  "The tests look only at final populations.",
  [I + "algorithms/es4cgp.hpp", I + "algorithms/moes4cgp.hpp", I + "algorithms/mes4cgp.hpp", I + "algorithms/momes4cgp.hpp", I + "algorithms/gd4cgp.hpp"], [("mutation and constant update of evolve", I + "algorithms")], ["candidates evaluated"], technique="property-based testing of invariants over the sequence of candidates evaluated", note="Candidates are seen by the problem; derivatives recomputed by it.")
P("L06", "Evolutions run side by side",
  "Several threads, each evolving its own copy of a population with its own copy of an algorithm, as pagmo's archipelago does, obtain the populations each evolution would give alone; the algorithms share nothing behind the user's back and there is no data race.",
  ["schedules", "histories"], "Every interleaving of any number of evolutions by any of the algorithms.",
  "The tests evolve one population at a time.",
  [I + "algorithms/es4cgp.hpp", I + "algorithms/moes4cgp.hpp", I + "algorithms/mes4cgp.hpp", I + "algorithms/momes4cgp.hpp", I + "algorithms/gd4cgp.hpp", I + "problems/symbolic_regression.hpp"],
  [("random engine and log belong to the algorithm; the program is copied from the problem", I + "algorithms")],
  ["populations returned in each thread", "ThreadSanitizer"],
  technique="randomised concurrent workloads under ThreadSanitizer against the sequential result",
  note="Two to four threads with the same or different algorithms; half of the time nothing is evolved before the threads start.")
P("L07", "Evolution draws its mutations without bias, anew each time",
  "What an evolutionary strategy tries is random as documented: the number of mutations of a candidate is any up to the maximum alike, the genes mutated and their new values are any alike, steps of learned constants are centred, gaussian, equally long for all constants and independent of each other, and constants redrawn are any of their range. Another seed, or another call to evolve, tries other mutations.",
  ["histories", "inputs"], "Every strategy, problem, population, maximum of mutations and seed, and any number of calls.",
  "The tests never look at what is tried; a bias or a repeated sequence of mutations only makes the search worse.",
  [I + "algorithms/es4cgp.hpp", I + "algorithms/moes4cgp.hpp", I + "algorithms/mes4cgp.hpp", I + "algorithms/momes4cgp.hpp", I + "expression.hpp"],
  [("dis(m_e), normal(m_e), mutate_random", I + "algorithms")], ["candidates, seen by a recording problem"],
  technique="statistical property-based testing (counts of candidates against a reference sampler)",
  note="Biases smaller than what even choices show once in 1e13 pass; the size of gaussian steps is not judged.")
# ---------------------------------------------------------------- python
P("Y01", "Encoding a layered network gives a chromosome computing that network",
  "encode_ffnn gives, for all layer sizes and nonlinearities, the network with exactly those layers, fully connected from one to the next, each with its nonlinearity, and computing what that network computes; malformed requests raise ValueError.",
  ["inputs"], "Every number of inputs, outputs, sizes and nonlinearities of layers.",
  "The tests use no structure but one.",
  ["dcgpy/_encode.py"], [("encode_ffnn", "dcgpy/_encode.py")], ["the encoded graph, its values"], technique="property-based testing (Hypothesis) against a reference network", note="Run against the expressions of the tree behind a C interface instead of pybind11.")
P("Y02", "Simplifying a program preserves its value",
  "The symbolic simplification of an expression has, for each output, the value of the program wherever this is defined, with weights and constants substituted when asked for and left as symbols otherwise; lists of the wrong length raise ValueError.",
  ["inputs", "programs"], "Every program, weights, constants, names and point.",
  "The tests do not simplify.",
  ["dcgpy/_simplify.py"], [("_sympy_simplify", "dcgpy/_simplify.py")], ["simplified expressions"], technique="differential property-based testing (Hypothesis) against an exact interpreter", note="Run against the expressions of the tree behind a C interface instead of pybind11; pyaudi replaced by a stand-in.")
P("Y03", "The pictures of a program show that program",
  "visualize draws every node once, in its layer and with its label, and exactly the connections of the chromosome (those of inactive nodes when asked for), telling active from inactive; for networks, heavier connections are not fainter and the legend matches the colours.",
  ["programs", "configurations"], "Every program and drawing options.",
  "The tests do not draw.",
  ["dcgpy/_visualize.py"], [("_graphviz_visualize, _dcgpann_visualize", "dcgpy/_visualize.py")], ["what is drawn"], technique="property-based testing (Hypothesis) against the graph read from the chromosome", note="graphviz and matplotlib replaced by stand-ins recording what is drawn.")

TECH = {}


def main():
    claimed, rest = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            if len(p["title"]) > 80:
                raise SystemExit("title too long: " + p["id"])
            f.write(json.dumps(d) + "\n")
            have = any(os.path.exists(os.path.join(V, "harness", p["id"] + e)) for e in (".cpp", ".py"))
            (claimed if have else rest).append(p)
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "DCGP_VERIF", "enable": "No hook was needed: the guard is reserved and nothing in /repo uses it.", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "env VERIF_TIER=thorough ./check.sh " + p["id"],
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in claimed],
         "not_applicable": [{"property": p["id"], "reason": p.get("reason", "The check of this property is not built yet.")} for p in rest]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(claimed), "claimed;", [p["id"] for p in rest], "not")


main()
