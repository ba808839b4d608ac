import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    if "observe_at" in kw: kw["observe_at"]=[kw["observe_at"]]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
prop("C01","Objects live exactly as long as they are referenced, and nothing leaks",
 "An object stays usable as long as the user holds a reference to it or a live object built on it still uses it, and is destroyed exactly once when the last such reference goes; its destroy callbacks each run exactly once, at that moment, in reverse order of registration. Retaining or releasing a null handle is reported as an error. Once the user has released every reference it was given, no memory obtained by the library remains, whatever mixture of successful and failed calls came before.",
 ["histories","inputs"],"all interleavings of create / attach / retain / release / failing calls over every object kind",
 "Tests release in one order, on success paths, and never look at memory after failed calls.",
 ["src/cconfigspace.c","src/cconfigspace_internal.h","src/configuration_space.c","src/expression.c","src/tree.c","src/tuner_random.c","src/map.c","src/distribution.c"],
 [("retain/release and callbacks","src/cconfigspace.c:ccs_release_object"),("per-type del operations retaining/releasing children","src/*.c:_ccs_*_del")],
 observe_at="destroy callbacks, live allocation count, sanitizer")
prop("C02","Configuration-space mutators keep the space well formed or change nothing",
 "Parameter names in a configuration space are unique, a parameter has at most one condition, conditions and forbidden clauses only mention parameters of the space, and the graph of conditions never contains a cycle or self dependency. A call that would break any of this (or names an out-of-range index) fails with the documented error and leaves the space, as seen through every getter, default configuration, validity check and sample, exactly as it was; a call taking several parameters or clauses behaves as the successive single calls, up to the first that fails.",
 ["histories","inputs"],"every sequence of add parameter(s) / set condition / add forbidden clause(s) / set distribution calls, valid and invalid, in any order",
 "Tests build a handful of fixed well-formed spaces; rejected calls are checked for their code only, not for what they left behind.",
 ["src/configuration_space.c","src/context.c","src/context_internal.h"],
 [("topological sort / cycle rejection","src/configuration_space.c:_generate_constraints, ccs_configuration_space_set_condition"),("duplicate and forbidden clause rejection","src/configuration_space.c:ccs_configuration_space_add_parameters/_add_forbidden_clause")],
 observe_at="public getters after every call")
prop("C03","A parameter is active exactly when its condition holds",
 "In the default configuration and in every sampled configuration of a space, an unconditioned parameter has a value of its domain, and a conditioned parameter has one if its condition evaluates to true on that same configuration and is inactive otherwise (condition false, or itself inactive because it depends on an inactive parameter). In the default configuration each active parameter holds its own default value.",
 ["configurations","inputs"],"all acyclic condition graphs (chains, diamonds, any insertion order of parameters relative to dependencies) and all sampled parent values",
 "Tests use two or three fixed spaces whose parameters happen to be inserted in a convenient order.",
 ["src/configuration_space.c","src/expression.c"],[("activation in topological order","src/configuration_space.c:_set_actives"),("default configuration","src/configuration_space.c:ccs_configuration_space_get_default_configuration")],
 observe_at="ccs_configuration_space_get_default_configuration, _sample, _samples")
prop("C04","Validity checks accept exactly the valid configurations, features, evaluations",
 "Checking a configuration answers true exactly when every active parameter (unconditioned, or condition true under these values) carries a value of its domain, every other parameter is inactive, and no forbidden clause evaluates to true; a features vector or the values of a successful evaluation are valid exactly when every value belongs to its parameter's domain. A wrong number of values or an object of a foreign space is reported as an error, not answered.",
 ["inputs","configurations"],"all spaces and all value vectors, including wrong types, inactive values in active slots and vice versa, out-of-domain values",
 "Tests check a few hand-written vectors of two spaces.",
 ["src/configuration_space.c","src/features_space.c","src/objective_space.c","src/configuration.c","src/features.c","src/evaluation.c"],
 [("configuration check","src/configuration_space.c:_check_configuration"),("features check","src/features_space.c:_check_features"),("evaluation check","src/objective_space.c:_check_evaluation")])
prop("C05","Every sampled configuration is valid, or sampling reports failure",
 "For any random stream, sampling a configuration space returns the requested number of configurations, each of which belongs to that space and is accepted by its validity check; if valid configurations cannot be found within the retry budget the call reports unsuccessful sampling and hands out no configuration and leaks none. Every value that no forbidden clause or condition excludes remains reachable.",
 ["inputs","configurations","histories"],"all spaces, all random streams (including extreme generator outputs), any batch size",
 "Tests draw from one seeded generator on a few spaces, never at the extremes, and never exhaust the retry budget.",
 ["src/configuration_space.c","src/distribution.c","src/parameter_numerical.c","src/parameter_categorical.c"],[("rejection sampling loop","src/configuration_space.c:_sample, ccs_configuration_space_samples")],
 observe_at="scripted gsl_rng_type installed through ccs_create_rng_with_type")
prop("C06","Every parameter has exactly one distribution component, as last assigned",
 "At all times each parameter of a configuration space is attached to exactly one component of one distribution, the one most recently assigned to it; parameters that shared a distribution with a reassigned parameter and were not reassigned themselves go back to their default distribution. Invalid assignments (index out of range or repeated, wrong dimension) fail and change nothing, and samples of a parameter come from the component it is attached to.",
 ["histories","inputs"],"all sequences of parameter additions and (multi-dimensional) distribution assignments with arbitrary index permutations",
 "Tests assign one or two fixed distributions once.",
 ["src/configuration_space.c","src/distribution_multivariate.c"],[("distribution wrappers","src/configuration_space.c:ccs_configuration_space_set_distribution, _add_parameter"),("lookup","src/configuration_space.c:ccs_configuration_space_get_parameter_distribution")])
prop("C07","Expression evaluation follows the documented typed, inactive-aware semantics",
 "Evaluating an expression on a context's values gives the mathematical result of its operators: exact integer arithmetic, integer results for integer operands and floating point otherwise, order of ordinal parameters, string/number comparison, list membership, and boolean logic. Inactive operands propagate (except that a disjunction with a true operand is true), and ill-typed operands, values outside the domain of a compared categorical or ordinal variable, division or modulo by zero, and evaluation of a list are reported as errors, never as a wrong value or a crash.",
 ["inputs","programs"],"all expression trees over all operand types, parameter kinds and inactive values",
 "Tests evaluate a few dozen fixed trees; operator x operand type x parameter kind x inactivity is a large product.",
 ["src/expression.c","src/expression_internal.h"],[("operator evaluation","src/expression.c:_ccs_expr_*_eval"),("variable lookup","src/expression.c:_ccs_expr_variable_eval")])
prop("C08","Expressions report their structure exactly as built",
 "An expression reports the type, the number and order of operands, the literal value or the parameter it was built with; the parameters it reports are exactly the set of distinct parameters occurring in it, and the context check accepts a context if and only if it contains all of them. Building an expression with the wrong number of operands, an unsupported operand or a wrong type fails with an error and builds nothing.",
 ["programs","inputs"],"all expression trees with sharing and repeated variables, all operand counts",
 "Tests check parameters of a couple of small trees.",
 ["src/expression.c"],[("construction and arity","src/expression.c:ccs_create_expression"),("parameter collection","src/expression.c:ccs_expression_get_parameters, ccs_expression_check_context")])
prop("C09","Parameters accept exactly their domain",
 "A parameter can only be created with a consistent description, reports that description back, and its default value belongs to its domain (a string parameter has none). A value is accepted by the check and validate operations exactly when it has the right type and lies in the interval [lower, upper[ of a numerical parameter, is one of the values of a categorical, ordinal or discrete parameter, or is a string for a string parameter; validation of an accepted value returns an equal value that stays valid after the caller's copy is gone. Ordinal comparison follows the declared order.",
 ["inputs"],"all parameter kinds, bounds, quantizations, value lists, probes of every type, and single or batched forms",
 "Tests probe a few values of a few parameters.",
 ["src/parameter.c","src/parameter_numerical.c","src/parameter_categorical.c","src/parameter_ordinal.c","src/parameter_discrete.c","src/parameter_string.c"],[("domain checks","src/parameter_*.c:_ccs_parameter_*_check_values/_validate_values"),("construction","src/parameter_*.c:ccs_create_*_parameter")])
prop("C10","Distribution and parameter samples lie in the declared support in every layout",
 "For every random stream, each component of a sample of a distribution has the declared numeric type, lies within the bounds the distribution reports, and respects the quantization; a roulette never yields an area of weight zero, a mixture yields a sample of one of its positively weighted components, a multivariate distribution is the concatenation of its components. The single, contiguous, strided and structure-of-arrays forms fill exactly the requested slots, and samples converted for a parameter always belong to that parameter's domain or an error is reported.",
 ["inputs","configurations"],"all distributions (nested mixtures and multivariates included), all random streams including generator extremes, all sample counts and layouts",
 "Tests draw thousands of values of one seeded generator for fixed distributions and check means; extremes and layouts of nested distributions are not reached.",
 ["src/distribution.c","src/distribution_uniform.c","src/distribution_normal.c","src/distribution_roulette.c","src/distribution_mixture.c","src/distribution_multivariate.c","src/parameter_numerical.c","src/parameter_categorical.c"],
 [("sampling kernels","src/distribution_*.c:_ccs_distribution_*_samples/_strided_samples/_soa_samples"),("oversampling loops","src/parameter_numerical.c, src/parameter_categorical.c: *_samples")])
prop("C11","Interval operations are operations on sets of numbers",
 "Membership in an interval follows its bounds and their inclusion flags; an interval is reported empty exactly when no number of its type (an integer, or a real) is a member; the intersection contains exactly the common members; the union contains every member of either operand and is no larger than the smallest interval doing so; two intervals are reported equal exactly when they have the same members. Operations on different numeric types are errors.",
 ["inputs"],"all pairs of integer and floating point intervals, including empty, degenerate, touching, unbounded and extreme-value ones",
 "Tests cover about twenty pairs.",
 ["src/interval.c"],[("interval algebra","src/interval.c")])
prop("C12","Maps behave as dictionaries over datums",
 "After any sequence of set, delete and clear operations a map answers existence, get, keys, values and pairs exactly like a mathematical dictionary keyed by datum value (type and content; strings by content, objects by identity), with values most recently set and getters that agree with each other. Stored strings and objects remain valid until their entry is replaced, deleted or cleared, getting an absent key gives none, and deleting one is an error.",
 ["histories","inputs"],"all operation sequences over keys and values of every datum type, including owned and unowned objects and transient strings",
 "Tests insert a few entries and read them back.",
 ["src/map.c","src/datum_hash.h"],[("hash table","src/map.c"),("datum hash/equality","src/datum_hash.h")])
prop("C13","Contexts and bindings agree on index, name and handle; equality is structural",
 "In every context looking a parameter up by index, name or handle designates the same parameter, in insertion order, and absent ones are errors. The value of a parameter in a binding is the one last written, whichever way it is read or written; comparison of bindings is a total order whose equality coincides with equality of context and all values, and equal bindings hash equally.",
 ["histories","inputs"],"all contexts, all read/write sequences, all pairs and triples of bindings",
 "Tests read back defaults and compare two or three objects.",
 ["src/context.c","src/binding.c","src/configuration.c","src/features.c","src/evaluation.c","src/features_evaluation.c","src/tree_configuration.c","src/tree_evaluation.c"],[("lookup tables","src/context.c"),("values, hash, cmp","src/binding.c")])
prop("C14","Evaluation comparison is the Pareto order of the objectives",
 "Each objective value of an evaluation is the value of the objective's expression on that evaluation's values. Comparing two successful evaluations of the same objective space answers better exactly when one is at least as good for every objective (respecting minimize/maximize) and strictly better for one, equivalent when all objectives are equal, worse when the converse holds, and not comparable otherwise, so that it is antisymmetric and transitive; evaluations with an error result or of different objective spaces cannot be compared.",
 ["inputs"],"all objective spaces with any number of objectives of either direction, all pairs and triples of evaluations, for plain, features and tree evaluations",
 "Tests compare a few pairs with one or two objectives.",
 ["src/evaluation.c","src/features_evaluation.c","src/tree_evaluation.c","src/evaluation_internal.h","src/objective_space.c"],[("comparison","src/evaluation.c:_ccs_evaluation_compare and siblings"),("objective values","src/evaluation_internal.h")])
prop("C15","A random tuner's history and optima are exactly what it was told",
 "After any sequence of tell calls the history of a random tuner is the sequence of successful evaluations told (result code zero), in order, and its optima are exactly the non-dominated successful evaluations of that history (first told among equivalent ones), per features for a features tuner; the tuner's suggestion is the configuration of one of the current (matching) optima or, when there is none, a freshly sampled valid configuration. Ask returns the requested number of valid configurations, and a failing call loses nothing that was known.",
 ["histories","inputs"],"all told histories including failed, equivalent, incomparable and repeated evaluations in any order, any batching, interleaved with asks and suggestions",
 "Tests tell one random history and check the final optimum count.",
 ["src/tuner_random.c","src/features_tuner_random.c","src/tree_tuner_random.c","src/tuner.c","src/features_tuner.c","src/tree_tuner.c"],[("optima update","src/tuner_random.c:_ccs_tuner_random_tell and siblings"),("suggest","src/tuner_random.c:_ccs_tuner_random_suggest and siblings")])
prop("C16","Trees keep positions, parents, values and sampling weights consistent",
 "A tree stays a tree: each node has at most one parent, parent and child agree on the index, and attempts to reuse a slot or attach an already attached node fail and change nothing. A node's position, the values along it, and lookup by position are mutually inverse. A node is sampled into one of its children or itself with probability proportional to own weight and to the bias times total weight of each child (weight one for a child not yet built), however weights and biases were changed and in whatever order the tree was assembled.",
 ["histories","inputs"],"all construction orders, shapes, weight and bias updates, positions valid and invalid, all random streams",
 "Tests build two fixed trees.",
 ["src/tree.c"],[("weights propagation","src/tree.c:_ccs_tree_update_weight and callers"),("positions","src/tree.c:ccs_tree_get_position, ccs_tree_position_is_valid, ccs_tree_get_values_at_position")])
prop("C17","Tree spaces: configurations agree with the tree they designate",
 "A tree configuration designates a path of its tree space, valid when every node before its last step exists and that step is one of its branches; its node, its values and its validity agree with the tree, for static spaces as the tree stands and for dynamic spaces with missing children built on demand by the user's callback exactly once per slot. Sampled tree configurations are valid, follow the tree's weights for any random stream, and equality, ordering and hashing of tree configurations follow space and position.",
 ["histories","inputs"],"all trees, positions, random streams, and interleavings of sampling, checking and materialisation",
 "Tests sample one dynamic tree with one seed.",
 ["src/tree_space.c","src/tree_space_static.c","src/tree_space_dynamic.c","src/tree_configuration.c"],[("sampling","src/tree_space_static.c, src/tree_space_dynamic.c: *_samples"),("materialisation","src/tree_space_dynamic.c")])
prop("C18","Serialization round-trips every object",
 "Serializing an object and deserializing the result yields an object that answers every query, check, evaluation and comparison like the original, samples like it (same random stream), carries its user data when the callbacks are given, and can itself be serialized and read back. An object owns copies of what it is made of; what a binding or expression merely refers to is found in the enclosing object or in the handle map the user supplies (where the new object is entered under its original handle), and its absence, a handle already mapped, or a missing vector of user callbacks is an error. A tuner's optima are members of its copied history. The announced size is exactly the number of bytes written, and memory, file and descriptor forms are the same bytes.",
 ["inputs","histories"],"all object kinds and contents (empty, nested, extreme integers and floats, long strings), all histories that built them, with and without handle maps and user data",
 "Tests round-trip one instance per type with typical contents.",
 ["src/cconfigspace.c","src/cconfigspace_deserialize.h","src/*_deserialize.h","src/cconfigspace_internal.h"],[("entry points","src/cconfigspace.c:ccs_object_serialize/ccs_object_deserialize"),("varint / zigzag / strings","src/cconfigspace_internal.h"),("per-type codecs","src/*_deserialize.h, src/*.c:_ccs_serialize_bin_*")])
prop("C19","Short buffers and truncated or mislabelled streams are rejected cleanly",
 "Serializing into a buffer smaller than the announced size, and deserializing (from memory, file or descriptor) any proper prefix of a valid stream or a stream whose magic tag, version or object type is damaged, fails with an error; it never reads or writes outside the buffer it was given, never crashes or hangs, leaks nothing, and leaves the result handle and the existing entries of a supplied handle map untouched.",
 ["inputs","crash_points"],"every truncation point and every too-small size, for streams of every object kind",
 "Tests never pass a short buffer except for the size query.",
 ["src/cconfigspace.c","src/cconfigspace_internal.h","src/*_deserialize.h"],[("buffer accounting","src/cconfigspace_internal.h:_ccs_(de)serialize_bin_*"),("header check","src/cconfigspace.c:_ccs_object_deserialize_*")])
prop("C20","Descriptor streaming is independent of how the bytes are chunked",
 "Writing an object to, or reading one from, a file descriptor transfers exactly the bytes of the in-memory form, whatever partial reads and writes the descriptor performs. In non-blocking mode the call returns 'again' when it would block, can be resumed any number of times until it completes with the same result as a blocking call, and consumes no byte beyond the object; a stream that ends early is reported as an error.",
 ["schedules","inputs"],"every schedule of partial reads/writes, would-block points and end of stream, for blocking and non-blocking descriptors",
 "Tests write one small object to a pipe that takes it in one go.",
 ["src/cconfigspace.c"],[("descriptor writer","src/cconfigspace.c:_ccs_object_serialize_file_descriptor"),("descriptor reader","src/cconfigspace.c:_ccs_object_deserialize_file_descriptor")])
prop("C21","Failures are reported once, consistently, per thread, without side effects",
 "A call that fails returns an error code and leaves a thread error whose code is that same code, with a message and at least one location (calls on error stacks themselves only return the code; a user callback that fails reports for itself). Error state is private to each thread, retrieving it transfers ownership and clears it, setting it replaces it and releases what was there, and error stacks live as long as they are held. An invalid argument (null or wrong-type handle, null output, missing array, out-of-range index of any size, unknown name, too-small array) of any public function is reported by the documented error code rather than a crash, writes nothing through the outputs and leaves nothing behind; in calls that take their elements one by one, the elements before the faulty one may have been taken.",
 ["inputs","schedules"],"all public entry points x all argument slots made invalid, and all interleavings of failing and succeeding calls on several threads",
 "Tests check a few return codes and one error stack.",
 ["src/error_stack.c","src/cconfigspace_internal.h","src/*.c"],[("thread error","src/error_stack.c"),("argument checks","src/cconfigspace_internal.h:CCS_CHECK_*")])
prop("C22","User-defined tuners and dynamic spaces are driven faithfully",
 "A user-defined tuner or dynamic tree space forwards each operation to the matching user callback exactly once, with the caller's arguments, and returns its results and error codes unchanged; its state, history and optima survive serialization by being handed back through the state callback (or by being told again when there is none), and its destructor callback runs exactly once.",
 ["histories","programs"],"all callback behaviours (including failing and absent optional callbacks), all call sequences, with serialization at any point",
 "Tests use one well-behaved user tuner.",
 ["src/tuner_user_defined.c","src/features_tuner_user_defined.c","src/tree_tuner_user_defined.c","src/tree_space_dynamic.c","src/*_deserialize.h"],[("callback forwarding","src/tuner_user_defined.c and siblings"),("state transfer","src/tuner_user_defined.c:_ccs_serialize_bin_*, src/tuner_deserialize.h")])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s)
print(len(P))
