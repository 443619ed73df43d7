#!/usr/bin/env python3
"""Single source of truth for /verif/properties.jsonl."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if "state" in kw: a["state"]=[{"name":kw["state"],"meaning":kw["state"]}]
    if "observe_at" in kw: a["observe_at"]=[kw["observe_at"]]
    P.append({"id":id,"title":title,"statement":statement,
              "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Serialized objects come back equal through every transport",
 "Any object (parameter, distribution, expression, space, configuration, evaluation, tree, map, generator, tuner, with everything it refers to) that is serialized and deserialized through memory, a file, a blocking descriptor or a non-blocking descriptor comes back with the same observable content. "
 "This holds however the descriptor splits the transfer: short reads and writes, interrupted calls and would-block answers only delay the result, and a transfer suspended on a would-block answer resumes exactly where it stopped, without losing, repeating or reading past the object's own bytes. "
 "The size announced for the serialized form is the number of bytes produced, also with user data, custom serialize callbacks and recorded handles. Configurations and evaluations are taken with a space that was not extended after they were made.",
 ["inputs","schedules","fault_sequences"],
 "every object graph buildable through the public API, every transport, every split of the byte stream and every sequence of EINTR/EAGAIN/short transfers",
 "The tests serialize a few hand-made objects through a buffer, a file and an unloaded pipe; they never see a short or suspended transfer at an arbitrary byte, and only sample a handful of graphs.",
 ["src/cconfigspace.c","src/cconfigspace_internal.h","src/cconfigspace_deserialize.h","src/rng.c","src/tuner_random.c","src/configuration_space.c"],
 [("_ccs_object_serialize_with_opts / _ccs_object_serialize_file_descriptor","src/cconfigspace.c"),
  ("_ccs_object_deserialize_file_descriptor","src/cconfigspace.c"),
  ("per-type serialize/deserialize pairs","src/*.c, src/*_deserialize.h")],
 state="serialized byte stream; non-blocking transfer state kept between calls",
 observe_at="public getters on original and restored object; bytes seen by the simulated descriptor")
prop("C02","A tuner restored from a checkpoint continues like the uninterrupted one",
 "A tuner (plain, features or tree; random or user-defined) that is serialized at any point of its life, lost in a crash and restored from its last completed checkpoint has the same history, the same optima in the same order, the same spaces and the same generator state as at that checkpoint. "
 "From there on the same calls give the same answers (asked configurations, suggestions, history, optima) as on a tuner that was never interrupted, for any number of crash and restore cycles.",
 ["histories","crash_points"],
 "every history of ask/tell/suggest calls and every set of crash points at which the tuner is restored from its last completed checkpoint",
 "The tests restore one tuner once after a fixed history and compare sizes; equality of every later answer after arbitrary histories and repeated restores is never exercised.",
 ["src/tuner_random.c","src/tuner_user_defined.c","src/tuner_deserialize.h","src/features_tuner_deserialize.h","src/tree_tuner_deserialize.h","src/rng_deserialize.h"],
 [("tuner serialize / deserialize","src/tuner_random.c, src/tuner_deserialize.h"),("rng state serialize","src/rng.c, src/rng_deserialize.h")],
 state="history, optima, rng state, user state", observe_at="ask/tell/suggest/get_history/get_optima results")
prop("C03","I/O failures are reported and leave nothing behind",
 "When an operating-system call fails for good during a serialize or deserialize call (opening, sizing, truncating, mapping, syncing, reading or writing the file or descriptor, full disk, unexpected end of data), the call returns an error instead of success, hanging or aborting. "
 "After the failure no memory, descriptor or mapping stays behind, the object being serialized is unchanged, no object is returned (of user state read back through a callback nothing is promised), and the same call succeeds with the right result once the fault is gone. "
 "A file serialize call that reports success has left exactly the announced bytes in the file.",
 ["fault_sequences","inputs"],
 "every failing system call position and error code during file and descriptor serialization and deserialization of any object",
 "Tests run on a healthy filesystem and never see a failing system call at an arbitrary position.",
 ["src/cconfigspace.c"],
 [("_ccs_object_serialize_file / _ccs_object_deserialize_file","src/cconfigspace.c"),("_ccs_object_serialize_file_descriptor / _ccs_object_deserialize_file_descriptor","src/cconfigspace.c")],
 state="open descriptors, mappings, heap", observe_at="return codes, simulated descriptor and mapping tables, heap table")
prop("C04","Damaged or truncated images are rejected safely",
 "Deserializing bytes that were truncated, torn, bit-flipped or otherwise altered in storage either returns an error or yields a well-formed object on which the whole public API works. "
 "It never reads or writes outside the given bytes or its own memory, never loops without bound, never terminates the process, and on error returns no object and leaks nothing; a strictly truncated image is always an error.",
 ["inputs","crash_points","fault_sequences"],
 "every serialized image and every truncation, torn write, bit flip and splice of it",
 "Tests only deserialize images the library has just written.",
 ["src/cconfigspace.c","src/cconfigspace_internal.h","src/cconfigspace_deserialize.h","src/map_deserialize.h","src/tree_deserialize.h"],
 [("header and size checks","src/cconfigspace.c"),("bin deserialize primitives","src/cconfigspace_internal.h"),("per-type *_deserialize.h","src/*_deserialize.h")],
 state="untrusted bytes", observe_at="return code, returned object, memory checker, allocation sizes, step counter")
prop("C05","Running out of memory is reported and changes nothing",
 "When any memory allocation inside any public call fails, the call returns an error (out of memory) or succeeds normally; it never crashes, exits, corrupts memory or leaks. "
 "After such a failed call every object involved behaves as if the call had not been made, except that a random generator may have advanced, a list call may have taken a prefix of its list, and children a dynamic tree space has already created may stay; repeating the call once memory is available gives the result it would have given.",
 ["fault_sequences","histories"],
 "every public call in every history and every position of the failing allocation inside it",
 "Tests never make an allocation fail; there are hundreds of allocation sites and each needs its own unwinding to be exercised.",
 ["src/*.c","src/utarray.h","src/uthash.h"],
 [("error unwinding paths (CCS_*_ERR_GOTO)","src/*.c"),("utarray_oom / uthash_nonfatal_oom","src/*.c")],
 state="heap, all object graphs", observe_at="return code, heap table, public getters, later results against a run without faults")
prop("C06","Tuner history and optima are exactly what the reported results imply",
 "For any sequence of asks and tells, with results arriving late, reordered, duplicated, partially failed or not at all, the history of a random tuner (plain and tree) holds exactly the successful evaluations told, each once per tell and in tell order, and evaluations reported as failed never enter the history or the optima. "
 "The optima are always exactly the non-dominated evaluations of that history whose objectives can be computed (first told kept among equivalent ones) for every combination of minimised and maximised objectives, and a suggestion is one of the optima's configurations whenever there is one. "
 "Asked configurations are valid configurations of the tuner's space, and size queries agree with the lists returned.",
 ["histories","schedules","fault_sequences"],
 "every interleaving of simulated workers that ask, fail, duplicate, delay, reorder or lose results, for any number and direction of objectives",
 "Tests tell a fixed list of results once, in order; domination and replacement among many optima under reordering and duplicates is never compared with a reference.",
 ["src/tuner_random.c","src/tree_tuner_random.c","src/evaluation.c","src/tree_evaluation.c","src/tuner_user_defined.c"],
 [("tell / optima update","src/tuner_random.c, src/tree_tuner_random.c"),("evaluation compare","src/evaluation.c, src/tree_evaluation.c")],
 state="history and optima arrays", observe_at="get_history, get_optima, suggest")
prop("C07","Objects live exactly as long as they are referenced",
 "An object stays fully usable while the user or any other live object holds a reference to it, in whatever order references are retained and released, and it is destroyed and its memory returned when the last reference goes. "
 "Destroy callbacks run exactly once per registration, at destruction, with their own data, the last registered first, and reference counts reported to the user are consistent with the references handed out. "
 "When everything has been released, nothing remains allocated.",
 ["histories"],
 "every history of create, share, retain, release and callback registration over every object type",
 "Tests release objects in one tidy order; use after free, leaks and double frees depend on the order and sharing pattern.",
 ["src/cconfigspace.c","src/cconfigspace_internal.h","src/map.c","src/tree.c","src/binding_internal.h"],
 [("ccs_retain_object / ccs_release_object / destroy callbacks","src/cconfigspace.c"),("per-type del operations","src/*.c")],
 state="reference counts, callback lists", observe_at="getters after release of other references, callback counters, heap table, memory checker")
prop("C08","Threads working on their own objects do not affect each other",
 "Threads that each work on their own objects get, under every interleaving, exactly the results each would get running alone, without data races on library state. "
 "The error trace a thread reads after a failing call is that thread's own last error, with the right code and call chain, whatever other threads fail or succeed at meanwhile; and clearing or taking it never touches another thread's trace.",
 ["schedules","programs"],
 "every interleaving of memory accesses of threads running independent programs",
 "The test suite is single-threaded.",
 ["src/error_stack.c","src/cconfigspace.c","src/rng_deserialize.h","src/rng.c"],
 [("thread error stack","src/error_stack.c"),("lazily filled generator type table","src/rng_deserialize.h")],
 state="process-wide and thread-local library state", observe_at="per-thread result logs against solo runs; access history of shared addresses")
prop("C09","Every sampled or asked configuration is valid, for every random stream",
 "Whatever the random generator produces, every configuration or features a space hands out (sample, samples, ask) has each active value inside its parameter's domain, each inactive parameter exactly where its condition does not hold, and no forbidden clause satisfied; otherwise the call fails with the sampling-unsuccessful error within its bounded number of tries. "
 "Distributions only return values inside their announced bounds, and the library's own validity check agrees with an independent evaluation of the space's definition for sampled and altered configurations.",
 ["inputs","fault_sequences"],
 "every space (bounds, quantisation, scales, conditions, forbidden clauses, joint distributions) and every stream of generator outputs, including extreme ones",
 "Tests draw some thousand values from a fixed well-behaved stream; boundary draws (0, maximum, stuck) practically never occur.",
 ["src/configuration_space.c","src/parameter_numerical.c","src/parameter_categorical.c","src/distribution_uniform.c","src/distribution_normal.c","src/distribution_roulette.c","src/distribution_mixture.c","src/distribution_multivariate.c"],
 [("_sample, _set_actives, _test_forbidden","src/configuration_space.c"),("samples operations","src/distribution_*.c, src/parameter_*.c")],
 state="random stream", observe_at="sample results, check results")
prop("C10","A map behaves as a dictionary under any history",
 "After any history of set, get, exist, delete and clear on a map, with keys and values of any type (including objects and transient strings), the map holds exactly the last value set for each distinct key and nothing else, and its key, value and pair listings and their counts agree with that content. "
 "Objects used as keys or values (other than by identifier only) are kept alive exactly while they are in the map, and string keys and values survive the caller's buffers.",
 ["histories","inputs","fault_sequences"],
 "every history of map operations over keys and values of every data type, also with failed calls in between",
 "Tests use a handful of keys once; hash growth, overwriting, reinsertion after deletion and failure in the middle of an overwrite are not exercised.",
 ["src/map.c","src/map_deserialize.h","src/datum_hash.h"],
 [("ccs_map_set / del / clear / get_pairs","src/map.c")],
 state="hash table", observe_at="get/exist/keys/values/pairs")
prop("C11","Tree spaces agree with their tree under any growth history",
 "For any history of building, re-weighting and re-biasing a tree, positions, values, depth, children and parents reported by the tree and by static and dynamic tree spaces agree with the tree as built, and sampling picks every child and stop with nonzero weight share and none with zero share. "
 "Children of a dynamic tree space are created exactly once each by the user callback, on first need, and reused afterwards; every sampled tree configuration has a valid position with matching values.",
 ["histories","schedules","fault_sequences"],
 "every history of tree edits, lookups and samples, for static and dynamic spaces, with any random stream",
 "Tests build one fixed tree and sample statistically.",
 ["src/tree.c","src/tree_space.c","src/tree_space_static.c","src/tree_space_dynamic.c","src/tree_configuration.c","src/distribution_roulette.c"],
 [("_ccs_tree_update_weight / update_bias","src/tree.c"),("_ccs_tree_space_tree_get_child","src/tree_space_dynamic.c"),("_ccs_tree_space_samples","src/tree_space.c")],
 state="weights, biases, children", observe_at="tree and tree space getters, samples")
prop("C12","Failing user callbacks are reported and change nothing",
 "When a user-supplied callback (user-defined tuner operation, dynamic tree child creation, custom serialize or deserialize callback, user state serializer) returns an error at any invocation, the enclosing call returns that error, leaks nothing and leaves library-side state as it was, except that a random generator may have advanced and children a dynamic tree space has already created may stay. "
 "Once the callback works again the same call succeeds, and callbacks receive the arguments and user data they were registered with.",
 ["fault_sequences","histories"],
 "every callback kind and every invocation index at which it fails, in any history",
 "Tests use callbacks that always succeed.",
 ["src/tuner_user_defined.c","src/features_tuner_user_defined.c","src/tree_tuner_user_defined.c","src/tree_space_dynamic.c","src/cconfigspace.c"],
 [("vector calls","src/*_user_defined.c, src/tree_space_dynamic.c"),("serialize / deserialize callbacks","src/cconfigspace.c, src/cconfigspace_internal.h")],
 state="callback registration, library object state", observe_at="return code, heap table, later results against a run without faults")
prop("C13","A features tuner keeps the results of different features apart",
 "For any interleaving of asks and tells under different features, the history and optima a features tuner returns for given features contain exactly the successful evaluations told with equal features, in tell order, and the optima are exactly the non-dominated ones among those; with no features given the history is the whole of it. "
 "A suggestion for some features is an optimum for those features whenever one was told, never one learned under other features.",
 ["histories","schedules","fault_sequences"],
 "every interleaving of simulated workers working under several features, with failed, late, duplicate and reordered results",
 "Tests use one or two features and a fixed order.",
 ["src/features_tuner_random.c","src/features_evaluation.c","src/features.c"],
 [("tell / get_optima / suggest by features","src/features_tuner_random.c")],
 state="history, optima", observe_at="get_history, get_optima, suggest per features")
prop("C14","Equal seeds and calls give equal results, whatever else happens",
 "With the generator seeded the same way, the same sequence of calls returns the same values, samples and orders in every process and run: results never depend on where or how memory was allocated, on leftover memory content, on unrelated objects being used in between, or on whether the caller inspects objects in between. Object handles themselves may differ, and with them the number a hash gives, the sign of comparing things of different spaces and the order in which an expression lists its parameters. "
 "Hash and comparison functions agree: equal bindings or evaluations hash alike and compare as equal.",
 ["histories","configurations","schedules"],
 "every program of API calls, every heap layout, memory fill and interleaved unrelated activity",
 "A test run sees one heap layout and one process; dependence on addresses or uninitialised memory shows only when these vary.",
 ["src/*.c"],
 [("rng, distribution and space sampling","src/rng.c, src/distribution_*.c, src/configuration_space.c"),("hash/cmp","src/datum_hash.h, src/binding_internal.h")],
 state="heap layout, generator state", observe_at="result logs of the same program under different layouts and interleavings")
prop("C15","Rejected modifications leave a space unchanged",
 "A space accepts exactly the modifications that keep it coherent: duplicate names, conditions that create a cycle or refer to foreign parameters, forbidden clauses that would exclude the default configuration, bad indexes and mismatched dimensions are refused with an error, and the space (parameters, conditions, clauses, distributions, default configuration, validity decisions, sampling) is the same as before the refused call. "
 "A call with a list acts as its elements one by one up to the first refusal. After any history of accepted and refused modifications the space reports exactly the accepted ones, and its default configuration honours them.",
 ["histories","fault_sequences"],
 "every history of accepted and refused modifications of configuration, features and objective spaces",
 "Tests check that some bad calls are refused, not that the space still works identically afterwards.",
 ["src/configuration_space.c","src/features_space.c","src/objective_space.c","src/context_internal.h"],
 [("add_parameter / set_condition / add_forbidden_clause / set_distribution","src/configuration_space.c"),("_generate_constraints","src/configuration_space.c")],
 state="parameters, dependency graph, clauses, distributions", observe_at="getters, default configuration, check, samples")
prop("C16","The Kokkos connector measures every region once and converges to the best",
 "For any interleaving and nesting of tuning contexts and any clock behaviour, the connector hands out for each request a value of every declared tuning variable inside its declared candidates, attributes to each ended context exactly the time between its request and its end, and keeps regions and context values apart. "
 "Once 500 measurements of a region have been taken it stops measuring and answers with the fastest configuration measured for the given context values, and it fences exactly while some enclosing region is still being measured. "
 "After finalisation nothing the connector allocated in the library remains.",
 ["schedules","histories"],
 "every sequence of declare, request, begin, end, kernel and finalise events with nested contexts, unknown contexts, stalls and slow clocks",
 "The connector has no tests in the repository; behaviour depends on event interleaving and on elapsed time.",
 ["connectors/kokkos/ccs-kokkos-connector.cpp"],
 [("kokkosp_request_values / kokkosp_end_context","connectors/kokkos/ccs-kokkos-connector.cpp")],
 state="contexts, tuners and convergence stack", observe_at="values returned to the Kokkos runtime, fence calls, heap table")
prop("C17","Incorrect calls are refused and have no effect",
 "At any point of any history, a public call with one incorrect argument that its documentation lists as an error (no object or an object of another type where a handle is required, a missing result pointer or array, an index outside the object, an unknown name, an object that does not belong to the one it is used with, an impossible count, bound or enumerated value, a required callback left out) returns an error, the documented one, and changes nothing: the rest of the history behaves exactly as if the call had not been made, and no memory or reference stays behind. "
 "A list query refuses an array that is too small and fills one that is too large with the list followed by empty entries, writing nothing beyond the announced size. What user callbacks accept is up to them.",
 ["inputs","histories"],
 "every public function, every argument position, every kind of incorrect value and every state the objects can be in",
 "The tests call a few functions with a few wrong arguments on fresh objects; they never compare the rest of a history with one without the wrong call.",
 ["src/*.c","include/cconfigspace/*.h"],
 [("CCS_CHECK_OBJ, CCS_CHECK_PTR, CCS_CHECK_ARY, CCS_REFUTE","src/cconfigspace_internal.h"),("argument checks at the head of each public function","src/*.c")],
 state="any", observe_at="return code of the incorrect call; log of the history with and without it; heap and reference counts")
prop("C18","Every way to read or write a value agrees with all others",
 "At any point of any history, also after calls that failed and after objects were restored, what can be read in several ways reads the same in all of them: the parameters, conditions, clauses and objectives of a space by index, by name, by handle, one by one, several at once and as a list; the values of configurations, features and evaluations by index, by name, by parameter and as a list; all of it through the specific and the generic (binding, context) interface; and it is what was added or set there. "
 "A value set by index, by name, by parameter or with all others is what every later read returns, also when the caller's buffers are gone. Validity of an object, of the object in its space and of its values in its space are decided alike; single objectives agree with the list of objective values; hash and comparison agree between the interfaces; the parameters an expression lists are those it depends on, and it fits exactly the spaces that hold them; the order of ordinal values is the order of their list.",
 ["inputs","histories"],
 "every space, binding and expression reachable through the public API and every history of additions and assignments leading to it",
 "The tests read a value back in the way it was written on small fixed objects; they do not compare access paths on objects with arbitrary histories.",
 ["src/binding_internal.h","src/binding.c","src/context_internal.h","src/context.c","src/configuration_space.c","src/features_space.c","src/objective_space.c","src/configuration.c","src/evaluation_internal.h","src/expression.c","src/parameter_categorical.c"],
 [("_ccs_binding_*","src/binding_internal.h"),("_ccs_context_*","src/context_internal.h"),("ccs_expression_get_parameters, ccs_expression_check_context","src/expression.c")],
 state="spaces, bindings, expressions", observe_at="public getters and setters")
# --- pure functions: technique does not apply
prop("N01","Expressions evaluate to the value their definition gives",
 "Evaluating an expression over given values returns the value defined by its operators and operands, propagates inactive values as documented and refuses ill-typed operands.",
 ["inputs"],"every expression and every assignment of values",
 "Input space is unbounded.",["src/expression.c"],[("eval operations","src/expression.c")])
prop("N02","Interval operations are set operations",
 "Intersection, union, inclusion, emptiness and equality of intervals agree with the set of numbers each interval denotes.",
 ["inputs"],"every pair of intervals","Input space is unbounded.",["src/interval.c"],[("interval operations","src/interval.c")])
prop("N03","Distributions follow their announced law",
 "Samples of a distribution follow, in the statistical sense, the announced law (uniform, normal, roulette, mixture, multivariate).",
 ["inputs"],"every distribution and its parameters","Statistical statement over unbounded samples.",["src/distribution_normal.c","src/distribution_uniform.c"],[("samples operations","src/distribution_*.c")])
prop("N04","Textual expressions parse to the expression they denote",
 "The expression parsers of the language bindings build the expression the text denotes under the documented precedence and associativity.",
 ["inputs"],"every text","Input space is unbounded.",["bindings/python/cconfigspace/expression_parser.py"],[("parser","bindings/python/cconfigspace/expression_parser.py")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
