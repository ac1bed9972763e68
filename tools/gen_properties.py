#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- runtime: argument capture
prop("C01", "Capture index files round-trip",
 "Writing the index of the current captures and loading it back yields the same target name, element id and invocation number, and for every captured argument the same argument index, before/after flag, primitive type, dimensions and bytes (inline bytes identical; file-backed captures resolve, relative to the index's directory, to the file that holds them). This holds for every region that has captures, each in an index file of its own.",
 ["inputs", "histories"], "every set of captures over arguments, before/after, types, dimension vectors and byte contents, for one or several regions and any earlier invocations",
 "Two round-trip tests sample three captures; the archive format must be lossless for every combination of arguments, shapes and byte values.",
 ["arg-capture-io/src/arg_capture_io.cpp", "arg-capture-io/include/daisy_rtl/arg_capture_io.h"],
 [("serialize_into / parse_from", "arg-capture-io/src/arg_capture_io.cpp"), ("write_index", "arg-capture-io/src/arg_capture_io.cpp"), ("from_index", "arg-capture-io/include/daisy_rtl/arg_capture_io.h")],
 [("current_captures_", "captures of the current invocation per region", "arg_capture_io.h"), ("invokes_", "invocation counter per region", "arg_capture_io.h")],
 ["ArgCaptureIO::write_index + from_index on a scratch directory"])
prop("C02", "Capture strategy selects exactly the right invocations",
 "For each region of a captured target, entering it tells the caller to capture on exactly the invocations the strategy names: the first one with no strategy, 'once' or an unknown strategy, every one with 'all', none with 'never'. Invocations are counted from 0 separately per region and per target, whatever calls on other regions happen in between, and a disabled context accepts every call and writes nothing.",
 ["histories", "configurations"], "every history of enter/capture/end calls over several regions and targets, under every strategy and base-directory configuration",
 "The scripted test runs one region with two invocations; interleavings of regions and targets and re-entries are unbounded.",
 ["rtl/src/capture.cpp", "arg-capture-io/src/arg_capture_io.cpp", "rtl/include/daisy_rtl/daisy_rtl.h"],
 [("DaisyRtlCapture::enter", "rtl/src/capture.cpp"), ("__daisy_capture_init", "rtl/src/capture.cpp")],
 [("invokes_", "invocation counter per region", "arg_capture_io.h"), ("invocation_to_capture_", "selected invocation", "rtl/src/capture.cpp")],
 ["return value of __daisy_capture_enter, files in the capture directory"])
prop("C03", "Captured files hold exactly the captured memory",
 "After a captured invocation ends, the capture directory holds for every captured argument, before and after separately, one file whose content is exactly the argument's memory at the time of the capture call (element size times all dimensions), and an index for the region and invocation that names it with the right shape and type. No capture overwrites or changes the data of another argument, direction, region, invocation or target, and recapturing an argument replaces its earlier capture. (Invocations of one target do not overlap in time.)",
 ["histories", "inputs"], "every history of raw/1d/2d/3d captures with any sizes over several regions, invocations and targets sharing a directory",
 "Tests compare one program's captures; collisions and stale data need particular combinations of calls.",
 ["rtl/src/capture.cpp", "arg-capture-io/src/arg_capture_io.cpp"],
 [("generate_arg_capture_output_filename", "rtl/src/capture.cpp"), ("create_and_capture_to_file", "arg-capture-io/src/arg_capture_io.cpp"), ("write_index", "arg-capture-io/src/arg_capture_io.cpp")],
 [("current_captures_", "captures of the current invocation per region", "arg_capture_io.h")],
 ["files in the capture directory after __daisy_capture_end"])
prop("C04", "Inline capture encoding is lossless base64",
 "Encoding any byte string gives its standard padded base64 text, and decoding that text gives back exactly the same bytes; an inline capture stores exactly the element-size-times-dimensions bytes of the argument.",
 ["inputs"], "all byte strings",
 "No test covers the codec alone; the tail lengths and the 64 symbol values are a product space.",
 ["arg-capture-io/src/base64.cpp", "arg-capture-io/src/arg_capture_io.cpp"],
 [("base64_encode / base64_decode", "arg-capture-io/src/base64.cpp"), ("capture_inline", "arg-capture-io/src/arg_capture_io.cpp")], (),
 ["base64_encode, base64_decode, ArgCapture::data"])
prop("C05", "Capture I/O faults are never reported as success",
 "If the file system refuses or cuts short any step of storing a capture or its index (directory creation, open, write, close), the failure is reported to the caller; it is never reported as success. An argument whose data could not be stored is never referenced by an index as stored data, captures that were reported as stored are complete on disk, and reading back fewer bytes than asked for is reported.",
 ["fault_sequences"], "every history of captures with every single and double I/O fault (error or short write) at every system call",
 "Tests run on a healthy disk; no test injects an error.",
 ["arg-capture-io/src/arg_capture_io.cpp", "rtl/src/capture.cpp"],
 [("write_data_to_raw_file", "arg-capture-io/src/arg_capture_io.cpp"), ("write_index", "arg-capture-io/src/arg_capture_io.cpp"), ("read_data_from_raw_file", "arg-capture-io/src/arg_capture_io.cpp")], (),
 ["return values and exceptions of the capture calls, files on disk, system calls intercepted at libc"])
# ---------------------------------------------------------------- runtime: instrumentation
prop("C06", "Instrumentation trace holds one faithful event per measurement",
 "At program end the trace file is a valid JSON document. Outside aggregate mode it holds, for every region, exactly one event per enter/exit pair in order, with the region's metadata, the start time, the duration from that enter to its matching exit, and per configured counter the difference between the counter values at exit and enter; regions that were never entered contribute no event.",
 ["histories", "configurations"], "every history of init/enter/exit/finalize over several regions and event sets, recursion included, with any optional metadata absent",
 "The instrumentation tests need hardware counters and do not run here; they sample one region and one pair.",
 ["rtl/src/instrumentation.cpp"],
 [("append_event", "rtl/src/instrumentation.cpp"), ("enter_region / exit_region", "rtl/src/instrumentation.cpp")],
 [("regions", "registered regions with their starts, durations, counts", "rtl/src/instrumentation.cpp")],
 ["the file named by __DAISY_INSTRUMENTATION_FILE"])
prop("C07", "Aggregated statistics equal the true statistics",
 "In aggregate mode the trace file is a valid JSON document with exactly one event per registered region, whose duration, run-time statistics, counter statistics and user-provided metrics (count, mean, population variance, minimum, maximum) equal the statistics of the measurements actually made, in consistent units, for any number of measurements including none.",
 ["histories", "configurations"], "every history of init/enter/exit/metric/finalize calls and every sequence of durations, counter and metric values",
 "Streaming mean and variance are checked on no data set with known answer; the value space is unbounded.",
 ["rtl/src/instrumentation.cpp"],
 [("exit_region (streaming update)", "rtl/src/instrumentation.cpp"), ("provided_metric", "rtl/src/instrumentation.cpp"), ("append_event_aggregated", "rtl/src/instrumentation.cpp")],
 [("runtime_mean, mean, static_counters_*", "running statistics", "rtl/src/instrumentation.cpp")],
 ["the file named by __DAISY_INSTRUMENTATION_FILE"])
prop("C08", "Counter sessions are used correctly over any region lifetime",
 "Over any sequence of registering and finalizing regions, including re-registering regions after many others were finalized, the counter library is only used legally: a region that is live has a started event set of its own with exactly the configured events for its kind, nothing is read, stopped or started while not in the right state, no event set is used after it was destroyed, and at exit every event set of a finalized region is cleaned up and destroyed. A region registered again under the same identity keeps its region id and its earlier measurements.",
 ["histories"], "every sequence of init/enter/exit/finalize over more regions than are kept cached",
 "Tests use one region; eviction needs more than ten finalized regions and then a re-registration.",
 ["rtl/src/instrumentation.cpp"],
 [("register_region", "rtl/src/instrumentation.cpp"), ("finalize (sleeping region cache)", "rtl/src/instrumentation.cpp")],
 [("sleeping_regions_by_name", "finalized regions whose event set is kept", "rtl/src/instrumentation.cpp")],
 ["calls made to the counter library (a recording stand-in loaded through DAISY_PAPI_PATH)"])
prop("C09", "Instrumentation is safe under concurrent threads",
 "When several threads use instrumentation at once, each on regions of its own, the counter library is never driven by two threads at the same time, no call blocks forever, and the resulting trace is the one that some one-at-a-time order of the calls would give: no measurement is lost, duplicated or attributed to another region.",
 ["schedules"], "all interleavings of the instrumentation calls of two and three threads at the library's synchronisation points and counter-library calls",
 "All tests are single-threaded.",
 ["rtl/src/instrumentation.cpp"],
 [("mutex in DaisyInstrumentationState", "rtl/src/instrumentation.cpp"), ("get_daisy_state", "rtl/src/instrumentation.cpp")],
 [("mutex", "guards all regions", "rtl/src/instrumentation.cpp")],
 ["trace file and calls to the counter library under a controlled scheduler"])
# ---------------------------------------------------------------- graph algorithms
prop("C10", "Dominator and post-dominator trees are exact",
 "For every directed graph and start vertex, the dominator tree maps each reachable vertex other than the start to its unique immediate dominator, and the start and unreachable vertices to none; the post-dominator tree does the same on the reversed graph from the (virtual, if there are several) exit. The caller's graph is the same before and after.",
 ["inputs"], "all directed graphs with self loops and parallel edges and every start vertex",
 "Tests sample two fixed graphs.",
 ["sdfg/src/graph/graph.cpp", "sdfg/include/sdfg/graph/graph.h"],
 [("dominator_tree", "sdfg/src/graph/graph.cpp"), ("post_dominator_tree", "sdfg/src/graph/graph.cpp")], (), ["returned maps; the graph after the call"])
prop("C11", "Orderings and cycle detection are exact",
 "A topological sort of an acyclic graph lists every vertex once with every edge pointing forward; a graph is reported acyclic exactly when it has no directed cycle; a depth-first listing starts at the start vertex and lists every vertex exactly once in a depth-first order; the back edges reported from a start vertex are the edges of such a search that return to a vertex still being explored, so that each closes a cycle and without them no cycle is left.",
 ["inputs"], "all directed graphs with self loops and parallel edges, every insertion order of edges and every start vertex",
 "Tests sample one fixed graph per function.",
 ["sdfg/src/graph/graph.cpp", "sdfg/include/sdfg/graph/graph.h"],
 [("topological_sort, is_acyclic, depth_first_search, back_edges", "sdfg/src/graph/graph.cpp"), ("DFSVisitor", "sdfg/include/sdfg/graph/graph.h")], (), ["returned lists"])
prop("C12", "Component and graph-view functions are exact",
 "Two vertices get the same strong component number exactly when each reaches the other, and the same weak component number exactly when they are connected ignoring edge direction; component numbers cover 0..count-1. The reversed view has exactly the reversed edges, and the undirected copy has the same vertices and edges under two mappings that are inverse to each other.",
 ["inputs"], "all directed graphs with self loops and parallel edges",
 "Tests sample one fixed graph per function.",
 ["sdfg/src/graph/graph.cpp"],
 [("strongly_connected_components, weakly_connected_components, reverse, undirected", "sdfg/src/graph/graph.cpp")], (), ["returned maps and graphs"])
prop("C13", "Path enumeration returns exactly the simple paths",
 "Enumerating the simple paths between two vertices returns every simple path exactly once, each as a connected edge sequence from the source to the destination that visits no vertex twice (apart from a closed walk when source and destination are the same), and no other edge sequence.",
 ["inputs"], "all directed graphs with self loops and parallel edges and every source/destination pair",
 "The test samples one acyclic graph.",
 ["sdfg/src/graph/graph.cpp"],
 [("all_simple_paths", "sdfg/src/graph/graph.cpp")], (), ["returned list"])
prop("C14", "Text and set helpers agree with their definitions",
 "A text counts as a number exactly when it is a non-empty run of decimal digits; number parsing returns the value of the decimal number the text starts with, after white space and a sign, modulo 2^64 for a negative number read as unsigned (the texts true and false give 1 and 0), and rejects text that starts with no number or with one whose magnitude does not fit the type; splitting cuts at the leftmost occurrences of a non-empty separator, and joining the parts with it gives the text back; the suffix test and the set-intersection test agree with their definitions. None of them changes its arguments.",
 ["inputs"], "all strings over a small alphabet up to a length bound and the numeric boundary values; all small sets",
 "Tests sample a handful of strings.",
 ["sdfg/include/sdfg/helpers/helpers.h"],
 [("is_number, parse_number_*, endswith, split, join, sets_intersect", "sdfg/include/sdfg/helpers/helpers.h")], (), ["return values"])
prop("C15", "Run-time arithmetic used by generated code is exact",
 "The integer power, minimum, maximum and multiply-add that generated code calls return the mathematically exact result for every argument for which it is representable, a negative exponent giving the truncated value the code generator documents (0), with each macro argument, and the macro's result, taken as a whole expression, in C and in C++ at every optimization level.",
 ["inputs"], "all argument pairs in a window around zero plus the boundary values",
 "No test exercises the run-time arithmetic.",
 ["rtl/include/daisy_rtl/daisy_rtl.h"],
 [("__daisy_sym_pow, __daisy_min, __daisy_max, __daisy_fma", "rtl/include/daisy_rtl/daisy_rtl.h")], (), ["values computed by a compiled C program"])
# ---------------------------------------------------------------- rpc
prop("C16", "Optimization-service configuration follows its precedence",
 "The service address, endpoint and headers a client uses are exactly those of the highest-precedence configured source: the job token before the access token before the user's token file before the machine's session file (trailing white space removed), a server override variable before the default server, later builder steps over earlier ones and a configuration file replacing only the fields it sets with text values; with no credential, building the default client fails and never sends an empty one. Header values are never printed.",
 ["configurations"], "every combination of present, empty and absent environment variables, files and builder steps",
 "No runnable test covers it; the combinations are a product space.",
 ["rpc/src/passes/rpc/rpc_context.cpp", "rpc/src/passes/rpc/daisytuner_rpc_context.cpp", "rpc/include/sdfg/passes/rpc/rpc_context.h"],
 [("find_docc_auth", "rpc/src/passes/rpc/daisytuner_rpc_context.cpp"), ("SimpleRpcContextBuilder", "rpc/src/passes/rpc/rpc_context.cpp")], (), ["get_remote_address, get_auth_headers, stderr"])
prop("C17", "Service replies are classified by what really happened",
 "A posted query is reported as a success exactly when the transfer completed with a success status (200 to 203); a transport failure, an authentication refusal and any other status are reported as errors with the status, and the reply body handed to the caller is byte for byte what the server sent for this request. The request carries exactly the given payload and headers.",
 ["inputs", "fault_sequences"], "every status code, body chunking and connection fault point, over repeated use of one handle",
 "No test contacts a server.",
 ["rpc/src/util/utils_curl.cpp", "rpc/include/sdfg/util/utils_curl.h"],
 [("post_json", "rpc/src/util/utils_curl.cpp")], (), ["HttpResult from a loopback server"])
# ---------------------------------------------------------------- compiler core
prop("C20", "Symbolic rewriting preserves values",
 "Every symbolic rewrite (simplification, expansion, substitution, linear and polynomial decomposition, inverse of an index map, normal form of a condition) yields an expression with the same value, or a condition with the same truth, as the original under every integer assignment of its symbols; a claimed equality of two expressions holds for every assignment.",
 ["inputs"], "all expressions over two symbols up to a size bound and all assignments in a window",
 "Tests compare the printed form of a few expressions.",
 ["sdfg/src/symbolic/symbolic.cpp", "sdfg/src/symbolic/polynomials.cpp", "sdfg/src/symbolic/conjunctive_normal_form.cpp"],
 [("simplify, expand, subs, eq", "sdfg/src/symbolic/symbolic.cpp"), ("polynomial, affine_*", "sdfg/src/symbolic/polynomials.cpp"), ("conjunctive_normal_form", "sdfg/src/symbolic/conjunctive_normal_form.cpp")], (), ["values of expressions before and after"])
prop("C21", "Symbolic bounds and sign facts are sound",
 "Every minimum, maximum, sign, monotonicity and contiguity fact derived for an expression under assumptions holds for every integer assignment that satisfies those assumptions.",
 ["inputs"], "all expressions and assumption sets up to a size bound and all satisfying assignments in a window",
 "Tests sample single expressions.",
 ["sdfg/src/symbolic/extreme_values.cpp", "sdfg/src/symbolic/series.cpp", "sdfg/src/symbolic/assumptions.cpp"],
 [("minimum / maximum", "sdfg/src/symbolic/extreme_values.cpp"), ("is_monotonic / is_contiguous", "sdfg/src/symbolic/series.cpp")], (), ["derived bounds against enumerated values"])
prop("C22", "Access disjointness and set facts are sound",
 "Whenever two symbolic index maps are reported not to overlap across iterations, one is reported to be a subset of, or equal to, another, or an access is delinearized, the claim is true for every assignment satisfying the assumptions: no two different iterations address the same element, every index of the subset is in the superset, and the multi-dimensional form addresses the same element.",
 ["inputs"], "all pairs of index expressions and iteration bounds up to a size bound and all iterations in a window",
 "Tests sample single accesses.",
 ["sdfg/src/symbolic/maps.cpp", "sdfg/src/symbolic/sets.cpp", "sdfg/src/symbolic/utils.cpp"],
 [("intersects, is_subset, is_disjoint", "sdfg/src/symbolic/maps.cpp"), ("delinearize", "sdfg/src/symbolic")], (), ["claims against enumerated iterations"])
prop("C23", "Assumptions derived for a program point hold there",
 "Every assumption derived for a symbol at a point of a program (bounds, constness, loop range) is true whenever execution reaches that point.",
 ["programs", "inputs"], "all small loop nests with conditions and all inputs in a window, every time control reaches each element",
 "Tests sample single nests.",
 ["sdfg/src/analysis/assumptions_analysis.cpp"],
 [("AssumptionsAnalysis", "sdfg/src/analysis/assumptions_analysis.cpp")], (), ["assumptions against the reference interpreter"])
prop("C24", "Serialization and cloning are faithful",
 "Saving a program to JSON and loading it again, and cloning a program or part of it, gives a program with the same structure, types, symbols and behaviour; saving the loaded program again gives the same document.",
 ["programs"], "all small programs built from every kind of element and type",
 "Tests sample one element kind each.",
 ["sdfg/src/serializer/json_serializer.cpp", "sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp"],
 [("JSONSerializer", "sdfg/src/serializer/json_serializer.cpp"), ("StructuredSDFGDeepCopy", "sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp")], (), ["JSON documents; results in the reference interpreter"])
prop("C25", "Clean-up passes preserve program results",
 "Running any simplification pass or the standard simplification pipelines on a valid program gives a valid program that, for every input, leaves the same contents in every externally visible container.",
 ["programs", "inputs"], "all programs up to a size bound over a few scalars and arrays, all inputs in a window",
 "Tests check the shape of the result of single hand-written programs.",
 ["sdfg/src/passes"],
 [("Pass::run", "sdfg/src/passes/pass.cpp"), ("Pipeline", "sdfg/src/passes/pipeline.cpp")], (), ["container contents after execution by the reference interpreter"])
prop("C26", "Applicable loop transformations preserve program results",
 "Whenever a loop transformation reports that it can be applied, applying it gives a valid program that leaves, for every input, the same contents in every externally visible container.",
 ["programs", "inputs"], "all loop nests up to a size bound, every transformation at every target, all inputs in a window",
 "Tests check the shape of single hand-written nests.",
 ["sdfg/src/transformations"],
 [("can_be_applied / apply", "sdfg/src/transformations")], (), ["container contents after execution by the reference interpreter"])
prop("C27", "Parallelized loops give the same result in every order",
 "Whenever a loop is turned into a parallel map, executing its iterations in any order gives the same contents in every externally visible container as the original sequential loop.",
 ["programs", "inputs", "schedules"], "all loops up to a size bound, all inputs in a window and all iteration orders",
 "Tests check which loops are converted, never the result, and no order but the sequential one.",
 ["sdfg/src/passes/structured_control_flow/for2map.cpp", "sdfg/src/analysis/data_dependency_analysis.cpp"],
 [("For2Map", "sdfg/src/passes/structured_control_flow"), ("DataDependencyAnalysis", "sdfg/src/analysis/data_dependency_analysis.cpp")], (), ["container contents over all iteration orders"])
prop("C28", "Data-flow facts cover every execution",
 "Every definition that reaches a use in some execution is reported as reaching it, every carried dependence that occurs between iterations of a loop is reported, and every reported dominance between uses holds on every execution.",
 ["programs", "inputs"], "all small programs, all inputs in a window",
 "Tests sample single programs.",
 ["sdfg/src/analysis/data_dependency_analysis.cpp", "sdfg/src/analysis/users.cpp", "sdfg/src/analysis/dominance_analysis.cpp"],
 [("DataDependencyAnalysis", "sdfg/src/analysis/data_dependency_analysis.cpp"), ("Users", "sdfg/src/analysis/users.cpp"), ("DominanceAnalysis", "sdfg/src/analysis/dominance_analysis.cpp")], (), ["reported facts against traces of the reference interpreter"])
prop("C29", "Structuring a control-flow graph preserves its executions",
 "Converting a state machine to a structured program either is refused or gives a structured program that executes the same states in the same order with the same results for every input.",
 ["programs", "inputs"], "all control-flow graphs up to five states and all branch outcomes up to a step bound",
 "Tests sample a few shapes.",
 ["sdfg/src/builder/structured_sdfg_builder.cpp"],
 [("StructuredSDFGBuilder(SDFG&)", "sdfg/src/builder/structured_sdfg_builder.cpp")], (), ["state traces"])
prop("C30", "Generated code computes what the program means",
 "The C and C++ sources generated for a valid program compile and leave, for every input, the same contents in every externally visible container as the program's defined semantics.",
 ["programs", "inputs"], "all small programs over every element kind, operator and primitive type supported, all inputs in a window",
 "Tests compare emitted text.",
 ["sdfg/src/codegen"],
 [("CCodeGenerator / CPPCodeGenerator", "sdfg/src/codegen"), ("LanguageExtension", "sdfg/src/codegen/language_extensions")], (), ["results of the compiled code against the reference interpreter"])
prop("C31", "Expanded library operations compute the operation",
 "Expanding a library operation (tensor element-wise, reduction, matrix multiplication, transposition, and the like) gives a program that computes the operation's definition for every shape, stride and input.",
 ["programs", "inputs"], "every operation with all shapes up to a bound",
 "Tests count the generated loops.",
 ["sdfg/src/data_flow/library_nodes"],
 [("expand", "sdfg/src/data_flow/library_nodes/math")], (), ["container contents after execution by the reference interpreter"])
prop("C32", "Recorded transformations replay to the same program",
 "A transformation saved to JSON and applied again to a copy of the original program gives the same program as applying it directly, and a recorded sequence replays to the same program.",
 ["programs", "histories"], "all sequences of applicable transformations up to a depth on small programs",
 "Tests sample single transformations.",
 ["sdfg/src/transformations/recorder.cpp", "sdfg/src/transformations/replayer.cpp"],
 [("Recorder / Replayer", "sdfg/src/transformations"), ("to_json / from_json", "sdfg/src/transformations")], (), ["serialized programs"])
prop("C33", "Optimization passes preserve program results",
 "Every optimization pass (normal forms, polyhedral scheduling, memory-layout and loop-structure optimizations, target scheduling) gives a valid program that leaves, for every input, the same contents in every externally visible container.",
 ["programs", "inputs"], "all loop nests up to a size bound, all inputs in a window",
 "Tests check shapes of single programs.",
 ["opt/src"],
 [("opt passes", "opt/src/passes")], (), ["container contents after execution by the reference interpreter"])
prop("C34", "Offloaded programs move exactly the data they need",
 "After offloading and transfer minimization, every device computation reads the same values and every host use sees the same values as without offloading, for every input: no stale copy is ever read on either side.",
 ["programs", "inputs", "histories"], "all sequences of host and device computations over shared arrays up to a depth",
 "Tests count remaining transfers on a few programs.",
 ["opt/src/passes", "opt/src/targets"],
 [("data transfer minimization", "opt/src/passes")], (), ["execution with separate host and device memories"])
prop("C35", "Type and shape facts are consistent",
 "Type equality is an equivalence that distinguishes exactly types differing in kind, layout or storage; sizes and inferred access types agree with the memory actually addressed; cloning a type gives an equal type.",
 ["inputs"], "all types up to a nesting depth",
 "Tests sample single types.",
 ["sdfg/src/types"],
 [("IType::operator==, clone, infer_type", "sdfg/src/types")], (), ["type values"])
prop("C36", "Python programs mean what Python says",
 "A Python function compiled through the front end returns and stores the same values as running it in Python with NumPy, for every input it accepts.",
 ["programs", "inputs"], "all functions up to a size bound in the supported subset, all inputs in a window",
 "Tests sample single functions.",
 ["python/docc"],
 [("Python front end", "python/docc")], (), ["results of the compiled function"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
