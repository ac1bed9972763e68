"""Level notes of MANIFEST.json: what the exploration covers, and what it leaves out."""
GRAPH = ("All directed graphs with self loops on up to 4 vertices, all multigraphs with multiplicity up to 2 on up to 3 vertices in two insertion orders, all loop-free graphs on 5 "
         "vertices up to relabelling, plus every start vertex or vertex pair, each on the real function and compared with the definition; larger graphs are outside the bound.")
N = {
"C01": "The real index writer and loader run on every single capture over 19 types x 13 shapes x arguments x directions x storage kinds, and every capture sequence up to depth 3 (thorough 4) over a colliding alphabet; compared with a map model. Longer sequences are outside the bound.",
"C02": "Every enter/finish/end history of the depth bound on two targets with two elements each, under every strategy and directory configuration, against counters; checked after every call.",
"C03": "Every history of one invocation with up to 2 (thorough 3) captures of 32 kinds, all pairs and interleavings of invocations, against a directory model that compares all bytes on disk.",
"C04": "All byte strings up to length 3 (quick: three quarters of the length-3 strings, every symbol pair), boundary strings up to length 6 or 7, all lengths up to 1030, all dimension vectors over a 5-letter alphabet.",
"C05": "Every single fault, and every pair of faults for short histories, at every intercepted mkdir/open/write/close/read of every history; faults during reads of memory or in the C library's own start-up are not modelled, nor is loss of already closed files.",
"C06": "Every well-formed history of init/enter/exit/finalize up to length 12 (thorough 14) over up to three regions in all configurations, with the clock and the counter library replaced; the trace file is parsed and compared with a model. Real hardware counters are outside.",
"C07": "Every well-formed history in aggregate mode up to length 14 (thorough 16), every sequence of up to 5 metric values over boundary values; statistics compared with exact rational-like values within 1e-9 relative error.",
"C08": "From states with 0, 9..12 finalized regions (around the cache limit), every sequence of up to 4 (thorough 5) register/finalize/measure steps; a stand-in counter library checks every call against its protocol. Error returns of the library are not injected.",
"C09": "All interleavings, at synchronization operations, of the real library under a controlled scheduler for 2 to 4 threads with 2 to 8 calls each; a happens-before race detector runs on every schedule, which is what makes synchronization-point granularity sufficient. Sequential consistency only.",
"C10": GRAPH, "C11": GRAPH, "C12": GRAPH, "C13": GRAPH,
"C14": "Every string up to length 5 (thorough 6) over a 13-letter alphabet, numbers around every power of two up to 2^68 with signs, white space and trailing text, every pair of short strings, every separator of a list, every pair of subsets of six elements.",
"C15": "Every exponent from -4 to 70 with every base that could be representable, 45 macro expressions over boundary grids in four types, in six builds (C and C++, -O0, -O2, overflow trapping). NVVM intrinsics are outside.",
"C16": "2592 environments (tokens, token file, session file, server override) and every builder step sequence of length 3 (thorough 4) over 32 steps in 6 environments, against a precedence model; files outside the scratch directory are redirected.",
"C17": "Every status, framing and short body; the connection closed or reset after every byte of 15 replies; every sequence of 4 (thorough 5) queries on one handle over 6 behaviours. Whether a reply cut inside its headers is an error is left to the transfer library.",
"C25": "29k programs (thorough: more shapes and inputs) from templates over loops, maps, while loops, branches, symbols, references and local memory; every clean-up pass alone, to a fixed point, and the standard pipelines, on each; every result runs on all inputs in the reference interpreter and is compared word for word with the original. SymEngine is replaced by a stand-in (shim/) that docc's own 1,727 core tests pass on. Larger programs are outside the bound.",
"C26": "7.6k loop nests (thorough: more) from templates over bounds, strides, subscripts and statements; every transformation instance (each loop or loop pair, tile sizes, skew factors, containers) on each; whenever it says applicable, the transformed program runs on all inputs against the original. Uses the SymEngine stand-in of shim/. Larger nests are outside the bound.",
"C27": "16k loop nests from templates over bounds, strides, subscripts and statements; whenever a loop becomes a map, its iterations run in forward, reverse and permuted order with a conflict monitor between iterations, on all inputs, against the original. Uses the SymEngine stand-in of shim/. Larger nests are outside the bound.",
"C24": "74k programs: every type in every storage as container, argument, external, member, memlet, constant and return; every library operation in every variant of its fields, connected; schedules, metadata, linkage, argument orders; every tasklet; 25k symbolic expressions; all templates of the clean-up and nest families. Each is saved, loaded, saved again and cloned with unique debug information on every element; every node is deep-copied alone and as part of its sequence, into the same and into an empty program; compared by a complete dump written for this check (not by docc's own printing), and on inputs.",
"C30": "36k programs of the control- and data-flow templates, 4k tasklets on every operand type and boundary operand, 25k symbolic expressions and conditions, 4k composite types and managed-memory programs: each is generated as C and C++, compiled with clang, called on all inputs and compared with the reference interpreter or an independent operator table. Terms that leave their C type, OpenMP/CUDA/vector targets and library calls are outside the bound.",
}

N["C20"] = "57k expressions (every term up to two operations over three symbols and small numbers, sums and products of such terms; +, -, *, division, remainder, min, max, abs, powers, extensions) and conditions (all comparisons, up to three connectives) x construction, simplification, expansion, printing and parsing, substitution, linear decomposition over several symbol orders, inverse, polynomial division, ceiling division, negation and conjunctive normal form x every assignment of a 100-point grid; values are computed along the construction, not from docc's expressions. Two hash orders."
N["C21"] = "Every term up to two operations over two loop variables and a parameter (+, -, *, division, remainder, min, max; around 2^31 also extension and truncation) x 200 sets of assumptions (constant, symbolic and mutual bounds, with or without parameters) x minimum and maximum over every parameter set, both bound variants, sign, monotonicity, contiguity, affine coefficients x every satisfying assignment of a window (720 points, and 275 around 2^31): the bound must be beyond the exact value. Bounds of every integer type."
N["C22"] = "48 index maps of one to three dimensions, all pairs, under 80 (thorough: 700) pairs of assumption sets (strided, triangular, unbounded, symbolic, constant on one side) x four claims: no overlap across iterations, disjoint, part of, multi-dimensional form. Each claim is compared with all pairs of satisfying assignments of a 3850-point window; a form must tell apart exactly what the index tells apart. The covering side of an inclusion must have finitely many iterations in the window and know its constants, as its caller ensures."
N["C23"] = "31,602 programs (loop nests, clean-up templates, triangular, strided, conditional and early-leaving loops, accesses with declared shapes) x inputs: whenever control reaches a point of the program in the reference interpreter, every bound (old, tight and set form) and every fixed symbol that the assumptions analysis claims for that point is evaluated and compared (103 million comparisons). Executions that leave a declared array shape are not judged, since the analysis may rely on the shapes."
N["C31"] = "163,807 cases: every tensor operation (unary, binary with scalar and constant operands, C math, tasklet, cast, fill, reductions over every set of axes with negative axes and kept dimensions, mean, deviation, softmax, transposition, broadcast, batched matrix products of views, convolutions with stride, padding, dilation, groups and bias) and the BLAS operations x shapes up to four dimensions with extents 0 to 3, constant and symbolic x layouts (dense, offset, padded, reversed, flipped, strided) x element types x place (alone, in a loop, in a branch, in place, same operand twice, beside another operation, twice in a block), expanded to a fixed point, lowered to pointers, validated and executed by the reference interpreter on three fillings; the whole memory is compared with the definition. An operation that shares its block with another one may be left unexpanded."
N["C28"] = "68,534 programs: every program of up to four statements (a scalar defined from memory or by an assignment on a transition, read by a computation or by an assignment, branches with and without an else, for and while loops, break, continue, return), every loop body of that size with a value from before and a use after it, and every program of the loop-nest and clean-up grammars. Each runs in the reference interpreter on every input of the window with every access recorded as a use (the Users graph must know it). Checked on every pair of accesses of a byte: the definition whose value a read sees is reported to reach it, every conflict between two iterations of a loop is reported as a dependence of that loop with the right kind, both for the plain and the detailed analysis; on every execution: what dominates ran before, what post-dominates runs after, what runs between and after two uses is among all_uses_between and all_uses_after. Facts inside one block and of accesses through moved pointers are not judged; over-approximation is allowed. Thorough: five statements."
N["C32"] = "Every instance of every transformation that can be saved (loop distribution, tiling, interchange, skewing, map fusion, local storage, Polly, OpenMP, Highway, CUDA and the GPU transformations on its maps) on 1,030 small programs, and every sequence of two instances on the programs of a smaller grammar (thorough: three, and every program of the loop-nest grammar of C26). Each sequence is recorded with one analysis manager throughout, its history saved to a file and read again, and replayed on a clone, on the program loaded from JSON and on the program built again; recorded, replayed and directly transformed programs must have the same complete textual form (nodes of a block compared as a graph; loop ids compared, since later steps refer to them). An instance that does not apply must be skipped or reported, not recorded, and leave the program alone; a description of an element that is missing or of another kind must be refused. The order in which Polly takes independent statements is not fixed, so it is replayed only as a first step on transitions with one assignment."
N["C29"] = "66,039 control-flow graphs: every graph of up to three states with up to two edges per state (with one empty-prefix variant, edges that assign or not, states with and without data flow, an unreachable state), every graph of up to two states with three-way branches and every graph of four states, each ending in up to two return states (a variable, a constant), irreducible and endless ones included. Each accepted conversion is validated and executed by the reference interpreter on every sequence of up to 6 branch outcomes that ends (370k executions) and its trace and return value compared with a direct walk of the graph. A refusal (UnstructuredControlFlowException) is accepted except for straight lines, two-way branches and plain loops. Thorough: five states, three-way branches on three states, 8 branch outcomes (2.0M graphs, 19.5M executions)."
N["C33"] = "Normal forms (perfect loop distribution, stride minimization, loop normalization), code motion, scheduling for OpenMP and Highway and both, and the polyhedral scheduler with and without tiling on every loop, and twice in a row: each on every one of 7,622 programs of the loop-nest grammar of C26, until it comes to rest, and every result executed by the reference interpreter for every input of the window (thorough: more constants and inputs). Scheduling for CUDA, the offloading passes and RPC-driven optimization need a device or a server and are not run; C32 covers the transformations behind them as text."
