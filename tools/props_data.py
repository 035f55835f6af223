TV = "TLC evaluation of the TLA+ definition on every recorded answer of the real library (trace validation)"
GF = ["sdfg/src/graph/graph.cpp", "sdfg/include/sdfg/graph/graph.h"]
GN = ("Every answer the real library gives on all directed graphs of up to 3 vertices, all loop-free graphs of 4 vertices "
      "and seeded larger multigraphs is judged by TLC against the TLA+ definition; larger graphs are only sampled. "
      "Trusts TLC and the JSON record the harness writes.")
prop("G01", "Dominator trees name the true immediate dominator of every vertex",
     "For every directed graph and every root, the reported dominator of a vertex is its unique immediate dominator: it lies on every path from the root to the vertex and every other strict dominator lies on every path to it. The root and every vertex the root cannot reach have none, and vertices that are unreachable do not influence the answer for reachable ones.",
     ["inputs"], "all finite directed multigraphs with self-loops and unreachable parts, and all roots",
     "The unit tests build one reachable graph; graphs with unreachable predecessors, several loops or irreducible parts are never tried.",
     GF, [("dominator_tree", "sdfg/src/graph/graph.cpp")], TV + "; definitions checked for their own laws by TLC", note=GN,
     observe=["return value of the dominator query"])
prop("G02", "Post-dominator queries are exact and leave the graph unchanged",
     "For every directed graph with at least one exit, the reported post-dominator of a vertex is its immediate post-dominator with respect to all exits together; where only a virtual common exit qualifies, or the vertex reaches no exit, it has none. The query reports exactly the graph's own vertices and afterwards the graph has exactly the vertices and edges it had before.",
     ["inputs"], "all finite directed multigraphs with one or several exits, including parts from which no exit is reachable",
     "The unit test has a single exit and no infinite loop, and never looks at the graph afterwards.",
     GF + ["sdfg/src/analysis/dominance_analysis.cpp", "sdfg/src/sdfg.cpp"], [("post_dominator_tree with a synthetic exit", "sdfg/src/graph/graph.cpp")], TV, note=GN)
prop("G03", "Topological orders, cycle tests, traversals and back edges are correct",
     "A topological order contains every vertex once with every edge going forward, exists exactly for acyclic graphs, and the cycle test agrees. A depth-first order starts at the given vertex and is the discovery order of some depth-first traversal of the whole graph. The back edges of a graph are edges whose removal leaves no cycle, each of which alone would close one again, and they include every edge whose target dominates its source.",
     ["inputs"], "all finite directed multigraphs and all start vertices",
     "One small example each; disconnected, cyclic, multi-edge and self-loop graphs are not covered.",
     GF, [("topological_sort, is_acyclic, depth_first_search, back_edges", "sdfg/src/graph/graph.cpp")], TV, note=GN)
prop("G04", "Strong and weak components and graph conversions are exact",
     "Two vertices are in the same strong component exactly if each reaches the other, and in the same weak component exactly if they are connected ignoring direction; components are numbered 0 to count-1. Reversing or undirecting a graph keeps all vertices and every edge with its multiplicity.",
     ["inputs"], "all finite directed multigraphs",
     "One example graph per function.", GF,
     [("strongly_connected_components, weakly_connected_components, reverse, undirected", "sdfg/src/graph/graph.cpp")], TV, note=GN)
prop("G05", "Path enumeration returns every simple path exactly once",
     "For two different vertices, path enumeration returns exactly the paths from the first to the second on which no vertex repeats, the end points included, once per choice of parallel edges.",
     ["inputs"], "all finite directed multigraphs and all ordered pairs of distinct vertices",
     "One acyclic example; cycles through the source or parallel edges are never tried.", GF,
     [("all_simple_paths with a visited set", "sdfg/src/graph/graph.cpp")], TV, note=GN)

# ------------------------------------------------------------------ argument capture
CF = ["rtl/src/capture.cpp", "arg-capture-io/src/arg_capture_io.cpp", "arg-capture-io/include/daisy_rtl/arg_capture_io.h", "arg-capture-io/src/base64.cpp"]
CN = "Behaviours enumerated by TLC from spec/Capture.tla are replayed in the real runtime; after every call the capture directory is projected and TLC checks it against the specification state. Small numbers of contexts, regions, invocations and arguments; byte contents sampled."
prop("C01", "The capture strategy alone decides which invocations are recorded",
     "Strategy 'all' records every invocation of every region, 'once', an unset or an unknown strategy records exactly the first invocation of each region of each capture context, and 'never' records nothing and creates no files. The decision for one region does not depend on how often other regions or other contexts were entered, and the output directory is the environment override if set, else the one given at initialisation, else the default.",
     ["histories", "configurations"], "all sequences of initialisations, entries, captures and ends over several contexts and regions, under every strategy and directory setting",
     "The tests run one program with two invocations of one region per strategy.", CF,
     [("enter/invocation counters per region", "rtl/src/capture.cpp"), ("environment handling in __daisy_capture_init", "rtl/src/capture.cpp")],
     "TLA+ state machine; TLC-generated behaviours replayed and recorded directory states validated by TLC", note=CN)
prop("C02", "A recorded invocation holds exactly the bytes and shapes that were captured",
     "After an invocation ends, its index lists exactly the arguments captured during that invocation for that region, each once per direction with the last captured type and dimensions, and every listed data file contains exactly the bytes the argument had at its last capture. Arguments captured before the region was entered again, or for other regions, do not leak into the index.",
     ["histories", "inputs"], "all sequences of captures of 0- to 3-dimensional arguments with repeated and interleaved regions, including empty arguments",
     "Tests capture each argument once, in one region, and compare one file.", CF,
     [("current captures keyed by argument and direction", "arg-capture-io/src/arg_capture_io.cpp"), ("write_index", "arg-capture-io/src/arg_capture_io.cpp")],
     "TLA+ state machine; recorded directory states validated by TLC", note=CN)
prop("C03", "Recordings of different invocations or arguments never overwrite each other",
     "Within one output directory and capture context, every recorded combination of invocation, region, argument and direction has its own data file and every recorded invocation of a region its own index, and none of them is changed by any later activity for another combination.",
     ["histories"], "all interleavings of invocations over several regions and arguments under strategy 'all'",
     "Tests never have two regions and several invocations in one directory.", CF,
     [("file naming from context, invocation, argument, direction and region", "rtl/src/capture.cpp")],
     "TLA+ action property on the file system, validated by TLC on recorded runs", note=CN)
prop("C04", "Loading a written index reconstructs exactly what was recorded",
     "Loading an index file gives the same context name, region and invocation number, and for every argument and direction the same type, dimensions and either the same inline bytes or a reference to the data file next to the index, whatever the values of the bytes and the names; a missing or malformed index or an unknown format version is refused.",
     ["inputs", "histories"], "all sets of captures (inline of any length and byte values, or in files), names and region identifiers",
     "One index with three entries is round-tripped; inline data of other lengths and special characters in names are not.", CF,
     [("serialize_into / parse_from / from_index", "arg-capture-io/src/arg_capture_io.cpp"), ("base64", "arg-capture-io/src/base64.cpp")],
     "TLA+ round-trip relation evaluated by TLC on recorded write/load pairs", note="Byte strings of every length up to 40 and seeded random ones, awkward names and damaged indices; TLC compares what was written with what was loaded and re-derives base64 text from the TLA+ definition.")
prop("C05", "A failed or interrupted capture never yields an index naming missing data",
     "When recording into a fresh directory, whenever an index can be loaded every data file it names exists with its full contents, no matter at which write the process was killed or which file operation failed. A file operation that fails while recording is reported to the caller and never silently ignored.",
     ["crash_points", "fault_sequences"], "every crash point between two file operations and every single failing file operation of a recording run",
     "No test injects an I/O failure or kills the process.", CF,
     [("data written before index; stream state checks", "arg-capture-io/src/arg_capture_io.cpp")],
     "TLA+ crash/fault model; every fault point injected into the real runtime and the outcome validated by TLC", level="fault_enumeration",
     note="Every open/write/close of a set of recording scripts is failed or made the last operation through an interposer; TLC decides whether the surviving directory is allowed.")

# ------------------------------------------------------------------ instrumentation
RF = ["rtl/src/instrumentation.cpp", "rtl/include/daisy_rtl/daisy_rtl.h"]
RN = "Call histories come from TLC runs of spec/Instr.tla and are executed by the real runtime against a scripted PAPI library with a virtual clock; the log of PAPI calls and the final trace file are validated by TLC. Bounded numbers of regions, activations and events."
prop("R01", "The written trace is well-formed and complete for every program history",
     "When an instrumented program ends, the trace file is valid JSON whatever the names, paths and metric names contain and whichever metadata are absent, and contains exactly one event per region activation (or one per region in aggregate mode), with that region's source range, SDFG metadata, loop information and metric names. Regions without any activation produce no malformed or invented values.",
     ["histories", "inputs", "configurations"], "all sequences of region registrations, activations and finalisations, with and without counters, all modes, and all metadata strings",
     "The tests that read traces need a working PAPI and one fixed program; strings needing escapes, regions never entered, missing metadata and empty event sets are not covered.", RF,
     [("trace writer in the destructor", "rtl/src/instrumentation.cpp")],
     "TLA+ state machine; final trace files validated by TLC against the specification state", note=RN)
prop("R02", "Every activation is charged its own time and its own counter increments",
     "The start, duration and each counter reported for an activation of a region equal the clock value at its entry, the difference between its exit and its entry, and the counter difference over the same interval, independently of activations of other regions in between, of finalisation and re-registration, and of nested or overlapping activations of the same region.",
     ["histories", "schedules"], "all interleavings of entries and exits of up to several regions, including recursion and several threads",
     "Tests never compare reported values with a known clock or interleave regions.", RF,
     [("enter/exit bookkeeping", "rtl/src/instrumentation.cpp")],
     "TLA+ state machine; TLC-generated histories replayed on a scripted clock, reported events validated by TLC", note=RN)
prop("R03", "Aggregate mode reports the exact statistics of all activations",
     "In aggregate mode the count, mean, variance, minimum and maximum reported for run time, each hardware counter and each user metric of a region are those of the multiset of values observed in that region since program start, across finalisations, and the total duration is their sum; a region's values never include another region's.",
     ["histories", "inputs"], "all sequences of activations and metric reports over several regions",
     "Tests check presence of fields, not values, and need real hardware counters.", RF,
     [("running mean/variance updates", "rtl/src/instrumentation.cpp")],
     "TLA+ specification of the statistics over the value history; reported values validated by TLC", note=RN + " Real numbers are compared as scaled integers with a tolerance of the printed precision.")
prop("R04", "Hardware counter sets are created, started, stopped and destroyed in step",
     "A registered region always has exactly one live, started counter set with the configured events; a finalised region's set is stopped and either kept for reuse or released, at most ten being kept; no set is used after release, released twice or lost. The same region identifier always gets the same handle, different identifiers get different ones.",
     ["histories"], "all sequences of registration, use and finalisation of up to more regions than the reuse cache holds, with each event set kind",
     "Tests register at most a few regions once; cache eviction, reuse after eviction and repeated registration are never exercised.", RF,
     [("sleeping-region cache", "rtl/src/instrumentation.cpp")],
     "TLA+ state machine of counter sets; TLC-generated histories replayed and the PAPI call log validated by TLC", note=RN)
prop("R05", "Concurrent use of the instrumentation loses and mixes nothing",
     "When several threads register, enter, exit, finalise regions and report metrics concurrently, every call takes effect atomically: the final trace and statistics are those of some sequential order of the calls consistent with each thread's order, and no update is lost.",
     ["schedules"], "all interleavings of calls from several threads",
     "Every test is single-threaded.", RF,
     [("one mutex around every operation", "rtl/src/instrumentation.cpp")],
     "trace validation by TLC of multi-threaded runs, with schedules forced inside the scripted PAPI calls", note=RN + " Thread interleavings are forced at every counter-library call and otherwise sampled by stress runs.")

# ------------------------------------------------------------------ RPC
NF = ["rpc/src/passes/rpc/daisytuner_rpc_context.cpp", "rpc/src/passes/rpc/rpc_context.cpp", "rpc/src/util/utils_curl.cpp"]
prop("N01", "The credential used is the highest-ranking one that is configured",
     "The credential is the job token variable if set and not empty, else the access token variable if set and not empty, else the token file in the user's configuration directory if readable, else the system session file if readable; only the job token is sent as a job credential. File contents lose trailing blanks and line ends only, and if nothing is configured the lookup reports that there is no credential.",
     ["configurations"], "all combinations of present, empty and absent variables and files, and file contents",
     "rpc has no test that runs here; none enumerates the combinations.", NF,
     [("find_docc_auth", "rpc/src/passes/rpc/daisytuner_rpc_context.cpp")],
     "TLA+ resolution function; TLC enumerates every configuration, the real code's answers are validated by TLC",
     note="All combinations of the five sources over small value sets; the system session file is redirected by an interposer. Files that exist are taken to be readable.")
prop("N02", "Connection settings are layered in call order and reach the server unchanged",
     "Each configuration step overrides exactly the settings it provides and leaves all others as earlier steps set them: server, endpoint and each header by name. A configuration without a server is refused, the server environment override replaces only the default server, and unreadable configuration files are refused.",
     ["configurations", "histories"], "all sequences of configuration steps with files and variables that are absent, empty or set",
     "Not tested.", NF, [("SimpleRpcContextBuilder", "rpc/src/passes/rpc/rpc_context.cpp")],
     "TLA+ state machine of the builder; TLC-enumerated step sequences replayed, results validated by TLC",
     note="All sequences of up to three (thorough: four) steps over a set of concrete files and variable values.")
prop("N03", "A request succeeds exactly if the server answered with a usable success",
     "A request is reported as successful exactly if a complete response with status 200 to 203 arrived; status 401 is reported as an authentication problem, any other status and any transport failure as an error, never as success. The server receives exactly the payload and headers given, and the response body is returned complete.",
     ["fault_sequences", "inputs"], "all response statuses, bodies, and transport failures (refused, closed early, truncated)",
     "Not tested.", NF, [("post_json", "rpc/src/util/utils_curl.cpp")],
     "TLA+ classification of outcomes; the real client run against a scripted loopback server, outcomes validated by TLC",
     level="fault_enumeration", note="Every status 200..599, truncated bodies and other transport faults; payloads sampled. A header cut short is accepted by libcurl itself and not claimed.")

# ------------------------------------------------------------------ Python JIT
SP = "TLA+ semantics of the Python/NumPy kernel language (Py.tla): random kernels executed in the specification by TLC, in CPython and through the compiled front end; all three must agree"
prop("P01", "The Python front end computes what the Python program computes",
     "A decorated function called with supported arguments returns the values, and leaves its array arguments with the contents, that executing the same source as ordinary Python with NumPy would give.",
     ["programs", "inputs"], "all programs in the supported subset and all argument values",
     "Tests sample programs.", ["python/docc/python"], [("AST parser and kernels", "python/docc/python")],
     SP, level="model_checking", note="Kernels and inputs are sampled from typed families; values are exact multiples of 1/16. Kernels the front end refuses with an exception are counted, not judged.")
prop("P02", "A compiled kernel is only reused for calls it was specialised for",
     "Whatever sequence of calls a jitted function receives, a cached compiled kernel is used only if the call agrees with everything the kernel was specialised on: argument types, dimensions fixed at compile time, equalities between dimensions, memory layout, and the instrumentation and capture settings in force. Two calls that differ in none of these reuse one kernel.",
     ["histories", "inputs"], "all sequences of calls with arrays of different shapes, layouts and types and changing settings",
     "Tests call each function with one shape.", ["python/docc/python/python_program.py", "python/docc/python/compiled_sdfg.py"],
     [("cache key", "python/docc/python/python_program.py")],
     "model-based: TLC enumerates pairs of calls that differ in one part of the specialisation (PyCacheGen.tla); the histories are run through the real compiler and TLC judges which kernel every call got (PyCacheTrace.tla) and the values it returned (PyRun.tla)",
     level="model_checking", note="Histories of up to nine calls of generated kernels; the target is 'none'; constants of the module do not change between calls and arguments do not overlap.")

# ------------------------------------------------------------------ SDFG core
ST = "model-based: TLA+ semantics of structured programs (Sdfg.tla); programs generated, transformed by the real code, and the observable results compared by TLC for all orders the specification allows"
SN = "the SDFG core needs the symengine library, which is absent here"
prop("S01", "Serialising and loading a program preserves it",
     "Loading the serialised form of any program gives a program with the same interface, containers, types, control flow, data flow, element identifiers and metadata, and serialising that again gives the same document.",
     ["programs"], "all structured programs", "Tests serialise one element kind at a time.",
     ["sdfg/src/serializer/json_serializer.cpp"], [("JSONSerializer", "sdfg/src/serializer/json_serializer.cpp")],
     "model-based: TLC enumerates sessions (build, load, clone, add, copy, delete: SdfgDocGen.tla); they are run with the real code and TLC judges every step of the recorded sessions against SdfgDoc.tla",
     level="model_checking", note="Programs are generated, with every kind of element, type and default library node; the order of nodes inside a block and of commutative terms is free. Library nodes of targets (CUDA, offloading) are not generated.")
prop("S06", "A copied statement has the content of the original",
     "Copying any statement of a program appends one that has the same control flow, data flow, symbols, schedules and source positions, leaves everything else of the program as it was, uses only identifiers that were never used before, and reports exactly which statement became which.",
     ["programs", "sessions"], "all programs, all statements of them, after any sequence of loading, adding, deleting and copying", "Tests copy three small loops.",
     ["sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp", "sdfg/include/sdfg/builder/structured_sdfg_builder.h"], [("StructuredSDFGDeepCopy", "sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp")],
     "model-based: TLC enumerates sessions that contain copies (SdfgDocGen.tla); they are run with the real code and TLC compares original and copy as trees whose data flow graphs are matched (SdfgDoc.tla)",
     level="model_checking", note="Programs are generated; source positions of transitions are not compared.")
prop("S07", "Structuring a control-flow graph preserves what it computes",
     "A control-flow graph is either refused or turned into a structured program that leaves the same memory and returns the same value for every input, whatever its branches, loops, early returns and jumps out of or across loops.",
     ["control-flow graphs", "inputs"], "all control-flow graphs and all paths through them", "Tests structure a handful of textbook shapes and look at the shape of the result.",
     ["sdfg/src/builder/structured_sdfg_builder.cpp"], [("traverse, structure_region, determine_loop_nodes", "sdfg/src/builder/structured_sdfg_builder.cpp")],
     "model-based: TLC enumerates control-flow graphs (CfgGen.tla); the real builder structures each; TLC executes the state machine and the structured program on all branch tapes and compares trace, memory and returned value (Sdfg.tla, SdfgEquiv.tla)",
     level="model_checking", note="Graphs of at most 4 states in the quick tier; which graphs are accepted is not judged.")
prop("S02", "Simplification passes preserve what a program computes",
     "Every simplification pass leaves the final contents of all external containers unchanged for every input on which the original program is defined.",
     ["programs", "inputs"], "all structured programs and all inputs", "Tests check the shape of a few examples, never execute them.",
     ["sdfg/src/passes"], [("dataflow, symbolic and structured control flow passes", "sdfg/src/passes")],
     ST, level="model_checking", note="Random and targeted programs, inputs sampled, sizes small; containers that overlap are outside the claim of the full pipeline, as docc decides dependences by container name.")
prop("S03", "A loop is made parallel only if its iterations may run in any order",
     "Whenever a sequential loop is converted into a parallel map, executing its iterations in any order gives the same final contents of all containers visible afterwards, for every input.",
     ["programs", "inputs", "schedules"], "all loops and all iteration orders", "Tests check the decision on examples, not the consequence.",
     ["sdfg/src/passes/structured_control_flow/for2map.cpp", "sdfg/src/analysis/loop_carried_dependency_analysis.cpp"], [("dependence test", "sdfg/src/analysis")],
     ST, level="model_checking", note="All iteration orders of every produced map are explored (outermost picks only for long loops); programs and inputs are sampled.")
prop("S04", "Loop transformations that report applicability preserve the program",
     "Whenever a loop transformation says it can be applied, applying it leaves the final contents of all external containers unchanged for every input.",
     ["programs", "inputs"], "all programs, loops and transformation parameters", "Tests check structure on examples.",
     ["sdfg/src/transformations"], [("can_be_applied/apply", "sdfg/src/transformations")],
     ST, level="model_checking", note="Tiling, interchange, skewing, distribution and out-local-storage, alone and chained; programs and inputs are sampled.")
prop("S05", "Generated code computes what the program denotes",
     "The C and C++ code generated for a program compiles, and running it leaves the same final contents of the caller's memory and returns the same value as the program's own semantics, for every input: every scalar type, tasklet operation, symbolic expression, control flow statement, memory operation and BLAS call, before and after passes and transformations.",
     ["programs", "inputs"], "all structured programs", "Tests compare generated text fragments and never run the code.",
     ["sdfg/src/codegen", "rtl/include/daisy_rtl/daisy_rtl.h"], [("C and C++ code generators, dispatchers and language extensions", "sdfg/src/codegen"), ("run-time header used by generated code", "rtl/include/daisy_rtl/daisy_rtl.h")],
     ST.replace("programs generated, transformed by the real code, and the observable results compared by TLC for all orders the specification allows", "the code generated by the real code generators is compiled and run, and TLC runs the specification on the same inputs and compares the results"),
     level="model_checking", note="CUDA code is not run; undefined runs (overflow, uninitialised values) are not compared")
