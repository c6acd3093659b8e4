"""Single source of the property list; writes /verif/properties.jsonl (run by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": ["kerncraft/" + f for f in files], "mechanism": [{"name": n, "where": "kerncraft/" + w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Arithmetic on quantities with units preserves value and unit",
  "For any two quantities written with any prefixes, sums, differences, products, quotients, floor quotients, remainders and absolute values have the base value that real arithmetic on the operands' base values gives (up to float rounding) and the composed unit, comparisons order by base value only, and add/subtract/remainder refuse differing units. "
  "Choosing or changing a prefix, including the one chosen for an automatically reduced result, never changes the value represented, and every prefix stands for its SI power of ten; conversion to a plain number yields the base value (its integer part for integers). "
  "A printed quantity reads back as the same quantity up to the printed precision.",
  ["inputs"], "all pairs of quantities: any finite float values, any supported prefixes, any units",
  "Values and prefixes form an unbounded product space; the suite fixes a few bandwidth numbers and never combines prefixes.",
  ["prefixedunit.py"], [("PrefixedUnit operators", "prefixedunit.py"), ("prefix table and prefix choice", "prefixedunit.py")])
p("C02", "Interval sets stay canonical and mean the union of their ranges",
  "For any input ranges in any order, an interval set contains exactly the points covered by at least one non-empty input range, its stored ranges are sorted and pairwise disjoint and non-touching, and its length is the number of points it covers. "
  "Combining two sets yields the set of the points of either one, and never alters the operands or the ranges the caller passed in.",
  ["inputs", "histories"], "all finite lists of integer ranges, all sequences of combinations",
  "Overlap chains of arbitrary length and nesting cannot be enumerated by examples, and aliasing damage shows only after later operations.",
  ["intervals.py"], [("normalisation on construction", "intervals.py"), ("union operator, length, membership", "intervals.py")])
p("C03", "Parameter ranges expand to exactly the values the notation denotes",
  "For every textual parameter range, a single number expands to that number, 'a-b' to every integer from a to b inclusive, and 'a-b:n' (optionally 'log' with a base) to exactly n integers, evenly spaced up to rounding on a linear or logarithmic scale, that start at a and end at b. "
  "Without the end point, spacing divides the interval into n equal steps and b is excluded. Repeated options accumulate in order, and malformed texts are rejected.",
  ["inputs"], "all start/stop/count/base values and all repetition sequences of the option",
  "Tests check three fixed ranges; evenness, end points and counts must hold for all parameters.",
  ["kerncraft.py"], [("space generator", "kerncraft.py:space"), ("range option parser", "kerncraft.py:AppendStringRange")])
p("C04", "A sweep evaluates and stores every model for every constant combination",
  "A run evaluates each distinct requested model exactly once for every combination of the given constant values (defaults included, duplicates removed), each time with exactly that combination in force, and refuses to run when a required constant has no value. "
  "Every result is stored under an identifier that differs whenever the model, the combination or any outcome-relevant option differs and is independent of verbosity, output unit and result store; previously stored results of other identifiers are kept.",
  ["inputs", "configurations", "histories"], "all sets of defines, models and options; any previous storage content",
  "The product of defines, defaults, models and options is unbounded and the CLI tests run one combination each.",
  ["kerncraft.py"], [("sweep driver", "kerncraft.py:run"), ("result identifier", "kerncraft.py:identifier_from_arguments, to_tuple, uniquify")])
p("C05", "Global iteration numbering is a bijection onto the loop nest in execution order",
  "For every loop nest with positive steps, numbering 0..n-1 (n the product of the per-loop iteration counts, each rounded up) maps one-to-one onto the index tuples the C loop nest executes, in execution order, and converting indices back to a number is its inverse. "
  "The last number equals the total count minus one. Constant substitution always reflects the most recently set constants.",
  ["inputs", "histories"], "all nest depths, start/end bounds, steps, and all sequences of setting constants",
  "Unit tests use one unit-stride nest; mixed radix numbering must hold for every depth, bound and step.",
  ["kernel.py", "symbolic/utils.py"], [("number to indices", "kernel.py:Kernel.global_iterator_to_indices"), ("indices to number", "kernel.py:Kernel.global_iterator, indices_to_global_iterator, max_global_iteration"), ("iteration count", "kernel.py:Kernel.iteration_length"), ("constant substitution", "kernel.py:Kernel.subs_consts, set_constant, clear_state")])
p("C06", "Generated address streams equal row-major addresses of disjoint arrays",
  "For every kernel and requested iterations, the load and store byte offsets produced per iteration are exactly the row-major element addresses of the array references at these loop indices plus the array's base, one column per varying reference. "
  "Arrays are laid out in alphabetical order, each starting at a multiple of the cache line size, at least the requested spacing apart and without overlap, so in-bounds references to different arrays never collide; requests beyond the iteration space are refused.",
  ["inputs"], "all array shapes, references, loop nests, spacings and iteration ranges",
  "Address arithmetic ranges over unbounded sizes and offsets; tests compare a handful of offsets.",
  ["kernel.py"], [("reference flattening", "kernel.py:Kernel.access_to_sympy"), ("array sizes", "kernel.py:Kernel.array_sizes"), ("stream generation", "kernel.py:Kernel.compile_global_offsets")])
p("C07", "Kernel analysis records exactly the code's accesses, operations and loops",
  "For every kernel in the accepted C subset, the recorded loop nest (index, bounds, step), the sets of array and scalar references read and written per variable with their index expressions, and the count of arithmetic operations per operator equal those of the source, compound assignments counting as read, write and operation. "
  "Code outside the accepted subset is rejected instead of being silently misread.",
  ["programs"], "all programs of the accepted C subset",
  "The analysis is a recursion over unbounded program trees; tests hold a few fixed stencils.",
  ["kernel.py"], [("expression traversal", "kernel.py:KernelCode._p_sources"), ("assignment and loop traversal", "kernel.py:KernelCode._p_assignment, _p_for"), ("index expressions", "kernel.py:KernelCode.conv_ast_to_sym, _get_offsets")])
p("C08", "Generated benchmark code computes on the same elements as the input kernel",
  "For every kernel, each multi-dimensional reference in generated code addresses, after flattening, the row-major element the source reference addresses, each array is allocated with the product of its dimensions, and everything else in the loop nest is kept. "
  "Function declaration, definition and call agree in number, order and kind of arguments, and constants are read from consecutive command line arguments in the order in which the benchmark passes them.",
  ["programs"], "all kernels of the accepted subset: any dimensionality, subscripts, scalars and constants",
  "Only compiled smoke runs exist; a wrong stride or argument order for some shape would not be seen.",
  ["kernel.py", "pycparser_utils.py"], [("flattening", "kernel.py:transform_multidim_to_1d_decl, transform_multidim_to_1d_ref, transform_array_decl_to_malloc"), ("declarations, call, placeholders", "kernel.py:KernelCode._build_*; pycparser_utils.py:replace_id")])
p("C09", "Comment and macro stripping removes exactly comments and keeps line structure",
  "For every text without string literals, stripping comments yields the text with each line comment and each terminated block comment deleted, keeping the newlines inside them, and nothing else changed, whatever their number, order, adjacency or position, including at the end of the text. "
  "Macro and pragma stripping blanks exactly the respective directive lines including their continuation lines, so line numbers are preserved.",
  ["inputs"], "all texts",
  "Scanner state interactions (adjacent, nested-looking, unterminated-line comments) are unbounded; no unit test covers the function.",
  ["pycparser_utils.py"], [("scanner", "pycparser_utils.py:clean_code")])
p("C10", "Layer-condition prediction conserves accesses and picks the first true condition",
  "For every accepted kernel and machine, each cache level's options have hits plus misses equal to the number of reuse distances, an option's cache requirement is the sum of the distances it serves plus its tail for each other one, the options end in one that always holds, and the prediction for concrete constants is the first option whose condition holds. "
  "Loads, hits, misses, stores and evicts are reported per level from that choice, hits at memory equal the misses of the last cache, and kernels violating the method's preconditions are refused.",
  ["inputs", "configurations"], "all kernels satisfying or violating the preconditions, all cache sizes and constants",
  "Conditions are symbolic and must be exhaustive for all sizes; tests compare four fixed stencils.",
  ["cacheprediction.py"], [("symbolic options", "cacheprediction.py:LayerConditionPredictor.build_symbolic_LCs"), ("selection and reporting", "cacheprediction.py:LayerConditionPredictor.desymbolize, get_*"), ("ordering keys", "cacheprediction.py:sympy_expr_abs_distance_key, canonical_relational, split_sympy_access_in_dim_offset")])
p("C11", "Cache-simulation statistics are per cache line of work and exclude warm-up",
  "For every kernel and machine, the simulator sees consecutive, in-range iterations during warm-up, counters are reset before the measured stretch, the measured stretch lies inside the iteration space, and reported loads, hits, misses, stores and evicts per level are the counters of exactly that stretch divided by the number of cache lines of work it covers. "
  "Aligning an iteration moves it to a cache line boundary of the leading stream in the requested direction.",
  ["inputs", "configurations"], "all iteration counts, cache sizes, element sizes and alignments",
  "The warm-up logic branches on sizes over many orders of magnitude; tests exercise single large kernels.",
  ["cacheprediction.py"], [("measurement protocol", "cacheprediction.py:CacheSimulationPredictor.simulate, _align_iteration_with_cl_boundary"), ("normalisation", "cacheprediction.py:CacheSimulationPredictor.get_*")])
p("C12", "ECM data cycles per level follow throughput, duplexness, bandwidth and penalties",
  "For every hierarchy and predicted traffic, each level's cycles per cache line equal transferred lines times line size over the level's throughput, using the sum of loads and stores on half-duplex links and the larger of both on full-duplex links, and for memory the best fitting measured bandwidth scaled by the clock. "
  "The penalty is the per-load and per-store penalties of all memory-bandwidth levels weighted by their traffic; levels are reported in hierarchy order; unknown duplexness is refused.",
  ["inputs", "configurations"], "all hierarchies (any number of levels), traffic numbers, throughputs, clocks and penalties",
  "Machine and traffic parameters are continuous and hierarchies vary in depth; tests pin results for a few machines.",
  ["models/ecm.py"], [("cycle computation", "models/ecm.py:ECMData.calculate_cycles")])
p("C13", "ECM prediction composes its parts correctly and scales consistently",
  "For every set of component times, the single-core prediction is the maximum of the sum of all non-overlapping parts (with penalty) and each overlapping part, and every part appears exactly once under its own name in the model construction. "
  "The multi-core prediction has one entry per core count of a socket, equals the single-core prediction for one core, never predicts better performance than the saturated memory interfaces allow or than perfect scaling, and the saturation point is the smallest core count at which memory is saturated; the entry returned for n cores is the one for n cores.",
  ["inputs", "configurations"], "all component times, overlap flags, core and NUMA domain counts",
  "Scaling is a recurrence over core counts with continuous inputs; tests check one machine's numbers.",
  ["models/ecm.py"], [("composition and scaling", "models/ecm.py:ECM.analyze"), ("in-core normalisation", "models/ecm.py:ECMCPU.analyze")])
p("C14", "Roofline reports the true minimum of all considered bottlenecks",
  "For every hierarchy and predicted traffic, each memory bottleneck's performance is its bandwidth times iterations per transferred byte (unlimited when nothing is transferred), and the reported minimum and bottleneck level belong to the slowest considered level. "
  "The compute limit scales with cores, clock and the precision actually used, and the in-core variant ignores the register-to-L1 level, which its in-core model covers.",
  ["inputs", "configurations"], "all traffic, bandwidths, hierarchies, datatypes and core counts",
  "The minimum over continuously varying levels must hold for every combination; tests pin a few kernels.",
  ["models/roofline.py"], [("bottleneck computation", "models/roofline.py:RooflineFLOP.calculate_cache_access, analyze; RooflineASM.analyze")])
p("C15", "All reported performance units are mutually consistent",
  "For every cycle or performance value and machine, the quantities reported as cy/CL, cy/It, It/s and FLOP/s describe the same speed: cycles per iteration times iterations per cache line equal cycles per cache line, iterations per second equal clock over cycles per iteration, and FLOP/s equal iterations per second times operations per iteration. "
  "This also holds in the limits of zero cycles and unlimited performance, and every quantity carries its own unit name.",
  ["inputs", "configurations"], "all cycle counts, clocks, line and element sizes and operation counts",
  "Four units per model over continuous inputs; tests read one unit of a few values.",
  ["models/ecm.py", "models/roofline.py"], [("conversions", "models/ecm.py:ECMData.conv_cy, ECMCPU.conv_cy; models/roofline.py:RooflineFLOP.conv_perf")])
p("C16", "Bandwidth lookup picks the closest benchmark kernel and the right core count",
  "For every machine description and stream counts, the chosen benchmark is one whose read/write ratio is closest to the requested one, and the bandwidth is its measurement for the requested core count, or else the largest measurement within the cores that share the level and one NUMA domain. "
  "Outside the first level the value is corrected by the write-allocate factor of exactly that benchmark; the first level is not corrected.",
  ["inputs", "configurations"], "all benchmark kernel sets, stream ratios, levels, measurements and core counts",
  "Selection depends on order and ties among arbitrarily many kernels; tests use bundled machine files only.",
  ["machinemodel.py"], [("bandwidth selection", "machinemodel.py:MachineModel.get_bandwidth")])
p("C17", "Counter scheduling covers every event once without register conflicts",
  "For every set of events and register descriptions, the compiled runs contain every distinct event exactly once, on a register its description allows, never two events on one register in a run, and an event is moved to a later run only if all its registers are taken. "
  "Register descriptions expand to exactly the names they denote, event strings and their parsed form convert back and forth without loss, and a parsed metric has the value of its text and refers to exactly the events named in it.",
  ["inputs"], "all event sets and register descriptions",
  "Scheduling interactions grow combinatorially with events; tests check a few docstring examples.",
  ["models/benchmark.py", "machinemodel.py"], [("scheduler", "models/benchmark.py:build_minimal_runs"), ("register descriptions", "models/benchmark.py:register_options, group_iterator"), ("event strings", "models/benchmark.py:eventstr; machinemodel.py:MachineModel.parse_perfctr_event, parse_perfmetric")])
p("C18", "Assembly instrumentation marks exactly the best loop and changes nothing else",
  "For every assembly text with loops, the automatically chosen block is a loop whose metric no other loop exceeds (the first among equals), and a number chooses the loop at that position. The output is the input with a start marker directly before and an end marker directly after the chosen block and all non-blank lines unchanged and in order. "
  "The pointer increment returned is the one given, detected, or entered, and is recorded in the output; if detection fails in automatic mode an error is raised and no output remains.",
  ["inputs", "configurations"], "all assembly texts, selections and increment modes",
  "Block ranking and insertion positions vary with unbounded inputs; the suite checks fixed listings.",
  ["incore_model.py"], [("block choice", "incore_model.py:ISA.select_best_block, compute_block_metric"), ("instrumentation", "incore_model.py:asm_instrumentation")])
p("C19", "The detected pointer increment equals the bytes the store address advances",
  "For every loop body in which the increment is detected, executing the body's register updates once moves the address of each store (or each load, if nothing is stored) whose address changes by exactly the detected number of bytes. "
  "If the relevant references would advance by different amounts, or a relevant register is changed more than once, nothing is detected and the increment remembered for this very loop body, if any, is used, the most recently stored one winning.",
  ["programs", "histories"], "all loop bodies over the modelled instructions; all histories of remembered increments",
  "Register and addressing combinations are unbounded; tests hold a few compiler outputs.",
  ["incore_model.py"], [("detection", "incore_model.py:x86.get_pointer_increment, AArch64.get_pointer_increment"), ("remembered increments", "incore_model.py:find_increment_in_cache, store_increment_to_cache")])
p("C20", "Cached intermediates are locked soundly and never stand in for different inputs",
  "For every interleaving of processes and file states, a caller told it may read holds a shared lock on a file that exists and is newer than kernel, machine file and program, and a caller told to write holds the exclusive lock until it downgrades. "
  "Two analyses share a cached intermediate only if everything that determines its content agrees: kernel, machine, compiler and flags, in-core model, block choice, pointer increment, cores and constants as applicable.",
  ["schedules", "configurations", "histories"], "all file states and lock outcomes at each step; all pairs of configurations",
  "Races and stale caches need specific interleavings or a second run with another configuration.",
  ["kernel.py", "cacheprediction.py"], [("lock protocol", "kernel.py:KernelCode.lock_intermediate, _check_freshness, release_exclusive_lock"), ("cache paths", "kernel.py:KernelCode.get_intermediate_location, incore_analysis; cacheprediction.py predictors")])
p("C21", "Temporarily changed global state is restored on every exit",
  "Whatever the previous state and however the enclosed block ends (normally, by exception or by early exit), the environment variable, interpreter recursion limit and printing hook changed for its duration have their previous value afterwards, a previously unset variable is unset again, and inside the block the requested value is in force. "
  "Nested uses restore in reverse order.",
  ["inputs", "fault_sequences"], "all previous states, values and ways of leaving the block, including nesting",
  "Failure paths and nesting combinations are not sampled by tests.",
  ["models/benchmark.py", "kernel.py"], [("environment variable", "models/benchmark.py:fix_env_variable"), ("recursion limit", "kernel.py:set_recursionlimit"), ("printing hook", "models/benchmark.py:pprint_nosort")])
p("C22", "Merging result files keeps every entry, the later file winning",
  "For all nested dictionaries, merging a source into a destination yields, at every key path, the source's value where the source has one and the destination's otherwise, recursing exactly where the source holds a mapping, and leaves the source unchanged. "
  "The command line tool writes exactly the merge of all its inputs in order to the destination.",
  ["inputs", "histories"], "all nested dictionaries and all sequences of merged files",
  "Recursive structure is unbounded; the tool has no tests.",
  ["picklemerge.py"], [("recursive merge", "picklemerge.py:update"), ("tool", "picklemerge.py:main")])
p("C23", "The cache simulator matches the described machine for the requested cores",
  "For every machine description and core count, the simulator returned has exactly the described cache levels, with the described parameters, shared levels' sets divided by the cores sharing them within a NUMA domain, and starts empty with zeroed counters, whatever was requested or simulated before. "
  "Neither this nor any other query changes the machine description, and a description without a file has a stable content-based identifier.",
  ["configurations", "histories"], "all machine descriptions and all sequences of requests",
  "State carried between requests shows only in multi-step histories with different core counts.",
  ["machinemodel.py"], [("simulator construction and reuse", "machinemodel.py:MachineModel.get_cachesim"), ("identifier and queries", "machinemodel.py:MachineModel.get_identifier, get_compiler, get_incore_model")])
p("C24", "JSON export keeps the structure and values of all results",
  "For every nested result structure, the exported form has the same nesting of lists, tuples and mappings in the same order, leaves text and numbers unchanged, and represents every other value and every other kind of key by its text; it is always accepted by the JSON writer and the original is left unchanged. "
  "Re-exporting an exported structure changes nothing. (Keys of one mapping have distinct texts.)",
  ["inputs"], "all nested structures of results",
  "Structures are unbounded trees; tests never check the export.",
  ["kerncraft.py"], [("conversion", "kerncraft.py:jsonify_obj")])
p("C26", "Benchmark metrics derive consistently from the measured runtime and counters",
  "For every measured runtime, repetition count and loop nest, the per-repetition runtime, cycles per cache line, iterations and operations per second, and memory volume per repetition are mutually consistent: cycles per cache line equal clock times runtime times iterations per cache line over iterations, and performance equals iterations (times operations) over runtime. "
  "Measurements repeat until the runtime suffices, using the repetition count of the last measurement; counter-based transfers per cache line are counter totals over total cache lines.",
  ["inputs"], "all runtimes, repetition counts, loop nests, counter values",
  "Requires hardware counters the test environment lacks; the arithmetic must hold for all measurements.",
  ["models/benchmark.py"], [("derivation", "models/benchmark.py:Benchmark.analyze")])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
