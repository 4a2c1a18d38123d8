CHECKS = {
    "P01": ("ltl", "sound", (False,)),
    "P02": ("ltl", "sound", (True,)),
    "P03": ("ltl", "stream", ("order",)),
    "P04": ("ltl", "stream", ("time",)),
    "P05": ("opts", "options", ()),
    "P06": ("opts", "transforms", ()),
    "P07": ("sabre", "run", ()),
    "P08": ("bzc", "atomics", ()),
    "P09": ("bzc", "previous", ()),
    "P10": ("multi", "influence", ()),
    "P11": ("multi", "reloads", ()),
    "P12": ("multi", "monitors", ()),
    "P13": ("files", "trace_files", ()),
    "P14": ("files", "signal_maps", ()),
    "P15": ("binary", "run", ()),
    "P16": ("smt", "run16", ()),
    "P17": ("smt", "run17", ()),
    "P18": ("langs", "written", ()),
    "P19": ("illformed", "run", ()),
    "P20": ("sugar", "run", ()),
    "P21": ("cliout", "agc", ()),
    "P22": ("console", "run", ()),
    "P23": ("memory", "run23", ()),
    "P24": ("memory", "run24", ()),
    "P25": ("determinism", "run", ()),
    "P26": ("langs", "formats", ()),
    "P27": ("cliout", "outputs", ()),
    "P28": ("rust", "verdicts", ()),
    "P29": ("rust", "values", ()),
    "P30": ("rust", "reloads", ()),
    "P31": ("rust", "named", ()),
    "P32": ("rust", "bounds", ()),
    "P33": ("eqsat", "run", ()),
    "P34": ("ilp", "run", ()),
}
_X = "explicit-state exploration of the real monitor: complete trees of input traces from every program of enumerated families, states saved and restored, compared with a reference evaluator"
TECH = {
    "P01": (_X, "Exhaustive within stated formula sizes, intervals and trace depths; wide intervals over block-structured traces; late start states."),
    "P02": (_X, "Exhaustive within stated formula sizes, intervals and trace depths; wide intervals over block-structured traces; late start states."),
    "P03": (_X, "Order, repetition and numbering checked on every verdict of every explored path."),
    "P05": (_X + "; every option combination compiled, every distinct program explored", "Formula shapes that rewriting and CSE act on, up to the stated sizes; all combinations of rewriting, CSE, extended operators (and on some formulas aux data, extra queue slots, Booleanizer)."),
    "P06": (_X + "; transformation command sequences enumerated", "Command sequences up to length 3 over bounded formulas; results compiled and explored on complete input trees."),
    "P04": (_X, "Deadline checked after every step of every explored path; non-termination by a CPU-time watchdog."),
    "P07": ("explicit-state enumeration of executions: the generated C program of every formula of enumerated families run (under AddressSanitizer and UBSan) on every trace of bounded change count, output words compared bit by bit with a reference evaluator", "All intervals up to three words for every single operator at word size 8, boundary intervals at 16, 32 and 64, formulas of two operators, shared and deep formulas; all traces with at most 1 to 4 changes of value."),
    "P08": (_X, "Every operator over small and boundary signal values, nested expressions in full and minimal parentheses, complete input trees; reference is a C-semantics evaluator."),
    "P09": (_X, "prev/TAU in every position of enumerated specifications over complete input trees up to the stated depth."),
    "P10": (_X + "; each multi-formula program compared with its formulas alone", "Pairs, triples and large sets of formulas over complete input trees up to depth 5."),
    "P12": (_X + "; every interleaving of the operations of two monitors in one process up to a depth, compared with each monitor alone", "All interleavings of up to 6 (thorough 7) operations on two monitors, all ordered pairs of twelve programs, including loads in the middle of the other's run."),
    "P11": (_X + "; all operation sequences load/step/reset up to a length explored before the final load, compared with a fresh monitor", "Operation sequences up to 3 (thorough 4), input histories up to 3 (thorough 5) for every ordered pair of twelve programs."),
    "P13": ("explicit-state enumeration of input files: every trace of bounded length and every spelling of it from a grammar run through the real command-line monitor, compared with a reference reader and evaluator", "All traces up to the stated number of rows over each alphabet of field spellings; line ends, headers, time stamps, file or standard input."),
    "P14": ("enumeration of every signal map of bounded size (and header, map, declaration order and combinations) compiled by the real compiler and run by the real monitor on complete input trees, compared with a reference binding", "All permutations and partial maps of up to four signals, arrays and slices up to the stated sizes, rejected maps included."),
    "P15": ("explicit-state enumeration: every program of enumerated families assembled; the state the monitor's loader reaches from the binary compared with the printed listing, instruction by instruction and table by table", "All operators in both sections, intervals, constants, identifiers, signal numbers and names at and around the field widths; loader built with AddressSanitizer."),
    "P16": ("explicit-state enumeration of all traces of the bounded length for every formula of enumerated families, compared with the answer the compiler obtains from the solver for every encoding", "All formulas up to the stated size over two or three atoms and small integers; every encoding, strict and not, after transformations, conjunctions of formulas. The solver is part of the code under test; the deciding oracle enumerates traces."),
    "P17": ("explicit-state enumeration of all traces of the bounded length for every pair of formulas of enumerated families, compared with the compiler's equivalence answer for every encoding; symbolic bounds by enumeration of their values", "Pairs of formulas of the same shape and of rewritten shape; every encoding; .equiv files with symbolic bounds."),
    "P18": ("explicit-state enumeration: every specification of enumerated families written after every stage of compilation, read again by the real compiler, and both monitors explored on complete input trees", "Every operator and declaration form; stages from parsing to a fully lowered program; prefix notation compared with the operator tree."),
    "P19": ("explicit-state enumeration of specification texts: every expression over all operators and typed operands, every pair of declarations, every use of a name and every token mutation, run through the real compiler; outcomes compared with an independent type system, binaries loaded by the real monitor", "All operators over ~90 typed operands in both sections, nested once, Booleanizer on and off; all pairs of declaration kinds; all single-token mutations of the base specifications; process exit status for every kind of outcome."),
    "P20": (_X + "; the specification with sugar against its expansion by an independent expander", "Every form of set aggregation, array, slice, struct, enum, definition and label from enumerated terms, with every option combination of rewriting, CSE and extended operators."),
    "P21": ("explicit-state enumeration: every trace of bounded length through the real command-line monitor for every pair of assumption and guarantee of a family, contract reports compared with a reference evaluator", "Both sections, up to five contracts among formulas, labels, value expressions; long traces."),
    "P22": ("explicit-state exploration of the compiler's console: from every reached state every command is applied in a forked copy of the process; states identified by the canonical object graph of program, context and saved states; every binary produced explored in the real monitor on complete input trees", "88 commands from 26 start paths to depth 2 (thorough 4), failing commands and push/pop around 25 command sequences judged by the outcome of 40 probes; all distinct binaries against a reference evaluator."),
    "P23": ("explicit-state exploration of the real monitor built with the generated bounds header (AddressSanitizer) against one with ample bounds, on complete input trees of enumerated programs", "Every program of enumerated families gets its own monitor built with exactly its generated bounds; step-by-step equality of verdicts; input files with surplus columns."),
    "P24": ("explicit-state exploration of the real monitor under AddressSanitizer, UBSan and MemorySanitizer: complete input trees, operation histories, capacity edges and trace files from a grammar", "All programs of enumerated families at and beyond the array capacities, histories of load/step/reset up to a length, all trace files from a field grammar up to the stated rows."),
    "P25": ("explicit-state enumeration of compilation histories: every specification under every hash seed, memory layout and working directory of a bounded set, and after every sequence of up to two other compilations in the same process and console session; outputs compared byte by byte", "Binary, listing, bounds files, written specification and messages; all ordered pairs of 31 specifications, refused ones included."),
    "P26": (_X + "; every formula in both input languages, in full and minimal parentheses", "All operator chains of two and three operators without redundant parentheses, all formulas of one and two operators, interval shorthand, mission time, signal numbers; complete input trees."),
    "P27": ("explicit-state enumeration: every trace of bounded length through every output channel (callback, standard output with and without auxiliary strings, debug build), streams compared verdict by verdict", "One to forty formulas, both sections in either order, labelled and unlabelled."),
    "P28": (_X, "The Rust monitor, compiled from the working tree, on the formula families of P01-P04 (half of the large ones in the quick tier): verdicts, deadlines and order on complete input trees."),
    "P29": (_X, "The Rust monitor on the expression families of P08 and P09, and on families built around integer overflow over extreme values with saturating reference arithmetic; the overflow report of every step is compared too."),
    "P30": (_X + "; all operation sequences update_binary_file/step/reset/clock_reset up to a length explored before the final load, compared with a fresh monitor", "Operation sequences up to 3 (thorough 4) for every ordered pair of twelve programs."),
    "P31": ("explicit-state enumeration: every trace of bounded length through every build variant of the Rust monitor (auxiliary strings, debug output), streams and names compared verdict by verdict, contract reports with a reference evaluator", "The families of P21 and P27: up to forty formulas, labels, both sections in either order, up to five contracts."),
    "P32": ("explicit-state exploration of the Rust monitor built with the generated config.toml (bounds and arithmetic checked) against one with ample bounds, on complete input trees of enumerated programs", "The families of P23, and formulas and contracts whose verdicts of several steps come at once; every program gets its own monitor."),
    "P33": ("explicit-state enumeration: all instances of every rewrite rule over bounded intervals and all traces; every term reachable by the rules answered by a stand-in egglog, the compiled programs explored on complete input trees", "Rules with every interval bound up to 3 (thorough 4); all terms reachable in a bounded number of rewrites for families of formulas and formula sets; wrong, missing, failing and truncated answers; program text read back by an independent egglog reader."),
    "P34": ("explicit-state exploration of e-graphs reachable by the rewrite rules; the real compiler's integer program enumerated completely by a stand-in for Gurobi, every optimum answered and the compiled program explored on complete input trees", "All e-graphs of a bounded number of nodes and rewrites for families of formulas and formula sets; all optimal solutions (up to 4); every failure Gurobi reports."),
}
NA = {
    "P91": "that the optimum Gurobi finds is the formula with the smallest queues is a question of cost, decided inside Gurobi (not installed); its meaning is P34",
}
