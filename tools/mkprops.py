#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, pathlib
P = []
C = "monitors/c/src/"
K = "compiler/c2po/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                              observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("P01", "Future-time MLTL verdicts are sound",
  "For every future-time MLTL specification the compiler accepts and every input trace, each verdict the C monitor emits for a time step equals the MLTL truth value of that formula at that step. A verdict emitted before the formula's whole window has been read must be the value under every continuation of the trace.",
  ["programs", "inputs", "histories"],
  "all future-time formulas (G, F, U, R, all Boolean connectives, any nesting, intervals and sharing), all Boolean traces",
  "The tests compare a few dozen hand-written formulas on one trace each; queue sizing, aggregation of verdict ranges and cursor updates depend on the interaction of formula shape and input history.",
  [C+"engines/mltl.c", C+"memory/shared_connection_queue.c", K+"assemble.py", K+"scq.py", K+"cpt.py"],
  [("operator evaluation over shared connection queues", C+"engines/mltl.c"), ("queue size computation", K+"scq.py")],
  ["verdict callback / output file of the C monitor"],
  [("queue control block", "write/read cursor, next time, temporal edge of one instruction", C+"memory/shared_connection_queue.h")])
p("P02", "Past-time MLTL verdicts are sound",
  "For every past-time specification (once, historically, since, trigger, mixed with Boolean connectives) and every trace, each verdict the C monitor emits for a time step equals the past-time MLTL truth value at that step, including the steps before the window is completely inside the trace.",
  ["programs", "inputs", "histories"],
  "all past-time formulas and all Boolean traces",
  "Tests run a handful of past-time formulas on one trace; correctness of the interval arithmetic at the start of the trace depends on history.",
  [C+"engines/mltl.c", K+"assemble.py", K+"cpt.py"],
  [("since/trigger evaluation with temporal blocks", C+"engines/mltl.c")], ["verdict callback"])
p("P03", "Every formula's verdict stream is ordered, gap-free and without repeats",
  "For every specification and trace, the verdicts emitted for one formula have strictly increasing time stamps starting from step 0, and each step is decided exactly once (a verdict with time t stands for all undecided steps up to t).",
  ["programs", "inputs", "histories"], "all specifications, all traces, all formulas in multi-formula specifications",
  "Golden outputs only show the streams of the sampled traces.",
  [C+"engines/mltl.c", C+"memory/shared_connection_queue.c"], [("next_time bookkeeping and verdict aggregation", C+"engines/mltl.c")], ["verdict callback"])
p("P04", "Verdicts arrive by their deadline and every step terminates",
  "After the monitor has read step t plus the formula's worst-case future reach, the verdict for step t has been emitted; purely past-time formulas are decided in the same step. Every call that advances the monitor by one step returns in bounded time for every accepted specification, including those containing constants.",
  ["programs", "inputs", "histories"], "all specifications (also with the constants true and false in any operand position) and all traces",
  "Tests check which lines are printed at the end of a run, not when; no test places constants in operand positions.",
  [C+"engines/mltl.c", C+"engines/engines.c", C+"lib.c", K+"cpt.py"], [("fix-point iteration of one step", C+"lib.c"), ("operand readiness check", C+"engines/mltl.c")], ["verdict callback", "return of the step call"])
p("P05", "Compiler optimizations and output options never change verdicts",
  "For every specification, the monitor compiled with any combination of the optimization and encoding options (rewriting, common-subexpression elimination, extended operators, extra queue slots, auxiliary data) yields, for every trace, the same truth value at every time step as the unoptimized monitor.",
  ["programs", "configurations", "inputs"], "all specifications x all option combinations x all traces",
  "Golden tests fix one option set per specification and compare printed ASTs rather than verdicts.",
  [K+"rewrite.py", K+"cse.py", K+"transform.py", K+"assemble.py", K+"scq.py", K+"main.py"],
  [("rewrite rules", K+"rewrite.py"), ("structural hashing of shared subexpressions", K+"cse.py")], ["verdicts of the compiled monitor"])
p("P06", "Formula transformations preserve meaning",
  "Each formula transformation the compiler offers as a command (negation normal form, Boolean normal form, release removal, extended-operator removal, n-ary flattening and splitting, operand sorting, rewriting, CSE), alone or followed by others, yields a formula that is true at exactly the same steps of exactly the same traces as before.",
  ["programs", "histories", "inputs"], "all formulas, all sequences of transformation commands, all traces",
  "Tests compare the printed result of a single transformation on a few formulas.",
  [K+"transform.py", K+"rewrite.py", K+"cse.py", K+"command.py"], [("AST rewriting passes", K+"transform.py")], ["printed/serialized formula after the command"])
p("P07", "Generated word-parallel C code agrees with MLTL semantics",
  "For every pure MLTL specification and word size for which the compiler generates stand-alone bit-parallel C code (generate_sabre_code), the generated program, run on any trace given in whole words (or as rows of text), prints one word per input word after a delay of at most the sum of the upper bounds along the deepest path, each rounded up to words, and every printed bit whose window lies inside the trace is the MLTL truth value of the selected formula at that position. Every signal is read from the input column of its number in the signal mapping. The program reads and writes only its own buffers.",
  ["programs", "configurations", "inputs"], "all pure future-time MLTL formulas over !, &&, ||, ->, <->, xor, F, G, U and constants, all supported word sizes, signal numbers and trace contents",
  "No stable test runs the generated code.",
  [K+"sabre.py"], [("code generation per operator", K+"sabre.py")], ["output of the compiled generated code"])
p("P08", "Integer, float and Boolean atomics are evaluated with their defined semantics",
  "With the Booleanizer enabled, every atomic proposition built from integer or float signals with comparison, arithmetic, bitwise and mathematical operators has, at every step, the truth value that C arithmetic on the loaded signal values defines for the written expression (operator precedence and operand order included).",
  ["programs", "inputs"], "all well-typed expressions and signal values for which the C operation is defined",
  "Each operator is tested on one trace; operand order, mixed nesting and shared sub-expressions are not.",
  [C+"engines/booleanizer.c", K+"assemble.py", K+"parse_c2po.py", K+"type_check.py"], [("booleanizer instruction interpreter", C+"engines/booleanizer.c")], ["verdicts"])
p("P09", "prev and TAU see exactly the previous value and the current step",
  "In every step, a previous-value expression equals the value its argument had in the immediately preceding step (its initial value in step 0), and the time expression equals the number of the current step, wherever they occur in a specification and whatever else the specification contains.",
  ["programs", "histories"], "all expressions using prev/TAU, all signal histories",
  "One trace per operator in the tests; evaluation order among shared expressions depends on the whole specification.",
  [C+"engines/booleanizer.c", K+"assemble.py"], [("deferred execution of prev instructions", K+"assemble.py")], ["verdicts"])
p("P10", "Formulas in one specification do not influence each other",
  "For every set of formulas compiled together, the verdict stream of each formula equals the stream it has when it is compiled alone, whatever the other formulas are, in whatever order they are written and whatever subformulas, definitions or labels they share.",
  ["programs", "inputs"], "all multi-formula specifications (future- and past-time sections together) and all traces",
  "Tests sample a few multi-formula files.",
  [K+"assemble.py", K+"cse.py", C+"engines/mltl.c"], [("instruction id allocation and queue layout", K+"assemble.py")], ["verdict callback per formula"])
p("P11", "Resetting or reloading leaves no trace of the previous run",
  "Loading a specification into a monitor that has already run, at any point of its execution, after any earlier specification and any reset call, makes the monitor behave on every subsequent trace exactly like a fresh monitor with that specification.",
  ["histories", "inputs"], "all sequences of load, step and reset operations",
  "Tests always use a fresh process per specification.",
  [C+"lib.c", C+"memory/monitor.c", C+"internals/process_binary.c", C+"engines/mltl.c"], [("reset functions", C+"memory/monitor.c"), ("instruction dispatch configuration at load", C+"engines/mltl.c")], ["verdict callback after reload"])
p("P12", "Separate monitors in one process are independent",
  "When several monitor objects are loaded and stepped in one process in any interleaving, each one emits exactly the verdict stream it would emit if it were the only monitor.",
  ["schedules", "histories"], "all interleavings of load/step calls on two or more monitors",
  "Tests run one monitor per process.",
  [C+"lib.c", C+"engines/engines.c", C+"engines/mltl.c", C+"engines/booleanizer.c"], [("all run-time state lives in the monitor object", C+"memory/monitor.h")], ["verdict callbacks of both monitors"])
p("P13", "Trace files are read as written: rows, headers and time-stamped events",
  "For every well-formed CSV trace the command-line monitor behaves as if each row's values had been loaded and one step taken, and a row carrying an explicit time stamp behaves as if the intermediate steps had been repeated with the row's values; every numeric field is read as the number it denotes.",
  ["inputs"], "all well-formed CSV traces (with/without header, time stamps, integer/float/Boolean fields)",
  "Tests use a dozen traces, most without time stamps.",
  [C+"cli/main.c", C+"cli/csv_trace.c", C+"lib.c"], [("CSV tokenizer", C+"cli/csv_trace.c")], ["output of the r2u2 executable"])
p("P14", "Signals are bound to the columns the map or trace header names",
  "For every specification and every signal map or trace header that names all its signals, in any order and with unused names, verdicts depend only on the values of the named columns: permuting columns together with the map or header changes nothing.",
  ["programs", "configurations", "inputs"], "all maps/headers (permutations, gaps, array ranges) and specifications",
  "Each test has one fixed map.",
  [K+"map.py", K+"trace.py", K+"atomics.py", K+"assemble.py"], [("signal id assignment", K+"trace.py")], ["verdicts"])
p("P15", "The assembled binary decodes to the program that was listed",
  "For every accepted specification, decoding the binary the compiler writes, with the monitor's own loader, yields exactly the instruction listing the compiler prints: same opcodes, operands, intervals, queue layout and formula numbering, for every id, interval and constant within the documented ranges; the binary is fully consumed.",
  ["programs"], "all accepted specifications (ids, intervals, constants up to the field widths)",
  "Golden tests compare the listing only; the binary is exercised on a few small specifications.",
  [K+"assemble.py", C+"internals/process_binary.c", C+"instructions/mltl.c", C+"instructions/booleanizer.c"], [("field packing", K+"assemble.py"), ("field unpacking", C+"internals/process_binary.c")], ["listing vs. loaded monitor tables"])
p("P16", "Satisfiability answers are correct",
  "For every future-time MLTL formula and every SMT encoding offered, an answer sat or unsat agrees with the existence of a finite trace on which the formula holds (traces long enough for the whole formula); an encoding that cannot handle a formula says so or answers unknown rather than guessing; the answer is that of the solver the user names, and a solver that is missing, fails or is cut off yields no answer.",
  ["programs", "configurations"], "all propositional MLTL formulas x all encodings",
  "Tests check a few formulas with one encoding.",
  [K+"sat.py", K+"command.py"], [("SMT encodings", K+"sat.py")], ["check_sat result / printed output"])
p("P17", "Equivalence answers are correct",
  "For every pair of MLTL formulas, the equivalence check reports equivalent only if both formulas hold on exactly the same traces, and reports not equivalent only if some trace distinguishes them; the answer is that of the solver the user names, and a solver that fails yields no answer.",
  ["programs", "configurations"], "all pairs of propositional MLTL formulas x all encodings",
  "Tests cover a few pairs.",
  [K+"sat.py", K+"parse_equiv.py", K+"command.py"], [("equivalence query construction", K+"sat.py")], ["check_equiv result"])
p("P18", "Written specifications read back as the same specification",
  "For every accepted specification, each textual form the compiler writes (C2PO, MLTL-STD, prefix notation) is a faithful rendering: the C2PO and MLTL-STD forms are accepted by the compiler again and the reloaded specification has the same truth value at every step of every trace, and the prefix form has exactly the operator tree and intervals of the specification.",
  ["programs"], "all accepted specifications, before and after desugaring",
  "Tests compare the written text for a few formulas and never read it back.",
  [K+"serialize.py", K+"cpt.py", K+"parse_c2po.py", K+"parse_mltl.py"], [("operator printing", K+"cpt.py")], ["written files"])
p("P19", "Ill-formed specifications are rejected and produce no binary",
  "Every specification that breaks a typing or well-formedness rule of the language (undeclared or duplicate names, undefined types, operand types that do not match, future-time operators in PTSPEC or past-time operators in FTSPEC, also through definitions and labels, malformed or reversed intervals, indices, slices or set parameters out of range, wrong numbers of members, literal division by zero, values that the instruction format cannot represent) makes the compiler report an error message, exit with a nonzero status and write no output binary. Every well-formed specification compiles to a binary that the monitor accepts; outside this are what the compiler documents or reports as unsupported: formulas that are constants, shifts, Booleanizer operators on truth values of logical or temporal operators, operators on enum members other than ==, != and prev, nested prev. The members of different enums may share names. Whatever the input, the compiler ends with one of these two outcomes: never an internal error, a crash or a success without a binary.",
  ["programs"], "all small expressions over all operators and operand types, in both sections; every declaration and use of a name; token mutations of specifications",
  "Tests contain about a dozen ill-typed files.",
  [K+"type_check.py", K+"parse_c2po.py", K+"main.py", K+"command.py"], [("type checker", K+"type_check.py"), ("status propagation", K+"main.py")], ["exit status, stderr, output file"])
p("P20", "Sets, structs, arrays, definitions and enums mean what they expand to",
  "A specification written with set aggregation (foreach, forsome, forexactly, foratleast, foratmost), arrays, slices, structs, enums or definitions yields the same verdicts on every trace as the specification obtained by writing the expansion out by hand.",
  ["programs", "inputs"], "all uses of the sugar, all traces",
  "Tests compare the printed expansion of a few files.",
  [K+"desugar.py", K+"parse_c2po.py", K+"type_check.py"], [("desugaring passes", K+"desugar.py")], ["verdicts"])
p("P21", "Assume-guarantee contracts report the right one of three outcomes",
  "For every contract and every trace, the monitor reports at each step inactive exactly when the assumption is false, invalid exactly when the assumption holds and the guarantee fails, and verified exactly when both hold.",
  ["programs", "inputs"], "all contracts over pairs of formulas, all traces",
  "One contract file in the tests.",
  [K+"desugar.py", K+"assemble.py", C+"engines/aux_info.c", C+"engines/mltl.c"], [("contract expansion to three formulas", K+"desugar.py"), ("contract status printing", C+"engines/aux_info.c")], ["output of the monitor with auxiliary strings"])
p("P22", "Any sequence of compiler commands fails cleanly or keeps the spec correct",
  "After any sequence of interactive or scripted compiler commands, each command either completes or reports an error with a failing status, without an internal crash. A command that fails leaves the current specification, signal map and options as they were (a composite command such as compile stops after its last successful step); pop brings back exactly what push saved, whatever ran in between; and every binary that assemble or compile writes has the meaning of the specification parsed last under the signal map in force (extended operators, of which the compiler warns, excepted).",
  ["histories"], "all command sequences up to a length over the command set",
  "Each test runs one fixed pipeline.",
  [K+"command.py", K+"main.py", K+"cpt.py"], [("command guards", K+"command.py"), ("program stack", K+"main.py")], ["command status, printed program"])
p("P23", "Generated bounds are sufficient for the specification",
  "For every accepted specification, a C monitor built with the size bounds that the compiler generates for it loads and runs that specification on any trace without touching memory outside its arrays and gives the same verdicts as a monitor with ample bounds.",
  ["programs", "configurations", "inputs"], "all accepted specifications, all traces",
  "No test builds the monitor with generated bounds under a memory checker.",
  [K+"r2u2.py", K+"assemble.py", K+"command.py", C+"internals/bounds.h"], [("bounds computation", K+"r2u2.py")], ["sanitized monitor, verdicts"])
p("P24", "The monitor never reads or writes outside its memory",
  "For every binary the compiler produces that fits the configured bounds and every input history, loading and stepping the monitor performs no out-of-bounds access and no undefined arithmetic on its bookkeeping values.",
  ["programs", "inputs", "histories"], "all accepted specifications and all traces",
  "Tests run an unsanitized build on sampled inputs.",
  [C+"engines/mltl.c", C+"memory/shared_connection_queue.c", C+"internals/process_binary.c", C+"engines/aux_info.c"], [("queue index arithmetic", C+"memory/shared_connection_queue.c")], ["AddressSanitizer/UBSan build"])
p("P25", "Compilation is deterministic",
  "Compiling the same specification with the same options gives byte-identical binaries and listings in every process, independent of hash seeds, of the working directory and of what was compiled earlier in the same session.",
  ["histories", "configurations"], "all specifications, hash seeds and earlier sessions",
  "Tests compile each file once in a fresh process.",
  [K+"assemble.py", K+"cpt.py", K+"command.py"], [("ordered traversal of the syntax tree", K+"cpt.py")], ["output files"])
p("P26", "The same formula written in MLTL-STD or C2PO gives the same verdicts",
  "For every formula expressible in both input languages, compiling the MLTL-STD file and the C2PO file gives monitors with identical verdicts on every trace, and operator precedence and associativity are the documented ones.",
  ["programs", "inputs"], "all formulas up to a size without redundant parentheses, both front ends",
  "Tests for each front end are disjoint and few.",
  [K+"parse_mltl.py", K+"parse_c2po.py"], [("LALR grammars", K+"parse_mltl.py")], ["verdicts"])
p("P27", "All output channels report the same verdicts",
  "For every specification and trace, the callback, the log file, the named log file and the standard output of the command-line tool report the same verdicts for the same formulas at the same times, each formula under its own number or name.",
  ["programs", "configurations", "inputs"], "all specifications (labels, contracts, several formulas), all traces",
  "Tests only look at the printed output of one build.",
  [C+"engines/mltl.c", C+"engines/aux_info.c", C+"cli/main.c", K+"assemble.py"], [("verdict printing", C+"engines/mltl.c"), ("formula alias table", C+"engines/aux_info.c")], ["callback, log file, stdout"])
R = "monitors/rust/r2u2_core/src/"
p("P28", "The verdicts of the Rust monitor are those of MLTL",
  "For every future-time or past-time MLTL formula that fits the configured bounds and every trace, the verdicts the Rust monitor reports (get_output_buffer) are the truth of the formula at the reported step, each step is reported once and in order, and by the deadline that the formula's worst-case reach implies (past-time formulas in the same step).",
  ["programs", "inputs", "histories"], "all formulas and traces; monitor driven through monitor_step",
  "The Rust tests run fixed traces and are not part of the baseline.",
  [R+"engines/mltl.rs", R+"memory/scq.rs", R+"engines/mod.rs", R+"lib.rs"], [("temporal operators on queues", R+"engines/mltl.rs"), ("queue search", R+"memory/scq.rs")], ["get_output_buffer after each step"])
p("P29", "The Rust monitor computes atomic propositions and reports integer overflow",
  "For every arithmetic, relational and previous-value expression, the Rust monitor's atomic propositions have the value of the expression over the current inputs, integer results outside the 32-bit range saturate at the nearer bound, and get_overflow_error (and the result of monitor_step) tells of every step whether any integer operation of that step overflowed or divided by zero; no input makes it panic.",
  ["programs", "inputs"], "all expressions over all operators and all signal values, the extreme ones included",
  "Tests use a handful of values; none at the limits of the integers.",
  [R+"engines/booleanizer.rs", R+"engines/mod.rs", R+"lib.rs"], [("saturating arithmetic", R+"engines/booleanizer.rs"), ("overflow report", R+"engines/mod.rs")], ["verdicts and get_overflow_error"])
p("P30", "Resetting or reloading the Rust monitor leaves no trace of the previous run",
  "After reset or update_binary_file, whatever was loaded, ran and was reset before, the Rust monitor gives the verdicts a new monitor with the same specification gives, at the same steps.",
  ["histories"], "all sequences of loads, steps and resets",
  "Tests use each monitor for one run.",
  [R+"memory/monitor.rs", R+"lib.rs"], [("reset", R+"memory/monitor.rs")], ["verdicts after the last load"])
p("P31", "The Rust monitor reports verdicts and contracts under their own names",
  "In every build variant of the Rust monitor (with or without auxiliary strings and debug output) the verdicts are the same, each formula's verdict carries the formula's own number and, with auxiliary strings, its own name; and a contract is reported inactive, invalid or verified at exactly the steps at which its assumption is false, its assumption is true and its guarantee false, or both are true.",
  ["programs", "configurations", "inputs"], "all specifications with labels and contracts, all traces",
  "The Rust tests use one build and a few specifications.",
  [R+"engines/mltl.rs", R+"instructions/aux_info.rs", R+"internals/process_binary.rs", R+"lib.rs"], [("auxiliary tables", R+"instructions/aux_info.rs"), ("RETURN instruction", R+"engines/mltl.rs")], ["get_output_buffer, get_contract_buffer"])
p("P32", "The generated config.toml is sufficient for the Rust monitor",
  "For every accepted specification, a Rust monitor built with the settings of the config.toml that the compiler generates for it loads and runs that specification on any trace without panicking (columns no signal is bound to included) and gives the same verdicts as a monitor with ample bounds.",
  ["programs", "configurations", "inputs"], "all accepted specifications, all traces",
  "No test builds a monitor with generated bounds.",
  [K+"assemble.py", R+"internals/bounds.rs", R+"memory/monitor.rs", R+"lib.rs"], [("bounds computation", K+"assemble.py")], ["panic, verdicts"])
p("P33", "Equality saturation preserves meaning",
  "With equality saturation enabled, every rewrite rule given to egglog and the emitted egglog program preserve the formula's meaning for all interval bounds; whatever equivalent term egglog answers, the compiled program has the same verdicts as the formulas as written (for every formula of the specification, also when they share parts); with the equivalence check on, an answer that is not equivalent never changes a verdict and is reported, for each formula; and an egglog that is missing, fails, or is cut off never changes a verdict and never crashes the compiler. The egglog used is the one the user names.",
  ["programs", "configurations", "inputs", "faults"], "all formulas, rules x interval bounds, answers of egglog, traces",
  "The tests run without egglog: no line of this is executed.",
  [K+"eqsat.py", K+"parse_egglog_output.py", K+"egglog/rewrites/temporal.egg", K+"egglog/greedy/mltl.egg", K+"main.py"], [("egglog rules", K+"egglog/rewrites/temporal.egg"), ("encoding, answer", K+"eqsat.py")], ["program sent to egglog, verdicts, exit status, messages"])
p("P34", "Integer-programming extraction preserves meaning",
  "With integer-programming extraction, for every e-graph egglog can hand over and every optimal solution of the integer program the compiler builds from it, the extracted formula is one of the root class: the compiled program has the same verdicts as the formulas as written (several formulas that share parts, and propositions used several times, included); an acyclic solution exists whenever the formula itself is in the e-graph; and a Gurobi that fails, times out, or runs out of memory never changes a verdict and never crashes the compiler.",
  ["programs", "configurations", "faults"], "all formulas, e-graphs, optimal solutions",
  "The tests run without Gurobi: no line of this is executed.",
  [K+"egraph.py", K+"eqsat.py"], [("e-graph reader", K+"egraph.py"), ("integer program", K+"egraph.py"), ("building the formula", K+"egraph.py")], ["verdicts, exit status"])
p("P91", "The extracted formula is the cheapest",
  "The formula extracted by equality saturation needs the least queue space among the formulas of the root class.",
  ["programs", "inputs"], "all e-graphs", "No test runs it.",
  [K+"egraph.py", K+"egglog/greedy/cost.egg"], [("cost model", K+"egraph.py")], ["extracted formula"])
out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
