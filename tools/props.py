"""One source for properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
PBT = "property-based testing (Hypothesis generators, shrinking) "
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, technique, note, design, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, design=design, state=state))


prop("P01", "Future-time verdicts are correct and complete",
     "For every future-time specification over boolean inputs and every finite input trace, each verdict the C monitor prints agrees with the MLTL semantics of the formula on that trace and on every continuation of it. "
     "Per formula the verdicts cover the time steps in order, without gap or repetition, and a time step has a verdict as soon as the trace covers its whole window.",
     ["inputs", "programs"], "all formulas built from !, &&, ||, xor, ->, <->, constants and G/F/U/R with any intervals and nesting; all boolean traces of any length",
     "The test suite compares a few dozen fixed specifications on fixed traces with stored outputs; the queue and edge logic depends on the interaction of interval bounds, delays and input history, which no fixed sample covers.",
     ["monitors/c/src/engines/mltl.c", "monitors/c/src/engines/engines.c", "monitors/c/src/memory/shared_connection_queue.c", "compiler/c2po/assemble.py", "compiler/c2po/scq.py"],
     [("shared connection queues, temporal blocks", "monitors/c/src/memory/shared_connection_queue.c"), ("temporal operator kernels", "monitors/c/src/engines/mltl.c"), ("queue sizing", "compiler/c2po/scq.py")],
     ["stdout of r2u2 spec.bin trace.csv"],
     PBT + "against a three-valued reference model of MLTL, end to end",
     "Random search; oracle is an independent evaluator written from docs/Preliminaries/mltl.md. Formulas up to depth 5 (plus a shallow/wide and a large-interval family), up to 8 formulas, 3 traces of up to about 40 steps per compilation; part large: 40 formulas, nesting of 15, traces of 66500 steps.",
     "Generator: 1-8 formulas over a random subset of the operators (random, or sharing sub-formulas), random traces with noise, runs and single flips. Oracle: Kleene evaluation of the formula on the prefix (unknown beyond the end); every printed verdict must equal the known value, or, when the prefix does not decide it, no sampled continuation may contradict it; order, gaps and completeness (every time whose window has ended has a verdict) are checked per formula. Part large compares on piecewise constant histories with an interval-based evaluator (lib/pw.py), which long traces, wide bounds and deep nesting need.")

prop("P02", "Past-time verdicts are correct and immediate",
     "For every past-time specification over boolean inputs and every input trace, the C monitor prints for each formula exactly one verdict per time step, in order and at that step, and each equals the past-time MLTL semantics of the formula on the trace so far.",
     ["inputs", "programs"], "all formulas built from the boolean connectives and H/O/S/T with any intervals and nesting; all boolean traces",
     "Tests hold a handful of past-time specifications; nested past-time operators with intervals not starting at 0 and long histories are not sampled.",
     ["monitors/c/src/engines/mltl.c", "compiler/c2po/scq.py", "compiler/c2po/assemble.py"],
     [("past-time operator kernels", "monitors/c/src/engines/mltl.c"), ("queue sizes from propagation delays", "compiler/c2po/scq.py")],
     ["stdout of r2u2 spec.bin trace.csv"],
     PBT + "against a reference model of past-time MLTL, end to end",
     "Random search against an independent evaluator; formulas up to depth 4, intervals up to about 40, traces up to about 40 steps; part large as in P01.",
     "As P01 for past-time operators, where the reference value is always known and completeness means one verdict per step.")

prop("P03", "Verdicts are reported online, never revised, and independent",
     "While inputs arrive one at a time, each verdict is issued no later than the step at which its formula's window ends, is never retracted or repeated, and holds for every possible future input; the stepped library and the command-line monitor report the same stream. "
     "A formula's verdicts do not depend on which other formulas, or which other section, share its specification.",
     ["inputs", "histories", "programs"], "all formulas and prefixes of all traces; all groupings of formulas into specifications",
     "Existing tests look only at the final output of a whole run and at fixed groupings; the guarantee speaks about every prefix and every company a formula keeps.",
     ["monitors/c/src/lib.c", "monitors/c/src/engines/engines.c", "monitors/c/src/engines/mltl.c", "compiler/c2po/cse.py", "compiler/c2po/assemble.py"],
     [("one pass per time step until no instruction makes progress", "monitors/c/src/engines/engines.c"), ("common subexpression sharing", "compiler/c2po/cse.py")],
     ["output callback of the library, step by step", "stdout of the command-line monitor"],
     PBT + "over input histories: per-step invariants against a reference model, and metamorphic grouping",
     "Random search. Early verdicts are tested against sampled continuations, not all.",
     "Part stream drives lib/driver.c (a client of the library API) one input at a time and checks the increments; part independence compiles the formulas together and one by one; part both-sections puts FTSPEC and PTSPEC, sharing sub-formulas, in one file in either order.")

prop("P04", "Compiler options and passes never change verdicts",
     "Whatever combination of optimisation, rewriting, sharing and normal-form options or commands is used to compile a specification, the compiled program yields verdicts that are correct and complete for the specification as written.",
     ["programs", "configurations", "inputs"], "all boolean-input specifications; all subsets of the optimisation switches and sequences of the transformation commands",
     "Tests check a few rewrite rules on single instances by printed text; rules are guarded by interval conditions whose corner cases (adjacent, nested, disjoint, equal intervals) need exploration, and passes interact.",
     ["compiler/c2po/rewrite.py", "compiler/c2po/cse.py", "compiler/c2po/transform.py", "compiler/c2po/scq.py", "compiler/c2po/cpt.py"],
     [("rewriting rules", "compiler/c2po/rewrite.py"), ("pass pipeline", "compiler/c2po/main.py")],
     ["stdout of the monitor on the compiled program"],
     PBT + "of generated programs, options and pass sequences against a reference model",
     "Random search; each variant is compared with the reference semantics. Excluded by construction: negated xor under to_nnf (known finding). egglog-based rewriting is not installed here and not explored.",
     "Generator builds formulas around the left-hand sides of the rewriting rules and near misses (one field changed), plus random ones. Part flags compiles under random subsets of --no-rewrite/--no-cse/--extops/--scq-constant; part passes runs a random sequence of 1-5 transformation commands through a script.")

prop("P24", "Normal-form commands produce the form and keep the meaning",
     "After each normal-form or operator-removal command the specification contains only the operators that form allows, and every formula of it is equivalent to the original one on every trace.",
     ["programs", "inputs"], "all boolean-input formulas; every transformation command",
     "Tests compare printed text for about a dozen formulas; equivalence and the shape must hold for every nesting of operators.",
     ["compiler/c2po/transform.py", "compiler/c2po/cpt.py"],
     [("to_nnf, to_bnf, remove_release_operators, remove_extended_operators", "compiler/c2po/transform.py")],
     ["output of print_prefix after the command"],
     PBT + "with a shape invariant and a semantic differential against a reference evaluator",
     "Random search over formulas up to depth 4; equivalence is tested on random traces. Negated xor under to_nnf is a known finding and not generated.",
     "Runs a script (type_check, desugar, command, print_prefix), parses the prefix form back with an independent parser, checks the operator set and compares values on random traces.")

prop("P06", "Arithmetic, comparison and prev expressions compute their documented values",
     "With the booleanizer enabled, every Boolean expression over bool, int and float inputs (arithmetic, bitwise operators, comparison, abs, sqrt, pow, TAU, prev, named definitions) has, at each time step, the value the language defines for that step's inputs: "
     "32-bit integers with truncating division, IEEE doubles with equality up to 1e-5, prev giving its initial value at step 0 and the operand's previous value afterwards; verdicts of formulas over such expressions are those of the formula over these values.",
     ["inputs", "programs"], "all well-typed expressions without overflow, division by zero or NaN; all input values and histories",
     "The repository tests each operator on one fixed line of input; operand sharing, instruction order, literal encoding and tolerance hold only per combination of operators and values.",
     ["monitors/c/src/engines/booleanizer.c", "monitors/c/src/instructions/booleanizer.c", "compiler/c2po/assemble.py", "compiler/c2po/type_check.py", "compiler/c2po/rewrite.py"],
     [("booleanizer instruction interpreter", "monitors/c/src/engines/booleanizer.c"), ("booleanizer code generation", "compiler/c2po/assemble.py")],
     ["stdout of r2u2 on specifications compiled with --booleanizer"],
     PBT + "against a reference interpreter for typed expressions, end to end",
     "Random search; expressions up to depth 4, traces up to 16 steps, values including the extremes of int and values within the tolerance. Excluded: `b == false` while rewriting (known finding).",
     "Generator: typed random expressions (lib/bz.py), operand sharing between atoms, definitions with nested prev, random column order and optimisation flags. Oracle: an interpreter of the documented semantics; verdicts of a temporal formula over the expressions are compared with the temporal reference model.")

prop("P07", "Arrays, structs, enums, definitions and set aggregation mean their expansion",
     "A specification written with array inputs, slices and literals, structs, enums, definitions, formula labels, set aggregation (foreach, forsome, forexactly, foratleast, foratmost) and array comparison compiles, and its verdicts are those of the same specification with all of these written out by hand: "
     "foreach is the conjunction and forsome the disjunction over the elements, the counting forms compare the number of true elements, comparisons of arrays hold for all pairs of elements, names stand for the expression they are defined as, with bound variables scoped to their aggregation.",
     ["programs", "inputs", "configurations"], "all well-typed specifications over these constructs, nested in any way; with and without the booleanizer",
     "The repository has about ten example specifications; name capture, nesting, one-element arrays and evaluation order of the expansion passes fail only for particular combinations.",
     ["compiler/c2po/desugar.py", "compiler/c2po/type_check.py", "compiler/c2po/cpt.py", "compiler/c2po/parse_c2po.py"],
     [("expansion passes", "compiler/c2po/desugar.py"), ("scoping and replacement in the syntax tree", "compiler/c2po/cpt.py")],
     ["acceptance by the compiler", "stdout of the monitor"],
     PBT + "against a reference elaboration of the language, end to end",
     "Random search over typed programs with up to 4 definitions and 3 formulas, arrays up to 4 elements. Slices with a first index of two digits and zero-sized arrays are not generated.",
     "Generator: lib/rich.py (typed trees printed as C2PO text). Oracle: rich.Elab expands the tree by substitution to a temporal formula over Boolean expressions, evaluated by the reference interpreters. Traces, column order and optimisation flags are random.")

prop("P05", "Computed bounds and queue sizes are sufficient",
     "A monitor built with exactly the bounds --write-bounds writes (for C, and the same values for Rust) holds the compiled program: every number in the bounds is at least what the binary and the columns of its trace use, "
     "the monitor builds, accesses no memory outside its tables on any input, and prints the verdicts of a monitor built with ample bounds, contract reports and names included.",
     ["programs", "inputs", "configurations"], "all specifications of the language, with and without the booleanizer and auxiliary strings; all option combinations; all input traces",
     "The tests compare the bounds of one example file; every table has its own count, taken by the compiler from its own view of the program, and too small a table is silent memory corruption.",
     ["compiler/c2po/assemble.py", "compiler/c2po/main.py", "compiler/c2po/scq.py", "monitors/c/src/internals/bounds.h", "monitors/c/src/internals/process_binary.c", "monitors/c/src/memory/shared_connection_queue.c"],
     [("write_bounds", "compiler/c2po/assemble.py"), ("queue sizing", "compiler/c2po/scq.py"), ("static tables sized by the bounds", "monitors/c/src/internals/bounds.h")],
     ["bounds files", "the binary", "stdout of a monitor compiled with the bounds, under AddressSanitizer"],
     PBT + "of generated programs: bounds against an independent decoding of the binary, and a rebuilt, sanitized monitor against the default build and a reference model",
     "Random search. The Rust bounds file is checked for its numbers only: the Rust monitor cannot be built here.",
     "Part sizes decodes the binary (lib/binary.py, written from the instruction formats), derives the indices each table is accessed at and compares them with both bounds files. Part built compiles the monitor with the bounds under AddressSanitizer and compares output with the default build and, without auxiliary strings, the reference model; part large does so for programs that the default bounds do not hold (up to 420 inputs, 280 formulas, bounds of 3000) against lib/pw.py.")

prop("P13", "The binary encodes the listing, is well formed, and names its formulas",
     "Every accepted specification compiles to a binary whose decoded instructions are, in order, the ones in the printed listing; operands refer to results computed earlier in the program, each temporal operator has its bounds and its own non-overlapping queue, the formula that the instructions compute is equivalent to the source formula, with bounds of any size, "
     "and there is exactly one return instruction per formula, numbered in the order of the formulas in the file. With auxiliary strings the names of formulas and contracts are those of the source with the right numbers; without them there are none.",
     ["programs", "configurations"], "all specifications of the language; all option combinations",
     "Tests compare stored listings for a few specifications and never decode a binary; a wrong field width, byte order, operand or number shows up only for programs that use it.",
     ["compiler/c2po/assemble.py", "compiler/c2po/main.py", "monitors/c/src/internals/process_binary.c"],
     [("instruction packing", "compiler/c2po/assemble.py"), ("alias and contract records", "compiler/c2po/assemble.py")],
     ["the binary file", "the listing on stdout"],
     PBT + "of generated programs: the binary decoded by an independent decoder against the listing, structural invariants and the reference elaboration's formula order",
     "Random search over full-language programs with up to four sections, contracts and labels up to 36 characters.",
     "lib/binary.py decodes header, instructions and auxiliary strings, re-renders the listing, and checks definition before use, queue layout, operator arity and formula numbers; part encodes reads the formulas back from the instructions and compares them with the source on piecewise constant histories (lib/pw.py, evaluation on intervals), with bounds up to 2^28. rich.Elab gives formula order, labels and contract numbers.")

prop("P14", "Contracts and names are reported as the documentation says",
     "A monitor with auxiliary strings prints the verdicts of the plain monitor with each formula's name in place of its number, names being those of the source; for each assume-guarantee contract, at each time whose verdicts are known, it reports exactly one of: "
     "inactive (assumption false), invalid (assumption true, guarantee false), verified (both true), next to the verdict that decides it.",
     ["programs", "inputs"], "all specifications with any number of formulas and contracts in any number and order of sections; all traces",
     "The test suite builds the monitor without auxiliary strings; the mapping of numbers to names and contracts depends on the order and mix of sections, labels and contracts.",
     ["monitors/c/src/engines/aux_info.c", "monitors/c/src/internals/process_binary.c", "compiler/c2po/desugar.py", "compiler/c2po/assemble.py"],
     [("name table and contract reports", "monitors/c/src/engines/aux_info.c"), ("resolve_contracts", "compiler/c2po/desugar.py")],
     ["stdout of a monitor built with R2U2_AUX_STRING_SPECS=1"],
     PBT + "of programs with contracts: differential against the plain monitor and a reference model",
     "Random search over programs with up to 4 sections.",
     "Generator: lib/rich.py with further sections and contracts. Oracle: formula numbers and labels from the reference elaboration; verdicts from the reference model; statuses derived from the verdicts.")

prop("P12", "Every signal is read from the column it is mapped to",
     "Each input, element of an input array included, takes its value from the column that the trace header or the map file assigns to it, whatever the column order, gaps, columns of unknown names, shared columns and slices; a map given with a trace takes precedence over the header, "
     "the right-most of repeated columns and the last of repeated map lines count, and traces are read alike from a file or standard input, with header lines and rows of any length (a row whose used columns do not fit into the monitor's buffer may be refused, not misread). A mapping without a referenced signal is refused, naming the signal, and writes no binary; signals that are not referenced need no mapping.",
     ["configurations", "inputs", "programs"], "all specifications, all orders and layouts of columns, all map files of the documented form; with and without the booleanizer",
     "All stored examples map signals in their natural order; the assignment passes through header or map, array expansion, signal and atomic numbering and the CSV reader.",
     ["compiler/c2po/map.py", "compiler/c2po/trace.py", "compiler/c2po/cpt.py", "compiler/c2po/assemble.py", "monitors/c/src/cli/csv_trace.c", "monitors/c/src/lib.c"],
     [("parse_map_file", "compiler/c2po/map.py"), ("parse_trace_file", "compiler/c2po/trace.py"), ("assign_signal_ids", "compiler/c2po/cpt.py")],
     ["stdout of the monitor", "exit code and messages of the compiler"],
     PBT + "of programs and column layouts against a reference model, end to end",
     "Random search. Columns that no signal is mapped to hold arbitrary numbers.",
     "Part mapping lays the same trace out under a random header or map and compares verdicts with the reference semantics; part slices maps arrays of up to 26 elements piecewise; part long has up to 250 signals, long names and padded values, and thousands of columns nobody reads; part missing leaves signals out.")

prop("P15", "Event rows @T mean repeated rows",
     "A trace whose rows are written as events, `@T values` giving the inputs from the step after the previous row up to and including T, yields verdicts that are correct, complete and in order for the trace written out step by step, for future- and past-time formulas, with rows of one step written with or without their time.",
     ["inputs", "histories", "programs"], "all formulas without prev and time stamps; all event traces",
     "The repository has one event trace. Skipping time interacts with queue sizes, verdicts produced ahead of time and aggregation in every operator.",
     ["monitors/c/src/cli/csv_trace.c", "monitors/c/src/engines/mltl.c", "monitors/c/src/memory/shared_connection_queue.c", "compiler/c2po/scq.py"],
     [("event rows", "monitors/c/src/cli/csv_trace.c"), ("aggregated verdicts", "monitors/c/src/engines/mltl.c")],
     ["stdout of the monitor"],
     PBT + "of formulas and event traces against a reference model on the expanded trace",
     "Random search; rows hold for up to 20 steps, or (part wide) up to 2^28. prev and the time stamp operator are excluded: their meaning in an event trace is not documented.",
     "Generator: formulas as in P01/P02, or over memoryless booleanizer expressions; traces of up to 12 rows. Oracle: reference semantics on the expanded trace; for part wide, with bounds and rows of up to 2^28 steps, evaluation on intervals (lib/pw.py) under four continuations of the trace.")

prop("P09", "The compiler answers every input",
     "For every program, MLTL-STD file, trace header, map and combination of options, well formed or damaged, the compiler terminates and either writes a complete binary that decodes and prints no error (exit code 0), or exits non-zero with a message naming an error and writes no binary; it never fails internally. A command script executes every command up to its end or exit, also after failing ones, and exits with 0 exactly if none failed.",
     ["programs", "inputs", "configurations", "faults"], "all texts given as specification, trace and map, and all option combinations",
     "The test suite feeds a few dozen files, nearly all of them well formed; internal failures sit in combinations of constructs.",
     ["compiler/c2po/main.py", "compiler/c2po/parse_c2po.py", "compiler/c2po/parse_mltl.py", "compiler/c2po/trace.py", "compiler/c2po/map.py", "compiler/c2po/type_check.py", "compiler/c2po/transform.py", "compiler/c2po/assemble.py", "compiler/c2po/command.py"],
     [("command execution and return codes", "compiler/c2po/main.py"), ("guards", "compiler/c2po/command.py"), ("binary encoding", "compiler/c2po/assemble.py")],
     ["exit code, messages and files written by c2po.py"],
     "grammar-based fuzzing: generated programs with token-, line- and value-level mutations, mutated traces, maps and options, against an answer invariant and a binary decoder",
     "Random search; programs of up to about forty lines, compile time limit as the hang criterion.",
     "Part programs mutates full-language programs and options; part mltl mutates MLTL-STD files; part data mutates traces and maps of accepted programs; part scripts runs sessions with failing commands at any position. Oracle: no internal-error text, no traceback, exit code and messages and binary consistent, lib/binary.py decodes what was written.")

prop("P18", "pop restores what push saved",
     "In every REPL or script session, the commands between a push and its matching pop, whatever they are (failing ones, other programs, transformations, option changes) and however deeply nested, have no effect on the commands after the pop: these print and write the same as without the bracketed commands, and what is finally compiled has the verdicts of the program. The same holds for sessions that check or encode satisfiability and equivalence, with constraints, symbolic bounds and mission times.",
     ["histories", "programs"], "all sessions of commands with nested push and pop over all programs",
     "The tests have no session with push and pop on a program that was transformed; each pass stores its results in other parts of the state.",
     ["compiler/c2po/main.py", "compiler/c2po/cpt.py", "compiler/c2po/stats.py", "compiler/c2po/parse_equiv.py"],
     [("push_state, pop_state", "compiler/c2po/main.py"), ("deepcopy_program_with_context", "compiler/c2po/cpt.py")],
     ["stdout and files of the session; stdout of the monitor on the final binary"],
     PBT + "of command histories: metamorphic comparison with the history without the pushed blocks, and against a reference model of the final verdicts",
     "Random search; sessions of up to about forty commands, nesting up to three. Bytes of the binary are not compared (queue sizes may differ), its verdicts are.",
     "Two full-language programs per case; blocks contain parsing of other files (one not parseable), all transformations, outputs, option changes and compilation. Every command outside the blocks is announced by an echo so that its output can be compared.")

prop("P08", "Ill-typed programs are refused, well-typed ones accepted",
     "Every well-typed program is accepted; with one violation of the typing rules in it (an operand, argument, member, element or specification of another type, an unknown symbol, member or struct, an index beyond its array, an array of another length, a reversed interval, an operator of the other tense, even behind a definition, a contract as operand, a symbol used twice anywhere in the program, a bound variable out of its scope, a constant that does not fit its type, a prev of a non-constant or nested, members of different enums, an input type no input can have, a booleanizer operator without the booleanizer) it is refused, "
     "wherever in the program the violation is, by a message that names its line, and no binary is written.",
     ["programs", "inputs"], "all programs and all single violations of the listed rules in them",
     "The type-check tests are a few dozen files with the violation at the top of a small formula.",
     ["compiler/c2po/type_check.py", "compiler/c2po/types.py"],
     [("type_check_expr, type_check_section", "compiler/c2po/type_check.py"), ("type equality", "compiler/c2po/types.py")],
     ["exit code, messages and files of c2po.py"],
     PBT + "of well-typed programs and of single typing errors injected into them (contrasting pair: accepted / refused)",
     "Random search. Rules that neither the documentation nor the compiler's messages state (arithmetic and ordering of bools, bitwise operators on bools, a bool as the number of an aggregation) are left out.",
     "The generator draws a well-typed program of the full language as a typed tree, and one of 19 kinds of violation at a random place whose needed type is known from the tree. The first must compile (or be refused as constant only), the second be refused, and the message name a line that differs.")

prop("P19", "Compilation is a function of its inputs",
     "The same files and options give byte-identical binaries, bounds files, maps, seeded traces, printed and written representations and exit codes in every process, whatever its hash seed, heap layout and working directory.",
     ["programs", "schedules", "configurations"], "all programs, option combinations and transformation sequences; all process environments",
     "Tests compile once in one process; order dependence on sets of expressions shows up only under other hash seeds and addresses.",
     ["compiler/c2po/cpt.py", "compiler/c2po/cse.py", "compiler/c2po/assemble.py", "compiler/c2po/scq.py", "compiler/c2po/rewrite.py", "compiler/c2po/main.py"],
     [("parent sets", "compiler/c2po/cpt.py"), ("compute_scq_sizes", "compiler/c2po/scq.py"), ("gen_assembly", "compiler/c2po/assemble.py")],
     ["all files written, stdout and exit code"],
     PBT + "of programs and sessions: differential between two processes with different PYTHONHASHSEED, heap noise and directories",
     "Random search.",
     "Three fork servers with different hash seeds; each child disturbs its heap before compiling, so that orders by address differ as well. Parts: .c2po programs and sessions; MLTL-STD files; SMT problems of .c2po and .equiv files.")

prop("P22", "Generated maps and traces fit the program, and run_r2u2 runs the monitor",
     "generate_map numbers the inputs in order of declaration, or leaves a given mapping as it is; generate_trace writes rows whose columns are the mapped inputs with values of their types within the bounds given; the assembled program has the right verdicts on that trace, whether its columns were named by the map, by the header or by generation, "
     "and run_r2u2 prints and writes exactly what the monitor prints.",
     ["programs", "configurations", "inputs"], "all programs, mappings with and without gaps and foreign names, and generation parameters",
     "One session in the tests uses these commands, on one program with three scalar inputs.",
     ["compiler/c2po/map.py", "compiler/c2po/trace.py", "compiler/c2po/r2u2.py"],
     [("generate_map, parse_map", "compiler/c2po/map.py"), ("generate_trace, parse_trace", "compiler/c2po/trace.py"), ("run_r2u2", "compiler/c2po/r2u2.py")],
     ["files and stdout of the session; stdout of the monitor"],
     PBT + "of sessions: generated files are parsed back and evaluated by a reference model",
     "Random search; short traces.",
     "The reference model evaluates the program on the columns read back from the generated trace; the same trace is run again through binaries compiled with --trace and with --map.")

prop("P20", "Monitors are independent and loading resets them",
     "Each monitor instance of the C library reports, after every load of a specification, exactly the verdicts of that specification on the inputs it received since, whatever was loaded and run in it before and whatever other instances do in between; the loading functions for bool, int, float and string values agree, "
     "and a signal that is not loaded again keeps its value.",
     ["histories", "inputs", "programs"], "all histories of loads, resets, inputs and steps over any number of instances and specifications",
     "The library test loads one specification once and steps one monitor; stale queue, temporal-block or booleanizer state shows up only after particular histories.",
     ["monitors/c/src/lib.c", "monitors/c/src/memory/monitor.c", "monitors/c/src/memory/monitor.h", "monitors/c/src/engines/mltl.c", "monitors/c/src/internals/process_binary.c"],
     [("r2u2_load_specification", "monitors/c/src/lib.c"), ("resets", "monitors/c/src/memory/monitor.c"), ("queue configuration on load", "monitors/c/src/engines/mltl.c")],
     ["output callback and return codes of the library"],
     PBT + "of operation histories against a reference model of each run, under AddressSanitizer",
     "Random search; up to three instances, seven loads or input bursts, three specifications.",
     "Generator: histories over three monitors, executed one operation after the other or interleaved step by step; inputs go through randomly chosen loading functions, some only when they change. Oracle: reference semantics per load.")

prop("P21", "No input makes the monitor misbehave",
     "For every compiled specification and every input file, well formed or not, the command-line monitor terminates without invalid memory access or undefined behaviour other than arithmetic the specification itself asks for, prints only well-formed verdict and contract lines, and whatever follows in the input does not change what it printed for the valid rows before.",
     ["inputs", "programs", "faults"], "all specifications of the language without division; all byte sequences as traces",
     "Tests use well-formed traces of moderate values only.",
     ["monitors/c/src/cli/csv_trace.c", "monitors/c/src/cli/main.c", "monitors/c/src/lib.c", "monitors/c/src/engines/booleanizer.c", "monitors/c/src/engines/mltl.c", "monitors/c/src/memory/shared_connection_queue.c", "monitors/c/src/internals/process_binary.c"],
     [("CSV reader", "monitors/c/src/cli/csv_trace.c"), ("static tables", "monitors/c/src/memory/monitor.h")],
     ["exit code, stdout and sanitizer reports of the monitor"],
     "fuzzing (generated programs, mutated traces) under AddressSanitizer and UndefinedBehaviorSanitizer, with output-shape and prefix invariants",
     "Random search; arithmetic overflow, shifts and division by zero are the specification's (the manual requires constant divisors) and not reported.",
     "Part values drives extreme and special numbers through generated programs; part garbage damages the rows after a valid prefix: missing, surplus and malformed cells, over-long lines, arbitrary bytes, odd event times.")

prop("P10", "Written representations mean the same program",
     "At every point of the compilation pipeline and after any sequence of transformations, write_c2po gives a file that C2PO reads back to the same verdicts (once desugared, programs with counting aggregations or enumerators excepted, which have no text there); "
     "write_mltl gives an MLTL-STD file with the same verdicts on the same input vector; write_prefix gives formulas of the same meaning; write_pickle gives the program itself.",
     ["programs", "histories", "inputs"], "all programs of the language and all sequences of transformation commands; all traces",
     "The test suite compares a few files with stored text; nothing reads written files back.",
     ["compiler/c2po/serialize.py", "compiler/c2po/cpt.py", "compiler/c2po/parse_c2po.py", "compiler/c2po/parse_mltl.py"],
     [("to_infix_str, to_prefix_str, to_mltl_std", "compiler/c2po/cpt.py"), ("write commands", "compiler/c2po/serialize.py")],
     ["files written by write_c2po, write_mltl, write_prefix, write_pickle; stdout of the monitor of the file read back"],
     PBT + "of programs and transformation sequences: round trip against a reference model of the original program",
     "Random search; MLTL-STD and prefix output over boolean inputs without the booleanizer.",
     "Part c2po writes full-language programs after a random prefix of the pipeline or a random sequence of transformations, reads them back, optionally writes them again, compiles and compares with the reference elaboration of the original. Part other parses prefix text with lib/logic.py, unpickles in a fresh process, and runs the MLTL-STD file on the unchanged trace.")

prop("P11", "MLTL-STD files are monitored as written",
     "An MLTL-STD file (one formula per line over a0, a1, ..) yields, for each line and in that order, verdicts that are correct and complete for the formula, where a<N> is column N of the input unless a trace header or map names it; M stands for the mission time given on the command line or to the command. "
     "Files that mix tenses, use M without mission time, contain characters or tokens outside the format, or give reversed intervals are refused with a message and no binary.",
     ["programs", "inputs", "configurations"], "all MLTL-STD files of either tense, all traces, with and without the booleanizer and every optimisation switch",
     "Few stored .mltl files with consecutive atoms; the atom-to-column mapping and operator precedence depend on the file.",
     ["compiler/c2po/parse_mltl.py", "compiler/c2po/main.py", "compiler/c2po/cpt.py"],
     [("MLTLLexer, MLTLParser", "compiler/c2po/parse_mltl.py")],
     ["stdout of the monitor, exit code and messages of the compiler"],
     PBT + "of formulas printed as MLTL-STD with minimal parentheses against a reference model, end to end; negative cases",
     "Random search; atoms up to a105. Comment lines only on lines of their own; blank lines are no part of the documented format.",
     "Part formulas evaluates the generated tree, not the text. Part refused mutates files and decides with its own recursive-descent recogniser which are still formulas.")

prop("P23", "Text is read as the grammar says",
     "Operators of .c2po files bind as declared (-> xor <->; ||; &&; U R S T; G F H O; | ; ^ ; &; == !=; > < >= <=; + -; * / % pow; unary ! ~ -; from loosest to tightest, binary ones to the left), so a formula printed with only the parentheses its tree needs has the verdicts of the tree; "
     "the spelling of operators, blanks, line breaks, comments and redundant parentheses make no difference, M is the mission time, and every identifier that is no keyword can name an input.",
     ["programs", "inputs"], "all formulas and expressions, all layouts",
     "Stored specifications parenthesise most of their formulas; each pair of neighbouring operators is a case of its own.",
     ["compiler/c2po/parse_c2po.py"],
     [("C2POLexer, C2POParser.precedence", "compiler/c2po/parse_c2po.py")],
     ["stdout of the monitor"],
     PBT + "of expression trees printed with minimal parentheses and random layout, against a reference model on the tree",
     "Random search; the shift operators are left out (the type checker refuses them).",
     "lib/syntax.py prints trees; lib/logic.py and lib/bz.py evaluate the trees; end to end through the monitor.")

prop("P16", "Satisfiability results are those of an exhaustive search",
     "For every future-time specification and each of the encodings uflia, qf_uflia and qf_bv, check_sat (and the problems written by write_smt_encoding) answers sat for a formula, and for the conjunction of all formulas, exactly if some trace of the formula's computation length satisfies it, and with --strict exactly if some trace of any length does; "
     "this holds for formulas over Boolean and integer inputs of any name and counting aggregations of Booleans, after any equivalence-preserving pass, and operators that an encoding supports are not refused.",
     ["programs", "configurations", "inputs"], "all future-time formulas; all encodings; strict or not",
     "The tests solve some thirty formulas; the encodings agree with the semantics only per operator, interval, number of operands and trace length.",
     ["compiler/c2po/sat.py", "compiler/c2po/cpt.py"],
     [("encodings", "compiler/c2po/sat.py"), ("decomposition of intervals", "compiler/c2po/cpt.py")],
     ["stdout and warnings of check_sat; files of write_smt_encoding"],
     PBT + "against exhaustive evaluation over all traces of the computation length (bit-parallel truth tables)",
     "Random search; at most 2^20 traces per formula, intervals up to 9, up to three atoms. 'unknown' and time-outs of the solver are accepted. Under --strict, formulas are judged only where the two usual readings of short traces agree.",
     "Generator: formulas of the shape x and not y where y is something x nearly implies, few-atom conjunctions, random formulas; integer comparisons with small constants (jointly possible truth values found by trying all small integers), also with the integers pinned to values, and counting aggregations; part pinned fixes all inputs to those of a random trace, so that exactly one of the formula and its negation is satisfiable. Oracle: lib/tt.py evaluates the formula on all traces at once.")

prop("P17", "Equivalence results are those of an exhaustive search",
     "check_equiv (and the problems written by write_equiv_smt_encoding) answers equiv exactly if neighbouring formulas agree on every trace of sufficient length, under each encoding; for .equiv files with symbolic interval bounds, constraints (operators binding as in C) and mission time it answers equiv exactly if they agree for all bounds that satisfy the constraints.",
     ["programs", "configurations", "inputs"], "all chains of future-time formulas; all symbolic bounds and constraints; all encodings",
     "The tests have four .equiv files; a wrong bound or trace length shows only in formulas that differ at that point.",
     ["compiler/c2po/sat.py", "compiler/c2po/parse_equiv.py"],
     [("equivalence checking", "compiler/c2po/sat.py"), (".equiv files", "compiler/c2po/parse_equiv.py")],
     ["stdout of check_equiv; files of write_equiv_smt_encoding"],
     PBT + "against exhaustive evaluation over all traces and all bounds",
     "Random search; symbolic bounds are tried from 0 to 3, equiv is required only where the constraints bound them. 'unknown' and time-outs of the solver are accepted. Division of bounds is not generated.",
     "Generator: a formula, rewritten by valid equivalences, half of the time with one small change (operator, bound, order of operands); files fully parenthesised or with the parentheses their precedence needs. Oracle: lib/tt.py on every instance of the bounds.")
