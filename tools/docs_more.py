CMP = ["compiler/c2po/parse_c2po.py", "compiler/c2po/parse_mltl.py", "compiler/c2po/type_check.py", "compiler/c2po/desugar.py", "compiler/c2po/cpt.py", "compiler/c2po/main.py"]
prop("C01", "Every surface form of a specification means its plain expansion",
     "A specification written with definitions, structures, arrays and slices, enumerations, set aggregations and counts, mission time, short intervals, references to named formulas, minimal parentheses, alternative spellings, comments or split sections is accepted and monitored exactly as its fully written-out form. The same holds for the MLTL-standard input format.",
     ["programs", "inputs", "histories", "configurations"], "all specifications built from those forms over future and past logic, with any compile options, and all histories",
     "Tests compile one small specification per form; what breaks is combinations - a form used twice, in sections of both times, inside another form, or with an optimisation - and shows only as wrong verdicts on some history.",
     CMP + ["compiler/c2po/rewrite.py", "compiler/c2po/assemble.py", "compiler/c2po/scq.py"],
     [("desugaring passes", "compiler/c2po/desugar.py"), ("grammars and precedences", "compiler/c2po/parse_c2po.py, compiler/c2po/parse_mltl.py"), ("type checking and symbol tables", "compiler/c2po/type_check.py")],
     "exploration", EXPL)
prop("C02", "Passes in any order and number preserve verdicts and deliver their form",
     "Optimisation, simplification and normal-form passes, applied in any order and any number of times, never change what a specification's monitor reports at any time. After conversion to negative or Boolean normal form the program has that form. No pass fails on a specification that was accepted before it.",
     ["programs", "inputs", "histories", "configurations"], "all accepted specifications, all sequences of passes with repetitions, and all histories of signal values",
     "Tests fix the printed result of each pass alone on a few formulas; whether verdicts survive a pass applied after another one, on shared subformulas, both times and all histories cannot be sampled.",
     CMP + ["compiler/c2po/rewrite.py", "compiler/c2po/transform.py", "compiler/c2po/cse.py", "compiler/c2po/scq.py", "compiler/c2po/atomics.py"],
     [("rewriting", "compiler/c2po/rewrite.py"), ("normal forms and operator removal", "compiler/c2po/transform.py"), ("common subexpressions", "compiler/c2po/cse.py"), ("queue sizes", "compiler/c2po/scq.py")],
     "exploration", EXPL)
prop("C03", "What is compiled depends only on the inputs and options",
     "The same specification, map and options give the same binary, printed forms and messages in every process, whatever was compiled before in the same session, whichever directory it runs in, and whatever order the runtime enumerates sets and dictionaries in. Commands that failed earlier in the session leave no trace in later results.",
     ["histories", "schedules", "configurations"], "all earlier session histories (including failed commands), hash seeds, working directories and specifications",
     "Every test starts a fresh process for one compilation with one hash seed; leaked state shows only after particular earlier commands and order dependence only under other seeds.",
     CMP + ["compiler/c2po/command.py", "compiler/c2po/main.py", "compiler/c2po/cpt.py"],
     [("context reset on parse", "compiler/c2po/cpt.py:Context.clear"), ("console state", "compiler/c2po/main.py:CommandConsole"), ("class-level and module-level state", "compiler/c2po/types.py, compiler/c2po/log.py, compiler/c2po/cpt.py")],
     "exploration", EXPL)
prop("C04", "Popping a saved state restores exactly what was saved",
     "After a push, any commands and a pop, every later command behaves as if the commands in between had never been given, with saves nested or repeated to any depth. Saving itself changes nothing, and popping without a save is reported and harmless.",
     ["histories"], "all command histories with any nesting of saves and restores, failed commands included",
     "The one test pushes once around two commands; sharing between the saved and the live state shows only when a pass changes a shared expression in place, at any depth and position.",
     CMP + ["compiler/c2po/main.py", "compiler/c2po/cpt.py"],
     [("state stack", "compiler/c2po/main.py:CommandConsole.push_state, pop_state"), ("copying of programs and contexts", "compiler/c2po/cpt.py:deepcopy_program_with_context")],
     "exploration", EXPL)
prop("C05", "Any command order: failures are reported, successes are right",
     "In a session any command may come at any time, fail, be repeated or meet broken, missing or unwritable files: every failure has a message and a non-success status, none ends the session, hangs or is an internal error, and no command reports an error yet succeeds. Every specification that is assembled on the way, under the options and signal mapping then in force, is monitored according to its meaning. A script's exit status is zero exactly if all its commands succeeded.",
     ["histories", "fault_sequences", "inputs"], "all command histories over valid, torn, ill-typed and missing files and unwritable targets, with option changes, saves and restores in between",
     "Tests run each command once at its proper place; premature, repeated or re-ordered commands and half-failed state are where wrong binaries are assembled without a message.",
     CMP + ["compiler/c2po/main.py", "compiler/c2po/command.py", "compiler/c2po/assemble.py", "compiler/c2po/map.py", "compiler/c2po/parse_c2po.py", "compiler/c2po/serialize.py"],
     [("guards between commands", "compiler/c2po/command.py:check_guards"), ("console and scripts", "compiler/c2po/main.py:CommandConsole.runsource, script"), ("assembly", "compiler/c2po/assemble.py:assemble")],
     "exploration", EXPL)
prop("R10", "A torn, too large or unsupported specification is never monitored in part",
     "A specification file that was cut off at any byte, that needs more storage than the monitor was built with, or that uses an operator the monitor does not implement is refused or reported with a non-success status and a message; it is never monitored in part as if nothing were wrong. A refused specification leaves nothing behind in the monitor. One that fits exactly is not refused.",
     ["inputs", "fault_sequences", "configurations"], "all specifications, all truncation points of the file, all storage limits below or at the need, all operators of the language",
     "Tests only load whole binaries into a monitor with room; what a truncated or over-sized one does depends on the bytes at the cut and on what lies behind the arrays.",
     ["monitors/c/src/internals/process_binary.c", "monitors/c/src/lib.c", "monitors/c/src/cli/main.c", "monitors/c/src/engines/engines.c", "monitors/c/src/engines/mltl.c", "monitors/c/src/engines/booleanizer.c"],
     [("loading", "monitors/c/src/internals/process_binary.c:r2u2_process_binary"), ("program", "monitors/c/src/cli/main.c:main"), ("step status", "monitors/c/src/engines/engines.c:r2u2_engine_step"), ("writing the binary", "compiler/c2po/assemble.py:assemble")],
     "fault_enumeration", EXPL)
prop("C06", "A specification written out at any stage reads back with the same meaning",
     "The C2PO text written after parsing, checking, desugaring or any pass, and the MLTL-standard text of a specification the standard can express, is read back without complaint and yields a monitor with the same verdicts, names and contract statuses as the original. The same holds when this is repeated, and when the target held other or longer text before or is the file the specification came from.",
     ["programs", "histories", "inputs"], "all specifications, all stages at which they can be written, any number of times over, and all histories of signal values",
     "Tests compare the written text of a few specifications with a stored file; whether text denotes the same specification for every nesting of operators, literal and stage shows only on reading it back and monitoring.",
     CMP + ["compiler/c2po/serialize.py"],
     [("text of expressions", "compiler/c2po/cpt.py:to_infix_str, to_mltl_std"), ("writers", "compiler/c2po/serialize.py"), ("readers", "compiler/c2po/parse_c2po.py, compiler/c2po/parse_mltl.py")],
     "exploration", EXPL)
prop("C08", "Every signal reads the column its map or trace header names; made ones fit",
     "Each scalar or array element a specification uses is monitored on exactly the trace column its map line, array range or header cell names, whatever other names and columns occur and in whatever order. A generated map names every signal once, in order of declaration, and a generated trace has the columns, rows, kinds and ranges asked for, the same for the same seed. A map or header that lacks a used signal, is malformed or was torn is refused.",
     ["inputs", "configurations", "fault_sequences"], "all specifications over scalar and array inputs, all maps and headers for them (complete, partial, torn), all traces",
     "Tests use a handful of fixed maps with single-digit columns; a wrong column is silent and shows only in verdicts over a trace whose columns differ.",
     CMP + ["compiler/c2po/map.py", "compiler/c2po/trace.py", "compiler/c2po/assemble.py", "monitors/c/src/cli/main.c", "monitors/c/src/cli/csv_trace.c"],
     [("map reader and generator", "compiler/c2po/map.py"), ("trace header and generator", "compiler/c2po/trace.py"), ("array elements as signals", "compiler/c2po/type_check.py, compiler/c2po/desugar.py"), ("loading of signals by column", "monitors/c/src/cli")],
     "exploration", EXPL)
prop("C07", "Failing disk: a success is complete, a failure is reported and can be retried",
     "When reading or writing any file fails at any point - cannot be opened, out of space, cut short, corrupted, failing at close - the command that needed it fails with a message and a non-success status, and the same command succeeds once the disk works again. A command that reports success has left its output complete and correct. A compilation interrupted at any byte and started again produces the same files as an undisturbed one.",
     ["fault_sequences", "histories", "inputs"], "all disk operations of all commands, scripts and command lines, all fault kinds at all positions, repeated faults, and crashes between any two bytes",
     "The tests never see a disk error; what a half-written or unreadable file does depends on the operation that fails and on the state the failed command leaves in the session.",
     CMP + ["compiler/c2po/serialize.py", "compiler/c2po/command.py", "compiler/c2po/util.py", "compiler/c2po/map.py", "compiler/c2po/trace.py", "compiler/c2po/assemble.py", "compiler/c2po/sat.py"],
     [("errors of commands", "compiler/c2po/command.py:Command.execute"), ("writers", "compiler/c2po/serialize.py, compiler/c2po/sat.py, compiler/c2po/map.py, compiler/c2po/trace.py"), ("readers", "compiler/c2po/parse_c2po.py, compiler/c2po/map.py, compiler/c2po/main.py"), ("command line", "compiler/c2po/main.py")],
     "exploration", EXPL)
SMT = ["compiler/c2po/sat.py", "compiler/c2po/util.py", "compiler/c2po/command.py", "compiler/c2po/main.py"]
prop("S01", "Satisfiability and equivalence answers are true, whatever the solver does",
     "When the compiler reports formulas satisfiable, unsatisfiable, equivalent or not equivalent, that is what they are, and the problems it writes out for a solver have the answers of the formulas they stand for. A solver that is missing, cannot be started, fails, hangs, is killed, runs out of memory or prints something else leads to a report and never to an answer; what could not be decided is said to be unknown. The session, its files and later answers are unaffected, and no process is left behind.",
     ["programs", "fault_sequences", "configurations", "histories"], "all future-time specifications over Booleans and integers, all theories, solvers and options, all behaviours of the solver process and failures to start it",
     "The tests check a few fixed formulas with a healthy solver, and none is installed where they run; a wrong encoding shows only on a formula whose answer depends on the slip, and a wrong reading of a solver only when it misbehaves.",
     CMP[:2] + SMT, [("encodings", "compiler/c2po/sat.py:to_uflia_smtlib2, to_qf_uflia_smtlib2, to_qf_bv_smtlib2"), ("solver runs", "compiler/c2po/sat.py:run_smt_solver"), ("equivalence", "compiler/c2po/sat.py:check_equiv"), ("processes", "compiler/c2po/util.py")],
     "exploration", EXPL, technique="deterministic simulation of the solver process with fault injection, judged by an independent encoding and a reference evaluator")
prop("S02", "An equivalence of two patterns is reported only if every instance holds",
     "For two formula patterns with symbolic interval bounds and side conditions, the answer equivalent means that every choice of bounds allowed by the conditions and every trace gives both the same value, and not equivalent means that some choice does not; the written problem says the same. Malformed patterns, missing or misbehaving solvers and failing disks are reported with an error and never as an answer. A later query in the session is not affected.",
     ["programs", "fault_sequences", "inputs"], "all pairs of patterns over temporal and propositional operators with symbolic bounds and conditions, all behaviours of the solver process and of the disk",
     "The tests never ask an equivalence of patterns; a slip in an encoding makes a false rewrite law pass, or a true one fail, only for patterns whose instances tell the difference.",
     SMT + ["compiler/c2po/parse_equiv.py"], [("pattern language", "compiler/c2po/parse_equiv.py"), ("encoding of patterns", "compiler/c2po/sat.py"), ("command", "compiler/c2po/command.py")],
     "exploration", EXPL, technique="deterministic simulation of the solver process with fault injection, judged by enumerated instances and a reference evaluator")
prop("S03", "Equality saturation preserves verdicts, whatever the external tool does",
     "A specification optimised by equality saturation is monitored exactly as before, for every choice of rewrites the external tool may make with the rules it is given. A tool that is missing, cannot be started, fails, hangs, is killed or prints damaged or wrong results is reported, and the specification is left as it was; with validation on, a result that is not equivalent is refused. The result of the command and the exit status of the command line say whether this happened.",
     ["programs", "fault_sequences", "histories", "schedules"], "all specifications the tool's language can express, all orders and places of rule applications, all behaviours of the tool and of the validating solver, failing disks",
     "The tool is not installed where the tests run; a rule that is wrong for one relation of two intervals, or a result that is read back wrongly, shows only as a wrong verdict after that rule was applied.",
     ["compiler/c2po/eqsat.py", "compiler/c2po/egraph.py", "compiler/c2po/parse_egglog_output.py", "compiler/c2po/egglog", "compiler/c2po/command.py", "compiler/c2po/main.py"],
     [("encoding and runs of the tool", "compiler/c2po/eqsat.py"), ("rules", "compiler/c2po/egglog"), ("reading the result", "compiler/c2po/parse_egglog_output.py"), ("options", "compiler/c2po/main.py")],
     "exploration", EXPL, technique="deterministic simulation of the rewriting tool (an interpreter of the emitted rules that rewrites at random) with fault injection, judged by the reference model")
prop("G01", "Generated (Sabre) C programs report the formula's value at every time",
     "The C program generated for a future-time formula over propositional signals (generate_sabre_code) compiles, and prints, word by word, exactly the formula's value at every time step of every trace it reads, as soon as the worst-case delay counted in words has passed, for every word size and input mode and however its input arrives. It touches no storage but its own. A formula with operators, signal names or columns that the generator does not support is refused with a message, and no file is written.",
     ["programs", "inputs", "configurations", "schedules"], "all future-time propositional formulas and intervals, all word sizes, input modes and passes before generation, all traces of whole words, all ways the input is cut into pieces",
     "No test generates code; a slip in the word-wise shifts shows only for intervals in a particular relation to word boundaries and powers of two, and only on compiling and running the result.",
     ["compiler/c2po/sabre.py", "compiler/c2po/command.py"],
     [("generator", "compiler/c2po/sabre.py:gen_code"), ("command", "compiler/c2po/sabre.py:generate_sabre_code")],
     "exploration", EXPL, technique="deterministic simulation of the generated program's input stream, judged bit by bit by the reference model")
