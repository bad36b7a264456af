FIX += [
 ("the mission time given by option", ["C01"], "the mission time never reaches the MLTL parser (every file using it is rejected); parse_c2po's own option is ignored"),
 ("a set aggregation over a single element", ["C01"], "an aggregation over one element assembles a one-operand && or ||: wrong verdicts or a crash of the monitor at load"),
 ("an expression shared by future-time and past-time", ["C01"], "a definition or enumeration member used in both FTSPEC and PTSPEC is assembled twice with clashing ids and no queue: wrong verdicts or a crash at load"),
 ("time of a definition is checked", ["C01"], "a future-time definition before any section is rejected; a past-time definition used in FTSPEC escapes the mixed-time check"),
 ("propagation delays follow", ["C01"], "delays are not recomputed when a definition is expanded: queues too small, verdicts wrong or missing"),
 ("rewrites of binary && and ||", ["C01"], "optimize_rewrites drops the third and later operands of an aggregation over G or F"),
]
FIX += [
 ("enumerations of an earlier check", ["C02", "C03"], "checking types twice rejects every enumeration as already in use; enumerations of an earlier program stay"),
 ("to_bnf must also remove equivalences", ["C02"], "<-> is left in the Boolean normal form"),
 ("to_nnf must also convert what a double negation", ["C02"], "below !!p nothing is converted: negations and implications stay in the negative normal form"),
 ("push and pop must not lose", ["C04"], "pop brings back a state that shares expressions with the discarded one, without queue sizes, atomics or contracts"),
 ("the parser must not hang", ["C05"], "a specification that ends inside an enumeration makes the compiler loop forever"),
 ("report failing files and processes", ["C05"], "an output file that cannot be written is an internal error with a traceback"),
 ("print_stats must work without", ["C05"], "print_stats before any specification is an internal error"),
 ("a program with unresolved variables", ["C05"], "assembling before definitions are expanded is an internal error instead of a failed guard"),
 ("changing the booleanizer setting", ["C05"], "turning the booleanizer on or off after type checking assembles a specification that yields wrong verdicts"),
 ("a failed parse must leave", ["C05"], "after a failed parse the old program stays without its definitions: internal errors"),
 ("refuse comparisons that need", ["C05"], "without the booleanizer a comparison of constants is assembled in part: verdicts missing"),
]
FIX += [
 ("a traversal must not mistake", ["C03"], "a pass skips an expression whose id was that of a freed one: the optimised specification depends on memory addresses"),
]
FIX += [
 ("an instruction that cannot be evaluated", ["R10"], "instructions the monitor does not implement are ignored: verdicts missing, status and exit code 0"),
 ("refuse a specification that exceeds the bounds", ["R10"], "a specification over the monitor's limits is loaded past the end of its arrays"),
 ("refuse a specification file that is not complete", ["R10"], "a torn specification file is monitored in part, exit code 0, or read past its end"),
]
FIX += [
 ("write C2PO text that C2PO can read", ["C06"], "enumeration definitions, counting aggregations, abs/sqrt and small floats are written in a form the parser rejects or reads as something else"),
 ("write exclusive or in terms the MLTL", ["C06"], "the MLTL text of an exclusive or is not MLTL"),
 ("an array slice past the end", ["C05", "C08"], "a slice that ends past its array is reported but the command succeeds and a wrong specification is assembled"),
 ("map lines of arrays with indices of two", ["C08"], "a map line whose array index has two digits is rejected"),
 ("generate a map for programs with input arrays", ["C08"], "generate_map fails or leaves out the elements of input arrays"),
 ("report a trace header that lacks or repeats", ["C08"], "a header without a used signal is an internal error; a repeated name is bound silently"),
 ("generate a trace that fits the signal mapping", ["C08"], "generated traces put values in other columns than the mapping says, leave arrays out, and print floats the monitor cannot read"),
 ("compare arrays of a single element", ["C08"], "comparing two one-element arrays assembles an && with one operand: wrong verdicts"),
]
FIX += [
 ("report operators Sabre does not support", ["C07", "C05"], "generate_sabre_code on an operator it does not know is an internal error"),
 ("report an input file that is not text", ["C07"], "a corrupted input file is an internal error with a traceback"),
 ("atomics are not computed while the booleanizer", ["C07"], "after compute_atomics in booleanizer mode the written MLTL text is an internal error"),
 ("report what the SMT encodings do not support", ["C07"], "an operator an SMT encoding lacks is an internal error, and the output file is left empty"),
 ("encode unary minus in QF_UFLIA", ["C07"], "unary minus in the QF_UFLIA encoding is an internal error"),
 ("report a start-up file that cannot be read", ["C07"], "an unreadable start-up file is ignored or ends the session with a traceback"),
 ("check the conditions a command's conditions depend on", ["C07"], "a command whose conditions have unmet conditions of their own runs half-way: an empty program overwrites its output file"),
]
FIX += [
 ("give QF_UFLIA traces the length", ["S01"], "an unsatisfiable formula longer than its first subformula is reported satisfiable, or the reverse: the trace is given a wrong length"),
 ("take the length of every operand", ["S01"], "only the first operand counts for the length of the trace: satisfiable formulas are reported unsatisfiable"),
 ("require a future step to exist", ["S01"], "a future step beyond the end of the trace counts as true or arbitrary: unsatisfiable formulas are reported satisfiable"),
 ("encode every operand of sums", ["S01"], "a + b + c is encoded as a + b"),
 ("let the SMT encodings divide", ["S01"], "division and remainder of negative numbers are encoded with another rounding than the monitor's"),
 ("use the SMT solver that was set", ["S01", "S02"], "a solver set with set_smt_solver_path is not used"),
 ("reject executables that cannot run", ["S01", "S02", "S03"], "an executable that cannot be run or never answers ends the session or hangs it"),
 ("report an SMT solver that cannot be started", ["S01", "S02"], "a solver that cannot be started is an internal error; one that times out is left running"),
 ("take only an answer for an answer", ["S01", "S02"], "garbage, error messages and partial output of a solver are taken for an answer"),
 ("do not call formulas equivalent", ["S01"], "formulas with operators the encoding lacks are reported equivalent"),
 ("keep the old file when there is no equivalence", ["S01"], "write_equiv_smt_encoding with nothing to compare empties the target"),
 ("keep the names of signals and subformulas apart", ["S01"], "a signal named like a generated subformula changes the answer"),
 ("multiply before adding", ["S02"], "2*a+b in a condition on bounds is read as 2*(a+b)"),
 ("read an equality saturation result without", ["S03"], "reading the result for one formula changes others that share a subformula"),
 ("report an egglog that cannot be started", ["S03"], "a tool that cannot be started is an internal error; one that times out is left running"),
 ("report egglog output that cannot be read", ["S03"], "damaged output of the tool is an internal error"),
 ("fail if any result of equality saturation", ["S03"], "only the last formula's validation decides the status of the command"),
 ("reject egglog output with illegal characters", ["S03"], "output with illegal characters is read as a different formula"),
 ("fail after a result that is not equivalent", ["S03"], "a later run that times out hides a result that is not equivalent"),
 ("do not put the result of equality saturation", ["S03"], "a formula whose result contains itself makes the compiler loop or fail"),
 ("let the command line's --eqsat", ["S03"], "the command line options for equality saturation end in an internal error or are ignored"),
 ("use the executable given with optimize_eqsat", ["S03"], "--egglog-bin is ignored"),
]
FIX += [
 ("let equivalence problems use propositions", ["S02"], "a pattern with a proposition (p0, p1, ...) can be read but not checked"),
 ("share the operands of maxima", ["S01"], "the encoding doubles with every operand: checking a few dozen formulas does not end"),
 ("compute constants and equivalences for every bit of a Sabre word", ["G01"], "a constant or an equivalence in generated code sets the last bit of a word only"),
 ("shift Sabre buffers by more than a word", ["G01"], "intervals longer than a word are shifted by more than its width, and storage behind the buffer is read"),
 ("look only as far as the interval in Sabre's until", ["G01"], "an until with a lower bound looks beyond its upper bound"),
 ("read whole words in Sabre's raw bytes mode", ["G01"], "a word that arrives in two pieces ends the generated program silently"),
 ("read as many signals as the Sabre formula's columns need", ["G01"], "the number of columns is that of the program's signal nodes; other signal names are an internal error, too few columns are read from behind the array"),
 ("write Sabre code into a directory", ["G01"], "a directory as output is documented and fails"),
]
