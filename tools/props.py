"""Source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
CG, CP, CL, CA, DAG, TA, PA, PS, HI, IR = ("constraint_generation/src/", "code_producers/src/", "constraint_list/src/", "circom_algebra/src/",
    "dag/src/", "type_analysis/src/", "parser/src/", "program_structure/src/", "compiler/src/hir/", "compiler/src/intermediate_representation/")
TESTS = "The stable tests are eleven unit tests of field arithmetic, memory slices and code printing; none compiles a circuit. "
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=TESTS + why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=None)))


p("P01", "Operators mean the same everywhere",
  "Every arithmetic, bitwise, shift, relational and boolean operator of the language has the documented value over the chosen prime field, whatever internal representation its operands have. The value is the same in constant expressions folded by the compiler, in the WASM witness program and in the C++ witness program, with and without assembly, for every supported prime.",
  ["inputs", "configurations"], "all operators, all pairs of field elements, all eight primes, all evaluation back ends",
  "They sample a handful of constant evaluations of one prime and never run generated code.",
  [CA + "modular_arithmetic.rs", CP + "c_elements", CP + "wasm_elements", "compiler/src/hir/sugar_cleaner.rs"],
  [("constant folding", CA + "modular_arithmetic.rs"), ("field library in C++ and assembly", CP + "c_elements/<prime>/fr.*"), ("field library in WASM", CP + "wasm_elements/<prime>/fr-code.wat")],
  ["constants in the emitted constraints", "witness values computed by the WASM and C++ programs"])
p("P02", "The witness is what the program says",
  "For every program the documentation allows and every input for which it defines a result, the compiler accepts the program and the generated WASM witness program gives every signal exactly the value the program's statements define. This covers control flow, variables, arrays, functions, components, buses and parameters, at every optimisation level and prime.",
  ["programs", "inputs", "configurations"], "every well-formed program, input assignment, prime and optimisation level",
  "Whole programs are not exercised at all.",
  [CG + "execute.rs", HI, IR, CP + "wasm_elements/wasm_code_generator.rs"],
  [("symbolic execution", CG + "execute.rs"), ("lowering to buckets", IR + "translate.rs"), ("WASM code generation", IR)],
  ["signal values read from the WASM witness through the symbol file"])
p("P03", "Every computed witness satisfies the emitted constraints",
  "Whenever a generated witness program, WASM or C++, accepts an input and outputs a witness, the witness has one entry per wire of the constraint system compiled with it, entry zero is one, and all the emitted constraints hold, provided every `<--` assignment agrees with the constraints stated for it. This holds at every optimisation level, prime and flag combination.",
  ["programs", "inputs", "configurations"], "every accepted (program, flags, input)",
  "No test evaluates constraints on witnesses.",
  [CL, CA + "simplification_utils.rs", "constraint_writers/src/r1cs_writer.rs", HI, IR],
  [("simplification substitutions", CL + "constraint_simplification.rs"), ("witness list", DAG + "witness_producer.rs"), ("wire relabelling", CL + "lib.rs")],
  ["r1cs file", "witness file", "substitution export"])
p("P04", "Unoptimised constraints are exactly the source's",
  "With simplification off, the emitted constraint system contains one rank-one constraint for each `===` and `<==` the program executes for its parameters, with exactly the stated polynomial up to a scalar factor, and nothing else; only constraints whose polynomial is identically zero may be left out. `<--` and variable assignments, logs and asserts contribute no constraint, and no constraint is lost or duplicated whatever loops, calls, components or arrays it comes through.",
  ["programs", "configurations"], "every program, prime",
  "No constraint system is produced by the tests.",
  [CG + "execute.rs", CG + "assignment_utils.rs", CA + "algebra.rs", DAG],
  [("constraint emission", CG + "execute.rs"), ("algebra of quadratic forms", CA + "algebra.rs"), ("dag and renumbering", DAG + "lib.rs")],
  ["r1cs and symbol files at --O0"])
p("P05", "Simplification preserves the solution set",
  "For every optimisation level, number of rounds and heuristic, the simplified constraint system admits exactly the assignments of the kept signals that extend to solutions of the unsimplified system: no constraint becomes weaker, none stronger, and contradictions stay contradictions. Public inputs and outputs of the main component are never eliminated.",
  ["programs", "configurations"], "every constraint system, optimisation level, rounds, heuristic and prime",
  "The two algebra tests touch one clearing step and no system is ever simplified.",
  [CL + "constraint_simplification.rs", CL + "non_linear_simplification.rs", CA + "simplification_utils.rs", CA + "algebra.rs", DAG + "map_to_constraint_list.rs", DAG + "constraint_correctness_analysis.rs"],
  [("clusters and linear elimination", CA + "simplification_utils.rs"), ("substitution application", CL + "constraint_simplification.rs")],
  ["r1cs and symbol files at --O0, --O1, --O2, --O2round n, --use_old_simplification_heuristics"])
p("P06", "The public interface of the circuit is what main declares",
  "The wires of a compiled circuit are the constant one, then all outputs of main, then its public inputs, then those private inputs that simplification kept (all of them with `--O0`), each in declaration order and flattened row by row, and the header counts say so; an input is public exactly when main's public list names it. This does not change with optimisation level, order of the public list, or any other flag.",
  ["programs", "configurations"], "every program, public list, flags",
  "No main component is ever compiled.",
  [DAG, CG + "execution_data", CL + "r1cs_porting.rs", CL + "state_utils.rs"],
  [("signal numbering", DAG + "lib.rs"), ("public inputs", CG + "execution_data/executed_template.rs")],
  ["r1cs header and wire map", "symbol file", "summary printed"])
p("P07", "Simplification reaches the documented normal form",
  "After `--O1` the only remaining constraints among those by which the program equates a signal with a signal or a constant are between public inputs and outputs of main and constants, or contradictory; after `--O2` no linear constraint is left in which a private signal occurs. `--O2round n` never gives more constraints with more rounds, and no level gives more constraints than a lower one.",
  ["programs", "configurations"], "every constraint system, level, rounds",
  "No system is simplified by the tests.",
  [CL + "constraint_simplification.rs", CA + "simplification_utils.rs", "circom/src/input_user.rs"],
  [("rounds", CL + "constraint_simplification.rs")], ["r1cs and symbol files"])
p("P08", "WASM and C++ witness programs agree",
  "For every program and input, the C++ witness program, with assembly or portable, and the WASM witness program reach the same outcome: both refuse, or both succeed with identical witness values and the same log output. Code generation flags that only affect how witness code is produced do not change it.",
  ["programs", "inputs", "configurations"], "every program, well-formed input, prime and code generation flag",
  "Neither generated program is ever run.",
  [CP + "c_elements", CP + "wasm_elements", IR],
  [("C++ generation", IR + "*_bucket.rs produce_c"), ("WASM generation", IR + "*_bucket.rs produce_wasm")],
  ["outcome, witness values and log lines of both programs"])
p("P09", "Violated constraints and assertions are refused",
  "A generated witness program refuses, without writing a witness, every input for which an `assert` of the program or a `===`/`<==` condition it checks is false, and accepts every input for which all of them hold. The sanity-check level chosen at compile time decides which of these checks are made and nothing else.",
  ["programs", "inputs", "configurations"], "every program, input, sanity-check level, back end",
  "No generated program is ever run.",
  [IR + "assert_bucket.rs", IR + "translate.rs", CP + "wasm_elements", CP + "c_elements"],
  [("assert buckets", IR + "assert_bucket.rs"), ("sanity check levels", "circom/src/input_user.rs")],
  ["exit status, error and witness file of both programs"])
p("P10", "Witness programs accept exactly the declared inputs",
  "A generated witness program accepts an input object exactly when it gives every input signal of main, with the declared number of values, and reads each value modulo the prime from decimal numbers or strings at its place in row-major order, buses by field. Missing inputs, too few or too many values and unknown names are refused without writing a witness.",
  ["programs", "inputs"], "every main interface, every JSON input object",
  "Input loading is never exercised.",
  [CP + "c_elements/common/main.cpp", CP + "c_elements/common64/main.cpp", CP + "c_elements/common/calcwit.cpp", CP + "wasm_elements/common/witness_calculator.js", "compiler/src/ir_processing/build_inputs_info.rs"],
  [("input hash map", CP + "c_elements/c_code_generator.rs"), ("input loading", CP + "wasm_elements/common/witness_calculator.js")],
  ["exit status, error and witness of both programs"])
p("P11", "Generated C++ has no memory error or undefined behaviour",
  "The C++ witness program generated for any accepted circuit builds with a standard compiler and runs, on accepted and on refused inputs, without out-of-bounds access, use after free, invalid free, uninitialised read that affects results, or undefined behaviour.",
  ["programs", "inputs", "configurations"], "every accepted program, input, prime, flags",
  "The one C++ test prints a data file; no C++ is compiled.",
  [CP + "c_elements", IR, "compiler/src/circuit_design"],
  [("arena and buffer sizes", "compiler/src/ir_processing/set_arena_size.rs"), ("data file", CP + "c_elements/c_code_generator.rs")],
  ["AddressSanitizer and UBSan reports of the generated program"])
p("P12", "Parallel witness generation is race free and equals sequential",
  "The C++ program generated for circuits with parallel templates or components runs without data races and without deadlock, and under every thread schedule gives the same outcome and witness as the same circuit with the parallel marks removed.",
  ["programs", "schedules", "inputs"], "every program with parallel marks, every schedule of the generated threads",
  "No generated program is ever run, let alone a parallel one.",
  [CP + "c_elements/common/calcwit.cpp", CP + "c_elements/c_code_generator.rs", IR + "create_component_bucket.rs", IR + "store_bucket.rs", IR + "load_bucket.rs"],
  [("thread start on last input", IR + "store_bucket.rs"), ("waiting for outputs", IR + "load_bucket.rs"), ("thread limits", CP + "c_elements/common/calcwit.cpp")],
  ["ThreadSanitizer reports", "exit status, witness"])
p("P13", "Log statements print what the program says",
  "Running a witness program prints one line for each executed `log` of values it computes, in the order in which the program executes them, with its strings as written (escapes decoded, empty strings left out) and its expressions as decimal numbers, separated by single spaces. The WASM and the C++ program print the same lines.",
  ["programs", "inputs"], "every program with log statements, every input",
  "No generated program is ever run.",
  [IR + "log_bucket.rs", CP + "wasm_elements/common/witness_calculator.js", PA + "lang.lalrpop"],
  [("log buckets", IR + "log_bucket.rs"), ("string table", "compiler/src/circuit_design/circuit.rs")], ["log lines of both programs"])
p("P14", "The r1cs file is well formed and matches the summary",
  "Every r1cs file follows the documented binary format to the byte: section sizes, header counts, reduced coefficients, wire indices in range, and a wire-to-label map without repetition. The counts the compiler prints are those of the file.",
  ["programs", "configurations"], "every accepted program and flag combination",
  "The writer is not exercised by the stable tests.",
  ["constraint_writers/src/r1cs_writer.rs", CL + "r1cs_porting.rs", DAG + "r1cs_porting.rs", "circom/src/execution_user.rs", CG + "lib.rs"],
  [("section writer", "constraint_writers/src/r1cs_writer.rs")], ["r1cs file", "standard output"])
p("P15", "The symbol file names every signal and its wire",
  "The symbol file lists every signal of the instantiated circuit exactly once under its qualified name, with labels numbered consecutively from one and the wire that carries it, or -1 exactly when no wire does. Wires in it agree with the wire-to-label map of the r1cs file, and signals of the same component instance carry the same component number, which only other instances of the same template with the same parameters may carry too.",
  ["programs", "configurations"], "every accepted program and flag combination",
  "No symbol file is written by the tests.",
  [CL + "sym_porting.rs", DAG + "sym_porting.rs", "constraint_writers/src/sym_writer.rs", DAG + "lib.rs"],
  [("sym porting", CL + "sym_porting.rs")], ["symbol file", "r1cs wire map"])
p("P16", "JSON exports describe the same system",
  "The JSON constraint export lists the same constraints, in the same order and with the same wires and coefficients, as the r1cs file. The substitution export defines substituted signals, each once, by linear combinations of signals that are not substituted; together with the simplified constraints it is equivalent to the unsimplified system, and it gives back the values of the substituted signals from a witness.",
  ["programs", "configurations"], "every accepted program and flag combination",
  "No JSON is written by the tests.",
  [CL + "json_porting.rs", DAG + "json_porting.rs", "constraint_writers/src/json_writer.rs", CL + "constraint_simplification.rs"],
  [("constraint export", "constraint_writers/src/json_writer.rs"), ("substitution log", CL + "constraint_simplification.rs")], ["constraint and substitution JSON files"])
p("P17", "Compilation is deterministic",
  "Compiling the same sources with the same flags always gives the same outcome and byte-identical artefacts, whatever the number of worker threads, their timing, hash seeds, working directory or output directory.",
  ["programs", "schedules", "configurations"], "every program and flags, every thread schedule and hash seed of the compiler",
  "Nothing is compiled twice.",
  [CL + "constraint_simplification.rs", CA + "simplification_utils.rs", CP, "compiler/src/circuit_design"],
  [("parallel cluster simplification", CL + "constraint_simplification.rs")], ["artefact bytes, exit status and messages over repeated runs"])
p("P18", "Each artefact is independent of what else is requested",
  "An artefact written for a program does not depend on which other artefacts are requested in the same run or on flags that only concern other artefacts, and the flags for circuit meaning (prime, optimisation) affect it the same way in every combination. Exactly the requested artefacts are written, under the input's base name in the requested directory.",
  ["programs", "configurations"], "every program, set of output flags, output directory",
  "The command line is never exercised.",
  ["circom/src", "compiler/src/compiler_interface.rs", CG + "lib.rs"],
  [("orchestration", "circom/src/main.rs"), ("paths", "circom/src/input_user.rs")], ["files written, their bytes"])
p("P19", "Any source text gets a clean verdict",
  "For every source text and flag combination whose compile-time evaluation is finite and fits in memory, the compiler terminates with a coherent verdict: it either succeeds with exit status zero, a success message and all requested artefacts, or fails with a nonzero status, at least one error message and no claim of success. It never crashes, and error locations name an existing file position.",
  ["programs", "configurations"], "every byte sequence as source, every flag combination",
  "The tests parse nothing.",
  [PA, TA, CG, "compiler/src", "circom/src"],
  [("error reporting", PS + "program_library/error_definition.rs"), ("parser", PA + "lang.lalrpop")], ["exit status, messages, files"])
p("P20", "Non-quadratic and unknown-dependent constraints are rejected",
  "A program is rejected if it states a constraint that is not of the form A*B+C with A, B, C linear in the signals, or if whether or where a constraint, signal, component, array size or template parameter exists depends on a value unknown at compile time. Constraints of that form and structures that depend only on parameters and constants are accepted.",
  ["programs"], "every program",
  "The checks are not exercised.",
  [CG + "execute.rs", CA + "algebra.rs", TA + "analyzers/unknown_known_analysis.rs"],
  [("unknown analysis", TA + "analyzers/unknown_known_analysis.rs"), ("quadratic algebra", CA + "algebra.rs")], ["exit status and messages"])
p("P21", "Signals are assigned exactly once and never as inputs from inside",
  "A program is rejected when a signal or part of one would be assigned twice, when a component's output or intermediate is assigned from outside, when a template assigns its own input, or when a signal or component input is read or a component used before it has its value. Programs that give every signal its value once in any allowed order are accepted.",
  ["programs"], "every program",
  "The checks are not exercised.",
  [CG + "execute.rs", CG + "environment_utils/component_representation.rs", CG + "environment_utils/bus_representation.rs", PS + "utils/memory_slice.rs"],
  [("assignment tracking", CG + "environment_utils"), ("unassigned inputs", CG + "environment_utils/component_representation.rs")], ["exit status and messages"])
p("P22", "Ill-typed and ill-scoped programs are rejected",
  "A program is rejected when it uses an undeclared or out-of-scope name, declares a name twice in a scope, calls with a wrong number of arguments, mixes up variables, signals, buses, components, templates and functions, uses an array where its number of dimensions does not fit or signals of different sizes (differing sizes of variable arrays only cause a warning), or misses a return in a function. The same program without the mistake is accepted.",
  ["programs"], "every program",
  "The checks are not exercised.",
  [TA + "analyzers", TA + "decorators", PS + "program_library"],
  [("symbol analysis", TA + "analyzers/symbol_analysis.rs"), ("type check", TA + "analyzers/type_check.rs")], ["exit status and messages"])
p("P23", "Expressions and literals are read as documented",
  "Source text is read with the documented operator precedence and associativity, decimal and hexadecimal literals of any length reduced modulo the prime, and comments and white space of any form ignored, so that a program and its fully parenthesised form mean the same. Unclosed comments and malformed literals are errors.",
  ["programs"], "every expression, literal, layout of white space and comments",
  "Nothing is parsed by the tests.",
  [PA + "lang.lalrpop", PA + "parser_logic.rs"], [("grammar", PA + "lang.lalrpop"), ("comment removal", PA + "parser_logic.rs")],
  ["constraints and witness of both texts", "exit status"])
p("P24", "Anonymous components and tuples mean their expansion",
  "A program using anonymous components, with positional or named inputs, tuples, underscores and nested uses, means the same as the one in which each anonymous component is declared by name, its inputs assigned one by one and its outputs read one by one: same constraints and same witness values.",
  ["programs", "inputs"], "every use of anonymous components and tuples",
  "Nothing is desugared by the tests.",
  [PA + "syntax_sugar_remover.rs", TA + "analyzers/type_check.rs"], [("sugar removal", PA + "syntax_sugar_remover.rs")], ["constraints, witness values, exit status of both forms"])
p("P25", "Includes, libraries and pragmas are honoured",
  "Included files are found next to the including file first and then in the library directories in order, each file is taken once however often and by whichever path it is included, cycles are harmless, and a missing file is an error. A required version newer than the compiler's, or with another major number, is refused, an older or absent one is accepted, and main is required once.",
  ["programs", "configurations"], "every include graph, library path list, pragma",
  "No file is included by the tests.",
  [PA + "include_logic.rs", PA + "lib.rs", PS + "program_library/file_definition.rs"], [("file stack", PA + "include_logic.rs"), ("version check", PA + "lib.rs")], ["exit status, messages, artefacts"])
p("P26", "Facts decided at compile time are decided correctly",
  "A program is rejected when an executed assertion on known values under known conditions is false, an access with a known position is out of bounds, or a known division by zero is evaluated, wherever it is evaluated (functions, parameters, dimensions, indices). It is not rejected for these when the statement is not executed or the assertion holds; assertions below unknown conditions or on unknown values are left to the witness programs. A false constraint between known values is never lost: no witness satisfies the system and the witness programs refuse.",
  ["programs"], "every program",
  "Nothing is evaluated at compile time by the tests.",
  [CG + "execute.rs", PS + "utils/memory_slice.rs", CA + "modular_arithmetic.rs"], [("symbolic execution", CG + "execute.rs"), ("bounds", PS + "utils/memory_slice.rs")], ["exit status and messages"])
p("P27", "Inspection warns exactly about under-constrained signals",
  "With `--inspect` the compiler warns about every intermediate, output or input signal of an instantiated template, and every subcomponent input or output, that appears in no constraint, once each with its template, and about nothing that appears in a constraint or is marked with an underscore. It suggests `<==` for exactly the `<--` assignments whose expression is quadratic. Inspection never changes the artefacts nor the exit status.",
  ["programs"], "every program",
  "No constraint is inspected by the tests.",
  [DAG + "constraint_correctness_analysis.rs", CG + "lib.rs"], [("unused signals", DAG + "constraint_correctness_analysis.rs")], ["warnings, artefacts"])
p("P28", "Tags are checked and propagated as documented",
  "A signal is accepted for an input that requires tags only if it carries all of them, a tag value is assigned at most once, before the signal gets its value, and read back as set, and tags travel with whole assignments of signals but not with expressions. Tags never change constraints or witness values.",
  ["programs"], "every program with tags",
  "No tag is handled by the tests.",
  [TA + "analyzers/tag_analysis.rs", CG + "execute.rs", CG + "environment_utils"], [("tag analysis", TA + "analyzers/tag_analysis.rs"), ("tag propagation", CG + "execute.rs")], ["exit status, constraints, witness values"])
p("P29", "A bus is its fields",
  "A program using buses means the same as the one in which every bus is replaced by separate signals for its fields, in declaration order and row by row: same constraints, same witness values, same input and output order. Assigning or passing a whole bus is assigning or passing every field, and buses of different type are never assigned to each other.",
  ["programs", "inputs"], "every program with buses",
  "No bus is handled by the tests.",
  [CG + "environment_utils/bus_representation.rs", CG + "execute.rs", "compiler/src/circuit_design", IR + "translate.rs"], [("bus representation", CG + "environment_utils/bus_representation.rs")], ["constraints, symbol file, witness values of both forms"])
p("P30", "Custom templates are exported and never constrained",
  "With custom templates enabled, the r1cs file lists each used custom template with its parameters and one application per instance with the wires of its signals in the order of their declarations, signals of custom templates are never eliminated, and they produce no constraints. Programs that constrain inside a custom template, or use one without enabling them, are rejected.",
  ["programs", "configurations"], "every program with custom templates",
  "No custom gate is written by the tests.",
  ["constraint_writers/src/r1cs_writer.rs", CL + "r1cs_porting.rs", DAG + "r1cs_porting.rs", TA + "analyzers/custom_gate_analysis.rs"], [("custom gate sections", "constraint_writers/src/r1cs_writer.rs")], ["r1cs sections 4 and 5, constraints, exit status"])
p("P31", "The meaning of a program does not depend on how it is written",
  "Renaming variables, parameters, functions and templates, reordering definitions, splitting them over included files, changing white space or comments, adding braces or parentheses, writing abbreviations out (compound assignments, increments, for loops, reversed arrows, initial values), or adding definitions and variables that are not used changes neither the constraints, nor the wires and their order, nor the symbols, nor the witness or log of a program. (Anonymous components have names that depend on their position; with them the internal wires may change order, and nothing else.)",
  ["programs", "inputs"], "every program, every meaning-preserving rewriting of those kinds",
  "No program is compiled by the tests.",
  [PA, PS, TA, CG], [("archive merging", PS + "program_library/program_merger.rs"), ("template instantiation keys", CG + "execution_data/executed_program.rs")], ["r1cs bytes, symbol file, witness values"])
p("P32", "Witness generation is a function of the input",
  "The same generated witness program gives the same witness for the same input in every run, whatever inputs the same calculator instance processed or refused before and whatever the order of keys in the input. The witness file has the documented format, with the circuit's prime and exactly the values the calculator returns.",
  ["inputs", "histories"], "every history of inputs given to one calculator, every permutation of keys",
  "No generated program is ever run.",
  [CP + "wasm_elements/common/witness_calculator.js", CP + "wasm_elements/wasm_code_generator.rs", CP + "c_elements/common/main.cpp"], [("init", CP + "wasm_elements/wasm_code_generator.rs"), ("witness file", CP + "wasm_elements/common/witness_calculator.js")], ["witness files and values over histories"])
p("P33", "The algebra library computes with exact quadratic forms",
  "Every operation of the constraint algebra library on numbers, signals, linear and quadratic expressions gives an expression whose value under every assignment is that operation applied to the operands' values, or reports that the result is not quadratic; turning an expression into a constraint, substituting signals and renumbering preserve the polynomial; eliminating signals from linear constraints preserves their solutions and keeps the signals that must be kept; stored constraints read back unchanged.",
  ["inputs", "histories"], "every sequence of operations and substitutions on expressions and constraints",
  "The three tests of the algebra check two constraint manipulations on one example each.",
  [CA + "algebra.rs", CA + "modular_arithmetic.rs", CA + "simplification_utils.rs", CA + "constraint_storage"], [("arithmetic expressions", CA + "algebra.rs"), ("elimination of signals", CA + "simplification_utils.rs")], ["polynomials of library expressions after every call"])
p("P34", "The r1cs reader inverts the writer",
  "Reading back any file written by the r1cs writer library gives the written prime, counts, constraints, wire map and custom gates, whatever the order in which the sections were written.",
  ["inputs", "histories"], "every sequence of writer calls that writes each section once and announces the numbers of constraints and wires it writes",
  "Neither reader nor writer is exercised by the stable tests.",
  ["constraint_writers/src/r1cs_reader.rs", "constraint_writers/src/r1cs_writer.rs"], [("reader", "constraint_writers/src/r1cs_reader.rs")], ["values returned by the reader"])
p("P35", "A failed write is never reported as success",
  "When an artefact cannot be written completely, because the disk is full, a size limit is hit, or the target cannot be created, the compiler reports an error and exits with a nonzero status; whenever it exits with zero, every requested artefact is complete. The same holds for the witness programs: exit zero means a complete witness file.",
  ["faults", "configurations"], "every point at which a write can fail, every artefact kind",
  "They write no file and inject no fault.",
  ["constraint_writers/src", "compiler/src/compiler_interface.rs", CP + "c_elements/c_code_generator.rs", CP + "wasm_elements/wasm_code_generator.rs", CP + "c_elements/common/main.cpp", "circom/src/compilation_user.rs", CG + "lib.rs"],
  [("file writers", "constraint_writers/src"), ("code writers", "compiler/src/compiler_interface.rs"), ("witness writer", CP + "c_elements/common/main.cpp")],
  ["exit status, messages and file bytes under injected write failures"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
