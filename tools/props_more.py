DEC = "decompiler/src/"
D = ("harness", "decomp")
prop("C10", "Decompiling recovers every expression of a function exactly",
     "For every straight-line function body, each decompiled statement is exactly the expression its bytecode encodes: "
     "the same operation, the same operands in the same order, the same constants, types, names, receivers and implicit "
     "conversions. Nothing is dropped, duplicated, reordered or attributed to another object.",
     ["programs"], "All well-formed instruction trees over every expression instruction and operand value.",
     "No test decompiles anything; every instruction has a hand-written translation that only a human reader would check.",
     [DEC + "lib.rs", "core/src/bytecode.rs"],
     [dict(name="instruction to expression translation", where=DEC + "lib.rs consume_instr"),
      dict(name="declaration merging", where=DEC + "lib.rs merge_declarations")],
     ["decompiled syntax trees"],
     "reference-model monitor: generated source trees are assembled, decompiled and compared node by node",
     "Held on the generated functions, which use every expression opcode; trees are up to about 6 levels deep.", bin=D)
prop("C11", "Decompiled control flow behaves exactly like the bytecode",
     "For every function built from conditionals, loops and switches, including early returns, breaks, fallthrough, shared "
     "case labels and unreachable code, the decompiled body performs the same actions in the same order under every sequence "
     "of decisions as the bytecode does. This holds for code of any size the format can address.",
     ["programs", "histories"], "All structured control flow graphs x all sequences of decisions.",
     "No test decompiles anything; wrongly recovered structure still prints plausible code.",
     [DEC + "lib.rs"],
     [dict(name="loop and branch recovery", where=DEC + "lib.rs consume_conditional_jump, resolve_jump"),
      dict(name="switch recovery", where=DEC + "lib.rs consume_switch")],
     ["event traces of the source and of the decompiled tree under the same decisions"],
     "trace-equivalence monitor: source and decompiled program are executed under the same decisions, event logs compared",
     "Held on the programs and decision sequences run; one recorded finding: a break in the middle of a default case when "
     "no other case breaks.", bin=D)
prop("C12", "Decompiled code is valid source with the meaning of the syntax tree",
     "The text printed for every decompiled function body reads back, by the precedence and literal rules of the language, as "
     "exactly the tree it was printed from: operators keep their grouping, literals keep their value and type, strings keep "
     "their characters and blocks keep their extent.",
     ["programs", "inputs"], "All expression and statement trees, all pairs of nested operators, all literal values.",
     "No test prints decompiled code, let alone reads it back.",
     [DEC + "print.rs", "core/src/ast.rs"],
     [dict(name="expression printing and parenthesising", where=DEC + "print.rs"), dict(name="literal printing", where=DEC + "print.rs")],
     ["printed source"],
     "round-trip monitor: an independent reader of the source language parses what was printed",
     "All operator pairs enumerated, other trees and literals sampled.", bin=D)
prop("C13", "Decompiled declarations state exactly what the cache declares",
     "For every class, struct, field, method, function and enum, the printed declaration shows exactly its name, bases, visibility, "
     "modifiers, parameters with their modes and types, return type, attributes and member values, in order, and nothing else; "
     "the bytecode listing shows every instruction of a body in order at its true address, and the syntax tree listing every statement of it.",
     ["inputs"], "All definitions with every flag combination and member order.",
     "No test prints declarations; a modifier bound to the wrong flag goes unnoticed.",
     [DEC + "print.rs"],
     [dict(name="declaration printing", where=DEC + "print.rs write_definition")],
     ["printed declarations and listings"],
     "reference-model monitor: an independent reader parses the printed declarations and compares them with the generated definition",
     "Held on the generated definitions with all flags toggled independently.", bin=D)
prop("C14", "Grouping by source file assigns each definition to exactly its file",
     "When a cache is decompiled into its source files, each top-level definition appears in every file that it or a member of it "
     "was defined in, exactly once there, ordered by first source line; definitions without any source are listed separately, "
     "and a reference to a file the cache does not contain loses no other definition.",
     ["inputs"], "All caches with any number of files, references and definitions in any order.",
     "No test builds a file index.",
     [DEC + "files.rs"],
     [dict(name="file index", where=DEC + "files.rs")],
     ["file index entries"],
     "reference-model monitor over generated caches",
     "Held on the generated caches.", bin=D)
prop("C15", "Decompiling malformed definitions reports errors and never crashes",
     "Printing any definition of any loadable cache, in any output format, ends with either text or an error: no panic, overflow, "
     "unbounded recursion or endless loop, whatever the bytecode, jump targets, types and references are. A function that cannot be "
     "decompiled does not affect the output of any other, and a failure to write the text is returned as an error.",
     ["inputs", "programs"], "All loadable caches, in particular damaged bodies and cyclic references.",
     "No test decompiles anything, let alone malformed code.",
     [DEC + "lib.rs", DEC + "print.rs", DEC + "files.rs", "core/src/bytecode.rs"],
     [dict(name="step and depth limits, error propagation", where=DEC + "lib.rs"),
      dict(name="per-function error handling", where=DEC + "print.rs")],
     ["results, panics, stack use and work done while printing"],
     "panic/overflow/stack monitors under arbitrary pools, damaged bodies and pathological shapes",
     "Runs on a stack of the size the tool has, with overflow checks on.", bin=D)
prop("C16", "The compiler wrapper understands every command line the game can pass",
     "For every combination of options in any order, with paths containing spaces, quotes swallowed by trailing backslashes on "
     "Windows included, the parsed options are exactly those that were given: every path, number, toggle, warning and default. "
     "Unknown, repeated, valueless or malformed options are refused rather than ignored, and no list of arguments crashes the parser.",
     ["inputs"], "All subsets and orders of options x all paths x all argument lists.",
     "The tests walk one fixed set of options and two path shapes.",
     ["scc/cli/src/opts.rs"],
     [dict(name="argument repair", where="scc/cli/src/opts.rs fix_args"), dict(name="option grammar", where="scc/cli/src/opts.rs Opts::get_parser")],
     ["parsed options, refusals, panics"],
     "reference-model monitor: command lines are generated from option values, quoted and split as Windows does, repaired and parsed back",
     "Held on the generated command lines. Paths hold single spaces that do not touch a separator and no quotes, as on Windows.",
     bin=("harness-opts", "opts"))

H2 = ("harness2", "comp")
prop("C17", "The compiler answers every script with a result or with located diagnostics",
     "Compiling any set of source texts against any base cache ends with either an output cache or a refusal: no panic, overflow, stack "
     "exhaustion or endless loop. A refusal carries at least one fatal diagnostic or error, and everything it says is located at a position "
     "inside one of the given files. An error in one definition does not suppress what is said about another.",
     ["inputs", "programs"], "All texts: arbitrary tokens, ill-typed, incomplete and contradictory programs, extreme sizes and nesting.",
     "The tests compile about 50 small programs, nearly all of them valid.",
     ["compiler/src/parser.rs", "compiler/src/typechecker.rs", "compiler/src/unit.rs", "compiler/src/scope.rs", "compiler/src/assembler.rs", "compiler/src/source_map.rs"],
     [dict(name="compilation driver and diagnostics", where="compiler/src/unit.rs"), dict(name="type checking of arbitrary trees", where="compiler/src/typechecker.rs")],
     ["result of each compilation, panics, positions of diagnostics"],
     "panic/overflow/stack monitors and a diagnostic-location monitor under token soup, loosely typed programs, damaged programs and hand-written extremes",
     "Held on the generated texts; nesting is bounded by what an 8 MB stack allows.", bin=H2)
prop("C18", "Compiled scripts do what their source says",
     "For every well-typed program, executing the compiled bytecode has exactly the effects the source describes: the same calls "
     "with the same arguments in the same order, the same assignments and the same results, for every statement, operator, intrinsic, "
     "conversion and literal, in globals, methods and static methods, with wrapped, replaced and added definitions, and whether or not the "
     "program is divided into modules. Each call is stored with the line it stands on.",
     ["inputs"], "All well-typed programs, in particular every combination and nesting of control flow, operators, calls and conversions.",
     "The tests compare the instructions of about 50 short hand-written functions; nested control flow, operand order and combinations "
     "of features are not sampled.",
     ["compiler/src/parser.rs", "compiler/src/typechecker.rs", "compiler/src/sugar.rs", "compiler/src/assembler.rs", "compiler/src/unit.rs"],
     [dict(name="code generation", where="compiler/src/assembler.rs"), dict(name="desugaring", where="compiler/src/sugar.rs"),
      dict(name="overload resolution and conversions", where="compiler/src/typechecker.rs"), dict(name="definition of symbols", where="compiler/src/unit.rs")],
     ["trace of native calls, results and final state of the executed bytecode"],
     "differential execution: the compiled bytecode is run by a strict bytecode machine, the source by an independent interpreter, and their traces are compared; hand-made programs for rare forms with known traces run alone and combined over files",
     "Held on the generated programs; well-typedness is by construction and every refusal is an alarm.", bin=H2)
prop("C19", "Adding scripts changes what they say and nothing else",
     "Compiling scripts into a cache keeps every definition the cache had: functions, fields, classes and enums that no script wraps, "
     "replaces or extends are the same afterwards, with the same signature, flags, code and source position. A wrapped function keeps its "
     "signature and what it did remains reachable unchanged; a replaced one keeps its slot and parameter types; a class gains exactly the members that are "
     "added to it. Compiling nothing changes nothing.",
     ["inputs", "histories"], "All caches x all sets of scripts, in several rounds.",
     "The tests look at the code of the compiled functions only, never at the rest of the cache.",
     ["compiler/src/unit.rs", "compiler/src/symbol.rs", "core/src/bundle.rs"],
     [dict(name="wrapping and replacing", where="compiler/src/unit.rs construct_proxy, remap_locals"), dict(name="member addition", where="compiler/src/unit.rs")],
     ["all definitions before and after each compilation, by path"],
     "before/after monitor: caches are read by an independent reader before and after each round of compilation and compared by path, modulo what the scripts say",
     "Held on the generated programs and mods.", bin=H2)
prop("C20", "Every accepted program yields a well-formed cache, the same one every time",
     "Whenever the compiler accepts a set of scripts, its output is a cache that reads back and whose definitions are consistent: every "
     "reference is to an existing definition of the right kind, members and their owners agree, every jump lands on an instruction of the same function, code is complete, "
     "sizes, counts and flags agree with what they describe, names are what calls refer to. Compiling the same sources again gives the same bytes.",
     ["inputs", "programs"], "All accepted programs, including strange ones.",
     "The tests look at the instruction sequence of a few functions and never at the resulting cache as a whole.",
     ["compiler/src/assembler.rs", "compiler/src/unit.rs", "compiler/src/sugar.rs", "core/src/bundle.rs", "core/src/bytecode.rs"],
     [dict(name="jump and label resolution", where="compiler/src/assembler.rs"), dict(name="definition bookkeeping", where="compiler/src/unit.rs")],
     ["every definition and instruction of every output"],
     "well-formedness monitor over the output cache, read by an independent reader and validated definition by definition and instruction by instruction",
     "Held on the generated programs. Duplicate type definitions and orphaned parameters of replaced functions are accepted.", bin=H2)
SCC = ("harness3", "scc")
prop("C21", "Every compilation starts from the game's own cache, which is never lost",
     "Whatever the history of compilations, refused compilations, game updates, changes of scripts, switches between in-place and separate "
     "output, several compilers at a time and compilers that end, or cannot write, at any point: a successful compilation writes the current scripts "
     "compiled into the cache the game shipped last, a refused one leaves the output as it was, a byte-identical copy of the game's cache always exists, an "
     "interrupted compilation is recovered from by the next one, and a timestamp is only written once what it vouches for is on disk.",
     ["histories", "crash points", "schedules"], "All histories x all crash points x all schedules of concurrent runs.",
     "The tests run the compiler once, in four prepared directories.",
     ["scc/lib/src/lib.rs", "scc/lib/src/timestamp.rs", "scc/cli/src/main.rs"],
     [dict(name="backup, restoring and timestamps", where="scc/lib/src/lib.rs try_compile_files"), dict(name="timestamp file", where="scc/lib/src/timestamp.rs")],
     ["files before and after every run, order of file operations, exit status"],
     "history monitor with fault injection: the real library runs as a process under a preloaded shim that logs, delays and cuts short its file operations; every output is compared with a direct compilation of the current scripts into the current game cache",
     "Held on the generated histories and on every crash point of the scenarios. The lock, TOML and logging crates are stand-ins; a process ends, the machine does not lose power.", bin=SCC)
prop("C22", "The library interface reports what the scripts declare and who caused an error",
     "After a successful compilation the source references are exactly the classes, fields, functions and enums the scripts declare, each with its kind, "
     "name, parent, nativeness, file and line. After a refused one the error names exactly the scripts or mods that caused it and the hints that "
     "apply, and copying it into a buffer of any size writes a terminated prefix of it and nothing beyond the buffer.",
     ["inputs"], "All sets of scripts, all error causes, all hint files, all buffer sizes.",
     "The tests check the memory layout of one struct and the numbers of an enum.",
     ["scc/lib/src/api.rs", "scc/lib/include/scc.h", "scc/lib/src/hints.rs", "scc/lib/src/lib.rs", "compiler/src/source_map.rs", "compiler/src/unit.rs"],
     [dict(name="source references", where="compiler/src/unit.rs source_refs, scc/lib/src/api.rs"), dict(name="error report", where="scc/lib/src/lib.rs ErrorReport"), dict(name="hints", where="scc/lib/src/hints.rs")],
     ["all references of an output, error texts, buffer contents"],
     "ground-truth monitor: scripts, errors and hints are generated together with what must be reported about them; buffers are guarded by canaries",
     "Held on the generated scripts. Lines are counted from zero.", bin=SCC)

prop("C23", "Every mistake in a script is reported where it is, as what it is, and nothing else is",
     "A program with a mistake is refused with exactly one fatal diagnostic for it, of the kind of the mistake and on its line, whatever surrounds it "
     "and however many other mistakes there are; a program without one is accepted, and the only thing said about it is which of its local variables "
     "are never used, all of them and no others.",
     ["inputs"], "All valid programs x kinds of mistakes x places x combinations of mistakes.",
     "The tests contain about 30 short programs with one mistake each and never look at where it is reported or at what else is.",
     ["compiler/src/typechecker.rs", "compiler/src/unit.rs", "compiler/src/diagnostics.rs", "compiler/src/diagnostics/", "compiler/src/error.rs", "compiler/src/parser.rs"],
     [dict(name="type checking", where="compiler/src/typechecker.rs"), dict(name="collection of diagnostics", where="compiler/src/unit.rs compile_modules, finish"),
      dict(name="diagnostic passes", where="compiler/src/diagnostics/")],
     ["all diagnostics of a compilation with their code, severity, file and line"],
     "ground-truth monitor: valid programs are generated, mistakes of 177 kinds are put in known places, and what is said is compared with what was done",
     "Held on the generated programs. What the compiler does not regard as a mistake is listed in DESIGN.md.", bin=H2)
prop("C24", "The command line tool does what it is told and says so",
     "Compiling, linting and decompiling with the command line tool does what the library does with the same input: compiled caches are byte-identical, "
     "decompiled text is that of the printer, a dump contains every definition in the file it belongs to and writes nothing outside of the given directory, linting changes no "
     "file. Whatever cannot be read or written is reported and never passed off as done.",
     ["inputs", "fault_sequences"], "All caches, source trees, paths stored in a cache and files that cannot be read or written.",
     "The tool has no tests.",
     ["cli/src/main.rs", "compiler/src/source_map.rs", "decompiler/src/files.rs"],
     [dict(name="dumping of files", where="cli/src/main.rs decompile"), dict(name="collection of sources", where="compiler/src/source_map.rs")],
     ["exit status, output, all files before and after each run"],
     "the real tool runs as a process in a scratch directory; everything in it is compared before and after with what the libraries give for the same input, under hostile paths and failing files",
     "Held on the generated runs. The argument parser and memory map crates are stand-ins; the tool ends with success after printing that a build failed, which is not judged.", bin=SCC)
prop("C25", "A name means the visible definition its module and imports give it",
     "In a program divided into modules, each name refers to the definition that is global, in the same module or imported, and to no other: imports of single "
     "names, lists and whole modules bring in exactly the public definitions they name, definitions and imports whose condition does not hold do not exist, "
     "equally named definitions of different modules are kept apart, and a name that refers to nothing is reported on its line. It makes no difference "
     "whether a module is compiled now or was in the cache before.",
     ["inputs", "histories"], "All divisions of definitions into modules and files x imports x conditions x uses.",
     "The tests import between three modules once, and test one condition.",
     ["compiler/src/symbol.rs", "compiler/src/scope.rs", "compiler/src/cte.rs", "compiler/src/unit.rs"],
     [dict(name="symbol map and imports", where="compiler/src/symbol.rs"), dict(name="scopes", where="compiler/src/scope.rs"), dict(name="conditional compilation", where="compiler/src/cte.rs")],
     ["the definitions the compiled code refers to, the definitions that exist, the lines of diagnostics"],
     "ground-truth monitor: definitions carry numbers, an independent resolver decides which one each use means, and the compiled code is read by an independent reader",
     "Held on the generated programs. Which of two imported classes of the same name wins, and which of several equal functions is called, is not judged.", bin=H2)
prop("C26", "A declaration becomes a definition with exactly the properties it states",
     "Every class, struct, enum, member, function, parameter and local variable declared becomes exactly one definition with the declared name, place, visibility, base, "
     "qualifiers, types, default, runtime properties and enum values, owned and listed by its class in the declared order and with the file and line it was declared in; a "
     "declaration whose condition is false becomes none. Later compilations that add, replace or wrap change exactly what they name: an added member that exists "
     "already is left out, an added method overrides that of the base class, a replaced native is none any more, and of the functions a wrapper brings along none is "
     "a second callback. What the compiler reports about where definitions come from is right even when definitions are moved.",
     ["inputs", "histories"], "All combinations of declarations and qualifiers over files and modules, and all edits by later compilations.",
     "The tests look at the code of functions and never at the properties of definitions.",
     ["compiler/src/unit.rs", "compiler/src/parser.rs", "compiler/src/scope.rs", "core/src/definition.rs"],
     [dict(name="definition of classes, functions, fields and enums", where="compiler/src/unit.rs define_*"), dict(name="placement of annotated definitions", where="compiler/src/unit.rs determine_function_location"),
      dict(name="defaults and proxies", where="compiler/src/unit.rs compile_default, construct_proxy"), dict(name="reordering of classes", where="compiler/src/unit.rs cleanup_pool")],
     ["every declared definition of the written bundle, and the source references of each compilation"],
     "ground-truth monitor: declarations are generated together with the definitions they must become, over one to three compilations on top of each other, and the written bundle is read by an independent reader",
     "Held on the generated declarations. Names of local variables are compared up to the compiler's suffix; negative defaults are refused by the compiler and not generated.", bin=H2)

prop("C27", "What the compiler accepts becomes well-typed code",
     "Whatever statements and programs the compiler accepts, the code it writes is well typed: every operand of every instruction has the type the instruction needs - assignments, "
     "arguments, results, elements, conditions, members of the right class or struct, calls on objects that have the method, conversions between strong, weak and script "
     "references wherever the types differ in that, array and intrinsic operations on the type they state - so that at runtime no value is taken for one of another type. "
     "Comparisons of unrelated types are the exception: they are warned about.",
     ["inputs"], "All combinations of expressions, statements and types, including ill-typed ones, which have to be refused.",
     "The tests compare a few well-typed snippets with their expected code and contain a handful of type errors.",
     ["compiler/src/typechecker.rs", "compiler/src/assembler.rs", "compiler/src/scope.rs"],
     [dict(name="checking and conversion of expressions", where="compiler/src/typechecker.rs check, check_and_convert"), dict(name="overload resolution", where="compiler/src/scope.rs, typechecker.rs resolve_function"),
      dict(name="types stated by instructions", where="compiler/src/assembler.rs assemble, assemble_intrinsic")],
     ["the code of every function written for an accepted statement or program"],
     "independent type inference over the written bytecode as an online checker: statements put together without regard to types are compiled, and what is accepted has to be well typed",
     "Held on the explored statements and programs up to the listed findings. The inference knows nothing of the compiler; it works on what an independent reader of the cache sees.", bin=H2)

NA = []
