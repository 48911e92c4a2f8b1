prop("P17", "libclang resources are released exactly once and not used afterwards",
     "Every string, token array, diagnostic, evaluation result, index and translation unit the translator obtains from libclang is released exactly once on every path, including early returns and error paths, by the function or owning value that obtained it. Nothing derived from such a resource (a C string, a token slice, a cursor) is used after its release.",
     ["programs", "histories"], "every path through every function that calls libclang, for every input file",
     "A leak or a use after release changes no output in a test; whether it crashes depends on the allocator, the input size and which early-return path the input takes.",
     [PX + "mod.rs", PX + "expressions.rs", PX + "statements.rs", PX + "types.rs", "crates/decy-parser/src/parser.rs"],
     [("tokenise / dispose pairs", PX + "expressions.rs"), ("translation unit lifetime", "crates/decy-parser/src/parser.rs: parse_source"), ("index owned by the parser value", "crates/decy-parser/src/parser.rs: Drop for CParser")],
     technique="Typestate dataflow analysis over the compiler's MIR: each acquisition site is tracked through moves, borrows and callee summaries on every control path to its release.",
     note="All acquisition sites in all crates, all normal control paths (unwinding excluded); interprocedural by summaries.",
     observe=["process memory", "libclang API calls"])

prop("P18", "AST visitor callbacks read their client data as what was passed, alive",
     "Whenever the C front end hands an untyped data pointer to a libclang visitor, the callback that receives it reads and writes it only as the very type that was passed in. The object behind the pointer is still alive and not moved whenever the callback can run.",
     ["programs"], "every visitor registration and every callback, for every input file and traversal",
     "The compiler does not check the types behind untyped pointers; a mismatch corrupts memory only for inputs that reach the callback with a particular layout and often goes unnoticed in a test run.",
     [PX + "mod.rs", PX + "expressions.rs", PX + "statements.rs", PX + "types.rs", "crates/decy-parser/src/parser.rs"],
     [("visitor registration", "crates/decy-parser/src/extract: clang_visitChildren call sites"), ("client data casts", "crates/decy-parser/src/extract: extern \"C\" callbacks")],
     technique="Whole-program flow analysis of untyped pointers over the compiler's MIR: every pointer-to-void is followed from the typed pointer it was made from, through copies, calls and visitor registration, to every cast that gives it a type.",
     note="All untyped pointers and all casts in all crates; registrations whose callback is chosen at run time are reported, not skipped.",
     observe=["process memory"])

prop("P03", "Nothing of a function body is lost, duplicated, reordered or moved",
     "Every statement and every operand of a C function body that the translator accepts is present in the program it translates: exactly once, with all its parts, in source order and at its own nesting depth (in the same branch, loop, case or block). This holds for every expression form in every position an expression can stand and every statement form in every position a statement can stand, whatever punctuation or operators occur inside its operands.",
     ["programs"], "every expression form in every expression position, every statement form in every statement position, nested to any depth",
     "A lost operand needs one particular construct in one particular position; thousands of combinations exist and the tests contain some dozens, most without checking the whole tree.",
     [PX + "mod.rs", PX + "expressions.rs", PX + "statements.rs", "crates/decy-parser/src/parser.rs", "crates/decy-hir/src/lib.rs"],
     [("statement visitor", PX + "mod.rs: visit_statement"), ("expression extraction", PX + "expressions.rs: try_extract_expression"), ("lowering", "crates/decy-hir/src/lib.rs: from_ast_statement / from_ast_expression")],
     technique="Abstract interpretation of the front end's MIR, from its public entry, over described syntax trees with unknown identifiers (libclang modelled from its documentation); the abstract result must be the tree C's grammar gives. Lowering is shown to be a homomorphism construct by construct.",
     note="All pairs (position x form) are decided over all paths and all identifier names; deeper nesting follows because each construct hands its children to the same extraction functions. Forms: see rules/p03.py. Labels and goto are not covered.",
     observe=["parsed program", "transpiled Rust text"])

prop("P04", "Control flow is preserved",
     "The translated function performs the calls and evaluations of the C function in the same order on every path: branches are taken under the same conditions, loops repeat and end under the same conditions with the same steps between iterations, a switch enters the matching case and falls through or leaves it where C does, and break, continue and return leave exactly the construct C says. This holds for every nesting of these statements.",
     ["programs"], "every nesting of if, else, while, do, for, switch, case, default, break, continue and return, and every outcome of the conditions",
     "A wrong jump shows only for one nesting of statements (a continue inside a switch inside a for, a case falling through to default) under one outcome of its conditions; the tests compare text fragments of a few simple nestings.",
     [PX + "mod.rs", PX + "statements.rs", "crates/decy-hir/src/lib.rs", "crates/decy-codegen/src/stmt_gen.rs"],
     [("statement extraction", PX + "statements.rs"), ("lowering", "crates/decy-hir/src/lib.rs: from_ast_statement"), ("statement generation", "crates/decy-codegen/src: generate_statement_with_context")],
     technique="Abstract interpretation of the front end, lowering and statement generator over described statement nestings; the resulting statement tree and the parsed emitted text are turned into control-flow automata whose event languages are compared with that of the C statement (automaton equivalence, all condition outcomes, unbounded iterations).",
     note="All nestings of two constructs with every jump form are enumerated, selected ones of three; conditions and events are symbolic. goto and labels are not covered.",
     observe=["parsed program", "transpiled Rust text"])

prop("P05", "Declared types are preserved",
     "The type a C declaration gives a variable, parameter, field, global, alias or function result is the type the Rust declaration gives it: the same kind, signedness, width (long and short excepted, which are documented to be read as int), pointer depth, constness, array length and element type. It does not depend on where the declaration stands or what is declared around it.",
     ["programs"], "every type built from the base types with pointers, arrays, const, structs, enums and aliases, in every declaring position",
     "A wrong type needs one particular combination of base type, derivation and declaring position; the tests sample int and char pointers in the commonest positions.",
     [PX + "types.rs", PX + "mod.rs", "crates/decy-hir/src/lib.rs", "crates/decy-codegen/src/lib.rs", "crates/decy-codegen/src/type_gen.rs", "crates/decy-codegen/src/func_gen.rs"],
     [("type conversion", PX + "types.rs: convert_type"), ("lowering of types", "crates/decy-hir/src/lib.rs: from_ast_type"), ("type mapping", "crates/decy-codegen/src/lib.rs: map_type")],
     technique="Abstract interpretation of the front end, lowering, type mapping and declaration emission over described types in every declaring position; the emitted Rust type is parsed and compared with the one C's declaration denotes.",
     note="Base types x derivations up to depth three x declaring positions; pointer parameters, whose Rust type depends on ownership inference, are decided up to the intermediate program only.",
     observe=["parsed program", "transpiled Rust text"])

prop("P06", "Every file-scope declaration is carried over, once and completely",
     "Every function, struct, enum, alias, class, namespace, macro and global variable of the input that the translator supports is present in the translation exactly once, under its own name, with all its members, parameters, values and initialisers in declaration order, whatever else the file declares before or after it. A global with an initialiser starts with that value.",
     ["programs"], "every kind of declaration in every combination with others, with any number of members",
     "Losing or doubling a declaration needs a particular combination (a prototype before a definition, an alias of the same name, a static inside a namespace); the tests check that an expected substring is present, seldom that nothing else is or is missing.",
     [PX + "mod.rs", "crates/decy-hir/src/lib.rs", "crates/decy-core/src/lib.rs", "crates/decy-codegen/src/type_gen.rs"],
     [("declaration visitor", PX + "mod.rs: visit_function"), ("assembly of the output", "crates/decy-core/src/lib.rs: process_ast_to_rust"), ("declaration emission", "crates/decy-codegen/src/type_gen.rs")],
     technique="Abstract interpretation of the front end and of the whole translation pipeline (with unknown names) over described declarations; the abstract syntax tree and the emitted items are compared with the described ones, part by part.",
     note="Declaration kinds, pairs and orders as enumerated in rules/p06.py; function bodies are left to P01-P04.",
     observe=["parsed program", "transpiled Rust text"])

prop("P16", "Optimisation changes no meaning",
     "The rewriting done between reading and generating code (folding constants, removing branches, removing temporaries) leaves every function with the meaning it had: a folded constant has the value C gives the expression, code is removed only if no execution reaches it, scopes, conversions and evaluations are kept, and the function's name, parameters and result are untouched. This holds however the rewritten statements are nested and however many rounds are needed.",
     ["programs"], "every function body: all constant operands, all operators, all nestings of statements",
     "The rewrites fire on combinations of constants, scopes and types; the tests check each rewrite on one example where it should fire and hardly any where it must not.",
     ["crates/decy-core/src/optimize.rs"],
     [("constant folding", "crates/decy-core/src/optimize.rs: fold_constants_expr"), ("dead branches", "crates/decy-core/src/optimize.rs: remove_dead_branches"), ("temporaries", "crates/decy-core/src/optimize.rs: eliminate_temporaries")],
     technique="Abstract interpretation of the optimiser's MIR over described bodies; input and result are given a denotation (constants evaluated by C's rules, names resolved to declarations, statements as control-flow automata) and compared.",
     note="All operators on 225 pairs of boundary constants; every expression and statement form with constant, foldable and unknown parts in each position, nested in branches, loops and switches. Constants between the boundary values are covered by the boundary values only.",
     observe=["transpiled Rust text"])

prop("P09", "The same input always gives the same output",
     "Translating the same source with the same options yields byte-identical Rust text in every run, on every machine and in every process. The text never depends on the iteration order of a hash table, on the clock, the process or thread, the environment, random numbers or the order of a directory listing.",
     ["programs", "histories"], "every input program and every run",
     "A test runs a translation once or a few times in one process; an order that differs needs several elements and luck, and a dependence on time or environment shows nothing within one run.",
     ["crates/decy-core/src/lib.rs", "crates/decy-codegen/src/func_gen.rs", "crates/decy-stdlib/src/lib.rs", "crates/decy-ownership/src/lifetime_gen.rs"],
     [("functions are put in order after deduplication", "crates/decy-core/src/lib.rs: deduplicate_functions"), ("prototypes are sorted", "crates/decy-stdlib/src/lib.rs: inject_prototypes_for_header")],
     technique="Interprocedural flow analysis over the compiler's MIR: every walk over a hash table, clock, process, environment or random source is followed through calls, closures, loops and containers; an order survives until the container is sorted or becomes a map or set. No result that is translation text may carry one.",
     note="All functions reachable from the functions returning translation text. Sorting is taken to fix the order; a search by name through a table is taken to have one hit.",
     observe=["transpiled Rust text"])

prop("P10", "A source the C front end rejects is not translated",
     "When the C front end reports an error or a fatal error anywhere in the source, or cannot parse it at all, reading the source fails: no program is handed on and no Rust text is produced from it. Notes and warnings alone never make it fail. Every way of translating a source hands that failure to its caller instead of returning text, and writes no file on the way.",
     ["inputs", "programs"], "every source text and every list of diagnostics the front end can report for it, through every translating entry point",
     "The tests feed a few broken sources whose first diagnostic is the error; an error behind notes and warnings, a fatal error, a missing parse result, or one entry point that swallows the failure shows only for that combination.",
     ["crates/decy-parser/src/parser.rs", "crates/decy-core/src/lib.rs", "crates/decy/src/main.rs"],
     [("diagnostics are collected", "crates/decy-parser/src/parser.rs: parse"), ("entry points", "crates/decy-core/src/lib.rs: transpile and its variants"), ("command", "crates/decy/src/main.rs: transpile_file")],
     technique="Abstract interpretation of the parser's MIR over every sequence of diagnostics up to three (and long ones with one error anywhere); every function that reaches the parser is interpreted with a failing parser and must return an error on every path and reach no file write.",
     note="Sequences of severities up to length three exhaustively, one error at the ends or middle of long lists; the commands are decided by following every path after a failed reading. The interactive prompt, which reports and goes on with the next line by design, is left out.",
     observe=["result of translating", "diagnostics", "written files"])

prop("P11", "A failed step is reported as a failure",
     "When a step of a command fails (reading or writing a file, listing a directory, parsing, translating, computing the build order, reading or saving a cache), the command does not report success: the failure reaches the caller as an error and the process ends with a non-zero status. This holds for every step on every path, whichever options are set.",
     ["fault_sequences", "inputs"], "every call that can fail in the functions that carry out a command, failing at every point it is made",
     "The tests make a few steps fail (a missing input file); unreadable directories, failing writes and failing saves in the middle of a command are not provoked.",
     ["crates/decy/src/main.rs", "crates/decy-core/src/lib.rs", "crates/decy-core/src/cache.rs", "crates/decy-parser/src/parser.rs"],
     [("commands", "crates/decy/src/main.rs: run and the functions it calls"), ("cache", "crates/decy-core/src/cache.rs: save, load"), ("project", "crates/decy/src/main.rs: transpile_project")],
     technique="Path-sensitive dataflow over the compiler's MIR: each call that can fail is assumed to have failed and every path of its caller from there is followed; each must return an error, end the process with a failure, panic, or hand the error value on.",
     note="All fallible calls in the crates of the command, the pipeline and the parser reachable from the command; the interactive prompt (which reports and goes on) is left out. An error value stored or passed to another function counts as handed on.",
     observe=["exit status", "result of the library call"])

prop("P12", "A dry run changes nothing, and neither do commands that only inspect",
     "With the dry-run option set, a command creates, changes and removes no file or directory, whatever other options are given and whatever the project contains. The commands that only report (checking a project, auditing a file, showing cache statistics) never write anything.",
     ["configurations", "inputs"], "every combination of the other options, every project and every state of the output directory and the cache",
     "The tests look for one output file after one dry run; a write that happens only with caching, verbosity, a stale cache or a particular project needs that combination.",
     ["crates/decy/src/main.rs", "crates/decy-core/src/cache.rs"],
     [("dry run", "crates/decy/src/main.rs: transpile_project"), ("inspecting commands", "crates/decy/src/main.rs: check_project, audit_file, show_cache_stats")],
     technique="Conditional constant propagation and call-graph reachability over the compiler's MIR: with the flag known to be set, no call that writes to the file system, directly or through callees and closures, is reachable.",
     note="All paths of the commands and everything they call in this repository; library functions outside the standard file, process and temporary-file interfaces are taken not to write.",
     observe=["file system"])

prop("P13", "A cached translation is reused only while nothing it came from has changed",
     "Looking up a file in the translation cache gives the translation last stored for that file if the contents of the file and of every dependency recorded with it are what they were when it was stored, and gives nothing otherwise: after any change of any byte of any of them, or when one can no longer be read. This holds for any number of files and dependencies, any sequence of storing and looking up, and also after the cache has been saved and loaded by a later run.",
     ["histories", "inputs"], "every sequence of storing, looking up, saving and loading, and every change of the files in between",
     "The tests change one short file in one way and look it up once; a change far inside a large file, in the last of several dependencies, a vanished dependency, or a dependency forgotten while saving needs its own history.",
     ["crates/decy-core/src/lib.rs"],
     [("lookup", "crates/decy-core/src/lib.rs: TranspilationCache::get"), ("storing", "crates/decy-core/src/lib.rs: TranspilationCache::insert, compute_hash"), ("persistence", "crates/decy-core/src/lib.rs: TranspilationCache::save, load")],
     technique="Abstract interpretation of the cache's MIR over described histories, with file contents, the digest and the serialiser modelled; each lookup is compared with a reference cache that remembers contents. The derived serialisers are checked to write and read every field.",
     note="0 to 4, 8 and 20 dependencies, eleven kinds of change at every file, large files, repeated lookups, re-storing, several entries, each also across saving and loading. Which dependencies a translation records is not part of it.",
     observe=["result of a cache lookup"])

prop("P15", "The build order puts every file after the files it includes",
     "Ordering the files of a project by their includes lists every file exactly once, each after all files of the project that it includes, directly or through others. When the files include each other in a circle, and only then, there is no order and an error is reported instead.",
     ["inputs", "configurations"], "every set of files and every way they include each other, in any spelling of the include directive",
     "The tests order a few small chains; a wrong order needs a graph where the order of discovery and the order of dependence differ, an undetected circle one particular shape.",
     ["crates/decy-core/src/lib.rs"],
     [("building the graph", "crates/decy-core/src/lib.rs: DependencyGraph::from_files, parse_include_directives"), ("ordering", "crates/decy-core/src/lib.rs: DependencyGraph::topological_sort")],
     technique="Abstract interpretation of the graph construction and ordering MIR over every include graph on up to three files and families of larger ones, with the graph library modelled by its documentation; the resulting order is compared with the includes.",
     note="All graphs on up to three files including self-includes, a fixed selection on four (all of three to six edges in the thorough run), chains, stars, rings and diamonds of twelve, five spellings of the directive. Includes in comments or disabled by conditional compilation are outside.",
     observe=["build order"])

prop("P08", "The emitted Rust compiles",
     "For every C program the translator accepts, the Rust text it emits is accepted by the Rust compiler, including type and borrow checking.",
     ["programs"], "every accepted input program",
     "The existing tests compile a handful of outputs; type errors depend on combinations of declarations and uses.",
     ["crates/decy-codegen/src/lib.rs", "crates/decy-core/src/lib.rs"], [("code generation", "crates/decy-codegen/src")], observe=["rustc on the emitted text"],
     na="Deciding it needs Rust's type and borrow checking of unbounded families of emitted texts; the text templates are known statically, their typing is not. Several emitted forms are known not to type-check (see DESIGN.md), so the property does not hold on the pinned tree either.")

prop("P19", "Pointers translated to references and boxes keep their aliasing",
     "When a C pointer is translated to a reference, slice, Box or Vec, every read and write through it reaches the same object as in C, for every aliasing the program creates at run time.",
     ["programs", "histories"], "every program and every aliasing of its pointers",
     "Aliasing arises from run-time values; tests sample a few.",
     ["crates/decy-ownership/src/lib.rs", "crates/decy-core/src/lib.rs"], [("ownership inference", "crates/decy-ownership/src/inference.rs")], observe=["behaviour of the translated program"],
     na="The inference is heuristic by design (names, usage patterns, confidence thresholds); whether its answer is right depends on the run-time aliasing of the translated program, which no static argument about the translator bounds.")

prop("P20", "Confidence scores and learned models predict ownership correctly",
     "The accuracy that the learning components report for ownership predictions is the accuracy users get on their own programs.",
     ["programs", "histories"], "every corpus",
     "Accuracy is a statistical quantity over corpora.",
     ["crates/decy-ownership/src/retraining_pipeline.rs", "crates/decy-oracle/src/oracle.rs"], [("retraining", "crates/decy-ownership/src/retraining_pipeline.rs")], observe=["reported accuracy"],
     na="A statistical statement about data not in the repository; nothing in the source determines it.")
