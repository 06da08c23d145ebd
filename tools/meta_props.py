ABS = "path-sensitive abstract interpretation of the LLVM IR (property simulation to a fixpoint)"
TRUST = "Sound over all paths of the analysed functions up to the engine's frame assumptions: application callbacks only touch value state and the error code; external libc/pcre2 calls behave as modelled; option tables are built by the definition macros."
IN, HI, CF, PR, FA = "inputs", "histories", "configurations", "programs", "fault_sequences"

prop("P01", "A successful parse went through every phase in order",
     "A parse reports success only after the caller's command line (every argument after the program name, against the parser's own options), the environment and the validation of constraints were processed, in that order, and every one of them succeeded. A phase starts only if the phase before it succeeded.",
     [IN, PR], "every option table, command line and environment", "Tests sample some command lines; a path that skips or reorders a phase under an untested condition stays invisible.",
     ["source/api/argus_parse.c"], [("argus_parse", "source/api/argus_parse.c")], ABS, TRUST)
prop("P02", "A parse that fails or exits has released what it stored",
     "Whenever a parse returns a failure status, or ends the program for an exit option, it has first released everything stored in the parser by any phase. A successful parse releases nothing of what it reports.",
     [IN, PR], "every option table, command line, environment and failing phase", "Tests reach a few failing command lines; each failing phase and status needs its own release.",
     ["source/api/argus_parse.c", "source/api/argus_free.c"], [("argus_parse", "source/api/argus_parse.c")], ABS, TRUST)
prop("P03", "Only exit options and rejected definitions end the program",
     "A parse ends the process exactly when a phase reports an accepted exit option, with exit status zero. The only other library code that may end the process is the check of the option definitions, which does so with a failure status exactly when it rejects them, and never hands out a parser whose checked definitions were rejected.",
     [IN, PR], "every option table, command line and environment", "Tests that would exit are avoided or sampled; a stray exit path under an untested condition is invisible.",
     ["source/api/argus_parse.c", "source/api/argus_init.c"], [("argus_parse", "source/api/argus_parse.c"), ("_argus_init_validate", "source/api/argus_init.c")],
     ABS + " plus call-graph rule on process-ending calls", TRUST)
prop("P04", "Releasing a parser releases every stored value exactly once",
     "Releasing a parser visits every option of its own table and of the table of every active subcommand; each option holding an allocated value has it released exactly once (through its own release callback if it has one) and afterwards reads as holding nothing, so that releasing again does nothing.",
     [PR, HI], "every option table and every state a parse can leave it in", "Leak tests sample tables and states; a skipped level or kind of value, or a second release, shows only in some of them.",
     ["source/api/argus_free.c", "source/utils/value_utils.c"], [("argus_free", "source/api/argus_free.c"), ("free_option_value", "source/utils/value_utils.c")],
     ABS + " with per-entry release obligations over table walks", TRUST)
prop("P05", "A value reaches an option only through its checks, in order",
     "A text taken from the command line or environment is stored for an option only after each of the option's pre-validators accepted that text, in list order, and the first rejection stops it with its own status before the value handler runs. The handler runs once, the option counts as set only if it succeeded, its failure is returned unchanged, and an earlier stored value is released before it is replaced.",
     [IN, PR], "every option, validator list, handler outcome and history of earlier values", "Tests attach a few validators; which of them runs before what, for every list and outcome, is not sampled.",
     ["source/core/parsing/execute_callbacks.c"], [("execute_callbacks", "source/core/parsing/execute_callbacks.c")], ABS, TRUST)
prop("P06", "Success means every post-validator of every set option accepted",
     "A parse succeeds only if, for every option that is set, in the parser's own table and in the table of every active subcommand, each of its post-validators accepted it. Post-validators run only on the set option they are attached to, with their own data, and the first rejection ends validation with exactly its status.",
     [IN, PR], "every option table, nesting, set of options set and validator outcome", "Tests attach a few validators to a few options; skipped entries, levels or statuses show only elsewhere.",
     ["source/core/parsing/post_parse_validation.c"], [("post_parse_validation", "source/core/parsing/post_parse_validation.c")],
     ABS + " with per-entry obligations over table walks", TRUST)
prop("P07", "Success means required, conflict and exclusivity rules are met",
     "A parse succeeds only if, at every level of active subcommands, each required positional is set, every option required by a set option is set, no option a set option conflicts with is set, and no exclusive group has two set options. The corresponding error is raised only where that constraint is in fact broken, and is the status returned.",
     [IN, PR], "every option table, nesting and combination of set options", "Tests check single constraints on small tables; coverage of every entry, list element and level is not sampled.",
     ["source/core/parsing/post_parse_validation.c"], [("post_parse_validation", "source/core/parsing/post_parse_validation.c")],
     ABS + " with per-entry obligations over table walks", TRUST)
prop("P08", "The environment fills exactly what the command line left open",
     "Every option and positional, at the parser's level and at every active subcommand's, that has an environment variable which is present takes its value from it unless the command line already set it; an option allowed to be overridden takes it even then, and one holding only its default takes it too. The environment never touches any other option, and the first value it cannot store ends the phase with that status.",
     [IN, CF, PR], "every option table, environment and set of options set", "Tests set a handful of variables; skipped entries, levels or precedence cases show only for other combinations.",
     ["source/core/parsing/load_env_vars.c"], [("load_env_vars", "source/core/parsing/load_env_vars.c")],
     ABS + " with per-entry obligations over table walks", TRUST)
prop("P09", "The variable shown in help is the variable that is read",
     "For every option, prefix and flag combination, the environment variable named in the help text is the one the parser reads for that option, and none is shown when none is read.",
     [CF, PR], "every option, prefix, explicit or automatic name and flag combination", "Tests compare a few names; the two name builders are separate code.",
     ["source/core/parsing/load_env_vars.c", "source/display"], [("get_env_var_name", "source/core/parsing/load_env_vars.c")], ABS + " on a product of the two name builders", TRUST)
prop("P10", "Options are identified by their exact names",
     "A lookup by name selects an option, positional or subcommand of the table searched only when the complete given name equals its complete name (a subcommand on the command line also by an unambiguous prefix, its exact name always winning), and reports that there is none only after every entry was compared; no name is cut short before it is compared.",
     [IN, PR], "every table, name and path", "Tests look up a few names; prefixes, long names and table order matter only for others.",
     ["source/utils/option_lookup.c", "source/core/parsing/parse_args.c", "source/core/parsing/option_handle_long.c"],
     [("find_option_by_name and relatives", "source/utils/option_lookup.c"), ("find_subcommand", "source/core/parsing/parse_args.c")],
     ABS + " with per-entry name obligations over table walks", TRUST)
prop("P11", "Reading values never writes, and absence reads as the zero value",
     "Reading a value, a count or whether an option is set never changes the parser, and asking for an option that does not exist, an index out of range or a key that is absent yields the zero value rather than an invalid access.",
     [IN, PR, HI], "every table, name, index, key and state", "Tests probe a few absent names and indexes.",
     ["source/api/argus_value_access.c"], [("argus_get and relatives", "source/api/argus_value_access.c")], ABS, TRUST)
prop("P12", "Iteration visits each stored element once and ends",
     "Iterating over a collection yields its elements from the first to the last, each once and in order, and then reports the end without ever reading beyond the stored count; resetting starts over.",
     [HI, IN], "every collection, count and sequence of steps and resets", "Tests iterate over a few small collections.",
     ["source/api/argus_value_access.c"], [("argus_array_next, argus_map_next", "source/api/argus_value_access.c")], ABS, TRUST)
prop("P13", "Collections never write past their allocated capacity",
     "Whatever number of elements a command line, default or environment supplies, an element is stored only inside the collection's allocated capacity; when the collection cannot be grown, the value is refused with a memory error and the collection stays as it was.",
     [IN, FA], "every number and kind of elements and every failing allocation", "Tests store few elements and never fail an allocation.",
     ["source/utils/multi_values.c", "source/callbacks/handlers"], [("adjust_array_size, adjust_map_size", "source/utils/multi_values.c")],
     "abstract interpretation of the functions that make room (post-state of capacity, block and size on success and failure) and a path-sensitive typestate of the room available in every function that stores, counts or hands on elements, with callee summaries",
     "Assumes what it checks elsewhere: the count never exceeds the capacity and a collection without a block is empty. The product of capacity and element size is taken not to overflow. Functions that enlarge a collection themselves instead of through one that makes room are only judged on what they count. Indices other than the count, a tested loop index or the result of a search are not decided.")
prop("P14", "Buffers are only written within their size",
     "No option name, value, path, prefix, environment name, message or captured output, however long, makes the library write outside the buffer it copies or formats into: not behind its end, not before its start, and never with a remaining size that has wrapped around. This holds of buffers of a fixed size and of those allocated to fit, and of the copying helpers the library's headers provide, whatever buffer and size they are given.",
     [IN, CF], "every length of every text the library copies or formats", "Tests use short texts.",
     ["source", "includes/argus/internal/cross_platform.h"], [("safe_strcpy, safe_strcat, safe_strndup", "includes/argus/internal/cross_platform.h"), ("stream_read", "source/utils/stream.c"), ("string_to_bool", "source/callbacks/handlers/bool_handler.c"), ("append_default_info", "source/display/help/help_formatter.c"), ("split", "source/utils/strings.c")],
     "linear-arithmetic bounds analysis on the LLVM IR: every write with a known object is proved to lie within it from dominating tests, loop counters, text lengths and, through parameters, from every call site",
     "An obligation is a store or library call that writes into an object whose size is known (array, global, allocation, parameter traced to every call). One that cannot be proved is reported, unless its place involves arithmetic the argument has no rule for (listed in the evidence; none on the current tree). Texts are taken to be terminated within their object, and numbers of 64 bits not to overflow by adding sizes of objects that exist.")
prop("P15", "Subcommand nesting is bounded by the parser's record of it",
     "The list of active subcommands is only ever written within its fixed size: a command line that nests deeper than the supported depth is rejected with an error.",
     [IN, PR], "every nesting of subcommand tables and command line", "Tests nest two or three levels.",
     ["source/core/parsing/option_handle_subcommand.c"], [("handle_subcommand", "source/core/parsing/option_handle_subcommand.c")], ABS, TRUST)
prop("P16", "A failed allocation is reported, never used",
     "The result of every allocation is checked before it is used; when memory runs out while values are parsed, the parse fails with the memory error instead of dereferencing a missing block, storing it as if it were there, or succeeding with part of the value.",
     [FA, IN], "every allocation in every operation failing, with every input", "Tests never make an allocation fail.",
     ["source"], [("handlers", "source/callbacks/handlers"), ("adjust_array_size, adjust_map_size", "source/utils/multi_values.c"), ("split", "source/utils/strings.c")],
     "typestate dataflow on the LLVM IR: every allocation is followed along every path of its function with the branch where it failed, callees summarised; failure statuses are then followed through all callers",
     "Blocks are followed through the values and places of one function at a time and through summaries of callees; a path is dropped only when the tests on it contradict each other. A block put into memory the walk does not model counts as kept. Releases inside collections are judged by element, not by count. Application callbacks are taken to borrow what they are given.")
prop("P17", "Memory allocated for a value is stored, handed out or released",
     "Every block the library allocates is, on every path, either stored where releasing its owner will find it, handed to the caller, or released; rejected values leave nothing behind. Releasing an option, a list or a structure releases every block it holds, and an element that is dropped or replaced is released.",
     [IN, FA], "every input, including rejected values, duplicates and failing allocations", "Tests do not observe leaks on rejected inputs.",
     ["source/callbacks", "source/utils", "source/display/help"], [("handlers", "source/callbacks/handlers"), ("free_help_data", "source/display/help/help_organizer.c"), ("make_map_values_unique", "source/utils/multi_values.c")],
     "ownership typestate on the LLVM IR (held, stored, counted, marked, released) over every path, with callee summaries; field-level matching of what owners record with what their release frees",
     "Blocks are followed through the values and places of one function at a time and through summaries of callees; a path is dropped only when the tests on it contradict each other. A block put into memory the walk does not model counts as kept. Releases inside collections are judged by element, not by count. Application callbacks are taken to borrow what they are given.")
prop("P18", "Nothing is released twice or used after release",
     "No block is released twice and none is read, written, recorded or handed on after it was released, on any path including error messages; no option is left recording a released block when the library returns.",
     [IN, FA, HI], "every input and history", "Tests reach few error paths.",
     ["source"], [("free sites", "source"), ("free_option_value", "source/utils/value_utils.c")],
     "typestate dataflow on the LLVM IR: from every release on, the released block's values and places are followed along every path and into callees and callers",
     "Blocks are followed through the values and places of one function at a time and through summaries of callees; a path is dropped only when the tests on it contradict each other. A block put into memory the walk does not model counts as kept. Releases inside collections are judged by element, not by count. Application callbacks are taken to borrow what they are given.")
prop("P19", "A path names an option at the level it says",
     "A name without dots is looked for from the innermost active subcommand outwards to the parser's own options, and the first found is meant; a leading dot means the parser's own options; in a dotted path every component but the last equals in full the name of the active subcommand at its depth, and the last is looked up in that subcommand's options. Nothing is reported missing without that search.",
     [HI, IN, PR], "every path, nesting and set of active subcommands", "Tests read a few paths at one or two levels; partial component names, shadowed names and deeper levels are not sampled.",
     ["source/utils/option_lookup.c"], [("find_option_by_active_path", "source/utils/option_lookup.c")], ABS + " with a component-by-component monitor", TRUST)
prop("P20", "The parser's error code always equals the status returned",
     "After a parse, the error code recorded in the parser equals the status returned, which on failure is the very status of the phase that failed and on success is zero.",
     [IN, PR], "every outcome of every phase", "Tests compare few outcomes.",
     ["source/api/argus_parse.c"], [("argus_parse", "source/api/argus_parse.c")], ABS, TRUST)
prop("P21", "Every error code has a description of its own",
     "Every status the library can return has its own description, different from that of an unknown code, and asking for the description of any integer yields a valid text.",
     [IN], "every integer", "Tests ask for a few codes.",
     ["source/core/error.c"], [("argus_strerror", "source/core/error.c")], "exhaustive evaluation of the compiled switch by abstract interpretation", TRUST)
prop("P22", "Built-in validators accept exactly the values they describe",
     "The range, length, count and choice validators accept a value exactly when it lies within the inclusive bounds, or equals one of the choices, they were given; a missing text and bounds that make no sense (minimum above maximum, negative length or count) are rejected. Every rejection is reported to the parser with the very status returned.",
     [IN, CF], "every value and every bound", "Tests sample values and bounds.",
     ["source/callbacks/validators"], [("range_validator and relatives", "source/callbacks/validators")], ABS + " with per-element comparison obligations", TRUST)
prop("P23", "A regular-expression validator accepts only a match",
     "The regular-expression validator reports success only when the pattern compiled and the value matched it; a missing value, a pattern that does not compile or exhausted memory is reported as an error, and everything allocated for the match is released on every path.",
     [IN, FA], "every pattern, value and failing allocation", "Tests use valid patterns and present values.",
     ["source/callbacks/validators/regex_validator.c"], [("regex_validator", "source/callbacks/validators/regex_validator.c")],
     ABS + " with a typestate rule on the compiled pattern and match block", TRUST)
prop("P24", "Definition macros produce consistently typed options",
     "Every way of defining an option yields an entry whose kind, value type, handler and release callback belong together, so that a value is always parsed, stored, read and released as the type it was declared with: the handler stores the declared element type where such values are kept, and the release callback frees exactly the parts the handler allocates. What a definition gives explicitly (handler, release callback, flags, hint, names, default, dependencies) is what the entry holds, a default counts as set, and each validator macro pairs its function, description, time and data. Help and version options end the program.",
     [PR], "every definition macro", "Tests use some macros; a wrong pairing matters only for values of that kind.",
     ["includes/argus/options.h", "source/callbacks/handlers"], [("OPTION_*, POSITIONAL_* macros", "includes/argus/options.h")],
     "compile-time witness of every definition macro (constants read from the IR, never run) plus effect analysis of handlers and release callbacks", "Sound for the stores and releases the analysis can resolve by SSA provenance over the handlers' call closures; a store or free reached only through a pointer kept in memory by foreign code is not seen. Parsing correctness of values is out of scope.")
prop("P25", "Rejected definitions are always reported as rejected",
     "The check of option definitions rejects a table whenever any of its rules finds a fault in any entry at any level, and reports acceptance only if every entry of every reachable table passed every rule. The rules: a known kind; a nonempty name (groups excepted) and a help text; short names neither blank nor hyphen nor used twice; long names nonempty, without leading hyphen, blank or dot and different from every later name; an option has a short or long name, an option or positional a handler and no default when it is a flag, and a default its validators accept; required options exist and are not also in conflict, conflicting ones exist; flags stay within those allowed for the entry's kind and value type; positionals have no dependencies and no default when required; subcommands have a table and neither handler, default, validators nor dependencies; no option after a subcommand, no mix of subcommands and positionals, nothing behind a variadic positional, no required positional behind an optional one; an option named help.",
     [PR], "every option table", "Tests feed one faulty definition at a time.",
     ["source/core/validation"], [("validate_structure", "source/core/validation")],
     ABS + " with per-entry rule obligations over the definition tables", TRUST)
prop("P26", "Redirected output is always restored",
     "Whatever path the definition check takes, the standard streams it redirected are back on their original targets when it returns and no descriptor it opened stays open.",
     [FA, PR], "every outcome and failing system call", "Tests do not fail system calls or watch descriptors.",
     ["source/utils/stream.c", "source/core/validation/validate_arguments.c"], [("stream capture", "source/utils/stream.c")],
     ABS + " with a model of descriptors and a typestate per stream", TRUST)
prop("P27", "Definitions and arguments are never modified",
     "Parsing, reading and displaying change nothing in the option definitions except each option's value, its counts and whether it is set, and never write into the argument texts or the environment.",
     [IN, HI, PR], "every table, command line and sequence of calls", "Tests do not compare definitions before and after.",
     ["source"], [("all stores", "source")],
     "effect analysis on the LLVM IR: every store and every writing or releasing C library call, its target resolved through call chains to the kind of object written",
     "Flow-insensitive: a target is every object the address may denote by its construction. Displaying is the direct-call closure of the help, usage and version entry points. Application callbacks are outside it.")
prop("P28", "No state is carried over in hidden variables",
     "The outcome of an operation depends only on its arguments, the parser and the environment: no value left in a hidden variable by an earlier call influences a later one.",
     [HI], "every sequence of calls", "Tests run each operation on fresh state.",
     ["source"], [("static variables", "source")], ABS + " of every function using a variable that outlives a call", TRUST)
prop("P29", "Help lists every visible entry and no hidden one",
     "The sections of the help text list every option, positional and subcommand of the table it is for that is not marked hidden, each exactly once and by all its names, and none that is marked hidden.",
     [PR], "every option table", "Tests render a few tables.",
     ["source/display"], [("display_help", "source/display/help_display.c"), ("organize_options", "source/display/help/help_organizer.c"), ("print_help_sections", "source/display/help/help_renderer.c")],
     ABS + " of the walk over the table and of list linking, plus must-pass path queries on the loops that print the lists",
     "An entry may be missing when memory for its list node runs out. The usage line above the sections is not judged.")
prop("P30", "Ordering and uniqueness flags act on the declared element type",
     "For every collection type and flag combination, sorting and removing duplicates use the comparison of the collection's own element type, are applied after the last element of each successful call exactly when the flag is set (sorting by key takes precedence over sorting by value), and keep the stored count equal to the number of elements kept. A comparison orders two elements by the member they are stored as, in its full width; an element is dropped only when it equals (doubles: within a millionth) one that is kept, and kept only when it differs from every one kept before it.",
     [IN, CF], "every collection type, flag set and content", "Tests cover some type and flag pairs.",
     ["source/utils/multi_values.c", "source/callbacks/handlers"], [("apply_array_flags, apply_map_flags", "source/utils/multi_values.c")],
     ABS + " of handlers, flag dispatch per value type, comparators and duplicate removal", TRUST + " Stored texts and keys are non-NULL; qsort sorts by the comparator it is given.")
prop("P31", "Arguments are consumed left to right within the given count",
     "Every argument is interpreted exactly once from left to right and none beyond the count given is ever read; an option lacking its value at the end of the line is an error.",
     [IN], "every command line", "Tests use a few command lines.",
     ["source/core/parsing"], [("parse_args", "source/core/parsing/parse_args.c")], ABS + " with a cursor over the argument vector", TRUST)
prop("P32", "After a double dash every argument is positional",
     "Every argument after the first bare double dash is handed to the next positional unchanged, whatever it looks like, and never selects an option or subcommand.",
     [IN], "every command line", "Tests use a few command lines.",
     ["source/core/parsing/parse_args.c"], [("parse_args", "source/core/parsing/parse_args.c")], ABS + " with a typestate for the double dash", TRUST)
prop("P33", "Executing runs the innermost active subcommand's action once",
     "Executing a parsed command runs exactly the action of the innermost active subcommand, once, with the caller's data, and returns its result; when there is no such action it reports that without running anything.",
     [PR, HI], "every nesting and table", "Tests run one or two nestings.",
     ["source/api/argus_exec.c"], [("argus_exec", "source/api/argus_exec.c")], ABS, TRUST)
prop("P34", "Diagnostics go to the error stream, requested output to standard output",
     "Error messages and other diagnostics are written only to the standard error stream; help, usage, version and command listings only to standard output; a function given a stream writes only to that stream.",
     [IN, PR], "every path", "Tests capture one stream at a time.",
     ["source/display", "source/api", "includes/argus/errors.h"], [("printing calls", "source")],
     "dataflow query on the LLVM IR: the stream of every output call resolved through helper parameters, classified by the entry points that reach it", "Sound for direct calls of the C output functions; streams kept in memory by foreign code are reported as unresolved. Text printed by application callbacks is outside the library.")
prop("P35", "Every loop over untrusted values makes progress",
     "No input makes the library loop without bound: every loop moves on towards a test that ends it on every way round (in particular expanding a numeric range terminates for every pair of bounds, and wrapping a text for every text and width), and every recursion goes down the tables of subcommands, no deeper than they may nest.",
     [IN], "every input", "Tests expand small ranges.",
     ["source", "source/callbacks/handlers"], [("range expansion", "source/callbacks/handlers"), ("print_wrapped_text", "source/display/help/help_formatter.c"), ("validate_structure", "source/core/validation/validate_structure.c")],
     "termination analysis on the LLVM IR: ranking by loop variables over all acyclic ways round each loop, and descent of call cycles",
     "A loop is reported when a way round leaves everything that decides its tests unchanged, or its counter cannot pass its bound; loops no rule decides are listed in the evidence as undecided (none on the current tree). Texts and tables end with their terminator; lists are acyclic.")
prop("P36", "A failed parse says why, a successful one reports no error",
     "Whenever a step of a parse (reading the command line, the environment, validating constraints, or any of the library's own value handlers and validators) fails for a reason other than lack of memory, a message has been written to the error stream by the time it returns; a step that succeeds has written nothing there.",
     [IN, CF, PR], "every option table, command line, environment and value", "Tests check the status returned; a failure that prints nothing, or a message printed on the way to success, shows only on its own path.",
     ["source/core/parsing", "source/callbacks", "includes/argus/errors.h"], [("argus_parsing_error", "includes/argus/errors.h"), ("parse_args", "source/core/parsing/parse_args.c"), ("post_parse_validation", "source/core/parsing/post_parse_validation.c")],
     ABS + " with a written-to-the-error-stream obligation on every return", TRUST + " A failure passed on from a step or callback counts as explained by it; the application's own callbacks explain their failures themselves.")
prop("P37", "A collection keeps every element it was given",
     "Each element given to a collection option (array or map, in one text or over several arguments) is stored directly behind those stored before and counted once; no stored element is overwritten, except that a map given a key it already has replaces the value of exactly that pair, so no key is stored twice; and a handler succeeds only after it has dealt with every piece of its text, from the first to the last.",
     [IN, HI, PR], "every text and every history of arguments given to the option", "Tests give a few elements once; an element dropped, doubled or overwritten on a later argument, at a key that repeats, or at the last piece shows only with that input.",
     ["source/callbacks/handlers", "source/utils/multi_values.c"], [("array and map handlers", "source/callbacks/handlers"), ("map_find_key", "source/utils/multi_values.c")],
     ABS + " tracking the element count, the places written and the keys compared", TRUST + " Range pieces (1-5) count as dealt with by the loop that stores them.")
prop("P40", "Parsed numbers equal what was written",
     "A number accepted for an option equals the number its text denotes, and out-of-range or malformed texts are rejected.",
     [IN], "every text", "Tests sample texts.",
     ["source/callbacks/handlers"], [("int and float handlers", "source/callbacks/handlers")],
     na="a functional property of arbitrary text against number semantics: no static argument in reach bounds strtoll/strtod results; belongs to testing or proof")
prop("P41", "Sorted collections are in order and keep exactly their elements",
     "After sorting, a collection is a permutation of what was supplied, in non-decreasing order.",
     [IN], "every content", "Tests sort small collections.",
     ["source/utils/multi_values.c"], [("sorting", "source/utils/multi_values.c")],
     na="a value-level fact about libc qsort and data contents; static analysis can only decide which comparator is used (P30)")
prop("P42", "Help text is laid out within the configured width",
     "No line of help text exceeds the configured width unless a single word does.",
     [PR, CF], "every table and width", "Tests render a few tables.",
     ["source/display"], [("text wrapping", "source/display/help")],
     na="depends on run-time text lengths and column arithmetic no static argument in reach bounds")
prop("P43", "Splitting and joining a list text loses nothing",
     "The elements of an array or map are exactly the pieces of the text between separators, in order.",
     [IN], "every text", "Tests split a few texts.",
     ["source/utils/strings.c"], [("split", "source/utils/strings.c")],
     na="content of strings built by byte loops; a functional round-trip property outside the reach of dataflow analysis")
