prop(
    "C01", "Conditional groups are kept exactly as C keeps them",
    "For every well-nested arrangement of #if/#ifdef/#ifndef/#elif/#else/#endif and every truth value of their conditions, the declarations, #define and #undef lines that take effect are exactly those of the groups a C preprocessor keeps. At most one group of a chain is kept, #else only when no earlier group was, and nothing inside a dropped group has any effect, however deep.",
    ["programs", "inputs"], "all well-nested conditional skeletons within the bound, all values of all conditions",
    "The tests process one header with a handful of fixed conditions; nesting structure times truth assignments is exponential.",
    [CP], [("stack of group states", "CParser.preprocess"), ("condition evaluation", "CParser.eval_preprocessor_expr")],
    [("if_true / if_hit", "whether the current group is kept / whether the chain already kept one", "CParser.preprocess")],
    ["CParser(...).defs['variables']", "CParser(...).defs['macros']"],
)
prop(
    "C02", "A #if or #elif expression is true exactly when C says so",
    "For integer literals in decimal, octal or hexadecimal with any integer suffix, macros holding such literals, identifiers that are not macros (worth 0) and defined X / defined(X), combined by parenthesised arithmetic (+ - * / % & | ^ << >>, unary - and ~), comparisons, !, && and || with C's grouping, the group after #if or #elif is kept exactly when the C value of the expression is not zero. Division is C's integer division (non-negative operands).",
    ["inputs", "programs"], "all expression templates within the bound, all literal values in range, macros defined or not",
    "Tests evaluate a few fixed expressions; the value space of the operands and the operator combinations are unbounded.",
    [CP], [("rewriting to a Python expression and evaluating it", "CParser.eval_preprocessor_expr"), ("defined operator", "CParser.preprocess")],
    (), ["which of the two groups of an #if/#else is in defs"],
)
prop(
    "C03", "Constants have the value C gives them wherever they appear",
    "The value recorded for a macro, a variable initialiser, an initialiser list, or an array bound (of a variable, typedef, member or parameter) written as an integer constant expression over literals (decimal, octal or hexadecimal, any suffix), earlier macros, and in declarations also earlier enumerators and initialised variables, with + - * & | ^ << >> unary - and ~, is the value C gives, each declarator having its own initialiser, with C's precedence whether or not parentheses are written. Casts to type names do not change a small value.",
    ["inputs", "programs"], "all expression templates within the bound, all literal values in range, ten places of use",
    "Tests check about thirty fixed constants.",
    [CP], [("expression evaluation", "CParser.eval_expr, CParser.eval"), ("literal suffix stripping", "int_strip, hexint, decint"), ("expression grammar", "expression, recombine")],
    [("defs['values']", "known constants", "CParser.defs")], ["defs['values']", "defs['variables']", "defs['types']", "defs['structs']", "defs['functions']"],
)
prop(
    "C04", "Enumerators are numbered as in C",
    "An enumerator without a value is one more than its predecessor (the first is 0), one with a value has it (literal, negated literal, earlier enumerator plus a literal, macro), and the same number is recorded in the enum and as a constant. All enumerators of a declaration end up, in order, in one enum, whether it is named, anonymous, typedef'd, or declared with a variable or member; after a value that cannot be evaluated the following implicit ones are unknown, not wrong.",
    ["programs", "inputs"], "all patterns of enumerators within the bound, eight declaration forms, all literal values",
    "Tests have five fixed enums.",
    [CP], [("numbering loop", "CParser.process_enum")], (), ["defs['enums']", "defs['values']", "defs['types']"],
)
prop(
    "C05", "Object-like macros are replaced as whole words outside literals",
    "In every line that is kept, each identifier that names an object-like macro is replaced by its replacement text (in which earlier macros were replaced likewise), and nothing else changes: not parts of longer identifiers or numbers, not the inside of string and character literals (escapes included), not the names of macros undefined before. A name followed by a blank and a parenthesis in its #define is object-like; the latest definition counts.",
    ["inputs"], "all lines and replacement texts within the bound over printable ASCII, all macro names within the bound",
    "Tests expand some thirty fixed macros; the texts around them are unbounded.",
    [CP], [("replacement", "CParser.expand_macros"), ("definition", "CParser.process_macro_defn, CParser.preprocess")],
    [("defs['macros']", "replacement texts", "CParser.defs")], ["files[path] after preprocessing", "defs"],
)
prop(
    "C06", "A function-like macro call becomes the body with its arguments",
    "In every line that is kept, the name of a function-like macro followed by a parenthesised list is replaced by the macro's body, in which each parameter is replaced, as a whole word outside literals, by its argument with macros expanded. Arguments are separated by the commas outside nested parentheses and literals, may be empty or hold braces, and what stands around the call is left alone; a name without parentheses is not replaced, and a macro defined as the name of another behaves like it.",
    ["inputs"], "all texts of calls and bodies within the bound over printable ASCII, all parameter names within the bound",
    "Tests expand a dozen fixed calls.",
    [CP], [("compilation of the body", "CParser.compile_fn_macro"), ("argument splitting", "split_macro_args"), ("expansion", "CParser.expand_fn_macro")],
    [("defs['fnmacros']", "compiled bodies", "CParser.defs")], ["files[path] after preprocessing", "defs"],
)
prop(
    "C07", "Comments disappear, literals and everything else stay",
    "Every /* */ comment reads as one blank and every // comment as nothing up to the end of its line, wherever they stand; comment marks inside string and character literals, and quotes and marks inside comments, have no effect. Everything else is left as it is, line structure of the code outside comments included.",
    ["inputs"], "all texts within the bound over printable ASCII",
    "Tests have a handful of fixed comments.",
    [CP], [("comment grammar", "CParser.remove_comments")], (), ["files[path] after processing", "defs"],
)
prop(
    "C08", "A declaration is recorded with the type C gives it",
    "For every declarator made of pointers (with const/volatile), array bounds, an omitted outermost bound and function parameter lists, nested in any valid way, on any base type with qualifiers, the type recorded for a variable, typedef, named or unnamed parameter, struct member, or function (prototype or definition) lists the derivations in C's order with their bounds, parameters and qualifiers. Several declarators in one declaration are independent and all have the base type with its qualifiers, before or after it; functions are recorded as functions and everything else as variables.",
    ["programs", "inputs"], "all valid derivation chains within the bound, ten contexts, all array bounds",
    "Tests list a few dozen declarators; the grammar is recursive.",
    [CP], [("declarator grammar", "CParser.build_parser"), ("turning nested declarators inside out", "CParser.process_declarator, CParser.process_type")],
    (), ["defs['variables']", "defs['types']", "defs['functions']", "defs['structs']"],
)
prop(
    "C09", "Typedefs resolve to the C type, or are refused",
    "Resolving a type through a table of typedefs yields the fundamental, struct, union or enum type with all derivations and qualifiers in C's order (the bounds of an array of a typedef'd array included), whatever the table. A chain that loops or ends in an unknown name is refused with DefinitionError, never an endless loop or a made-up type; resolving changes nothing in the table, and resolving again, or resolving the result, gives the same type.",
    ["inputs", "histories"], "all typedef tables within the bound (including cyclic and dangling ones), all array bounds",
    "Tests resolve a few fixed chains and one loop.",
    [CP], [("recursive resolution with a trail of names", "Type.eval"), ("fundamental type test", "Type.is_fund_type")],
    [("used", "names already followed", "Type.eval")], ["Type.eval", "CParser.eval_type"],
)
prop(
    "C10", "The ctypes type of a declaration is its C type",
    "The ctypes type obtained for a typedef, a function argument, a return value or a member has exactly the derivations of the declaration: pointers, arrays with their bounds in C's nesting order, pointers to functions with their result and argument types (none for void), char*/wchar_t*/void* as the special ctypes pointer types, an omitted bound as a pointer, enums as int. Obtaining it any number of times gives the same type and leaves the parsed definitions as they were.",
    ["programs", "inputs", "histories"], "all valid derivation chains within the bound on twelve base types, all array bounds, repeated and from a second library on the same parser",
    "Tests build a few fixed types.",
    [CT, CP], [("type construction", "CTypesCLibrary._get_type"), ("argument and result types of functions", "CFunction.__init__, CTypesCLibrary._init_function")],
    (), ["lib('types', name)", "argtypes/restype set on the library's functions", "CFunction.arg_c_type"],
)
prop(
    "C11", "Struct and union classes have the declared layout",
    "The class obtained for a struct or union has one field per declared member in declaration order with its name, type and bit width, exposes exactly the unnamed struct/union members as anonymous, has the packing in force at the declaration (and none otherwise), and is a structure or a union as declared; unnamed members get names no other member has. Every way of naming it (tag, typedef, attribute, forward declaration) gives the same class, recursive references included; one with a member of unknown type is refused at every look-up.",
    ["programs", "inputs"], "all member sequences within the bound over twelve kinds of member, four declaration forms, all widths, bounds and packings",
    "Tests build three structures.",
    [CT, CP, CL], [("member collection", "CParser.process_struct"), ("class construction", "CTypesCLibrary._get_struct"), ("alias resolution", "CLibrary._resolve_struct_alias")],
    [("_structs_", "classes already built", "CLibrary")], ["lib('structs', name)", "lib('unions', name)", "lib('types', name)"],
)
prop(
    "C12", "Each struct gets the packing in force where it is declared",
    "The packing recorded for a struct or union is the one set by the #pragma pack directives above it in its header that are not in dropped groups: pack(n) sets it, pack() resets it, push with or without value or name records the packing then in force, pop returns to the record below, pop with a name removes that record and all above it, pop with a value sets it. Other lines in between (macros, other pragmas, comments, conditionals, continued lines) change nothing, and a pop without a push is harmless.",
    ["programs", "inputs", "histories"], "all sequences of packing directives within the bound with structs and other lines in between, all values and conditions",
    "One test looks at one sequence of directives and not at the structs.",
    [CP], [("packing stack", "CParser.preprocess"), ("lookup by line", "CParser.packing_at")],
    [("pack_list", "packing changes by line", "CParser.pack_list"), ("pack_stack", "pushed records", "CParser.preprocess")],
    ["defs['structs'][name]['pack']", "defs['unions'][name]['pack']"],
)
prop(
    "C13", "A call passes the C function exactly what was given",
    "Calling a wrapped function with its arguments given by position and by keyword in any mixture calls the C function exactly once with every argument in the declared position, values (0 and NULL pointers included) unchanged; None becomes a NULL pointer of the declared type, and an omitted pointer argument (one or two levels, to numbers, structs or char*) becomes a non-NULL pointer of the declared type to storage of its own, new for every call. Omitting a non-pointer argument, None for a non-pointer, or an unknown keyword raises TypeError without calling the C function.",
    ["inputs", "histories"], "all functions within the bound over twelve kinds of parameter, every way of giving each argument, all values",
    "Tests make four calls of the ctypes test library.",
    [CL, CT], [("argument binding", "CFunction.__call__"), ("automatic pointers", "CTypesCLibrary._get_pointer"), ("declared types", "CFunction.__init__")],
    (), ["the arguments the C function receives", "TypeError"],
)
prop(
    "C14", "A call result gives back the return value and every argument",
    "The result of a call, called, is the C return value (None for void); indexed by position or by parameter name it is the argument passed, and what an automatically made pointer points to after the call; unpacked it is the return value and all arguments in order, and auto() lists exactly the automatic ones in order. Storing into it changes that argument only, later calls change nothing, and unknown names or positions are refused.",
    ["inputs", "histories"], "all functions within the bound, every choice of omitted arguments, all values passed, returned and written",
    "Tests look at four results.",
    [CL, CT], [("result access", "CallResult"), ("value extraction", "CTypesCLibrary._extract_val_")],
    [("guessed", "which arguments were made automatically", "CallResult")], ["result()", "result[i]", "result[name]", "tuple unpacking", "result.auto()"],
)
prop(
    "C15", "Locked libraries never run two calls at once; calls do not mix",
    "When a library is opened with lock_calls, no two threads are ever inside its C functions at the same time, whatever the interleaving; a call that raises leaves the library usable, a C function that calls back into the library from the same thread does not deadlock, and no set of calls deadlocks. With or without lock_calls each call gets its own arguments, output values and result, never those of a concurrent call.",
    ["schedules"], "all interleavings at line granularity within the bound on interruptions, two and three threads, functions that return, raise and call back",
    "Tests are single threaded.",
    [CL], [("lock around the call", "CFunction.__call__"), ("lock creation", "CLibrary.__init__")],
    [("_lock_", "re-entrant lock of the library", "CLibrary")], ["entries into the C functions", "results of concurrent calls"],
)
prop(
    "C16", "A name gives the first matching definition, always the same one",
    "An attribute of a library is the first definition found under that name, or under it with one of the declared prefixes in their order, searching constants, functions, types, structs, unions and enums in this order; naming the kind searches that kind only. The answer does not depend on what was looked up before, repeating a lookup gives the same object, a struct or union has one class, and a name without definition is refused.",
    ["histories", "configurations"], "all small sets of definitions over six kinds and prefixed names, prefix lists, all sequences of lookups",
    "Tests look up a few names with one prefix list.",
    [CL], [("search order", "CLibrary.__getattr__"), ("prefixes", "CLibrary._all_names_"), ("object construction and memory", "CLibrary._make_obj_, CLibrary.__call__")],
    [("_objs_ / _all_objs_", "objects already made", "CLibrary")], ["lib.name", "lib(kind, name)", "lib[kind]"],
)
prop(
    "C17", "A library has one wrapper while anybody holds it",
    "Opening a library that is already open gives the existing wrapper, however it is designated (path, path through links or dots, name found in the search path, loaded ctypes object); different libraries never share one. Once nobody holds the wrapper, opening again gives a new one, working and with the headers given then.",
    ["histories"], "all sequences of openings and forgettings within the bound over two libraries and seven designations",
    "One test opens one library twice by the same path.",
    [CL, CT], [("registry", "CLibraryMeta.__call__"), ("path of a loaded library", "backends.ctypes.get_library_path")],
    [("libs", "weak registry of open libraries by path", "CLibraryMeta")], ["CLibrary(...)"],
)
prop(
    "C18", "Cached definitions are used exactly when they are valid",
    "With a cache file given, the definitions come from it exactly when it is readable, not older than any header, written by this or a later cache format, and written with the same headers, replacements, encoding, copied and given definitions; otherwise the headers are parsed and the cache is rewritten. Without validity check a readable cache is always used; a damaged cache is never an error.",
    ["configurations", "fault_sequences", "histories"], "all orders of the modification times, all pairs of option sets, cache versions and read failures, and the run after",
    "Tests write and read one cache.",
    [CP], [("validity decision", "CParser.load_cache"), ("options recorded", "CParser.__init__, CParser.load_file")],
    [("init_opts", "options the definitions depend on", "CParser")], ["defs after construction with cache="],
)
prop(
    "C19", "Definitions read back from a cache equal the parsed ones",
    "Loading a cache gives the same definitions, overall and per header, as parsing the headers: values, qualifiers, order of members and enumerators, packing, and macros undefined or redefined by a later header included. A header parsed on top of them reads the same.",
    ["programs", "inputs"], "all sequences of declarations within the bound over fifteen forms split over two headers, all literal values",
    "Tests compare the cache of one header.",
    [CP], [("storing and importing", "CParser.write_cache, CParser.import_dict"), ("per file tables", "CParser.add_def, CParser.rem_def")],
    [("file_defs", "definitions by header", "CParser")], ["defs", "file_defs", "copy_from"],
)
prop(
    "C20", "Headers and libraries are found in the documented order",
    "A header is taken from the directories given with the search in their order, then from the added locations (last added first), the packaged headers and the standard ones; a library from the given, then the added directories, then the system. Absent directories are not added, searching alters neither the caller's lists nor later searches, a header which exists as named is used as it is, and what cannot be found raises OSError.",
    ["configurations", "histories"], "all placements of the file and presence of directories, within the bound on directories, two searches in a row",
    "Tests find one header and one library.",
    [UT, CP], [("search order", "find_header, find_library"), ("registered locations", "add_header_locations, add_library_locations")],
    [("HEADER_DIRS / LIBRARY_DIRS", "added locations", "utils")], ["find_header", "find_library", "CParser.find_headers"],
)
prop(
    "C21", "A library of the wrong bitness is refused, others are opened",
    "A library known to lack the bitness of the running Python is refused with OSError before being loaded, every time; one that has it, or has both, or whose bitness cannot be determined (unclear answer, failing or missing command) is opened. The reported bitness is exactly what was determined, 'n/a' otherwise.",
    ["configurations", "fault_sequences"], "all answers and failures of the file command, both bitnesses of Python, sequences of openings",
    "One test opens one library of matching bitness.",
    [CL, UT], [("gate", "CLibraryMeta.__call__"), ("detection", "get_arch, LibraryPath.arch")],
    (), ["CLibrary(...)", "LibraryPath.arch / is_32bit / is_64bit / bitness"],
)
prop(
    "C22", "Recorded types survive printing, storing and copying",
    "Two recorded types are equal exactly when base type, derivations, bounds, parameters and qualifiers agree. Evaluating the printed form, pickling and copying a type, struct, union or enum gives an equal one, qualifiers, packing and bit widths included; splitting a function type into result and parameters and joining it again gives the same type.",
    ["inputs"], "all pairs of types within the bound, all bounds and qualifiers",
    "Tests compare a few fixed types.",
    [CP], [("equality", "Type.__eq__"), ("printing", "Type.__repr__, Compound.__repr__, Enum.__repr__"), ("function form", "Type.add_compatibility_hack, Type.remove_compatibility_hack")],
    (), ["==", "repr", "pickle", "copy"],
)
prop(
    "C23", "However a basic type is spelled, size and sign are C's",
    "For every order of specifiers C allows (unsigned, signed, short, long, long long, int, char, float, double) and the fixed width names, the ctypes type of a typedef, parameter, result, member or pointee has the size and signedness C gives it, or the type is refused; the usual spellings are not refused.",
    ["inputs"], "all sequences of up to four specifiers allowed by C, five contexts",
    "Tests use a few spellings.",
    [CT, CP], [("specifier grammar", "fund_type"), ("dropping 'signed'", "Type.eval"), ("table of basic types", "init_clibrary")],
    (), ["lib('types', name)", "argtypes/restype", "struct fields"],
)
prop(
    "C24", "Initialisation happens once and takes effect everywhere",
    "Of any sequence of initialisations and uses, the first one decides (a first use initialises for the running system), every later initialisation raises RuntimeError and changes nothing. Declared types then stand for the given ctypes types, declared modifiers are ignored in declarations, undeclared names stay unknown, basic types stay, and the arguments given are not altered.",
    ["histories", "configurations"], "all sequences of up to three operations, all choices of extra types and modifiers",
    "Tests initialise with three fixed settings.",
    [IN, CP, CT], [("once only", "init"), ("grammar", "_init_cparser"), ("type table", "init_clibrary")],
    [("_init", "whether initialised", "CParser, CLibrary")], ["init", "auto_init", "CParser(...)", "lib('types', name)"],
)
prop(
    "C25", "Arrays have the asked shape and values, casts the asked type",
    "build_array gives an array of the element type (named or a ctypes type) with the dimensions in the order given, holding the given values in order. cast_to gives the same address as the pointer type asked for, named or given.",
    ["inputs"], "all dimensions within the bound, seven element types, all values",
    "Tests build one array of two pointers.",
    [CL, CT], [("array construction", "CTypesCLibrary._get_array"), ("casts", "CTypesCLibrary._cast_to")],
    (), ["build_array", "cast_to"],
)
prop(
    "C26", "Several headers read as one text; copies are independent",
    "Parsing several headers in order, or the later ones on top of definitions copied from a parser of the earlier ones, gives the definitions of the concatenated text (#pragma pack ends with its header), each attributed to the header it stands in. Copying and what follows (undefining a macro included) alter nothing in the parser copied from; replacements apply before everything else, definitions given as arguments behave as if declared first, and find() lists exactly the headers and kinds defining a name.",
    ["programs", "histories"], "all sequences of items within the bound over fifteen kinds, cut at every point, all literal values",
    "Tests parse one header on top of another.",
    [CP], [("several files", "CParser.process_all"), ("copying", "CParser.import_dict"), ("attribution", "CParser.add_def, CParser.rem_def"), ("replacements", "CParser.load_file"), ("search", "CParser.find")],
    [("defs / file_defs", "definitions overall and by header", "CParser")], ["defs", "file_defs", "find"],
)
prop(
    "C27", "Lines are joined and directives told from code as C does",
    "A backslash at the end of a line joins it with the next one, wherever it stands (inside names, literals and directives included). A line whose first character other than blanks is # is a directive, whatever the blanks around the #: it never reaches the declarations, and only known ones (conditionals, define, undef, pragma pack) have an effect. Every other line stays, on its own line, with its macros replaced, # in it or not.",
    ["inputs"], "all texts within the bound over printable ASCII, tab and newline, alone and in fixed surroundings",
    "Tests have a handful of fixed directives and continued lines.",
    [CP], [("joining lines, telling directives", "CParser.preprocess"), ("definition and removal of macros", "CParser.process_macro_defn, CParser.rem_def")],
    [("defs['macros']", "macros in force", "CParser.defs")], ["files[path] after preprocessing", "defs['macros']"],
)
prop(
    "C28", "Integer expressions are read token by token as C reads them",
    "In a macro replacement or a #if/#elif expression made of integer literals (decimal, octal or hexadecimal, any case and suffix), macros, operators and parentheses, blanks may stand anywhere or nowhere between tokens, and the value, or which group is kept, is C's whatever the digits and the spelling. Names that merely contain a macro's name, or digits and letters that form one token, are never taken apart.",
    ["inputs"], "all expression texts within the bound over digits, letters, operators, parentheses and blanks",
    "Tests evaluate a few dozen fixed expressions, nearly all with the same spacing.",
    [CP], [("rewriting and evaluating", "CParser.eval_preprocessor_expr, CParser.eval_expr"), ("literals", "int_strip, hexint, decint, integer")],
    [("defs['values']", "values of macros", "CParser.defs")], ["which group of an #if/#else is kept", "defs['values']"],
)
prop(
    "C29", "Identifiers are taken whole and as they are spelled",
    "Any identifier that is not a keyword, basic type, modifier or macro (letters, digits, _ and $; keywords may be its beginning or end) can name a variable, function, parameter, type, tag, member or enum constant, and can be used as a type. The declaration is recorded under exactly that name with exactly the type written; no part of the identifier is taken for something else, and what follows is read as well.",
    ["inputs"], "all identifiers within the bound (stems followed by symbolic characters) in nineteen forms of declarations",
    "Tests use a few dozen fixed names.",
    [CP], [("grammar of identifiers and keywords", "ident, kwl, CParser.build_parser"), ("recording", "CParser.process_variable, process_function, process_struct, process_enum, process_typedef")],
    [("defs", "recorded definitions", "CParser.defs")], ["defs"],
)
prop(
    "C30", "The layout of declarations makes no difference",
    "Blanks, tabs and newlines between the tokens of a declaration, any number of them or none where C needs none, do not change what is recorded for it or for the declarations around it.",
    ["inputs"], "all blanks within the bound at every pair of neighbouring places (thorough: any two places) of 23 declarations of all kinds",
    "Tests have one layout per declaration.",
    [CP], [("grammar", "CParser.build_parser"), ("texts to evaluate", "CParser.eval_expr, recombine"), ("directives and lines", "CParser.preprocess")],
    [("defs", "recorded definitions", "CParser.defs")], ["defs"],
)
prop(
    "C31", "Function bodies are skipped, and nothing else is",
    "Whatever stands inside the braces of a function body (nested braces, string and character literals with braces or quotes in them, semicolons, newlines), the function is recorded with its signature, nothing inside the body is recorded, and the declarations before and after it are recorded as if the body were empty.",
    ["inputs"], "all body texts within the bound over printable ASCII, tab and newline in five functions",
    "Tests have two simple bodies.",
    [CP], [("grammar of bodies", "CParser.build_parser (function_decl)"), ("recording", "CParser.process_function")],
    [("defs", "recorded definitions", "CParser.defs")], ["defs"],
)
prop(
    "C32", "String constants have the text C gives them",
    "A string literal that is the replacement of a macro, the initialiser of a variable or an element of an initialiser list has the text C gives it as its value: simple escapes are decoded, adjacent literals joined, and names of macros, digits, suffixes, operators, comment marks, braces or semicolons inside the quotes are left alone. What follows is read as well.",
    ["inputs"], "all literal texts within the bound over printable ASCII in nine frames and four places",
    "Tests have a handful of fixed strings.",
    [CP], [("evaluation", "CParser.eval_expr, CParser.eval"), ("grammar of initialisers", "CParser.build_parser (expression)"), ("preprocessing around literals", "CParser.remove_comments, CParser.preprocess, CParser.expand_macros")],
    [("defs['values']", "values of constants", "CParser.defs")], ["defs['values']"],
)
prop(
    "C33", "Macros exist under exactly their name, from #define to #undef",
    "#define makes a macro under exactly the name written: function-like when a parenthesis follows the name at once, object-like otherwise, whatever blanks stand between its parts. #ifdef, #ifndef, defined, the value of the name in #if and #elif, #undef and the text of later lines and definitions see it exactly when they are about the same name, from the definition on until an #undef that is not in a dropped group; after that the name can be defined anew, as the other kind as well.",
    ["inputs"], "all pairs of names within the bound in 31 arrangements of directives; all texts within the bound in six definitions",
    "Tests use fixed names, none the beginning of another one or of a keyword.",
    [CP], [("directives", "CParser.preprocess"), ("definitions", "CParser.process_macro_defn, compile_fn_macro"), ("removal", "CParser.rem_def")],
    [("defs['macros'], defs['fnmacros']", "macros in force", "CParser.defs")], ["files[path] after preprocessing"],
)
