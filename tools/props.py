TRUST = "Trusts the generator's own specification of each program's tree (written from ECMA-262, cross-checked against acorn 8.19 during development) and that the tokenizer crate splits the text as intended, which is checked for each case; says nothing beyond the programs it ran."
REF = "Trusts acorn 8.19 (vendored, run by node) as the reference for verdict and tree, after a normalisation to the AST of this parser; says nothing beyond the texts it ran."
prop("C01", "Statements parse to exactly the tree their text specifies",
     "Every valid program yields exactly its statements and declarations, each once and in source order, with the kind, clauses, labels, declarators, operands and nested bodies that the ECMAScript grammar gives the text. An else belongs to the nearest open if, every case, declarator, catch and finally clause is kept where it was written, and this holds at any depth and in any surrounding construct.",
     ["programs", "inputs"], "all valid programs, every statement kind nested in every other, lists of any length, any layout",
     "The existing tests compare a few fixed programs with fixed trees; nesting combinations, depth and list length are unbounded.",
     [("statement dispatch and one routine for each statement kind", "src/lib.rs parse_statement, parse_statement_list_item, parse_*_stmt"), ("context flags saved and restored around bodies", "src/lib.rs Context")],
     "generated programs run through the real parser, with an online oracle that compares each part with the tree the program was generated from", TRUST)
prop("C02", "Operators group by precedence, associativity and parentheses",
     "Every valid expression parses to the grouping that ECMAScript precedence and associativity give it: all binary levels, right-associative exponentiation and assignment, unary, update, conditional, comma and arrow levels, with parentheses overriding. Member, call, tagged template and new chains group left to right with arguments going to the innermost waiting new, and every operator, operand and argument appears exactly once, in order.",
     ["programs", "inputs"], "all operator sequences of any length and mixture, all chains of postfix operations, in every position that holds an expression",
     "The tests contain a handful of operator mixtures; correctness is about every sequence of operators.",
     [("precedence stack of binary expressions", "src/lib.rs parse_binary_expression, determine_precedence"), ("postfix loops", "src/lib.rs parse_left_hand_side_expr_allow_call, parse_new_expr"), ("the in operator switched off in for heads only", "src/lib.rs Context.allow_in")],
     "generated operator and postfix chains run through the real parser; oracle folds the flat operand list by the precedence table of ECMA-262", TRUST)
prop("C03", "Functions, classes and object members keep their kind, name and parts",
     "Every function, arrow function, method, getter, setter, constructor and class parses with exactly the flavour written (async, generator, computed, shorthand, member kind), the name or key written, all its parameters and its whole body, in order. This includes every word used as a member name, the words async, get, set, static and yield being names or modifiers depending on what follows, class heritage, and members nested in members.",
     ["programs", "inputs"], "all combinations of modifiers, keys, parameters and bodies, in classes and objects, nested to any depth",
     "There are over a thousand combinations of modifier, key and position; the tests touch few of them.",
     [("object members", "src/lib.rs parse_obj_prop"), ("class members", "src/lib.rs parse_class_el"), ("functions", "src/lib.rs parse_function_decl, parse_function_expr, parse_property_method, parse_generator_method")],
     "enumerated and generated members and functions run through the real parser, compared online with their specified trees", TRUST)
prop("C04", "Patterns and arrow parameters keep every target, default, key and rest",
     "Every destructuring pattern, in declarations, parameters, catch clauses, for heads and assignments, keeps each of its targets, holes, keys, default values and rest elements, in order. Parenthesised expressions that turn out to be arrow parameters, and literals that turn out to be assignment patterns, become exactly those parameters or patterns, and those that do not stay expressions.",
     ["programs", "inputs"], "all patterns of any nesting in every position that takes one, and all arrow functions",
     "Cover grammar decisions depend on tokens arbitrarily far ahead; the tests contain few patterns.",
     [("reinterpretation of expressions", "src/lib.rs reinterpret_expr_as_pat, reinterpret_as_cover_formals_list"), ("cover grammar state", "src/lib.rs inherit_cover_grammar, isolate_cover_grammar"), ("binding patterns", "src/lib.rs parse_pattern, parse_array_pattern, parse_object_pattern")],
     "generated patterns run through the real parser in each position, compared online with their specified trees", TRUST)
prop("C05", "Imports and exports keep every name and specifier, and only modules have them",
     "Every import and export form parses to exactly its specifiers, local and external names, source and declaration, in order among the other module items, and the result is a module. The same items are errors in a script and anywhere but at the top level of a module.",
     ["programs", "inputs"], "all import and export forms with any names (including words usable only as names there), any number of specifiers, mixed with any statements",
     "The tests have one fixed program for each form.",
     [("imports", "src/lib.rs parse_import_decl, parse_import_specifier"), ("exports", "src/lib.rs parse_export_decl, parse_export_specifier"), ("only at the top level", "src/lib.rs parse_module_item, parse_statement_list_item")],
     "generated module items run through the real parser, compared online with their specified trees; the same items in scripts and nested positions must be rejected", TRUST)
prop("C06", "Literals, names, templates and directives are kept exactly as written",
     "Every number, string, regular expression, template and name in a valid program appears in the tree with exactly its source text, at its place, with nothing added, dropped, decoded or truncated, whatever its length or alphabet. Every part of a template keeps its text and its place between the substitutions. The string statements at the start of a script, module or function body, and only those, are directives.",
     ["inputs", "programs"], "all literals, names and templates of any length and content, in every position that holds one",
     "The tests contain a few short ASCII literals; contents, length and positions are unbounded.",
     [("literals", "src/lib.rs parse_primary_expression"), ("template parts", "src/lib.rs parse_template_literal, parse_template_element"), ("directives", "src/lib.rs parse_directives, parse_directive")],
     "generated literals in every position run through the real parser, with an online oracle that compares their text in the tree with the text generated", TRUST)
prop("C07", "Semicolons are inserted exactly where the language inserts them",
     "A statement ends without a semicolon where a line terminator, the end of the block or the end of the text allows it, and nowhere else; a line continues the statement before it when its first token can. After return, break, continue, throw, yield, before postfix operators and arrows, and after async a line terminator has exactly the meaning of the restricted productions, and a comment that contains one counts as one.",
     ["inputs", "programs"], "all pairs of adjacent tokens with any white space, line terminator (LF, CR, CRLF, LS, PS) and comment between them, in any surrounding construct",
     "Whether a semicolon is inserted depends on each pair of tokens and on what stands between them; the tests fix a few.",
     [("end of a statement", "src/lib.rs consume_semicolon, at_possible_ident"), ("line terminators noticed while scanning", "src/lib.rs next_item, context.has_line_term"), ("restricted productions", "src/lib.rs parse_return_stmt, parse_break_or_continue, parse_yield_expr, parse_async_function")],
     "table of all left sides, right sides and gaps run through the real parser and compared with acorn; generated programs with every optional semicolon left out, compared with their specified trees", REF)
prop("C08", "The result does not depend on white space and comments",
     "Two texts with the same tokens and line breaks in the same places yield the same tree, or the same error at the same token, whatever white space, kind and number of line terminators and comments stand between the tokens.",
     ["inputs", "programs"], "all token sequences, valid or not, and all ways to lay them out",
     "Layout is unbounded and enters the parser through spans, look-ahead and the line-terminator flag; the tests use one layout for each program.",
     [("look-ahead that skips comments", "src/lib.rs next_item, next_part"), ("line terminators", "src/lib.rs context.has_line_term"), ("positions", "src/lib.rs get_item_position, capture_lines")],
     "metamorphic monitor: each token sequence is run through the real parser in several layouts and the outcomes are compared, and compared with the specified tree for generated programs", TRUST)
prop("C09", "Each comment reaches the handler once, in order and in time",
     "With a comment handler, every comment that the parser has passed (line, block and HTML-like) is handed to it exactly once, in source order, with its kind, text and span, no matter whether the parser looked ahead or started over at that place. A comment is delivered before the part that ends behind it is returned, and no comment behind the token after a part is delivered before that part. Handling comments never changes the tree or the error.",
     ["programs", "inputs", "histories"], "all programs, valid or not, with any comments between any two tokens",
     "A comment can be lost or repeated at each of the many places that look ahead; the tests count comments in a few files.",
     [("delivery", "src/lib.rs next_item, next_part, CommentHandler"), ("places that save and restore the scanner", "src/lib.rs look-ahead helpers")],
     "online monitor: a recording comment handler logs each delivery next to the parts, an oracle compares the log with the comments written into the text", TRUST,
     )
prop("C10", "Malformed programs are rejected and valid ones are accepted",
     "A text that is not a valid ECMAScript 2019 script or module ends in an error instead of a tree: this covers missing, extra, swapped and misplaced tokens, declarations and modules items where only statements may stand, and invalid uses of patterns, parameters, rest elements and defaults. A text that is valid parses without an error to its tree. Outside of this are rules about duplicate or undeclared names and about the contents of literals.",
     ["inputs", "programs"], "all token sequences near valid programs: deletions, insertions, replacements, swaps, duplications, new lines, in all surroundings",
     "The tests assert few rejections; the set of malformed programs is unbounded.",
     [("expectation of tokens", "src/lib.rs expect_punct, expect_keyword, consume_semicolon"), ("early errors", "src/lib.rs unexpected_token_error and its callers")],
     "differential monitoring of mutated programs against acorn: verdict, and the tree when valid", REF)
prop("C11", "An error names the first token that no valid program can have there",
     "Parsing a malformed text ends in one error whose line and column (by ECMAScript line terminators) are the start of the first token that cannot continue what stands before it, and whose message names that token; a truncated text fails at its end. The parts that are complete before are delivered first, and nothing further behind than the token after the named one has an influence on the error.",
     ["inputs", "programs"], "all malformed texts: wrong, missing and superfluous tokens and brackets, truncation at each token, in any layout and any surrounding construct",
     "The tests assert that some texts fail, hardly where; position and message depend on look-ahead at each place.",
     [("errors with position", "src/lib.rs unexpected_token_error, expected_token_error, reinterpret_error"), ("lines", "src/lib.rs capture_lines, get_item_position"), ("error type", "src/error.rs")],
     "malformed texts run through the real parser; oracle: position is a token start, the message names it, the texts cut or changed behind it give the same error, and mutated programs fail at the mutated token", TRUST)
prop("C12", "Any text ends in a tree or an error: no panic, no endless loop",
     "Whatever text the parser is given, in script, module or tolerant mode, with or without a comment handler, by iteration or parse(), it comes to an end in a tree or an error, without a panic and without delivering more parts than the text has characters. Once it has returned an error or the end, it stays at the end.",
     ["inputs"], "all texts of the tokenizer's alphabet: token soup, edited programs, noise, all prefixes",
     "Robustness is about all texts; the tests use well-formed files.",
     [("error paths", "src/lib.rs all of the routines"), ("end of the iterator", "src/lib.rs Iterator for Parser, Parser::next")],
     "fuzzing the real parser (release build with overflow checks and debug assertions) with token soup, edits, noise and prefixes under a watchdog for panics, time and memory",
     "Texts on which the tokenizer crate panics are left aside: they say nothing about this parser. Says nothing beyond the texts it ran.")
prop("C20", "Time and memory grow in proportion to the text",
     "Parsing takes time and allocates memory in proportion to the length of the text, for long lists of any construct, for any repeated program and for constructs nested in each other in any mixture. In particular, looking ahead, starting over and reinterpreting an expression never multiply with the depth of nesting.",
     ["inputs"], "all families of texts of the same shape and growing length or depth",
     "Cost is a relation between runs of different sizes; the tests run each text once.",
     [("look-ahead and starting over", "src/lib.rs clones of the scanner, next_part"), ("reinterpretation", "src/lib.rs reinterpret_expr_as_pat, reinterpret_as_cover_formals_list")],
     "runs of the same shape at two sizes under a counting allocator and the CPU clock of the thread; oracle compares the growth of allocated bytes, allocations and time with the growth of the text",
     "For texts with `<!--` not closed in its line the tokenizer crate itself is quadratic; those are left aside. Says nothing beyond the shapes it ran.")
prop("C16", "Words are names, modifiers or errors exactly where the language says so",
     "Every word of the language is accepted as a reference, binding, label, property name, member name, import or export name exactly where ECMAScript 2019 allows it: always reserved words nowhere but as property and member names; implements, interface, let, static and their kind not in strict code; yield and await depending on the function around them and on modules; async, get, set, of, from, as, target as modifiers only in their place and as plain names everywhere else. Whatever the word is, the tree shows it as the name it is at that place.",
     ["inputs", "programs"], "all words, and sequences of such words, at all places that can hold a name or a modifier, in all kinds of functions, classes, scripts and modules",
     "There are hundreds of thousands of combinations of word, place and surrounding; the tests touch some dozens.",
     [("which words are names", "src/lib.rs at_ident, parse_var_ident, parse_ident_name, is_strict_reserved, at_contextual_keyword"), ("words that announce something", "src/lib.rs at_lexical_decl, at_async_function, parse_obj_prop, parse_class_el, parse_import_specifier")],
     "enumerated tables of words, pairs of words, places and surroundings run through the real parser, verdict and tree compared with acorn", REF)
prop("C17", "Code is strict exactly where the language says so",
     "A 'use strict' directive at the start of a script or of a function body, a class and a module make exactly their own code strict: names, parameters and default values of that function, everything nested in it, and nothing that stands before or behind it. There, and only there, with statements, deleting names, assigning to or binding eval and arguments, strict reserved words as names, functions as bodies of statements or labels and values of for-in variables are errors. Anything that only resembles a directive has no effect.",
     ["programs", "inputs"], "all ways to become strict or not, and all placements of code that depends on it, nested to any depth",
     "Strictness is a flag saved and restored at each function and class; the tests check it at few places.",
     [("the flag", "src/lib.rs Context.strict and its save and restore in functions, methods, classes, arrows"), ("directives", "src/lib.rs parse_directive_prologues, parse_function_source_el, allow_strict_directive")],
     "enumerated tables of beginnings, bodies, placements and snippets run through the real parser, verdict and tree compared with acorn", REF)
prop("C21", "Jumps and labels are accepted exactly where their target is in reach",
     "break and continue are accepted exactly inside of a loop (or, for break, a switch) of the same function; break with a label exactly inside of the statement with that label, continue with a label exactly inside of the loop with that label; return exactly in a function. A label may not be repeated inside of its own statement, is gone behind it, and is not in reach of functions and classes inside of it. Functions, classes and arrow functions in between hide loops, switches and labels, and after them everything is as before.",
     ["programs", "inputs"], "all nestings of loops, switches, labels, blocks and functions with jumps at any place",
     "Reach depends on the whole path from a jump to the root; the tests hold a few such paths.",
     [("loops and switches", "src/lib.rs Context.in_iteration, in_switch, parse_loop_body, parse_switch_stmt"), ("labels", "src/lib.rs Context.label_set, pending_labels, parse_labelled_statement, parse_optionally_labeled_statement"), ("functions reset them", "src/lib.rs parse_function_source_el")],
     "enumerated and random nestings run through the real parser, verdict and tree compared with acorn", REF)
prop("C22", "yield and await are operators exactly in their own kind of function",
     "Directly inside of a generator, yield is an operator with its optional operand and star; directly inside of an async function, await is an operator; elsewhere both are names, errors, or reserved as the surrounding function, strictness and module demand. This holds in bodies, parameters, default values, computed keys, class heritage, templates and arrow functions, where parameters of generators and async functions can't contain them, and for await is accepted in async functions only.",
     ["programs", "inputs"], "all combinations of an outer function, a place in it and a use of yield or await, nested to any depth",
     "Both flags are saved and restored at a dozen places, and arrow parameters are decided after the fact; the tests check few.",
     [("flags", "src/lib.rs Context.allow_yield, Context.await, found_await, found_yield_or_await"), ("uses", "src/lib.rs parse_yield_expr, parse_await_expr, parse_unary_expression, parse_for_stmt"), ("arrow functions", "src/lib.rs parse_assignment_expr, parse_async_args")],
     "enumerated tables of surroundings, places and uses run through the real parser, verdict and tree compared with acorn", REF)
prop("C23", "Only what the language can assign to or bind is a target",
     "An expression is accepted as the target of an assignment, compound assignment, update, for-in or for-of head, or destructuring element exactly if the language says so: names, members and, for plain assignment and loops, array and object patterns whose elements are targets in turn. Parameters of arrow functions and declared names accept exactly binding patterns. Parentheses, defaults, rest elements, shorthand values and literals nested in each other are judged by where they finally stand, and what follows or surrounds an expression never turns a non-target into a target or the other way round.",
     ["programs", "inputs"], "all expression forms, nested in each other, in all positions that do or do not assign or bind",
     "Whether something is a target is carried in flags through the whole expression grammar and decided later; the tests try a few forms.",
     [("cover grammar flags", "src/lib.rs Context.is_assignment_target, is_binding_element, first_covert_initialized_name_error, isolate_cover_grammar, inherit_cover_grammar"), ("conversion", "src/lib.rs reinterpret_expr_as_pat, check_expr_as_pat, reinterpret_as_cover_formals_list")],
     "enumerated tables of forms, wrappers and uses run through the real parser, verdict and tree compared with acorn", REF)
prop("C13", "Every way to use the parser gives the same result",
     "Whether a parser is made by Parser::new or by a Builder with its options set in any order, set twice, or reused for another text, with or without a comment handler, and whether the parts are taken one by one, collected, or by parse(), also after some parts were taken, with other parsers at work in between: the parts, the error and the kind of program are the same, and parse() returns what iteration has not yet returned. parse_expression gives the tree or error that the expression has at the start of a statement, and leaves what stands behind it to be parsed.",
     ["programs", "histories"], "all texts, options and sequences of calls",
     "The tests use one or two ways for a few texts; the ways have code of their own and combine freely with the state of the parser.",
     [("constructors and options", "src/lib.rs Builder, Parser::new, Parser::build"), ("iteration and parse", "src/lib.rs Parser::parse, parse_expression, Iterator for Parser, next_part"), ("comment handlers", "src/comment_handler.rs")],
     "differential monitor: one text is run in all ways of use, online comparison of parts, error and kind of program with plain iteration", "Trusts plain iteration as the reference, which other checks compare with specifications; says nothing beyond the texts and ways it ran.")
prop("C14", "Error tolerance only forgives, and never changes a tree",
     "With tolerance on, a valid text has the same tree as without. Mistakes of meaning are parsed as they are written, with everything around them: with statements, deleting names, binding, assigning to and naming parameters eval or arguments in strict code; jumps and labels without a target; getters and setters with a wrong number of parameters; assignments and updates of what is no target; repeated __proto__. Every other mistake ends in the same error, at the same token and after the same parts, as without tolerance, apart from missing commas in arguments and objects and missing closing parentheses.",
     ["programs", "inputs"], "all texts, valid, with forgiven mistakes at any place and in any number, or malformed otherwise",
     "The tests switch tolerance on for one or two texts; it is consulted at more than twenty places.",
     [("the switch", "src/lib.rs Config.tolerant, tolerate_error"), ("checks that it turns off", "src/lib.rs reject_restricted, reject_restricted_target, parse_break_stmt, parse_continue_stmt, parse_getter_method, parse_setter_method")],
     "each text run with and without tolerance; forgiven mistakes compared with the tree that their parts specify, all else with the run without tolerance", "Takes the tree of a forgiven mistake from the same code where it is valid (not strict, inside of a loop, with a name as target); says nothing beyond the texts it ran.")
prop("C15", "A piece of code means the same whatever its neighbours are",
     "What a statement, member, element, argument or clause is parsed to, and whether it is an error, does not depend on the pieces before and behind it in the same list or construct: the tree of two pieces in a surrounding consists of what each of them gives next to a plain neighbour, and the first mistake is the one reported, at its place. Nothing that a piece has switched (strictness, loops, labels, yield, await, in, targets) is left over for the next one.",
     ["programs", "histories"], "all pairs of pieces, valid or not, in all surroundings that hold two of them",
     "State is carried in some twenty flags, saved and restored by hand; a missing restore shows only with a later piece that asks for it.",
     [("flags of the parser", "src/lib.rs Context"), ("saving and restoring", "src/lib.rs isolate_cover_grammar, inherit_cover_grammar, parse_function_source_el, parse_loop_body, parse_switch_stmt")],
     "metamorphic monitor: two pieces are run apart and together in the same surrounding, trees and errors compared online", "Pieces that run into each other by the grammar (semicolon insertion, directives, labels) are kept apart by the surrounding; says nothing beyond the pairs it ran.")
prop("C18", "Real programs, whole, in pieces, moved and damaged, are judged and parsed right",
     "Programs that people have written are parsed to exactly their tree: whole library files of any size, the same files laid out with other white space and comments, and their statements, expressions and members alone, in a row or in other surroundings. When tokens of them are lost, added, replaced, swapped or broken across lines, the result is an error exactly if what remains is not a valid program, and its tree otherwise.",
     ["programs", "inputs"], "all programs of the kind that people write, and what editing makes of them",
     "Real code uses constructs together in ways that no table lists; the existing tests that read libraries need files that are not there.",
     [("all of the parser", "src/lib.rs"), ("tokens and look ahead", "src/lib.rs next_item, peek")],
     "files installed in the sandbox, their pieces and damaged pieces run through the real parser, verdict and tree compared with acorn", REF)
prop("C19", "The outcome depends on the text and the options alone",
     "The same text with the same options has the same parts, error, comments and end: when parsed again, after and between any other parses, in any thread and with others at work at the same time, wherever it lies in memory, with any logging, in any environment and in every build of the library (debug or release, with or without the debug_look_ahead feature), and no build of it touches memory that it may not.",
     ["programs", "schedules", "histories"], "all texts, in every order and mixture with others, in all builds and environments",
     "A test runs each text once, in one build, with nothing before it.",
     [("logging in nearly every routine", "src/lib.rs debug!, trace!, error!"), ("the debug feature", "src/lib.rs next_item, feature debug_look_ahead"), ("labels in a hash map", "src/lib.rs Context.label_set")],
     "repetition monitor: each text is run again after other work, with a logger that formats every message, in other threads, and in other builds (debug, release, address sanitizer; Miri in the thorough tier), all outcomes compared in full", "Builds are compared by a digest of the outcome; Miri runs short texts only and only in the thorough tier; says nothing beyond the texts it ran.")
