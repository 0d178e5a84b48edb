prop("C01", "#line directives in generated parsers name the right line",
     "Every #line directive in a generated parser that names the generated file itself carries the number of the line that follows it in that file, "
     "starts at the beginning of a line, and pairs each file's name with that file's line number. "
     "This holds for every grammar and every combination of options, and running line counts stay exact across everything written to the file.",
     ["inputs", "configurations"], "all grammars, all option combinations, all templates whose lines fit the line buffer",
     "The tests compare a fixed set of outputs of one tool; a path that writes a line without counting it only shows for the grammar feature and options that reach it, and the other tool has no tests.",
     ["lemon/lemon.c", "byacc/output.c", "byacc/reader.c", "byacc/btyaccpar.c"],
     [("running output line counter passed through the emitters", "lemon/lemon.c: ReportTable, tplt_*, emit_*, translate_code"),
      ("counter of lines written to the parser file", "byacc/output.c: outline, write_code_lineno, output_*"),
      ("skeleton writer", "byacc/btyaccpar.c, byacc/output.c: write_section")],
     "path-sensitive dataflow over the type-checked syntax tree: difference between lines counted and newlines written, callees inlined",
     "Sound for the listed assumptions (single-line names, complete lines in temporary files); reports the emitting call chain. Two recorded findings.",
     observe=["the generated .c file"])

prop("C03", "Failed allocations and opens are noticed before use",
     "Whenever allocating memory or opening a file fails, the failure is tested for before the result is dereferenced, passed to something that needs it, or left in shared state for later phases. "
     "Neither tool ever reads or writes through the missing result.",
     ["fault_sequences", "inputs"], "every allocation and open call, every fault of it, every path that follows",
     "No test makes an allocation or open fail.",
     ["lemon/lemon.c", "byacc/main.c", "byacc/mstring.c", "byacc/reader.c", "byacc/symtab.c", "byacc/output.c", "byacc/lalr.c", "byacc/lr0.c"],
     [("allocation guard ending the program", "byacc/defs.h: NO_SPACE; lemon/lemon.c: MemoryCheck"), ("checked allocation", "byacc/main.c: allocate"),
      ("open checks", "byacc/main.c: open_files; lemon/lemon.c: file_open, tplt_open")],
     "path-sensitive nullness dataflow with interprocedural return and parameter summaries",
     "Every function of lemon and both byacc variants; results stored in fields are required to be tested before the function returns or hands the object on.",
     observe=["process exit, crash"])

prop("C04", "Growing tables and computed buffers are always as large as what is put into them",
     "Tables and buffers that grow while a grammar is read or packed (byacc: items, rules with their precedences, tags, text cache, input lines and the saved line, file names, "
     "string builders, the packed action table; lemon: lookahead and action sets, symbol and string hash tables, text accumulator, -D definitions, alternatives of a token class) "
     "are enlarged before an element beyond their capacity is stored, the capacity recorded is the size allocated - after every growth, for every array that shares it - and "
     "buffers allocated for a computed length (names, paths, comments) hold the text copied into them with its terminator. It holds for inputs of any size.",
     ["inputs", "histories"], "every growth step and every store or copy into these blocks, for any number and length of inputs",
     "Growth happens only beyond hundreds of rules, items or characters, and an overrun of one element seldom shows.",
     ["byacc/reader.c", "byacc/mstring.c", "byacc/main.c", "byacc/output.c", "byacc/symtab.c", "lemon/lemon.c"],
     [("table growth", "byacc/reader.c: expand_items, expand_rules, cachec, cache_tag, get_line, line_directive; byacc/output.c: pack_vector; byacc/mstring.c"),
      ("table growth", "lemon/lemon.c: acttab_action, acttab_insert, append_str, handle_D_option, parseonetoken, Strsafe_insert, Symbol_insert, State_insert, Configtable_insert"),
      ("computed lengths", "lemon/lemon.c: file_makename, pathsearch, tplt_open, print_stack_union; byacc/main.c: create_file_names, alloc_file_name, open_tmpfile")],
     "whole-function abstract interpretation over linear facts relating block sizes, capacities, counts and text lengths",
     "Each function that changes a block, capacity or count is interpreted from an arbitrary state satisfying the recorded invariants; loops by widening; helpers judged inside callers. "
     "Stores at places looked up in memory are not decided.",
     observe=["process memory (overruns)"])

prop("C18", "Every directive, rule and option is taken as documented",
     "What a grammar or command line says takes effect exactly as documented, whatever came before it. lemon: the argument of each %directive is appended to that directive's own text (code after the first line gets its "
     "#line on a line of its own unless -l), destructors, types, fallbacks, the wildcard and token classes attach to the symbols named, each rule is recorded with its symbols in order, aliases, action, mark, line, number "
     "and place, and nothing else changes; unknown directives, misplaced text and second declarations are errors. Each lemon option changes the documented steps and settings and no others. byacc: every spelling of a "
     "declaration (case, '_' or '-', old marks such as %<) leads to its documented handler or setting and no other, %expect and %expect-rr count their own kind, and only a nonterminal may be the start symbol.",
     ["inputs", "configurations"], "all directives and rule forms of lemon from any state between declarations, each lemon option, all byacc declarations in both variants",
     "No test runs lemon; the byacc tests use most declarations once, in one spelling.",
     ["lemon/lemon.c", "byacc/reader.c"],
     [("directives and rules", "lemon/lemon.c: parseonetoken"), ("options", "lemon/lemon.c: main, ResortStates"), ("byacc declarations", "byacc/reader.c: keyword, read_declarations, declare_expect, declare_start")],
     "abstract interpretation of the grammar parser token by token from an arbitrary state, of main per option, and of byacc's declaration dispatch; resulting fields compared with the documentation",
     "Rules of up to three symbols; one option at a time. Splitting the text into tokens is not judged; precedence declarations are C14's and C20's.",
     observe=["generated parser", "exit status", "diagnostics"])

prop("C13", "A generated lemon parser contains what its grammar says, in the right place",
     "Everything lemon adds to the parser template lands at its own place with the right contents, whatever parts the grammar has or leaves out. The code of each directive is written once, at its place. The macros (tokens, "
     "types, arguments, counts, wildcard, error symbol, fallback) and the union of values say what the grammar says; each value is kept in a member of its own type. Action values of shifts, shift-reduces, reduces, error, accept and "
     "'none' are disjoint and fit the types chosen. Rows, offsets, padding, defaults, names, fallbacks, left-hand sides and lengths are written under the number of the state, token or rule they belong to; each "
     "rule's action and each symbol's destructor is the grammar's, on the right union member. The template is copied with the parser's name put in; the header gives the same token values.",
     ["inputs", "configurations"], "grammars with every optional part absent or present; action values beyond each type's limit",
     "No test runs lemon or compiles its output; wrong contents often compile and fail only on some input.",
     ["lemon/lemon.c", "lemon/lempar.c"],
     [("writing the parser", "lemon/lemon.c: ReportTable, print_stack_union, emit_destructor_code, emit_code, tplt_xfer, tplt_print, minimum_size_type"), ("header", "lemon/lemon.c: ReportHeader"), ("places", "lemon/lempar.c: the %% lines")],
     "abstract interpretation of ReportTable and its helpers over abstract grammars, emitted text taken apart per place of the template and compared with the grammar",
     "Each optional part absent or present, one at a time from two opposite bases. How rows are packed, the translation of $-like references in actions (C12, C03) and #line directives (C01) are not judged here. Known finding: "
     "%default_destructor uses one union member for all symbols.",
     observe=["generated parser", "generated header"])

prop("C20", "Optional parts of a grammar may be left out without a crash",
     "Anything a grammar may omit - symbol aliases, rule actions, precedence marks, datatypes, destructors, fallback and wildcard and error tokens, start symbol, naming, code sections and the like - "
     "is used only where it has been established to be present. No path of either tool uses the absent value, whatever reports or exports are requested.",
     ["inputs", "configurations"], "all grammars (any subset of optional parts present), all options",
     "Each combination of absent part and consumer needs its own input; most consumers (reports and exports) are not tested at all.",
     ["lemon/lemon.c", "byacc/output.c", "byacc/reader.c"],
     [("presence tests before each use", "lemon/lemon.c: ReportTable, ReportSQL, translate_code, emit_*, parseonetoken; byacc/output.c, byacc/reader.c")],
     "path-sensitive nullness dataflow with a frozen table of omittable attributes",
     "Exact for the attributes in the table (37 of lemon, 8 of byacc); array elements are identified by the index expression.",
     observe=["process crash; generated files"])

prop("C05", "Asking for reports, exports or statistics never changes the generated parser",
     "The options that only ask for more output (lemon: report, reprints, yacc export, SQL, statistics, -b, -p, -q; byacc: -v, -g and the grammar exports) choose reports and nothing else: "
     "code that runs or not depending on them changes no data that the rest of the tool uses, releases nothing the rest uses, does not touch the parser's own files, ends the run early only when "
     "memory or a file is lacking, and each requested output goes to a file of its own. This holds for every grammar and option combination.",
     ["configurations", "inputs"], "all grammars, all combinations of report options",
     "Comparing generated parsers with and without reports needs a grammar in which the disturbed data matters; the existing tests run each grammar with one set of options.",
     ["lemon/lemon.c", "byacc/verbose.c", "byacc/graph.c", "byacc/reader.c", "byacc/main.c"],
     [("report functions", "lemon/lemon.c: ReportOutput, Reprint, Reprint_yacc, ReportSQL, main; byacc/verbose.c, byacc/graph.c, byacc/reader.c: print_grammar*"),
      ("file names", "byacc/main.c: create_file_names; lemon/lemon.c: file_open")],
     "control dependence on the option flags plus transitive write-effect analysis over the call graph; liveness for locals",
     "Fields are told apart by name; all writes of control-dependent code and of functions reached from nowhere else are judged. One recorded finding.",
     observe=["the generated .c and .h files with and without report options"])

prop("C08", "A reported error always shows in the exit status",
     "Whenever lemon or byacc prints an error message - for its command line, its input, a file it cannot open, an unmet %expect, a failed allocation or a generation-time problem - "
     "the program ends with a nonzero exit status, on every path and for any number of errors. No error is forgotten between the place that reports it and the end of the program. "
     "(byacc's informational lines and warnings are not errors.)",
     ["inputs", "fault_sequences"], "all inputs, options and faults; any number of errors",
     "Exit statuses of failing runs are not tested, and each message needs its own failing input.",
     ["lemon/lemon.c", "byacc/error.c", "byacc/main.c", "byacc/mkpar.c"],
     [("error counters and their transfer", "lemon/lemon.c: ErrorMsg callers, Parse, OptInit, main"), ("diagnostics ending the program", "byacc/error.c, byacc/main.c: done"),
      ("deferred failure status", "byacc/mkpar.c: total_conflicts; byacc/main.c: main")],
     "interprocedural path dataflow from diagnostic to exit: error-counter state, value ranges modulo 256, function summaries",
     "Paths are followed from every message to every program end through all callees; correlated conditions in main are tracked.",
     observe=["exit status", "stderr"])

prop("C02", "No input can reach past an array of fixed size",
     "No grammar, command line or file makes either tool write, or look up a table, outside an array whose size is fixed in the source: "
     "symbols and aliases of a rule, type tags, sort bins, caches, option and name tables, escape and message buffers. "
     "Whatever the number or the length of the names, rules, arguments and lines in the input, it is accepted in full or rejected with a diagnostic.",
     ["inputs"], "all inputs and options; every array of fixed size",
     "An overrun needs an input of one particular size or shape for each array, and often shows no symptom.",
     ["lemon/lemon.c", "byacc/reader.c", "byacc/main.c", "byacc/output.c"],
     [("limit on the symbols of a rule", "lemon/lemon.c: parseonetoken, MAXRHS"), ("sort bins", "lemon/lemon.c: msort, Rule_sort"),
      ("names composed in buffers", "byacc/reader.c: get_lemon_token_name, get_lemon_rule_name, escape_sql, copy_union, declare_argtypes; lemon/lemon.c: tplt_open, ReportHeader, translate_code, append_str")],
     "whole-program interval analysis of indices, counts and text lengths",
     "151 places of lemon and both byacc variants; writes through pointers handed to helpers are bounded only where the helper's parameter has the array's type.",
     observe=["process crash, memory corruption"])

prop("C11", "A generated parser never leaves its stack",
     "Parsers lemon generates keep their stack inside its memory for every sequence of tokens: the top of the stack never goes past the last entry or below the first, with a fixed or a "
     "growing stack, with every kind of error recovery, and with or without tracing. Growing keeps the depth and makes room for at least one more entry, the recorded size is the size "
     "allocated, a failed growth changes nothing, and a full stack ends in the overflow handler before anything is stored.",
     ["inputs", "fault_sequences", "configurations"], "every token sequence and allocation failure; 12 compile-time configurations of the template",
     "Overrun needs a particular depth at a particular reduction, and no test in the repository runs a lemon parser at all.",
     ["lemon/lempar.c"],
     [("stack discipline", "lemon/lempar.c: Parse, yy_shift, yy_reduce, yy_pop_parser_stack, yyGrowStack, yyStackOverflow, yy_parse_failed, ParseInit, ParseFinalize")],
     "abstract interpretation of the template (completed by stand-ins, 12 configurations) over linear facts about stack position, size and rule length",
     "The tables are assumed right (the right-hand side of a reduced rule is on the stack); everything else is interpreted from an arbitrary state satisfying the invariant.",
     observe=["process memory (overruns)", "stack-overflow handler calls"])

prop("C06", "Tracing and bookkeeping never change what a generated parser does",
     "A parser generated by lemon takes the same actions with and without NDEBUG, YYCOVERAGE and YYTRACKMAXSTACKDEPTH: code compiled in or out by them writes only the trace stream, the trace prompt, the "
     "coverage table, the high-water mark and its own variables, never leaves its place or decides whether other code runs, and asserted expressions have no effects. Without a trace stream nothing is traced. "
     "The parser proper never reads what is recorded.",
     ["configurations", "inputs", "histories"], "all grammars and inputs, all combinations of these macros",
     "No test runs a lemon parser at all, and differences show only for the action the disturbed code belongs to.",
     ["lemon/lempar.c"],
     [("instrumentation blocks", "lemon/lempar.c: #ifndef NDEBUG, YYCOVERAGE, YYTRACKMAXSTACKDEPTH"), ("trace helpers", "lemon/lempar.c: ParseTrace, yyTraceShift")],
     "effect and control-flow analysis of the conditionally compiled code, in 12 configurations of the completed template",
     "Exact for what the template's conditionals contain; the generated parts are stand-ins.",
     observe=["actions of the generated parser"])

prop("C07", "Generated lemon parsers share nothing and can be linked together",
     "A parser generated by lemon keeps everything it knows in the parser object: apart from the trace stream, the trace prompt and the coverage table it has no variable with static storage that can change, "
     "so any number of parsers may be used interleaved, nested or in several threads. Everything it defines is either local to its file or has a name beginning with the prefix that %name replaces, so parsers for "
     "several grammars link into one program.",
     ["histories", "schedules", "configurations"], "any number of parsers and grammars, any interleaving",
     "No test runs a lemon parser; sharing shows only when parsers are interleaved at particular points.",
     ["lemon/lempar.c", "lemon/lemon.c"],
     [("parser object", "lemon/lempar.c: struct yyParser, Parse, ParseInit"), ("table definitions written by lemon", "lemon/lemon.c: ReportTable")],
     "storage-class and constness analysis of every definition in 12 configurations of the completed template and of the definitions lemon writes",
     "Exact for the template and for the table definitions in lemon's own strings.",
     observe=["generated parser objects and symbols"])

prop("C12", "A generated parser destroys every value it is given exactly once",
     "Each token value handed to a parser generated by lemon is either put on the stack under its own symbol or destroyed as that symbol, exactly once and on every path - accepting, shifting, every kind of error "
     "recovery - and is not used after it was destroyed. Entries leave the stack only by being destroyed as what they are, by the reduction that consumes them, or as the start symbol at acceptance; overflow and "
     "failure code run, and memory is released, only after every entry was popped, and enlarging the stack keeps the entries. (When the stack overflows, lemon drops the token at hand.)",
     ["inputs", "histories", "configurations"], "all grammars, token sequences and error situations; all recovery configurations",
     "No test runs a lemon parser; each recovery path needs its own erroneous input and macro configuration.",
     ["lemon/lempar.c"],
     [("popping", "lemon/lempar.c: yy_pop_parser_stack, ParseFinalize, yyStackOverflow, yy_parse_failed"), ("the token's way", "lemon/lempar.c: Parse, yy_shift, yy_destructor")],
     "path-sensitive typestate of the token's value and of the top entry, all callees in place, in 12 configurations of the completed template",
     "Every path of Parse, ParseFinalize and ParseFree. Which destructor belongs to which symbol is in the generated part, not judged.",
     observe=["destructor calls"])

prop("C14", "Conflicts are decided as documented, and losers never act",
     "For every state and lookahead on which a grammar allows several actions, lemon and byacc choose by the documented rules. Shift against reduce: without precedence on both sides the shift stays and the "
     "conflict is counted; else the higher precedence wins and equal ones follow the token's associativity (left: reduce, right: shift, nonassociative: neither, an error). Reduce against reduce: the rule that "
     "comes first stays and the conflict is counted, except that in lemon (and byacc with lemon precedence) differing precedences decide. Every unresolved conflict is counted exactly once, under its kind. A rule's "
     "precedence is its mark, else that of its first token that has one (lemon) or its last token (yacc, lemon with %yacc_prec); each precedence declaration opens one level above all earlier ones. Actions that "
     "lost do not reach the tables, do not become defaults and do not make a rule count as reducible; making defaults and shift-reduce actions changes no surviving action.",
     ["inputs", "configurations"], "all grammars: any mix of precedences, associativities, marks and options, several actions on one lookahead",
     "The tests compare a fixed set of byacc outputs (few with conflicts among three actions) and no lemon output at all.",
     ["lemon/lemon.c", "byacc/mkpar.c", "byacc/output.c", "byacc/reader.c"],
     [("lemon conflicts", "lemon/lemon.c: FindActions, resolve_conflict, actioncmp"), ("lemon tables", "lemon/lemon.c: CompressTables, compute_action"), ("lemon precedence", "lemon/lemon.c: FindRulePrecedences, parseonetoken"),
      ("byacc conflicts", "byacc/mkpar.c: remove_conflicts, add_reduce, get_shifts, sole_reduction"), ("byacc tables", "byacc/output.c: token_actions"), ("byacc precedence", "byacc/reader.c: declare_tokens, pack_grammar")],
     "finite-domain abstract interpretation of the resolving functions (lazy splitting of kinds, precedence order, associativity and options), compared case by case with decision tables",
     "Abstract lists of up to three actions per state. Sorting itself (msort), the sets of lookaheads and the packing of rows are not judged; byacc's backtracking conflict list is not either.",
     observe=["generated tables", "conflict reports", "exit status"])

prop("C09", "The engine of a lemon parser does exactly what its tables say",
     "The engine in lemon's parser template looks a token up as laid out (the entry at the state's offset if it belongs to the token, else that of its fallback token, else that of the wildcard - never for the end of "
     "input -, else the state's default), carries out each answer (shift, shift-reduce as a pending reduction, reduce with the goto of the state uncovered, accept) and recovers from errors as documented: the syntax "
     "error code runs once per error outside recovery, the stack is popped to a state that takes the error symbol, the token that failed again is dropped, the end of input fails the parse; three shifted tokens end "
     "recovery. Accept, failure and overflow code run once each, with the stack empty. A new parser starts in state 0.",
     ["inputs", "histories", "configurations"], "all tables, stacks and tokens; 12 compile-time configurations of the template",
     "No test in the repository runs a lemon parser; the recovery protocol depends on a sequence of errors and a macro configuration.",
     ["lemon/lempar.c"],
     [("lookup", "lemon/lempar.c: yy_find_shift_action, yy_find_reduce_action, ParseFallback"), ("actions", "lemon/lempar.c: Parse, yy_shift, yy_reduce, yy_accept"), ("recovery", "lemon/lempar.c: Parse, yy_parse_failed, yy_syntax_error"), ("initial state", "lemon/lempar.c: ParseInit")],
     "finite-domain abstract interpretation of the template (tables abstract, every lookup split into its outcomes), compared path by path with the documented engine",
     "Stacks of up to three entries, two reductions per token; boundary values of each action class. That the tables themselves are right is not judged.",
     observe=["actions of the generated parser", "user code run by the generated parser"])

prop("C24", "Every byte of a grammar is data: not an index, not the end, not a format",
     "Whatever bytes a grammar, template or file name consists of, lemon and byacc treat them as data. No byte, 0xff included, is taken for the end of the input, and the end is never taken for a byte: what getc and "
     "its wrappers return is compared with EOF before it is narrowed, and characters that stand beside EOF in one int are unsigned. No byte becomes a negative table index or an argument outside the range that "
     "isalpha() and its like accept. Text from the input is only ever an argument of formatted output, never the format, so percent signs come out as they are; and each format gets exactly the arguments it names, "
     "in number and type.",
     ["inputs"], "all bytes in all inputs; every formatted output and every character test in both programs",
     "The test grammars are plain ASCII; a byte above 0x7f or a percent sign at one particular place is in none of them.",
     ["lemon/lemon.c", "byacc/reader.c", "byacc/output.c", "byacc/main.c", "byacc/error.c", "byacc/verbose.c"],
     [("reading", "byacc/reader.c: get_line, next_inline, nextc; byacc/output.c: output_stored_text"), ("output", "lemon/lemon.c: ReportTable, ErrorMsg; byacc/reader.c: msprintf"), ("character tests", "byacc/defs.h: UCH, IS_IDENT")],
     "interprocedural value-origin analysis (reaching definitions, parameters, returns) of every character test, byte read, EOF comparison, table index and format",
     "Arithmetic on characters ends the following of a value; the contents of fields are followed over all their stores.",
     observe=["messages", "generated files", "exit status"])

prop("C10", "No scanner of lemon leaves the text it scans",
     "However a grammar, its preprocessor lines, its code blocks, a template line or an option ends - in the middle of a comment, a string, an escape, an operator, a label or a directive - the routines of lemon that "
     "walk over text stop at its end: they never step over the terminating zero, never look at characters behind it, and never look at the character before the first one. "
     "Truncated and empty texts lead to an error message or to the documented result, never to memory outside the text.",
     ["inputs"], "all texts of any content and length, every scanning routine in lemon.c",
     "A step over the end shows only for texts that end at one particular place inside a construct, and reading a byte too far seldom changes any output; lemon.c has no tests.",
     ["lemon/lemon.c"],
     [("tokenizer", "lemon/lemon.c: Parse"), ("preprocessor", "lemon/lemon.c: preprocess_input, eval_preprocessor_boolean"), ("code translation", "lemon/lemon.c: translate_code, emit_code, emit_destructor_code, tplt_print"),
      ("template and options", "lemon/lemon.c: tplt_xfer, OptInit, handleswitch")],
     "typestate dataflow over text positions: every step, look ahead and look back needs the characters in between known not to be the end",
     "Positions that are computed in ways not followed (two variables, results of helpers) are taken to lie within the text; positions that count up to a number are C02 and C04's.",
     observe=["memory accesses", "error messages"])

prop("C15", "The generated tables accept exactly the language of the grammar",
     "For every grammar without conflicts, the automaton lemon and byacc build accepts a token sequence if and only if the grammar derives it, and reduces by the rules of that derivation; lookahead sets are the LALR(1) "
     "ones, no state is missing and none is unreachable.",
     ["inputs"], "all grammars and all token sequences",
     "Tests compare outputs for a few dozen grammars.",
     ["lemon/lemon.c", "byacc/lr0.c", "byacc/lalr.c", "byacc/closure.c"],
     [("lemon", "lemon/lemon.c: FindFirstSets, FindStates, FindLinks, FindFollowSets"), ("byacc", "byacc/lr0.c, closure.c, lalr.c")],
     na="A statement about the fixpoints several loops reach together over unbounded sets, items and states: its proof needs inductive invariants over heap graphs relating the loops to the definition of LALR(1), which is a "
        "functional-correctness proof, not a dataflow or syntactic fact. What static analysis reaches of it - conflict resolution, actions, numbering and output - is C14 and C13.")

prop("C16", "Packed tables give back the unpacked ones",
     "For every automaton, looking an action or goto up in the packed tables (offset, check, default) gives the entry of the unpacked row; rows never overlap on an entry either of them checks as its own.",
     ["inputs"], "all automata, all states and symbols",
     "Whether two rows collide depends on the shape of all rows packed before.",
     ["lemon/lemon.c", "byacc/output.c"],
     [("lemon", "lemon/lemon.c: acttab_insert"), ("byacc", "byacc/output.c: pack_vector, matching_vector, pack_table")],
     na="Needs the invariant 'every entry placed so far keeps its check value' over an array of unbounded size searched for a free offset by data comparisons; no bounded abstract domain of this kind separates a correct search "
        "from one that accepts a wrong offset, since both differ only in values of table elements. Capacity of the tables is C04, lookup C09, what is written C13.")

prop("C19", "Exports to other grammar formats keep the language",
     "The grammars lemon and byacc export (lemon, yacc, naked, SQL and other forms) derive the same language with the same precedences as the grammar read.",
     ["inputs", "configurations"], "all grammars and all export formats",
     "Tests hold a few exports of each kind.",
     ["lemon/lemon.c", "byacc/output.c", "byacc/main.c"],
     [("lemon", "lemon/lemon.c: Reprint, ReportSQL"), ("byacc", "byacc/output.c: the export writers")],
     na="The formats' readers are outside the repository and most of the formats are undocumented here, so there is no rule in the sources to compare the writers with; equality of languages itself is undecidable. "
        "That exports leave the parser alone (C05), do not crash on omitted parts (C20) and keep bytes as they are (C24) is checked.")

prop("C21", "Backtracking finds a parse whenever one of the alternatives leads to one",
     "A parser written by btyacc accepts an input whenever some sequence of choices at its conflicts does, runs the actions of the chosen derivation only, and a trial leaves no trace.",
     ["inputs", "histories"], "all grammars with conflicts, all inputs",
     "Needs a run in which a later alternative succeeds after an earlier one failed at an unusual depth.",
     ["byacc/btyaccpar.c", "byacc/skeleton.h"],
     [("skeleton", "byacc/btyaccpar.c: the text of yyparse, yyNewState, yyMoreStack")],
     na="The engine exists only as an array of string constants, cut into sections that are put together with generated text; the search it does is over saved copies of stacks of unbounded depth. The skeleton cannot be "
        "type-checked from the sources alone without running the generator, and the reference outputs of the tests hold every line of it, so it cannot be changed without failing them.")

prop("C22", "Both generators end for every grammar, in time polynomial in its size",
     "lemon and byacc terminate on every input, and the time they take is bounded by a polynomial in the size of the grammar and its automaton.",
     ["inputs"], "all grammars",
     "Tests use small grammars.",
     ["lemon/lemon.c", "byacc/lalr.c", "byacc/output.c"],
     [("fixpoints", "lemon/lemon.c: FindRulePrecedences, FindFirstSets, FindFollowSets; byacc: warshall, lalr, pack_vector")],
     na="Termination of these loops follows from sets that only grow and from lists without cycles, facts about heap contents no analysis here tracks; bounds on running time are not observable facts of the source text.")

prop("C23", "Memory given back is never used again, nor given back twice",
     "In lemon and byacc no pointer into a block that has been freed, or moved by resizing it, is read through, passed on or returned until it points elsewhere, and no block is freed twice - on any path, including those that "
     "report an error, end the program early or clean up at its end, and across functions that free what they are given or what a field holds.",
     ["inputs", "configurations", "histories"], "all inputs and options; every pointer, path and call in both programs",
     "Freed memory usually still holds its old contents, so a use after free changes no output until the block is handed out again; error and cleanup paths are hardly run.",
     ["lemon/lemon.c", "byacc/main.c", "byacc/reader.c", "byacc/mkpar.c", "byacc/lalr.c", "byacc/lr0.c", "byacc/output.c", "byacc/symtab.c", "byacc/closure.c"],
     [("cleanup", "byacc/main.c: done, close_tmpfiles; byacc/defs.h: DO_FREE"), ("saved lines", "byacc/reader.c: dup_line and its users, get_line"), ("tables", "byacc/lalr.c, output.c, lr0.c; lemon/lemon.c: *_insert, Configtable_clear"),
      ("names and buffers", "lemon/lemon.c: tplt_open, Parse, pathsearch, translate_code; byacc/main.c: create_file_names")],
     "interprocedural path-sensitive typestate of blocks with pointer aliases; each freed block followed through callees by summaries",
     "Names of blocks are access paths over at most two pointers; elements of arrays are told apart by their index expression only. Flags tested twice are correlated within a function, not across functions.",
     observe=["memory accesses", "output files", "messages"])
