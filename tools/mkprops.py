#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
BT = "The byacc tests compare generator output for about 90 fixed grammars with stored text and never compile or run a parser; "
LT = "lemon has no tests at all in the repository; "
# ---------------------------------------------------------------- byacc
p("B01", "byacc parsers recognise exactly the grammar's language",
  "For every grammar without conflicts that byacc accepts, the generated parser (either skeleton, any output option) returns 0 exactly on the sentences of the grammar and 1 on everything else. On a sentence it executes the reductions of the rightmost derivation in reverse order, each exactly once; on a non-sentence it calls yyerror exactly once, with the first token that cannot continue any sentence as the current lookahead and none after it requested.",
  ["programs", "inputs", "configurations"], "all conflict-free grammars up to the limits, all token sequences, both skeletons and the generation options",
  BT + "the property ranges over all grammars and all inputs.",
  ["byacc/lr0.c", "byacc/closure.c", "byacc/lalr.c", "byacc/warshall.c", "byacc/mkpar.c", "byacc/output.c", "byacc/reader.c", "byacc/btyaccpar.c", "byacc/yaccpar.c"],
  [("LR(0) automaton", "lr0.c"), ("DeRemer-Pennello lookaheads", "lalr.c"), ("transitive closure", "warshall.c, closure.c"), ("row packing of the action and goto tables", "output.c pack_table/pack_vector"), ("parser driver", "btyaccpar.c, yaccpar.c")],
  [("parse tables", "packed yytable/yycheck/yydgoto/yydefred", "output.c")], ["reductions executed, yylex calls, yyerror calls and yyparse result of the compiled parser"])
p("B02", "byacc finds, counts and resolves conflicts by the documented rules",
  "byacc reports exactly the shift/reduce and reduce/reduce conflicts of the grammar's LALR(1) automaton that remain after precedence, and %expect/%expect-rr fail the run exactly when their number differs from a nonzero total. The generated parser resolves them as documented: higher precedence wins, equal precedence follows associativity (%left reduces, %right shifts, %nonassoc is an error), otherwise shift is preferred and between reductions the earlier rule; a rule's precedence is its last terminal's or its %prec. With -u all precedences are ignored; with -z a rule takes the precedence of its first terminal that has one and precedences also settle reduce/reduce conflicts.",
  ["programs", "inputs", "configurations"], "all grammars (ambiguous ones included) with any precedence declarations, all inputs, with and without -u and -z",
  BT + "they cover a handful of operator grammars and never check what the parser does with the resolution.",
  ["byacc/mkpar.c", "byacc/lalr.c", "byacc/reader.c", "byacc/main.c"],
  [("conflict resolution", "mkpar.c remove_conflicts"), ("precedence of rules", "reader.c end_rule/mark_symbol"), ("counting and %expect", "mkpar.c total_conflicts, main.c")],
  [("suppressed", "an action lost to precedence or to a conflict", "mkpar.c")], ["conflict counts on stderr, exit status, reductions executed by the generated parser"])
p("B03", "byacc's -v and -g reports describe the parser that was generated",
  "The y.output report lists exactly the states, items, actions, gotos, rules and conflicts of the grammar's LALR(1) automaton as the generated tables implement it, and the -g graph has exactly its states and transitions. The numbers of symbols, rules and states printed agree with the grammar and with the report.",
  ["programs", "configurations"], "all grammars",
  BT + "the stored .output files fix a few grammars' text and would accept any report that is wrong elsewhere.",
  ["byacc/verbose.c", "byacc/graph.c", "byacc/mkpar.c"], [("report writer", "verbose.c"), ("graph writer", "graph.c")], (), ["*.output, *.dot, stderr statistics"])
p("B04", "Actions see the right semantic values and locations",
  "In every reduction $n, $-n, $<tag>n and @n denote the value and location of the corresponding stack entry, mid-rule actions included, whatever %union/%type tags are declared. The value assigned to $$ (or, without an action, that of $1) becomes the value of the left-hand side, and the default location of the left-hand side spans the right-hand side.",
  ["programs", "inputs"], "all rules, tag declarations and reference forms, all inputs",
  BT + "they only show the text of translated actions; no value ever flows through a compiled parser.",
  ["byacc/reader.c", "byacc/btyaccpar.c", "byacc/yaccpar.c", "byacc/output.c"],
  [("action translation", "reader.c copy_action"), ("value stack handling", "skeletons")], (), ["values printed by actions of compiled parsers"])
p("B05", "byacc parsers follow the error recovery protocol",
  "After a syntax error the parser calls yyerror once, unwinds to the nearest stack entry that can shift the error token, and then discards input tokens until one can follow; no further error is reported until three tokens have been shifted, and yyerrok, yyclearin, YYERROR, YYABORT and YYACCEPT act as documented. If no entry can shift error, or the end of input is reached while discarding, yyparse returns 1.",
  ["programs", "inputs"], "all grammars with error productions, all erroneous inputs",
  BT + "recovery happens only at run time, which the tests never reach.",
  ["byacc/btyaccpar.c", "byacc/yaccpar.c", "byacc/lalr.c", "byacc/mkpar.c"],
  [("yyerrlab/yyinrecovery", "skeletons")], [("yyerrflag", "tokens left in recovery", "skeletons")], ["yyerror calls, actions, discarded tokens, result"])
p("B06", "%destructor runs exactly once for each discarded value",
  "For every input, each semantic value put on the stack whose symbol has a %destructor (named, by tag <tag>, <*> or <>) is either handed to an action that completes or destroyed by that destructor exactly once; no value is destroyed twice or after use. This holds across error recovery, YYABORT, YYACCEPT, YYERROR, the end of parsing and tokens discarded in recovery. (yyclearin drops the lookahead undestroyed; what failed trial parses of -B leave is excluded.)",
  ["programs", "inputs"], "all destructor declarations, all inputs, btyacc skeleton",
  BT + "destruction order and multiplicity are run-time facts.",
  ["byacc/btyaccpar.c", "byacc/reader.c"], [("yydestruct calls", "btyaccpar.c"), ("destructor selection", "reader.c finalize_destructors")], (), ["allocation and destruction events of tagged values"])
p("B07", "Backtracking parsers (-B) accept iff some resolution of conflicts does",
  "With -B the parser tries the alternatives of a conflict in order (shift before reductions), keeps exploring until one succeeds or all fail, and then runs the { } actions of the successful path exactly once in order, as if it had been known from the start. If no alternative succeeds, the error is reported once, at the furthest point reached. Actions in [ ] run during trial parsing, and YYVALID commits the trial.",
  ["programs", "inputs"], "all ambiguous or non-LALR(1) grammars, all inputs",
  BT + "the tests check two backtracking grammars' generated text.",
  ["byacc/btyaccpar.c", "byacc/mkpar.c", "byacc/output.c", "byacc/reader.c"], [("trial parsing", "btyaccpar.c yytrial/yypath"), ("conflict table", "output.c output_ctable")],
  [("yypath", "saved parse states of the successful path", "btyaccpar.c")], ["actions executed, acceptance, yyerror calls"])
p("B08", "Parser stacks grow safely and pure parsers are re-entrant",
  "However deep the input nests, the parser either completes with the correct result or reports the overflow through yyerror with a nonzero result; it never reads or writes outside its stacks, whatever the limits YYMAXDEPTH and YYINITSTACKSIZE (at least 2) and whichever allocation fails. Pure parsers keep no state outside a call, so nested, interleaved and concurrent parses do not affect one another, and a parser can be called again after any outcome.",
  ["inputs", "fault_sequences", "schedules", "histories"], "all nesting depths, allocation failures, nested and concurrent calls, repeated calls",
  BT + "no parser is ever run, let alone deep, under memory pressure or concurrently.",
  ["byacc/btyaccpar.c", "byacc/yaccpar.c"], [("yygrowstack", "skeletons"), ("%pure-parser locals", "skeletons, output.c")], (), ["sanitizer reports, yyparse results under a failing allocator, thread sanitizer"])
p("B09", "byacc's options change the packaging and never the parser",
  "The token codes in the generated header are those the parser uses: literals have their character code, declared numbers are kept, error is 256 and all others are distinct from 257 up. -d, -H, -i, -r, -b, -o, -p, -P, -l, -L, -s, -t and the %-directives equivalent to them write the documented files under the documented names, compile together (also two differently prefixed parsers in one program), and leave the parsing behaviour unchanged.",
  ["programs", "configurations", "inputs"], "all option combinations and grammars",
  BT + "each option is tried on one or two grammars and the result is not compiled.",
  ["byacc/main.c", "byacc/output.c", "byacc/reader.c", "byacc/symtab.c"], [("option handling", "main.c"), ("header and externs output", "output.c"), ("token numbering", "reader.c pack_symbols")], (), ["generated files, compilation, behaviour of the linked program"])
p("B10", "byacc's #line directives are exact",
  "Every #line directive in the generated code gives the file and line on which the following text really is, in the grammar file for copied code and in the output file for generated code, so that compilers and debuggers report true positions. With -l there are none.",
  ["programs", "configurations"], "all grammars and layouts of declarations, actions and trailing code",
  BT + "stored outputs pin the numbers for fixed layouts only.",
  ["byacc/reader.c", "byacc/output.c"], [("line directives", "reader.c, output.c write_input_lineno/write_code_lineno")], [("outline", "current line of the output file", "output.c")], ["__LINE__ and __FILE__ evaluated in compiled code; directive positions"])
p("B11", "The naked grammar (-n) is an equivalent grammar",
  "The grammar that -n writes is accepted by byacc, has the same start symbol, tokens, precedences and rules in the same order, and yields the same conflicts and the same language as the original without its actions.",
  ["programs"], "all grammars",
  BT + "no test uses -n.",
  ["byacc/reader.c"], [("print_grammar_naked", "reader.c")], (), ["re-parse of the emitted grammar and comparison of automata"])
p("B12", "The lemon grammar (-E) is an equivalent grammar",
  "For a grammar without error tokens and mid-rule actions, the file written by -E is accepted by this repository's lemon and has the same tokens, rules and conflicts (and a start rule of its own if the start symbol is used in a rule); the lemon parser built from it accepts exactly the same token sequences. Precedences are carried over, so that with lemon's yacc-precedence mode ambiguous grammars are resolved as by byacc, except where lemon's rules differ (reduce/reduce conflicts between rules with precedences).",
  ["programs", "inputs"], "all grammars",
  "The README shows it on a single grammar; no test covers -E.",
  ["byacc/reader.c", "lemon/lemon.c"], [("print_grammar_lemon", "reader.c")], (), ["lemon run on the output, compiled lemon parser against the byacc parser"])
p("B13", "byacc's SQL export (-S) is valid SQL describing exactly the grammar",
  "The file written by -S loads without errors into SQLite and its tables contain exactly the grammar's symbols, precedences, rules with their right-hand sides in order, explicit %prec marks and start symbol. Its grammar_view reproduces an equivalent grammar.",
  ["programs"], "all grammars",
  "No test covers -S.", ["byacc/reader.c"], [("print_grammar_sql", "reader.c")], (), ["the file loaded into SQLite"])
p("B14", "byacc's EBNF export (-e) lists exactly the grammar's rules",
  "The file written by -e contains one definition per nonterminal, in order, whose alternatives are exactly that nonterminal's rules with their symbols in order (mid-rule actions left out) and tokens spelled as in the grammar.",
  ["programs"], "all grammars",
  "No test covers -e.", ["byacc/reader.c"], [("print_grammar_ebnf", "reader.c")], (), ["the emitted EBNF, parsed back"])
p("B15", "byacc survives any input text",
  "For any byte sequence given as a grammar and any options, byacc terminates with exit status 0, 1 or 2 without reading or writing outside its memory, without undefined behaviour and without looping. Status 0 means that the output is complete; a nonzero status comes with a diagnostic on standard error that names the line of the error when it is a grammar error.",
  ["inputs", "configurations"], "all byte sequences as grammar, all option combinations",
  BT + "about 30 fixed erroneous grammars are tried, none under a sanitizer.",
  ["byacc/reader.c", "byacc/error.c", "byacc/main.c", "byacc/output.c", "byacc/symtab.c", "byacc/mstring.c"], [("lexing and directive parsing", "reader.c"), ("diagnostics", "error.c")], (), ["exit status, stderr, sanitizer reports, termination"])
p("B16", "byacc never reports success with missing or truncated output",
  "If an output, header, report or temporary file cannot be created or a write to it fails, or the input cannot be read, byacc exits nonzero with a message; it never exits 0 with incomplete files. Temporary files are removed on every exit and files it was not asked to write are left alone.",
  ["fault_sequences", "configurations"], "all I/O failure points, all output options",
  BT + "no test injects an I/O failure.",
  ["byacc/main.c", "byacc/output.c", "byacc/error.c"], [("file creation and done()", "main.c"), ("exit handling", "main.c done")], (), ["exit status and directory contents under injected I/O failures"])
p("B17", "byacc's output depends on nothing but its input and options",
  "Running byacc again on the same grammar and options gives byte-identical files, whatever the environment, memory contents, working directory or temporary directory.",
  ["configurations", "histories"], "all grammars, options and environments",
  "Each test runs the generator once in one environment.",
  ["byacc/main.c", "byacc/symtab.c", "byacc/output.c"], [("ordering of symbols and states", "symtab.c, lr0.c, reader.c")], (), ["byte comparison of outputs"])
p("B18", "Equivalent spellings of a grammar give the same parser",
  "Layout, comments and synonymous notation (alternatives or repeated left-hand sides, alternative directive spellings, literal escapes denoting the same character, redundant declarations, optional semicolons) do not change the parser byacc generates.",
  ["programs"], "all grammars and rewritings of their text",
  "The tests contain few layouts and no pairs that ought to agree.",
  ["byacc/reader.c"], [("scanner: comments, identifiers, literals, numbers, directives", "reader.c")], (), ["generated tables of both spellings"])
p("B19", "The debug trace tells what the parser does",
  "In a parser built with -t, the trace printed with yydebug set lists exactly the tokens read, shifts, reductions, error recovery steps and states the parser goes through, with the right names and numbers, and tracing changes nothing else.",
  ["programs", "inputs"], "all grammars and inputs",
  "No test runs a parser with tracing.",
  ["byacc/btyaccpar.c", "byacc/yaccpar.c", "byacc/output.c"], [("YYDEBUG code, yyname and yyrule tables", "skeletons, output.c output_debug")], (), ["trace lines compared with the automaton's run"])
p("B20", "byacc reports ill-formed grammars at their line, and only those",
  "A grammar with a syntax error, an unterminated comment, string, action or union, an undefined symbol, a bad $-reference or @-reference, a conflicting or malformed declaration makes byacc print a message naming the input file, the line of the mistake and, for syntax errors, the source line; an error makes the exit status nonzero and a warning leaves it zero with the output written. A well-formed grammar draws no message, whatever its layout.",
  ["programs", "configurations"], "all grammars with one mistake, at any place, in any layout",
  BT + "the error tests sample some thirty messages, each in one file.",
  ["byacc/reader.c", "byacc/error.c"], [("messages", "error.c"), ("line bookkeeping around comments, strings and actions", "reader.c nextc/skip_comment/copy_action/copy_union")], (), ["messages on stderr, exit status, files written"])
p("B21", "The Carburetta (-c), UniCC (-C) and quoted (-N) grammars describe the grammar",
  "For grammars whose symbol names stay distinct in the target's spelling, the files of -c, -C and -N list every rule once, in order, under one definition per nonterminal (-N: in the order of the grammar), with the same symbols and %prec marks; -C and -N the same precedences and start symbol; -c declares every token and nonterminal exactly once, under the name the rules use; -N puts the named tokens, and nothing else in a rule, in angle brackets. Actions, also in mid-rule, leave no trace.",
  ["programs"], "all grammars",
  BT + "no test uses -c, -C or -N.",
  ["byacc/reader.c"], [("print_grammar_carburetta, print_grammar_unicc, print_grammar_nakedQ", "reader.c")], (), ["re-parse of the emitted files and comparison with the grammar"])
p("B22", "byacc's command line selects what it writes and where",
  "For every command line and directory tree, byacc writes exactly the parser and the files its options select (-d, -H, -i, -r, -v, -g, -e, -E, -n, -N, -S, -c, -C) and touches no other file. Their names are -o's or the prefix's (-b, y by default; -o's without .tab.c or .c) with the documented suffix, and -o's .c gives .h and .i. Options may be clustered, glued to their argument or not, long, in any order and position; the last of a kind wins; -- ends them and - reads the standard input. Their contents do not depend on where they are written, up to the file names in them. -V prints the version, -h and every mistake (unknown option, missing or unwanted argument, no or several grammars) the usage, with status 1 and no file; no temporary file stays.",
  ["configurations"], "all command lines, all trees of grammars and output directories",
  BT + "some forty fixed command lines are tried, in one directory.",
  ["byacc/main.c"], [("command line", "main.c getargs/setflag"), ("output names", "main.c create_file_names"), ("usage", "main.c usage")], (), ["exit status, messages, standard output and the directory tree before and after"])
# ---------------------------------------------------------------- lemon
p("L01", "lemon parsers recognise exactly the grammar's language",
  "For every grammar without conflicts that lemon accepts, the generated parser calls %parse_accept and never %syntax_error on each sentence of the grammar, and %syntax_error on every other token sequence. On a sentence it executes the reductions of the rightmost derivation in reverse order, each exactly once (rules without code excepted); on a non-sentence %syntax_error is called upon the first token that cannot continue any sentence, with that token.",
  ["programs", "inputs"], "all conflict-free grammars, all token sequences",
  LT + "the property ranges over all grammars and inputs.",
  ["lemon/lemon.c", "lemon/lempar.c"], [("state construction", "lemon.c FindStates/buildshifts"), ("follow sets", "lemon.c FindFollowSets"), ("default reductions and SHIFTREDUCE", "lemon.c CompressTables"), ("action table packing", "lemon.c acttab_*"), ("driver", "lempar.c")], (), ["reductions, callbacks"])
p("L02", "lemon finds, counts and resolves conflicts by the documented rules",
  "lemon reports exactly the parsing conflicts of the LALR(1) automaton that precedence leaves, and exits nonzero exactly when their number differs from %expect or there are errors. The parser resolves them as documented: higher precedence wins, equal precedence follows associativity (%left reduces, %right shifts, %nonassoc is an error), otherwise shift is preferred and between reductions the earlier rule, unless their precedences differ; a rule's precedence is its [TOKEN] mark or its first terminal with a precedence. With -z or %yacc_prec it is the last terminal's, and with -u precedences are ignored.",
  ["programs", "inputs", "configurations"], "all grammars and precedence declarations, all inputs, with -u, -z, %yacc_prec, %expect",
  LT + "the README shows counts for one grammar.",
  ["lemon/lemon.c"], [("conflict resolution", "lemon.c resolve_conflict/FindActions"), ("rule precedence", "lemon.c FindRulePrecedences")], (), ["conflict counts, exit status, reductions of the generated parser"])
p("L03", "lemon's options never change what the parser does",
  "-c, -r, -l, -m, -q, -s, -p, -d and -T change the tables' encoding, the reports or the file locations as documented, and never the sequence of actions, the values, the destructor calls and the callbacks of the generated parser on any input; only -c, which drops default reductions, may leave out reductions that otherwise happen on the way to a syntax error.",
  ["configurations", "programs", "inputs"], "all option combinations, grammars and inputs",
  LT + "nothing compares two configurations.",
  ["lemon/lemon.c", "lemon/lempar.c"], [("CompressTables, ResortStates, acttab", "lemon.c")], (), ["event logs of parsers generated with different options"])
p("L04", "lemon actions see the right values",
  "In every action the label of a right-hand-side symbol denotes that symbol's value (and @label its token code), the label of the left-hand side sets the value of the new nonterminal, with the declared types, and %extra_argument and %extra_context variables denote what the caller passed. Misused labels (never used, duplicated, sharing a label with different types) are reported as errors.",
  ["programs", "inputs"], "all rules, labels, types and inputs",
  LT + "no value ever flows through a generated parser.",
  ["lemon/lemon.c", "lemon/lempar.c"], [("translate_code", "lemon.c"), ("print_stack_union", "lemon.c")], (), ["values printed by actions"])
p("L05", "lemon destructors run exactly once for each discarded value",
  "For every input and every point at which parsing is abandoned, each value pushed on the stack is either referenced by an action or passed to its symbol's destructor (%destructor, %token_destructor, %default_destructor) exactly once, and no value is destroyed twice. This includes error recovery, stack overflow, parse failure, unlabelled right-hand-side symbols and freeing the parser early. (The accepted start symbol's value and the token on whose arrival the stack overflows are the caller's.)",
  ["programs", "inputs", "histories"], "all destructor declarations, all inputs, all points of abandonment",
  LT + "destruction is a run-time fact.",
  ["lemon/lempar.c", "lemon/lemon.c"], [("yy_pop_parser_stack, yy_destructor", "lempar.c"), ("destructor code for unlabelled symbols", "lemon.c translate_code")], (), ["allocation and destruction events"])
p("L06", "lemon parsers follow the documented error recovery",
  "After a syntax error a parser with an error symbol reports it through %syntax_error unless it is still recovering, pops the stack to a state that can shift the error symbol and resumes, discarding tokens that cannot follow; when none is left %parse_failure is called. Without an error symbol it reports the error, discards the offending token and fails only at the end of input; with YYNOERRORRECOVERY it reports and discards only.",
  ["programs", "inputs"], "all grammars with and without the error symbol, all inputs",
  LT + "recovery happens only at run time.",
  ["lemon/lempar.c", "lemon/lemon.c"], [("error handling in Parse()", "lempar.c")], [("yyerrcnt", "shifts until errors are reported again", "lempar.c")], ["callbacks and actions per token"])
p("L07", "lemon stacks are bounded or grow safely and parsers are independent",
  "However deep the input nests, the parser either continues correctly or, at its configured limit or when memory runs out, empties the stack and calls %stack_overflow; it never accesses memory outside the stack. The reported stack peak is the true maximum depth, several parsers may be interleaved or run in different threads without affecting one another, and the parser can be used again after any outcome.",
  ["inputs", "fault_sequences", "schedules", "histories"], "all depths, stack sizes, allocation failures, interleavings and thread schedules",
  LT + "no parser is ever run.",
  ["lemon/lempar.c"], [("yyGrowStack, yyStackOverflow", "lempar.c"), ("ParseInit/ParseFinalize/ParseAlloc/ParseFree", "lempar.c")], (), ["sanitizer reports, callbacks, stack peak"])
p("L08", "%fallback, %wildcard, %token_class and A|B match as documented",
  "A token with a fallback is treated as the fallback exactly where it cannot be used as itself, a wildcard matches any token that has no other use in that state, and a token class or A|B matches exactly its members. Everything else behaves as if the declarations were absent (chained fallbacks and combinations with %nonassoc excepted), and %token/%fallback/-classes keep each token's own code and value.",
  ["programs", "inputs"], "all grammars using these declarations, all inputs",
  LT + "these features act in the generated parser at run time.",
  ["lemon/lemon.c", "lemon/lempar.c"], [("yyFallback, YYWILDCARD lookups", "lempar.c yy_find_shift_action"), ("multi-terminals", "lemon.c buildshifts")], (), ["actions and callbacks"])
p("L09", "lemon's conditional directives select exactly the enabled text",
  "With any set of -D macros, lemon processes exactly the lines enabled by %ifdef, %ifndef, %if, %else and %endif (nested, with !, &&, || and parentheses evaluated as in C), all others are ignored and line numbers are kept; -E prints exactly that text. Malformed or unbalanced conditionals are errors.",
  ["programs", "configurations"], "all nestings, expressions and macro sets",
  LT + "no conditional is ever exercised.",
  ["lemon/lemon.c"], [("preprocess_input, eval_preprocessor_boolean", "lemon.c")], (), ["-E output and generated parser against a reference preprocessor"])
p("L10", "lemon's grammar reprints are equivalent grammars",
  "The grammar printed by -g is accepted by lemon and has the same tokens, precedences, rules and conflicts as the original; those printed by -y and -Y are accepted by this repository's byacc and have the same tokens, precedences, start symbol and rules, with token classes written out and, in -Y, every rule's precedence marked; without classes, fallbacks, wildcards and error symbols byacc -z finds as many conflicts in the -Y grammar as lemon in the original.",
  ["programs", "inputs"], "all grammars",
  "The README shows one grammar; no test covers them.",
  ["lemon/lemon.c", "byacc/reader.c"], [("Reprint, Reprint_yacc, Reprint_tokens", "lemon.c")], (), ["re-parse by lemon and byacc, comparison of automata and behaviour"])
p("L11", "lemon's SQL export (-S) is valid SQL describing exactly the grammar",
  "The file written by -S loads without errors into SQLite and its tables contain exactly the grammar's symbols with fallbacks, precedences, rules with their right-hand sides in order, explicit precedence marks, start symbol, wildcard and stack size. Its grammar_view reproduces an equivalent grammar.",
  ["programs"], "all grammars", LT + "the SQL is never loaded.",
  ["lemon/lemon.c"], [("ReportSQL", "lemon.c")], (), ["the file loaded into SQLite"])
p("L12", "lemon survives any input text",
  "For any byte sequence given as a grammar and any options, lemon terminates without reading or writing outside its memory, without undefined behaviour, assertion failures or looping, and exits 0 or 1. Status 0 means that the parser was generated; a nonzero status comes with a message, which names the file and line when the error is at a particular place of the grammar.",
  ["inputs", "configurations"], "all byte sequences as grammar, all option combinations",
  LT + "malformed grammars are never tried.",
  ["lemon/lemon.c"], [("Parse, parseonetoken", "lemon.c"), ("ErrorMsg", "lemon.c")], (), ["exit status, stderr, sanitizer reports, termination"])
p("L13", "lemon's #line directives are exact",
  "Every #line directive in the generated parser gives the file and line on which the following text really is, in the grammar for user code and in the output file for generated code. With -l there are none.",
  ["programs", "configurations"], "all grammars and layouts",
  LT + "line numbers are never checked.",
  ["lemon/lemon.c"], [("tplt_linedir, emit_code, tplt_print", "lemon.c")], (), ["__LINE__ evaluated in compiled code; directive positions"])
p("L14", "lemon's report, statistics and header describe the generated parser",
  "The .out report lists exactly the states, configurations and actions of the automaton, with resolved and unresolved conflicts marked, and the symbols with their first sets; -s prints true counts. The header enumerates exactly the terminals with the codes the parser uses, honouring %token_prefix.",
  ["programs", "configurations"], "all grammars",
  LT + "reports are never read.",
  ["lemon/lemon.c"], [("ReportOutput, ReportHeader, PrintAction", "lemon.c")], (), ["*.out, -s output, *.h"])
p("L15", "lemon's output depends only on the grammar and options, not on its spelling",
  "Running lemon again gives byte-identical files whatever the environment and memory contents, and layout and comments do not change the generated parser. %name, %token_prefix, %stack_size, %start_symbol and the type directives have exactly their documented effect, also with several parsers in one program.",
  ["programs", "configurations"], "all grammars, spellings and environments",
  LT + "nothing compares two runs.",
  ["lemon/lemon.c", "lemon/lempar.c"], [("tplt_xfer renaming", "lemon.c"), ("symbol ordering", "lemon.c Symbolcmpp")], (), ["byte comparison; linked programs"])
p("L16", "lemon never reports success with missing or truncated output",
  "If the template, the grammar or an output file cannot be opened or written, lemon exits nonzero with a message; it never exits 0 with incomplete files.",
  ["fault_sequences", "configurations"], "all I/O failure points", LT + "no failure is ever injected.",
  ["lemon/lemon.c"], [("file_open, tplt_open", "lemon.c")], (), ["exit status and files under injected I/O failures"])
p("L17", "lemon's trace and coverage facilities tell what the parser does",
  "With ParseTrace enabled the trace lists exactly the tokens, shifts, reductions (with the right rule and state), pops and errors the parser goes through, with the right names, and tracing changes nothing else. ParseFallback returns each token's declared fallback. In a parser compiled with YYCOVERAGE, ParseCoverage lists exactly the combinations of state and lookahead that have an action of their own, marks those that the parser has met, and returns the number of the others.",
  ["programs", "inputs"], "all grammars and inputs", LT + "no parser is ever traced.",
  ["lemon/lempar.c", "lemon/lemon.c"], [("yyTraceFILE code, yyTokenName, yyRuleName", "lempar.c")], (), ["trace lines compared with the events observed"])
p("L18", "lemon reports ill-formed grammars at their line, and only those",
  "A grammar with a syntax error, an unterminated comment, string or code block, an incomplete last rule, a conflicting or malformed declaration, a misused label, a nonterminal without rules, a rule that cannot be reduced or a bad %if makes lemon print a message that names the file, the line of the mistake and the symbol concerned, and exit with status 1. A well-formed grammar is accepted without any message, whatever its layout.",
  ["programs", "configurations"], "all grammars with one mistake, at any place, in any layout",
  LT + "no message is ever provoked.",
  ["lemon/lemon.c"], [("parser of the grammar file", "lemon.c parseonetoken"), ("scanner and its line count", "lemon.c Parse"), ("conditionals", "lemon.c preprocess_input"), ("labels", "lemon.c translate_code"), ("rules", "lemon.c Configlist_closure/FindActions")], (), ["messages on stderr, exit status"])
p("L19", "lemon's command line selects what it writes and where",
  "For every command line and directory tree, lemon writes exactly the .c file and, unless -m, -q or the absence of -S says otherwise, the .h, .out and .sql files, named after the grammar file without its extension, beside it or in the directory of the last -d, and touches no other file (with -E and -x none at all). Options count in any order and position, the last of a kind wins (-D adds up), +f undoes -f, strings are glued (-dDIR) or assigned (d=DIR), -f, -I, -O and -W are ignored and -- ends the options. The template is that of -T or else the first of the grammar's .lt file, ./lempar.c and the lempar.c beside the executable or in PATH. Unknown options, missing or unwanted arguments and any number of grammars but one give a message that points at the argument, status 1 and no file.",
  ["configurations"], "all command lines, all trees of grammars, output directories and templates",
  LT + "no command line is ever tried.",
  ["lemon/lemon.c"], [("command line", "lemon.c OptInit/handleflags/handleswitch"), ("output names", "lemon.c file_makename"), ("template", "lemon.c tplt_open/pathsearch")], (), ["exit status, messages, standard output and the directory tree before and after"])
p("X01", "byacc and lemon agree on equivalent grammars",
  "For the same rules and precedences, byacc and lemon (with corresponding precedence modes) report the same numbers of conflicts and their parsers accept the same sentences with the same reductions and find an error at the same token. The corresponding modes are byacc -z and lemon, byacc and lemon -z, and -u in both (only without -z, a reduce/reduce conflict between rules of different precedence is resolved by precedence in lemon and by rule order in byacc). Converting a grammar to the other tool's notation and back preserves it.",
  ["programs", "inputs"], "all grammars expressible in both",
  "The README documents one grammar's counts; nothing compares the tools.",
  ["byacc/mkpar.c", "byacc/reader.c", "lemon/lemon.c"], [("both generators", "byacc/, lemon/lemon.c")], (), ["counts and behaviour of both generated parsers"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
