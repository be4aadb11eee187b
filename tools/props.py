import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))
N7="The repository has 7 unit tests: 4 sample a handful of NFAs on single inputs, 3 sample the bootstrap parser's character rule."
p("C01","The token automaton accepts exactly the token language",
"For every set of token rules, the deterministic automaton built from them recognises a string as token T exactly when the string belongs to the language of T's literal or regular-expression pattern (sequence, alternative, character set, negated set, range, and every bounded or unbounded repetition {n,m}). This holds for every string over all Unicode scalar values, with every character mapped into exactly one class of the generated alphabet. Building the automaton terminates without a crash.",
["inputs","configurations"],"all token patterns (operator nestings and bounds) x all strings of Unicode characters",
N7+" They replay a few strings on four repetition patterns, with a two-character alphabet.",
["lapex-lexer/src/alphabet.rs","lapex-lexer/src/nfa/mod.rs","lapex-automaton/src/lib.rs","lapex-lexer/src/lib.rs"],
[("alphabet partition","lapex-lexer/src/alphabet.rs generate_alphabet/find_range"),("Thompson construction","lapex-lexer/src/nfa/mod.rs build_nfa_from_pattern"),("subset construction","lapex-automaton/src/lib.rs powerset_construction")],
["generate_alphabet","generate_nfa","powerset_construction","apply_precedence_to_dfa"])
p("C02","Overlapping tokens are resolved by precedence, exact ties are rejected",
"When one string matches several token rules, the rule with the highest precedence wins: the explicit [n] if given, otherwise twice the number of characters for a literal, and for a regular expression 1 per character or class, summed over sequences, the minimum over alternatives and the lower bound times the inner value for repetitions. If and only if some string is matched by two or more rules that share the highest precedence among its matches, generation fails with a precedence error that names exactly such a group of tied rules and their precedence. The order in which the rules are written never changes the outcome.",
["inputs","configurations"],"all token rule sets, all permutations of them, all strings",
N7+" None exercises two overlapping rules.",
["lapex-lexer/src/lib.rs","lapex-input/src/lib.rs"],
[("resolve_precedence / apply_precedence_to_dfa","lapex-lexer/src/lib.rs"),("TokenRule::precedence, Pattern::precedence","lapex-input/src/lib.rs")],
["apply_precedence_to_dfa","PrecedenceError","lapex-cli generate"])
p("C03","The generated Rust lexer tokenizes every text correctly",
"For every grammar and every UTF-8 text without U+0000, the generated Rust lexer repeatedly reads the longest text that is still a prefix of some token and returns the highest-precedence token that this text matches; span() and slice() give exactly the byte range and text of that token, and consecutive tokens are adjacent. At the end of the text it returns end-of-file with an empty slice; if the longest viable prefix is not a token, or the next character can start none, it returns an error at that point. It never panics, loops or skips characters.",
["inputs","configurations"],"all token rule sets x all texts, including multi-byte characters and any token length",
"No test runs a generated lexer at all.",
["lapex-rust-codegen/src/lexer/mod.rs","lapex-rust-codegen/src/lib.rs","lapex-lexer/src/lib.rs"],
[("state machine match arms","lapex-rust-codegen/src/lexer/mod.rs write_lexer"),("token enum","lapex-rust-codegen/src/lexer/mod.rs write_token_enum")],
["Lexer::next","Lexer::span","Lexer::slice"])
p("C04","The generated C++ lexer tokenizes every text correctly",
"For every grammar and every UTF-8 text without U+0000, the generated C++ lexer repeatedly reads the longest text that is still a prefix of some token and returns the highest-precedence token that this text matches, with start() and end() giving its code-point range in the text; it returns TK_EOF at the end and TK_ERR where the longest viable prefix is not a token. Bytes that are not well-formed UTF-8 (overlong, surrogate, out of range, truncated, stray continuation) yield TK_ERR and never a token. get_token_name returns the name of each token.",
["inputs","configurations"],"all token rule sets x all byte sequences",
"No test runs a generated C++ lexer at all.",
["lapex-cpp-codegen/src/lexer/mod.rs","lapex-cpp-codegen/src/lexer/lexer.cpp.tpl","lapex-cpp-codegen/src/lexer/tokens.h.tpl","lapex-codegen/src/templating.rs"],
[("alphabet and automaton switches","lapex-cpp-codegen/src/lexer/mod.rs"),("utf8_decode","lapex-cpp-codegen/src/lexer/lexer.cpp.tpl")],
["lexer::Lexer::next","lexer::Lexer::start/end","lexer::get_token_name"])
p("C05","A regex in a grammar file means that regular expression",
"A token written as /regex/ in a grammar file matches exactly the strings that the regular expression denotes: classes and negated classes, ranges, escapes such as \\n \\t \\\\ \\/ \\d \\w \\s \\x41 \\u{1F600}, dot (any character but newline), groups, alternation and greedy * + ? {n} {n,} {n,m}, for any nesting and any Unicode character. A literal \"text\" matches exactly its text. Constructs that a token cannot express (lazy repetition, anchors and word boundaries, malformed syntax) are refused when the grammar is read rather than misread.",
["inputs","programs"],"all regular expressions the grammar format allows x all strings",
"No test feeds a regex through the grammar reader; the bootstrap tests read single characters only.",
["lapex-input-gen/src/lib.rs","lapex-lexer/src/nfa/mod.rs","lapex-lexer/src/alphabet.rs"],
[("make_pattern_from_hir","lapex-input-gen/src/lib.rs"),("get_regex_pattern / get_unescaped_chars","lapex-input-gen/src/lib.rs"),("build_nfa_from_pattern","lapex-lexer/src/nfa/mod.rs")],
["GeneratedLapexInputParser::parse_lapex","DFA of the token"])
p("C06","Expanding EBNF operators preserves language and structure",
"For every set of productions using sequence, alternative (|), optional (?), zero-or-more (*), one-or-more (+), groups and ! (empty), the plain context-free grammar that parser construction works on derives exactly the same token strings from every production as the written patterns do. Every expanded rule is attributed to the written production it came from, no two constructs share a helper symbol, and the name of every token and production is preserved.",
["programs","inputs"],"all production sets (operator nestings) x all token strings",
"No test builds a grammar from a rule set.",
["lapex-parser/src/grammar_builder.rs","lapex-parser/src/grammar.rs"],
[("transform_pattern","lapex-parser/src/grammar_builder.rs"),("helper symbols get_temp_symbol","lapex-parser/src/grammar_builder.rs")],
["Grammar::from_rule_set","Grammar::rules"])
p("C07","LL(1) generation succeeds exactly on LL(1) grammars, with the right table",
"LL(1) generation succeeds for exactly the grammars in which, for every production symbol, no lookahead token (end of input included) selects two alternatives, judged by FIRST sets and, for nullable alternatives, FOLLOW sets; otherwise it fails and reports a real conflicting pair. When it succeeds, the table maps each (production symbol, lookahead) to the one alternative that FIRST/FOLLOW selects and to nothing otherwise, so that predictive parsing with it accepts exactly the language of the grammar.",
["programs","inputs"],"all grammars x all token strings",
"lapex-parser has no tests (ll_parser/tests.rs is empty).",
["lapex-parser/src/ll_parser/mod.rs","lapex-parser/src/util.rs","lapex/src/lib.rs"],
[("compute_first_sets","lapex-parser/src/util.rs"),("compute_follow_sets / generate_table","lapex-parser/src/ll_parser/mod.rs")],
["ll_parser::generate_table","lapex-cli generate -a ll1"])
p("C08","LR(0), LALR and LR(1) generation refuse exactly the conflicting grammars",
"Generation for lr0, lalr and lr1 succeeds if and only if the grammar's LR(0), LALR(1) (canonical LR(1) states merged by core) or canonical LR(1) automaton respectively has no shift/reduce and no reduce/reduce conflict. When it refuses, every reported conflict is a real one: the named item or items are complete in a state where the named token could also be shifted, or where they compete for the same lookahead. GLR generation is never refused because of conflicts.",
["programs"],"all grammars",
"lapex-parser has no tests.",
["lapex-parser/src/lr_parser/mod.rs","lapex-parser/src/lr_parser/item.rs","lapex-parser/src/util.rs","lapex/src/lib.rs"],
[("find_conflicts","lapex-parser/src/lr_parser/mod.rs"),("LALR state merging","lapex-parser/src/lr_parser/mod.rs merge_into_state"),("closure and lookaheads","lapex-parser/src/lr_parser/mod.rs expand_item")],
["lr_parser::generate_table","lapex-cli generate exit status and messages"])
p("C09","LR tables drive exactly the language of the grammar",
"Running the action/goto table that lapex builds (LR(0), LALR or LR(1)) as a shift-reduce parser accepts exactly the token strings the grammar derives, always terminates (for LR(0): on grammars in which every production derives some string), and its reductions are the rightmost derivation of the input in reverse. For GLR, where conflicts are kept, the set of successful runs of the table on a string corresponds one to one to its derivations, so no parse is lost and none is invented.",
["programs","inputs"],"all grammars x all token strings x all nondeterministic runs of the table",
"lapex-parser has no tests.",
["lapex-parser/src/lr_parser/mod.rs","lapex-parser/src/lr_parser/item.rs","lapex-parser/src/lr_parser/bidimap.rs","lapex-parser/src/util.rs"],
[("generate_parser_graph","lapex-parser/src/lr_parser/mod.rs"),("build_table","lapex-parser/src/lr_parser/mod.rs")],
["lr_parser::generate_table","ActionGotoTable::get_entry"])
p("C10","Generated Rust LR parsers accept the language and report its derivation",
"For every grammar that lr0, lalr or lr1 generation accepts, the generated Rust parser compiles and returns Ok for exactly the token strings (ended by end-of-file) that the grammar's EBNF productions derive; it always terminates (for lr0: if every production derives some string). Its visitor calls are the rightmost derivation in reverse: one shift per input token in order with that token's type and data, and for each reduction the callback of the rule whose symbols were just completed; on success it has requested exactly the tokens and one end-of-file.",
["programs","inputs","histories"],"all grammars x all token sequences",
"No test generates, compiles or runs a parser.",
["lapex-rust-codegen/src/lr_parser/mod.rs","lapex-rust-codegen/src/lib.rs","lapex-parser/src/lr_parser/mod.rs"],
[("actions, gotos and reductions","lapex-rust-codegen/src/lr_parser/mod.rs"),("visitor trait and rule visits","lapex-rust-codegen/src/lr_parser/mod.rs write_visitor/make_rule_visits")],
["Parser::parse","Visitor::shift","Visitor::reduce_*"])
p("C11","Generated Rust GLR parsers accept every sentence and report one derivation",
"For every grammar without cycles and hidden left recursion, ambiguous or not, the generated Rust GLR parser compiles, terminates, and returns Ok for exactly the token strings the grammar derives. When it returns Ok its visitor calls form one complete valid rightmost derivation in reverse of that input, each token shifted exactly once in order with its own data and no call of an abandoned alternative included; for an unambiguous string it is the only derivation.",
["programs","inputs","histories"],"all (also ambiguous) grammars x all token sequences",
"No test generates, compiles or runs a parser.",
["lapex-rust-codegen/src/glr_parser/mod.rs","lapex-parser/src/lr_parser/mod.rs","lapex/src/lib.rs"],
[("apply_reduces / apply_reduce","lapex-rust-codegen/src/glr_parser/mod.rs"),("graph-structured stack and recorded visits","lapex-rust-codegen/src/glr_parser/mod.rs mod gss")],
["Parser::parse","Visitor::shift","Visitor::reduce_*"])
p("C12","Generated C++ LR parsers accept the language and report its derivation",
"For every grammar that lr0, lalr or lr1 generation accepts, the generated C++ parser compiles and parse() returns normally for exactly the token strings (ended by TK_EOF) that the grammar derives, and throws otherwise; it always terminates (for lr0: if every production derives some string). Its visitor calls are the rightmost derivation in reverse: one shift per input token in order with that token's type and data, and for each reduction the callback of the rule whose symbols were just completed; on success it has requested exactly the tokens and one end-of-file.",
["programs","inputs","histories"],"all grammars x all token sequences",
"No test generates, compiles or runs a parser.",
["lapex-cpp-codegen/src/lr_parser/mod.rs","lapex-cpp-codegen/src/lr_parser/action_goto.rs","lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl","lapex-cpp-codegen/src/lr_parser/parser.cpp.tpl"],
[("action/goto switches","lapex-cpp-codegen/src/lr_parser/action_goto.rs"),("stack reduction and visitor switches","lapex-cpp-codegen/src/lr_parser/mod.rs")],
["parser::Parser<T>::parse","parser::Visitor<T>"])
p("C13","Generated C++ LL(1) parsers accept the language and report its parse tree",
"For every LL(1) grammar the generated C++ LL parser compiles and parse() returns normally for exactly the token strings (ended by TK_EOF) that the grammar derives, and throws otherwise; it always terminates. Its visitor calls are the preorder walk of the parse tree: enter_X and exit_X properly nested around the calls of the symbols X derives, for named productions only, and token() for every token in order with its data, TK_EOF last.",
["programs","inputs","histories"],"all LL(1) grammars x all token sequences",
"No test generates, compiles or runs a parser.",
["lapex-cpp-codegen/src/ll_parser/mod.rs","lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl","lapex-cpp-codegen/src/ll_parser/parser.cpp.tpl","lapex-parser/src/ll_parser/mod.rs"],
[("table switch","lapex-cpp-codegen/src/ll_parser/mod.rs write_table_switch"),("stack machine","lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl")],
["parser::Parser<T>::parse","parser::Visitor<T>"])
p("C14","Syntax errors are reported at the first token that cannot continue a sentence",
"For every grammar in which each production derives some string, and every token sequence that is not a sentence, the generated parsers (Rust LR and GLR, C++ LR and LL) report an error at the first token that cannot continue any sentence (named by the Rust error, and by the C++ message where it names a token): every earlier token has been requested and delivered, the offending token is never shifted and none after it is requested by the Rust LR and C++ parsers. The set of expected tokens in a Rust error never contains the offending token, and for lr1 it is exactly the set of tokens (end-of-file included) that could have come next (for glr the sets of all stacks together, where the lalr automaton of the grammar is its lr1 automaton) and, for lr1, no rule is completed on the offending token; the callbacks before an error are the beginning of a derivation of the tokens before it. A Rust GLR error also carries the offending token's data, and an error from the token source is passed on unchanged.",
["programs","inputs","histories"],"all grammars x all token sequences that are not sentences",
"No test generates, compiles or runs a parser.",
["lapex-rust-codegen/src/lr_parser/mod.rs","lapex-rust-codegen/src/glr_parser/mod.rs","lapex-cpp-codegen/src/lr_parser/action_goto.rs","lapex-cpp-codegen/src/ll_parser/mod.rs"],
[("expected token lists","lapex-rust-codegen/src/lr_parser/mod.rs make_actions"),("combine_errors","lapex-rust-codegen/src/glr_parser/mod.rs"),("error messages","lapex-cpp-codegen/src/lr_parser/action_goto.rs")],
["ParserError","std::runtime_error::what"])
p("C15","The grammar reader yields exactly the rules that are written",
"For every syntactically valid grammar file, reading it yields exactly the written token rules (name, explicit precedence if any, literal or pattern), productions (name, tag if any, and a pattern that denotes the written operators with their precedence: postfix over sequence over |) and the entry, each once and nothing else, independent of spaces, tabs, line breaks and the order of the declarations. Files that do not follow the syntax are rejected, never silently truncated or reinterpreted.",
["inputs","programs"],"all grammar files",
"No test reads a grammar file with the real reader.",
["lapex-input-gen/src/lib.rs","lapex-input-gen/src/lapex.lapex","lapex-input-gen/build.rs"],
[("AST visitor reductions","lapex-input-gen/src/lib.rs"),("grammar of the grammar format","lapex-input-gen/src/lapex.lapex")],
["GeneratedLapexInputParser::parse_lapex"])
p("C16","The bootstrap reader agrees with the written rules",
"For every grammar file in the subset the bootstrap reader supports (names of letters and underscores, single spaces inside rules, regexes of characters, escapes, sets, groups, | * + ? and dot, no precedences, tags or !), it yields exactly the written token rules, productions and entry in file order, with regexes and patterns denoting what is written, and the same rules as the generated reader. Input it does not understand is refused, not partly ignored; a missing or repeated entry is an error.",
["inputs","programs"],"all grammar files of the bootstrap subset",
"Three tests cover a single character rule of it.",
["lapex-input-bootstrap/src/lib.rs"],
[("nom parsers","lapex-input-bootstrap/src/lib.rs")],
["BootstrapLapexInputParser::parse_lapex"])
p("C17","Source positions and diagnostics point at the rule they are about",
"For every grammar file, with any mix of spaces, tabs, line breaks, several rules per line and non-ASCII characters, the source span recorded for each token, production and entry rule selects exactly that rule's text, from its keyword to its semicolon, with 1-based line and column counted in characters. Every LR conflict and precedence diagnostic of the command line shows the line, column and text of the very rules in conflict.",
["inputs","programs"],"all grammar files and layouts",
"No test looks at a span or a diagnostic.",
["lapex-input-gen/src/lib.rs","lapex-input/src/lib.rs","lapex/src/errors.rs"],
[("token positions","lapex-input-gen/src/lib.rs parse_lapex"),("Spanned::between","lapex-input/src/lib.rs"),("SourceSpan::substring","lapex-input/src/lib.rs"),("LapexError","lapex/src/errors.rs")],
["Spanned::span","SourceSpan::substring","stderr of lapex-cli"])
p("C18","Ill-formed grammars are refused and well-formed ones never crash",
"A grammar file in which a pattern names an undeclared symbol, two tokens or a token and a production share a name, the entry is missing, repeated, unknown or a token, or the syntax is wrong, makes the command line fail for every algorithm and language without writing a parser file. Every well-formed grammar (all names declared once, one entry that is a production) is never refused for any of these reasons and never makes the generator crash or run forever, whatever its size and shape (with brackets nested up to some hundred levels), including useless, recursive, nullable and unreachable productions.",
["programs","configurations","inputs"],"all grammar files x algorithms x languages",
"No test runs the generator on a grammar file.",
["lapex-parser/src/grammar_builder.rs","lapex/src/lib.rs","lapex-input-gen/src/lib.rs","lapex-parser/src/lr_parser/mod.rs"],
[("GrammarBuilder::from_rule_set / get_symbol_by_name","lapex-parser/src/grammar_builder.rs"),("generate","lapex/src/lib.rs")],
["lapex-cli exit status and target directory"])
p("C19","The command line does what its options say",
"generate writes the token file, the lexer unless --no-lexer is given, the parser of the chosen algorithm and language, and the table file only with --table for an LR algorithm, all into the --target directory and nowhere else, and exits 0; if the grammar cannot be processed it exits non-zero with a message on stderr. The parser that is written is that of the requested algorithm, and the same command gives byte-identical files when repeated into another directory. debug exits 0 exactly when the source file is a sentence of the grammar.",
["configurations","programs"],"all option combinations x accepted and refused grammars",
"No test runs the command line.",
["lapex-cli/src/main.rs","lapex/src/lib.rs","lapex-codegen/src/lib.rs"],
[("generate / debug commands","lapex-cli/src/main.rs"),("generate_lexer_and_parser","lapex/src/lib.rs"),("GeneratedCodeWriter","lapex-codegen/src/lib.rs")],
["exit status","stderr","files in the target directory"])
p("C20","The --table output describes the automaton of the generated parser",
"The table written with --table lists every grammar rule under a unique number and one row per state with one column per symbol plus end of input, and driving a shift-reduce parser by its entries (s<state>, r<rule>, a, e or blank, c for a conflict) from state 0 gives, on every token string, exactly the outcome and the reductions of the generated parser. Cells marked as conflicts are exactly those where the grammar's LALR automaton has more than one action.",
["programs","inputs"],"all grammars x all token strings",
"No test looks at the table output.",
["lapex-parser/src/lr_parser/mod.rs","lapex/src/lib.rs","lapex-parser/src/grammar.rs"],
[("output_table","lapex-parser/src/lr_parser/mod.rs"),("symbol names","lapex-parser/src/grammar.rs get_symbol_name")],
["file 'table' in the target directory"])
p("C21","Callbacks carry the documented name of the production and its tag",
"In generated Rust parsers a reduction of a named production P calls reduce_P if P has one rule, and otherwise reduce_P_TAG for a rule written with a [TAG] and reduce_P_i, with a distinct number i between 1 and the number of rules of P, for the others; every method belongs to exactly one rule, and the rule shown in its documentation comment is the one whose reduction calls it. In generated C++ LR parsers, which do not use tags, it calls reduce_P, or reduce_P_i with a distinct i from 1 to the number of rules of P. Adding, removing or renaming tags changes neither the accepted language nor any other callback.",
["programs","inputs","histories"],"all grammars with any choice of tags x all sentences",
"No test generates a visitor.",
["lapex-rust-codegen/src/lr_parser/mod.rs","lapex-rust-codegen/src/glr_parser/mod.rs","lapex-cpp-codegen/src/lr_parser/mod.rs"],
[("write_visitor / make_rule_visits","lapex-rust-codegen/src/lr_parser/mod.rs"),("write_visitor / make_rule_visits","lapex-rust-codegen/src/glr_parser/mod.rs")],
["Visitor trait of the generated parser.rs","order of visitor calls"])
p("C22","Generated code is the same for every hash seed and address layout",
"Generating twice from the same grammar with the same options gives byte-identical files and the same diagnostics, whatever the seed of the process's hash maps and the addresses of its allocations.",
["schedules","configurations"],"all orders of iteration of hash maps and sets, all hash keys and memory layouts x all grammars and options",
"A test runs with one seed and layout.",
["lapex-parser/src/lr_parser/mod.rs","lapex-parser/src/lr_parser/item.rs","lapex-codegen/src/templating.rs"],
[("ordered containers at every point that reaches the output","lapex-parser/src/lr_parser/mod.rs")],
["files in the target directory","stdout","stderr","exit status"])
p("C23","A failed write or read is never reported as success",
"Whatever system call of a generate run fails, is cut short or is interrupted, and wherever the disk becomes full: generate exits 0 only if every file it has to write is complete and identical to that of an undisturbed run, and otherwise exits non-zero with a message. Interrupted and short calls that may be retried do not make it fail or change a file. When a run is killed at any point, or fails, running the same command again gives the same files as if nothing had happened.",
["crash_points","fault_sequences","configurations"],"all failures of each open, write and read x all crash points x algorithms and languages",
"No test runs the command line, let alone on a failing file system.",
["lapex-codegen/src/lib.rs","lapex-codegen/src/templating.rs","lapex/src/lib.rs","lapex-cli/src/main.rs"],
[("GeneratedCodeWriter::with_default, generate_code","lapex-codegen/src/lib.rs"),("TemplateWriter::write","lapex-codegen/src/templating.rs"),("generate","lapex-cli/src/main.rs")],
["exit status","stderr","files in the target directory"])
p("C24","Templates and the code writer put each text in its place",
"For every template text, the written output is the template with each placeholder /*{name}*/ (within a line, the name without surrounding white space) replaced by exactly what the substitution registered for that name writes, everything else unchanged and in order; a placeholder without a substitution and a failing write are never reported as success. GeneratedCodeWriter hands what is generated for a file name to the target of that name, or else to a writer made for that name, completely and unmixed with others, and reports every failure.",
["inputs","programs"],"all template texts x all sets of substitutions",
"lapex-codegen has no tests.",
["lapex-codegen/src/templating.rs","lapex-codegen/src/lib.rs"],
[("Template / TemplateWriter","lapex-codegen/src/templating.rs"),("GeneratedCodeWriter","lapex-codegen/src/lib.rs")],
["TemplateWriter::write","GeneratedCodeWriter::generate_code"])
p("C25","The subset construction keeps the language and the labels of an automaton",
"For every nondeterministic automaton with epsilon transitions, the subset construction yields a deterministic automaton that has at most one transition per state and symbol, accepts exactly the same strings, and whose state after a string carries exactly the labels of the accepting states the original can be in after it; it terminates and adds no unreachable state.",
["programs","inputs"],"all nondeterministic automata x all strings",
"lapex-automaton has no tests.",
["lapex-automaton/src/lib.rs"],
[("Nfa::powerset_construction","lapex-automaton/src/lib.rs"),("epsilon closure","lapex-automaton/src/lib.rs")],
["Dfa of Nfa::powerset_construction"])
p("C26","Every name can be used and different names stay apart",
"Whatever names the tokens, productions and tags of a grammar have (letters, digits and underscores, starting with a letter, no keyword of the grammar format; keywords of Rust or C++ and words the generated code uses itself included), the generated lexer and parser compile, every token has a token type of its own with its name in it, every production and tag has callbacks of its own with its name in them, and the names have no influence on the language, the tokens or the order of the callbacks. Names that differ only in case, underscores or digits are different names.",
["programs"],"all choices of names for the symbols and tags of a grammar",
"No test generates code; a collision of identifiers shows only when the generated code is compiled.",
["lapex-rust-codegen/src/lib.rs","lapex-rust-codegen/src/lexer/mod.rs","lapex-rust-codegen/src/lr_parser/mod.rs","lapex-rust-codegen/src/glr_parser/mod.rs","lapex-cpp-codegen/src/lr_parser/mod.rs","lapex-cpp-codegen/src/ll_parser/mod.rs","lapex-cpp-codegen/src/lexer/mod.rs"],
[("get_token_enum_name, get_non_terminal_enum_name, convert_snake_to_upper_camel","lapex-rust-codegen/src/lib.rs"),("write_non_terminal_enum_name, write_visitor_methods","lapex-cpp-codegen/src/lr_parser/mod.rs"),("write_token_enum_variants","lapex-cpp-codegen/src/lexer/mod.rs")],
["TokenType","get_token_name","Visitor","compilation of the generated code"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
