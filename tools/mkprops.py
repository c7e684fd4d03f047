import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
LX=["src/tool/v1/syntaxis_lexer.rs","src/tool/syntaxis/syntaxis_lexer.rs"]
p("C01","Lexers tile the input: text, offsets, lines and indices are exact",
 "For every input string, the tokens produced one after another by either grammar-file lexer (the hand-written one and the v1 one) cover a prefix of the input without gap or overlap: each token's text is exactly the input slice between its byte offsets, the first starts at 0 and each starts where the previous ended. Start/stop line numbers (0-based count of preceding newlines) and columns (bytes since the last newline) agree with those offsets, token indices count 0,1,2,..., the channel is 0, and the token's name is the declared name of its token type.",
 ["inputs"],"all strings (ASCII, multi-byte UTF-8, CR/LF mixes, multi-line tokens, comments, unterminated literals), all token positions in the scan",
 "lexer_test lexes one hard-coded grammar text and only prints the tokens; it asserts nothing about positions, and never has multi-byte text, multi-line tokens or lexical errors.",
 LX+["src/runtime/token.rs","src/runtime/lexer.rs"],[("scan(): slice [cursor..cursor+len], split on newline for the new position","src/tool/v1/syntaxis_lexer.rs:scan, src/tool/syntaxis/syntaxis_lexer.rs:scan")],["SyntaxisLexer::scan","Token fields"],
 [("cursor/position/token_index","how far the lexer has read","SyntaxisLexer")])
p("C02","Grammar lexers apply longest match, earliest rule, per the token definitions",
 "At every position the lexers for grammar files return the token whose definition matches the longest text there, and among equally long matches the one defined first; the definitions are those of the grammar language (identifiers of at least two characters, the six rule separators, operators, quoted string literals with escapes, /.../ regular literals, epsilon, white space, and for the hand-written lexer also comments, 'fragment', '.', '..', '~', '#'). Nothing is ever recognised that no definition matches, and no matching text is rejected.",
 ["inputs"],"all input strings, including overlapping prefixes (: vs := vs ::=, . vs .., epsilon vs identifiers, / vs comments), escapes in literals, and near-miss tokens",
 "The one lexed text in the tests has no ties or near misses and no expected token types are asserted.",
 LX,[("loop over regex_list keeping the strictly longest match","scan()"),("regular expression list in declaration order","SyntaxisLexer::new")],["SyntaxisLexer::scan -> token_type, text"])
p("C03","Scanning ends cleanly: one end marker, errors stop, skipped tokens only",
 "Scanning any input terminates. The v1 lexer, once all input is consumed, yields exactly one end-of-input token (type 1, positioned at the end of the input) and from then on only errors; at a position where no definition matches it reports an error without consuming anything, every later attempt reports it again, and no end marker is produced. Collecting all tokens of channel 0 returns exactly the scanned tokens in order minus white space (and comments for the hand-written lexer), other channels return nothing, and leftover input that could not be lexed is echoed.",
 ["inputs","histories"],"all inputs (empty, blank, erroneous at any point), all sequences of scan / collect-all calls on one lexer",
 "No test scans past the end, scans an erroneous text, an empty text, or asks for another channel.",
 LX+["src/runtime/lexer.rs"],[("cursor past end sentinel and _STOP token","src/tool/v1/syntaxis_lexer.rs:scan"),("skip list","scan_all_on_channel_tokens")],["Lexer::scan","Lexer::scan_all_on_channel_tokens"])
p("C04","Generated lexers compile and recognise exactly what the grammar defines",
 "For every set of token definitions of a grammar, the source text rendered from the lexer template with the collected token data compiles, exposes one constant per token equal to its assigned type, and the compiled lexer tokenises every input by longest match with earliest-definition priority over the written regular expressions, with exact text, byte offsets, lines, indices and names. It ends with exactly one end marker located at the end of the input, stops at the first position where nothing matches, and drops exactly the tokens named WHITE_SPACE when all tokens are collected.",
 ["programs","inputs"],"all token rule lists (1..n rules, with and without a WHITE_SPACE rule, overlapping patterns, escaped slashes, quotes and hashes in patterns) x all inputs of the generated lexer",
 "gen_lexer renders one fixed grammar and asserts nothing; other grammars (for instance without a WHITE_SPACE token) are never generated or compiled.",
 ["src/tool/templates/target/rust/lexer.tera","src/tool/visitor/grammar_visitor.rs","src/tool/visitor/lexer_rule_visitor.rs"],[("template loops over token data; type = position + 2","src/tool/templates/target/rust/lexer.tera"),("SymbolVisitor collects LexerRuleData","src/tool/visitor/grammar_visitor.rs")],["rendered lexer source","Lexer::scan of the compiled result"])
p("C05","Symbols are numbered densely in definition order, lexer data in step",
 "For every grammar without inline string literals, token rules get types 2,3,4,... and parser rules ids 0,1,2,... in order of first definition (the first rule is the start symbol 0), names and ids resolve to each other both ways, and the collected lexer data list has exactly one entry per distinct token, in that order and with that type and name. Re-defining a token or a rule is reported on standard output and changes neither numbering nor the first definition's pattern.",
 ["programs"],"all grammars: any interleaving of parser and token rules, forward references, duplicated definitions, many symbols",
 "ast_loader loads a single grammar whose numbering is only printed, with no duplicate definitions.",
 ["src/tool/visitor/grammar_visitor.rs","src/tool/visitor/lexer_rule_visitor.rs","src/runtime/vocabulary.rs"],[("SymbolVisitor::visit_lexer_rule / visit_parser_rule","src/tool/visitor/grammar_visitor.rs"),("LexerRuleVisitor","src/tool/visitor/lexer_rule_visitor.rs")],["Grammar.vocabulary","SymbolVisitor.data","LexerRuleVisitor.data"])
p("C06","EBNF rewriting preserves the language of every rule",
 "For every grammar, the plain productions built from it generate, for every named rule, exactly the token strings the EBNF text denotes: sequence, alternatives, epsilon, nested parentheses, and the suffixes *, +, ? (and their non-greedy forms *?, +?, ??) on tokens, rules and groups. This holds regardless of how tokens, rules and anonymous groups are numbered or how often the same group or repetition recurs.",
 ["programs"],"all grammars with any nesting of groups and suffixes over tokens and rules, including repeated identical groups/suffixes and coinciding token/rule numbers",
 "grammar_test prints the productions of one grammar, in which no token and rule with the same number both carry a suffix.",
 ["src/tool/visitor/grammar_visitor.rs"],[("fresh anonymous non-terminals with star/plus/question/block caches","ProductionVisitor::visit_element / visit_block")],["Grammar.productions"],
 [("star_cache/plus_cache/question_cache/block_cache","reuse of anonymous non-terminals","ProductionVisitor")])
p("C07","Grammars are closed and their listing is faithful",
 "Every production built from a grammar mentions only symbols registered in its vocabulary, every named rule has exactly its own alternatives, and anonymous symbols never collide with named rules. Printing a grammar lists every production exactly once, one per line ending in ';', with left side, arrow and right-hand symbols separated by blanks so that the set of productions can be read back unambiguously from the text.",
 ["programs"],"all grammars (as C06), including duplicate rules and shared groups",
 "The tests print one grammar and compare nothing.",
 ["src/tool/grammar/mod.rs","src/tool/visitor/grammar_visitor.rs"],[("Display for Grammar","src/tool/grammar/mod.rs"),("ProductionVisitor","src/tool/visitor/grammar_visitor.rs")],["Grammar.productions","format!(\"{}\", grammar)"])
p("C08","FIRST sets and nullability are exact for every grammar",
 "For every grammar, computing first sets terminates and yields, for each non-terminal and for each production's right side, exactly the terminals that can begin a string derived from it and whether it can derive the empty string; nothing is missing and nothing is extra, independently of rule order, recursion (left, right, mutual, hidden) and unreachable or empty rules.",
 ["programs"],"all context-free grammars over the vocabulary, including left-recursive, cyclic, nullable chains, non-productive and unreachable non-terminals; all iteration orders of the production set",
 "first_set_test computes the sets of one grammar without asserting on them.",
 ["src/tool/grammar/mod.rs"],[("fixpoint iteration","Grammar::first_set, get_first_set_for_non_epsilon_rule")],["Grammar::first_set"])
p("C09","FOLLOW sets are exact for every grammar",
 "For every grammar, computing follow sets terminates and yields, for each non-terminal, exactly the terminals that can come directly after it in a sentential form according to the productions, with the end marker (type 1) following the start rule and everything that can end it; nothing is missing, nothing is extra, and epsilon is never a member.",
 ["programs"],"all context-free grammars as in C08, with nullable suffixes of any length, repeated occurrences of a symbol in one production, and grammars without parser rules",
 "follow_set_test computes the sets of one grammar without asserting on them.",
 ["src/tool/grammar/mod.rs"],[("fixpoint over FIRST of the remainder plus FOLLOW of the left side","Grammar::follow_set, get_first_for_string")],["Grammar::follow_set"])
p("C10","LL(1) table is exact and conflicts never go unreported",
 "For every grammar, the predictive table maps (non-terminal, terminal) to a production exactly when that production starts with the terminal, or can be empty and the terminal is in the follow set; every entry is a production of that non-terminal that qualifies. When at most one production qualifies for every cell nothing is printed; when two different productions compete for a cell a conflict notice naming productions is printed, whatever the iteration order.",
 ["programs"],"all grammars, LL(1) or not; all iteration orders of the production set",
 "ll1_table_test prints one table.",
 ["src/tool/grammar/mod.rs"],[("insert and report overwritten entries","Grammar::ll1_table")],["Grammar::ll1_table","standard output"])
p("C11","LL(1) parsers build the right tree for every sentence",
 "For every LL(1) grammar and every sentence of its start rule followed by the end marker, both table-driven parsers return, without any complaint, the syntax tree of the sentence: one node per applied named rule carrying its rule id and name, all tokens as leaves in input order with their data unchanged, and anonymous groups and repetitions flattened into the enclosing named rule.",
 ["programs","inputs"],"all LL(1) grammars (recursion, nested groups, *, ?, epsilon) x all their sentences",
 "parser_test parses one text with one grammar and only draws the tree.",
 ["src/tool/parser/ll1_parser.rs","src/tool/v1/syntaxis_parser.rs"],[("recursive descent over the table, splicing unnamed non-terminals","LL1Parser::parse_ast, SyntaxisParser::parse_ast")],["LL1Parser::parse","v1 SyntaxisParser::parse"])
p("C12","LL(1) parsers never silently accept what the grammar forbids",
 "For every LL(1) grammar and every token sequence, a parser that returns a tree without complaint returned a correct derivation of a prefix of the tokens; when the tokens cannot be derived (a required token is missing or another one stands there, or an optional part or repetition is left at a token that can never follow it) the parser fails or prints a complaint, and it always terminates.",
 ["programs","inputs"],"all LL(1) grammars x all token sequences (mutated sentences, truncations, random sequences)",
 "No test feeds an ill-formed sequence to a parser.",
 ["src/tool/parser/ll1_parser.rs","src/tool/v1/syntaxis_parser.rs"],[("table lookup unwrap and terminal mismatch notice","parse_ast")],["LL1Parser::parse","v1 SyntaxisParser::parse","standard output"])
p("C13","Grammar text is parsed into exactly the structure written",
 "For every grammar text in the grammar language (parser and token rules in any order, any of the six separators, any white-space layout, groups, suffixes, epsilon, string and regular literals), the v1 lexer and v1 parser driven by the tool's own bundled grammar description return the tree that mirrors the text: same rules, alternatives, elements and suffixes in order, with each leaf's text, type and offsets those of the source. Layout and choice of separator do not change the structure.",
 ["programs","inputs"],"all grammar texts of the language and all layouts of the same grammar",
 "parser_test uses a single grammar text and asserts nothing.",
 ["src/tool/v1/syntaxis_lexer.rs","src/tool/v1/syntaxis_parser.rs","src/tool/syntaxis/syntaxis2.json","src/tool/grammar/mod.rs"],[("bundled grammar tree -> table -> parser","src/main.rs:load_ast"),("v1 lexer token types match the bundled grammar's numbering","src/tool/v1/syntaxis_lexer.rs")],["v1 SyntaxisParser::parse"])
p("C14","End to end: grammar text to working parser, including its own grammar",
 "Taking any LL(1) grammar as text through the tool's lexer, parser, symbol and production passes, analysis and table construction gives a parser that builds the right tree for every sentence of that grammar and numbers tokens and rules as written. Applied to the tool's own grammar text (in any layout), this reproduces the vocabulary, lexer data and productions of the bundled grammar description, and the shipped program always writes a page showing the tree of its built-in grammar text.",
 ["programs","inputs","configurations"],"all LL(1) grammar texts x sentences; all layouts of the self-description; all hash iteration orders of a run",
 "The tests never feed a parsed tree back into the grammar passes, and main is not run by any test.",
 ["src/main.rs","src/tool/v1/syntaxis_parser.rs","src/tool/visitor/grammar_visitor.rs","src/tool/grammar/mod.rs","src/tool/syntaxis/syntaxis2.json"],[("pipeline in main/load_ast","src/main.rs")],["Grammar","parser output","parser2.html written by the program"])
p("C15","Loading a syntax tree from JSON is faithful or a clean error",
 "For every syntax tree written as JSON in the documented shape, loading from a string or from a reader gives the same tree: same rule ids and names, children in order, token types, names and texts (a missing text becomes the placeholder), nested up to 60 rules deep. Every other input - malformed JSON, ids or names of the wrong type, missing fields, negative or fractional ids, at any depth - is answered with an error, never a panic and never a partial tree, and both loaders always agree.",
 ["inputs"],"all JSON documents and byte strings, trees of any shape",
 "Only two well-formed bundled files are loaded by the tests.",
 ["src/tool/serde_ast/mod.rs"],[("parse_rule / parse_terminal field checks","src/tool/serde_ast/mod.rs")],["serde_ast::from_str","serde_ast::from_reader"])
p("C16","Visitors reach every node once, in order, through the right method",
 "For every syntax tree, a visitor that does not cut the traversal short is handed every node exactly once, in document order, rule nodes through the method of their rule id (others through generic child traversal), terminals and error nodes through theirs; accepting a visitor on a typed context calls that context's method. Results are combined left to right starting from the default result using the visitor's aggregation, and the traversal of a node's children stops exactly when the visitor says so.",
 ["inputs","programs"],"all trees (any shape, any rule ids, error nodes) x visitors overriding any subset of methods, for both visitor traits",
 "foo_test exercises a copy of the visitor in the tests directory; the library's visitors run on one tree with nothing asserted.",
 ["src/tool/syntaxis/syntaxis_visitor.rs","src/tool/v1/syntaxis_visitor.rs","src/tool/syntaxis/syntaxis_context.rs","src/tool/v1/syntaxis_context.rs"],[("visit dispatch, visit_children","SyntaxisVisitor"),("accept","context impls")],["SyntaxisVisitor callbacks"])
p("C17","Listener walks emit balanced, ordered, correctly dispatched events",
 "For every syntax tree, walking it with a listener calls, for each rule node, the generic enter, the enter method of its rule id, the events of its children in order, the matching exit method and the generic exit, and for each terminal or error node its enter immediately followed by its exit; nothing else is called. Entering or leaving through a typed context calls exactly that context's listener method.",
 ["inputs"],"all trees of any shape, any rule ids, with error nodes",
 "The library's walker and listener are not called by any test (only a copy under tests/foo is).",
 ["src/tool/syntaxis/syntaxis_walker.rs","src/tool/syntaxis/syntaxis_listener.rs","src/tool/syntaxis/syntaxis_context.rs"],[("walk recursion and enter/exit dispatch","SyntaxisWalker::walk, SyntaxisListener::enter/exit")],["SyntaxisListener callbacks"])
p("C18","Child queries return exactly the matching children, in order",
 "For every tree node, asking for terminals, error nodes or sub-rules of a kind (all of them, or the i-th) returns exactly the direct children of that kind in document order, the i-th query agrees with the list and answers 'none' out of range; every typed accessor of both context families returns the direct children of the token or rule it is named after, and the kinds never mix (a terminal is never returned as an error node and so on).",
 ["inputs"],"all nodes with arbitrary children, all token types / rule ids / positions, all accessors",
 "Accessors run on one tree inside visitors; none is compared with anything.",
 ["src/runtime/ast/rule_context.rs","src/tool/syntaxis/syntaxis_context.rs","src/tool/v1/syntaxis_context.rs"],[("get_terminals/get_errornodes/get_rule_contexts filters","src/runtime/ast/rule_context.rs"),("typed accessors","context impls")],["RuleContext queries","typed context accessors"])
p("C19","A node's start, stop and text are those of the tokens it covers",
 "For every syntax tree over a source text and every rule node, the start and stop tokens are the first and last leaves below it (none if it covers no leaf), the first and last terminal agree with them when those leaves are terminals, and the node's text is exactly the source slice from the start of its first leaf to the end of its last leaf (empty if it has none) - also when nodes at its edges are empty.",
 ["inputs"],"all trees over all sources, including empty sub-rules anywhere and error leaves, and trees obtained by lexing and parsing real text",
 "No test calls these queries.",
 ["src/runtime/ast/rule_context.rs"],[("get_start_token/get_stop_token/get_text","src/runtime/ast/rule_context.rs")],["RuleContext::get_text, get_start_token, get_stop_token, get_first_terminal, get_last_terminal"])
p("C20","The drawn HTML page shows exactly the tree and title given",
 "For every syntax tree, title and output file, drawing writes a page whose script, when run by a JavaScript engine, hands the viewer exactly that tree: same nesting and order, rule names and ids, token names and texts character for character, whatever characters they contain (quotes, back-ticks, ${...}, backslashes, newlines, markup, non-ASCII). No content of the tree or title can end or alter the page's script or markup, and an existing file is replaced completely.",
 ["inputs"],"all trees with arbitrary Unicode names and texts, all titles, output over existing longer files",
 "foo_draw / load_ast_and_draw write a page and never look at it; no text in them needs escaping beyond backslashes.",
 ["src/tool/gui/ast_drawer.rs","src/tool/templates/gui/ast.html"],[("dump/escape into JS template literals","src/tool/gui/ast_drawer.rs"),("page template","src/tool/templates/gui/ast.html")],["the written HTML file"])
p("C21","The vocabulary stays a one-to-one naming of symbols under any history",
 "After any sequence of adding terminals, named rules and anonymous rules, every successful addition can be looked up both by id and by name, ids and names stay one-to-one within terminals and within non-terminals, and the sets of all terminals and non-terminals are exactly those successfully added plus the two predefined markers 0 and 1. An addition that would reuse a name or an id of the same kind is refused and changes nothing; terminals and non-terminals never affect each other, and anonymous rules have no name and print as their number.",
 ["histories"],"all sequences of additions and queries with any ids and names, repeated ones included",
 "The vocabulary is only filled once from one grammar; refusals and collisions are never exercised.",
 ["src/runtime/vocabulary.rs"],[("duplicate checks in add_*","src/runtime/vocabulary.rs")],["Vocabulary methods"])
p("C22","String literals become token patterns matching exactly the literal",
 "For every grammar tree, collecting its string literals yields one token per distinct literal in order of first occurrence (at any nesting depth), numbered from 2 without gaps, and each pattern is a valid regular expression that matches, at the start of an input, exactly the text the literal denotes and nothing else - whatever punctuation, regular-expression metacharacters or escapes the literal contains. Token rules collected afterwards continue the numbering.",
 ["inputs","programs"],"all string literals the grammar language allows (escapes \\\\ \\' \\n \\r \\t \\f \\v \\a \\u{hex}, any punctuation and Unicode), any number and nesting",
 "No test runs this visitor.",
 ["src/tool/visitor/lexer_rule_visitor.rs"],[("StringLiteralVisitor::visit_terminal","src/tool/visitor/lexer_rule_visitor.rs")],["StringLiteralVisitor.data","LexerRuleVisitor.data"])
p("C23","Token patterns handed to the lexer mean what the regular literal says",
 "For every token rule, the pattern collected for the lexer matches at the beginning of an input exactly the prefix that the regular expression written between the slashes matches there (escaped slashes standing for slashes, alternatives kept together, never matching later in the input), and the patterns of both collectors of token rules match the same texts.",
 ["inputs","programs"],"all regular literals (alternation, groups, classes, repetition, escapes, escaped slashes) x all inputs",
 "The 14 patterns of one grammar are collected and not compared with anything.",
 ["src/tool/visitor/grammar_visitor.rs","src/tool/visitor/lexer_rule_visitor.rs"],[("strip slashes, unescape, wrap in ^(...)","SymbolVisitor::visit_lexer_rule, LexerRuleVisitor::visit_lexer_rule")],["LexerRuleData.regex"])
p("C24","Every parser entry point parses its own construct with working accessors",
 "For every construct occurring in a grammar text, calling the v1 parser's entry point for that construct on the tokens from its first token onward returns the same subtree as parsing the whole text, as a typed context whose accessors return the construct's parts (names, separators, blocks, alternatives, elements, suffixes, literals) with the source texts.",
 ["programs","inputs"],"all grammar texts x all constructs in them x all nine entry points",
 "No test uses the typed entry points or the v1 contexts.",
 ["src/tool/v1/syntaxis_parser.rs","src/tool/v1/syntaxis_context.rs"],[("entry points call parse_ast with the rule constant","src/tool/v1/syntaxis_parser.rs"),("accessors use the v1 token types","src/tool/v1/syntaxis_context.rs")],["rule_list() ... regular() of the v1 parser"])
p("C25","Printed trees and tokens can be read back",
 "For every syntax tree, its printed form shows each rule as its name followed by the parenthesised, blank-separated printed forms of its children in order, leaves as their token names, so that the shape and names of the tree are recoverable; a printed token shows its index, offsets, text, name, type and positions.",
 ["inputs"],"all trees and tokens whose names are identifiers",
 "foo_test prints one tree and compares nothing.",
 ["src/runtime/ast/rule_context.rs","src/runtime/ast/ast_context.rs","src/runtime/ast/terminal_context.rs","src/runtime/ast/error_context.rs","src/runtime/token.rs"],[("Display impls","src/runtime")],["Display of RuleContext, ASTContext, Token"])
p("C26","A drawing is complete or fails loudly, whatever the file system does",
 "For every syntax tree and destination, and whatever fault occurs while the page is written (file size limit or full disk after any number of bytes, missing directory, destination that is a directory, a pipe that is slow or closed by its reader), a call of draw that returns normally has delivered the complete page for exactly that tree, never a truncated, stale or mixed one; otherwise the call fails visibly. No other file is touched, and the drawer keeps working afterwards.",
 ["inputs","fault_sequences"],"all trees x all destinations x all fault points (every prefix of the page)",
 "The tests draw into a healthy directory and never look at the file.",
 ["src/tool/gui/ast_drawer.rs"],[("create and write of the rendered page","ASTDrawer::draw")],["ASTDrawer::draw","the file left behind"])
p("C27","Results depend on the grammar alone: repeatable, order- and name-blind",
 "Building and analysing the same grammar again (in the same process, with other hash seeds) gives the same numbering, lexer data, productions, notices, FIRST and FOLLOW sets and, without conflicts, the same table; analysing never changes the grammar. Writing the definitions (start rule first) or alternatives in another order changes nullability, FIRST and FOLLOW of no named rule, no token's pattern and no sentence's tree; replacing all rule and token names by others changes nothing but the names.",
 ["programs","histories"],"all grammars x all orders of definitions and alternatives x all renamings x repeated runs",
 "The tests run each step once on one grammar; hash-order dependence shows only in some runs.",
 ["src/tool/grammar/mod.rs","src/tool/visitor/grammar_visitor.rs","src/tool/parser/ll1_parser.rs","src/tool/v1/syntaxis_parser.rs"],[("iteration over HashSet<Production> and HashMap results","src/tool/grammar/mod.rs"),("numbering by definition order","src/tool/visitor/grammar_visitor.rs")],["Grammar, first_set, follow_set, ll1_table","both parsers' trees"])
p("C28","Instances are independent: interleaving and threads change no result",
 "Lexers, loaders, grammars, parsers, vocabularies and drawers share no state: any number of them used one after another in any order, interleaved step by step, or in parallel threads each give exactly the result they give alone.",
 ["schedules","histories"],"all sets of jobs x all orders, interleavings of lexer steps and thread schedules",
 "Each test uses one instance of each kind in one thread.",
 ["src/tool/syntaxis/syntaxis_lexer.rs","src/tool/v1/syntaxis_lexer.rs","src/tool/serde_ast/mod.rs","src/tool/visitor/grammar_visitor.rs","src/tool/gui/ast_drawer.rs","src/runtime/vocabulary.rs"],[("all state lives in the instance","every struct of the crate")],["results of all public operations"])
p("C29","Undefined names never pass silently, sound grammars draw no complaint",
 "For every grammar that refers, anywhere and at any nesting depth, to a rule or token that is defined nowhere (misspelt by one letter or by case, or its definition missing), building the grammar is refused or names the missing symbol in a notice; no grammar is produced silently. For every grammar in which each referenced name is defined and nothing is defined or listed twice, the passes print nothing.",
 ["programs"],"all grammars x all positions of a dangling reference x all near-miss names, and all well-formed grammars",
 "Every grammar in the tests is complete.",
 ["src/tool/visitor/grammar_visitor.rs"],[("lookup of references in the vocabulary","ProductionVisitor::visit_element")],["the passes' outcome and standard output"])
p("C30","Text that is not a grammar is never accepted silently",
 "For every text put through the v1 lexer and v1 parser with the tool's own grammar description: when the text is not in the grammar language (a lexeme missing, doubled, misplaced or malformed, unbalanced parentheses, text cut off anywhere, characters no definition matches), the front end fails or prints a complaint or the unread rest; when the text still is a grammar, it is accepted without a word and gives exactly the tree that mirrors it.",
 ["inputs"],"all texts: every damaged form of every grammar text, and arbitrary runs of fragments",
 "No test feeds a malformed grammar text to the front end.",
 ["src/tool/v1/syntaxis_lexer.rs","src/tool/v1/syntaxis_parser.rs","src/tool/syntaxis/syntaxis2.json"],[("leftover echo in scan_all_on_channel_tokens","src/tool/v1/syntaxis_lexer.rs"),("mismatch notice and failing table lookup","SyntaxisParser::parse_ast")],["v1 SyntaxisLexer::scan_all_on_channel_tokens","v1 SyntaxisParser::parse","standard output"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
