#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that it stays readable)."""
import json, os
W = "crates/wolfram-parser/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[W+f if not f.startswith("crates/") and not f.startswith("Code") else f for f in files],
            mechanism=[dict(name=n, where=(w if w.startswith("crates/") else W+w)) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

TOK="tokenize(), tokenize_bytes()"; CST="parse_cst_seq(), parse_bytes_cst_seq()"; AST="parse_ast_seq(), parse_bytes_ast_seq()"

p("C01","Every input is accepted: no crash and no hang",
  "Tokenizing, concrete parsing and abstract parsing of any byte sequence returns normally: it does not panic (not even through an internal assertion of a debug build), abort, or loop, whatever the options (source convention, tab width, first-line behaviour, quirks) and however malformed the source (bad UTF-8, stray or unbalanced brackets, unfinished strings, comments, escapes, operators). Malformed source is reported as error tokens and error nodes inside the result, never by failing the call.",
  ["inputs","configurations"],"all byte strings (moderate nesting depth), all combinations of options and entry points",
  "The crash tests replay about thirty inputs that once crashed; the space of malformed inputs is combinatorial (two or three interacting constructs), and debug assertions are only reached by those few inputs.",
  ["lib.rs","tokenize/tokenizer.rs","parse/parselet.rs","parse_cst.rs","abstract_cst.rs","error.rs","read/character_decoder.rs"],
  [("error recovery in parselets","parse/parselet.rs"),("abstraction of every node shape","abstract_cst.rs"),("unterminated token trimming","error.rs")],
  [TOK,CST,AST])

p("C02","Token stream is lossless: tokens tile the input",
  "For every input, the texts of the tokens returned by tokenize, in order, are contiguous slices that together reproduce the input exactly, each token being non-empty. The only bytes ever omitted are the tail of the input after an unterminated string, comment or linear-syntax token (which must be the last token and carry a prefix of the rest of the input), and a line continuation at the very end of the input.",
  ["inputs"],"all byte strings",
  "Tokenizer tests compare the tokens of a few dozen short inputs; a byte lost or duplicated by one lookahead/backtracking path (number, operator, escape, comment) appears only for the combination that takes that path.",
  ["tokenize/tokenizer.rs","read/character_decoder.rs","read/byte_decoder.rs","lib.rs"],
  [("peek / reset offsets in the lexer","tokenize/tokenizer.rs"),("buffer slice from token start to reader offset","tokenize/tokenizer.rs")],
  [TOK])

p("C03","Concrete syntax is lossless: leaves reproduce the source",
  "For every input, the leaves of the concrete syntax tree read left to right reproduce the input byte for byte, each byte in exactly one leaf, comments, whitespace and newlines included; leaves invented by the parser (implicit operators and operands) are empty. The exceptions are the tail after an unterminated token or inside a group that is never closed, which may be cut short but never altered or reordered, a line continuation at the end of the input, and a skipped first line.",
  ["inputs","configurations"],"all byte strings, all first-line behaviours",
  "Concrete-parse tests pin the trees of some hundred inputs without trivia in most positions; losing or duplicating one trivia run in one parselet is invisible unless a test has trivia exactly there.",
  ["parse_cst.rs","parse.rs","parse/parselet.rs","error.rs","cst.rs"],
  [("trivia handles and node reduction","parse_cst.rs"),("token consumption in parselets","parse/parselet.rs")],
  [CST])

p("C04","Token and leaf positions are exact",
  "For every input, the source span of every token and of every leaf of the concrete tree is exactly the position of its first byte and of the byte after its last one, in both conventions: 1-based line/column, where LF, CR and CRLF each end a line, every other decoded character (or maximal undecodable byte sequence) is one column and a tab advances to the next multiple-of-tab-width stop; or 1-based character index in which CRLF counts as two characters. The position after a token equals the position before the next one; an empty leaf invented by the parser has an empty span at the place where it stands.",
  ["inputs","configurations"],"all byte strings, both source conventions, all tab widths",
  "Position tests fix a handful of offsets; wrong line/column bookkeeping in one path (CRLF inside a comment, a tab inside a string, a multi-byte or invalid character, an escape, a continuation) shifts every later position only for that combination.",
  ["source.rs","read/byte_decoder.rs","read/character_decoder.rs","tokenize/tokenizer.rs","error.rs"],
  [("source location advance per byte-decoded character","source.rs"),("reset of reader state on backtracking","read.rs")],
  [TOK,CST])

p("C05","Node spans cover their children, in order",
  "For every input, the span of every concrete node starts where its first child starts and ends where its last child ends, siblings are in source order without overlap, and a child never extends outside its parent. In the abstract tree every node that has a span has one that also occurs as the span of a concrete node or leaf or runs from the start of one to the end of another, and the abstraction of a concrete node that is not a parenthesis or a derivative keeps that node's span.",
  ["inputs"],"all byte strings",
  "Span assertions exist for selected inputs only; composite spans are computed separately for every node kind, so an error in one kind shows only on inputs containing that kind next to trivia or error leaves.",
  ["cst.rs","source.rs","abstract_cst.rs","ast.rs","parse_cst.rs"],
  [("source of composite nodes from first/last child","cst.rs"),("metadata passed to abstract nodes","abstract_cst.rs")],
  [CST,AST])

p("C06","UTF-8 decoding: exact, with faithful unsafe-encoding report",
  "For every byte sequence, decoding follows the UTF-8 standard: each well-formed scalar value is one character, each maximal invalid prefix is one undecodable character (an encoded surrogate is also one), and no byte is lost or decoded twice. The result reports an unsafe character encoding exactly when an undecodable sequence or a byte order mark is met (incomplete UTF-8 sequence, stray surrogate or BOM: the last such kind in the input). The safe-string service returns the input unchanged exactly when no unsafe encoding is met, and otherwise an error naming that kind.",
  ["inputs"],"all byte sequences; in particular every 1-, 2-, 3- and 4-byte sequence shape and every scalar value",
  "Decoder tests sample about twenty sequences; overlong forms, surrogates, truncated tails and each lead/continuation boundary are separate branches of a hand-written decoder.",
  ["read/byte_decoder.rs","lib.rs","byte_encoder.rs"],
  [("hand-written UTF-8 state machine","read/byte_decoder.rs"),("lossy re-encoding in safe_string","lib.rs")],
  ["tokenize_bytes()","safe_string()","parse_bytes_cst_seq()"])

p("C07","Character escapes decode to exactly the character they name",
  "For every backslash escape, the decoded character stream is as documented: \\[Name] gives the character with that long name for each known name, \\.HH, \\:HHHH, \\|HHHHHH and \\OOO give the character with that hexadecimal or octal code, \\b \\f \\n \\r \\t \\\" \\\\ \\< \\> and the linear-syntax escapes give their own special characters. A malformed or unknown escape is not decoded: its backslash is read as one (unhandled) character or error and the characters after it are read as if the backslash were not there.",
  ["inputs"],"all escapes: every long name, every code point in every hex/octal form, every malformed prefix, every following character",
  "Tests decode some dozen escapes; there are more than a thousand names, a million code points in four notations, and as many ways to be malformed.",
  ["read/character_decoder.rs","read/wl_character.rs","read/code_point.rs","long_names.rs","generated/long_names_registration.rs"],
  [("escape state machines with rewind","read/character_decoder.rs"),("long name tables searched by bisection","long_names.rs")],
  ["iter::wolfram_chars()",TOK])

p("C08","A character means the same however it is spelled",
  "Outside strings and comments, a character that has a long name is classified the same whether typed raw in UTF-8, as \\[Name], or as a hexadecimal or octal escape: the same token class, and for operators the same node and operator in the concrete and abstract trees. Letters, operators, whitespace, newlines and unsupported characters each fall into the class given by the published character table.",
  ["inputs"],"every character of the long-name table in every spelling, alone and as prefix, infix and postfix operator between operands",
  "No test iterates the character table; classification is spread over several sorted tables and match arms where one missing or misplaced entry affects a single character.",
  ["generated/long_names_registration.rs","long_names.rs","read/wl_character.rs","tokenize/tokenizer.rs","tokenize/token_kind.rs","CodeParser/Data/LongNames.wl"],
  [("code point class tables searched by bisection","long_names.rs"),("code point to operator token table","tokenize/tokenizer.rs")],
  [TOK,CST,AST])

p("C09","Operators are split by longest match, as documented",
  "For every sequence of ASCII punctuation, the tokenizer yields the documented Wolfram Language operators by longest match from the left (including the multi-character ones such as //., ^:=, |->, @@@, <->, =!=, ;;, ::[, .., ___, and the number-sensitive dot), and every token's kind is the one that belongs to its text. An operator never absorbs characters of the following token: =! not followed by = is read as = and then !, /. before a digit is / and then the number; ^: without = and a stray comment closer *) are error tokens of their own.",
  ["inputs"],"all strings of punctuation, digits, letters and blanks",
  "Tests cover single operators; the lexer is a hand-written decision tree whose backtracking paths are met by specific three- to five-character runs.",
  ["tokenize/tokenizer.rs","tokenize/token_kind.rs"],
  [("per-character operator sub-lexers with peek and rewind","tokenize/tokenizer.rs")],
  [TOK])

p("C10","Number literals are recognised exactly by the number grammar",
  "For every input, a number token is the longest prefix that matches the Wolfram number grammar: digits with optional fraction, base prefix b^^ with digits below b and 2<=b<=36, precision (`) or accuracy (``) with optional signed value, and exponent *^ with optional sign; it is classed as integer, rational or real accordingly. A bad base, bad digit, missing digits after ^^, missing accuracy value or bad exponent gives one number-error token, and a following operator (.., ^, *, -, + and so on) is never swallowed.",
  ["inputs"],"all strings over the number alphabet (digits, letters, . ` ^ * + - and line continuations)",
  "Number tests are a list of examples; the hand-written recogniser has some thirty backtracking states, and each error or rewind path needs its own short string.",
  ["tokenize/tokenizer.rs"],
  [("number sub-lexer: base, fraction, backticks, exponent, rewinds","tokenize/tokenizer.rs")],
  [TOK])

p("C11","Strings, comments, symbols and slots are delimited correctly",
  "For every input, a string token runs to the first unescaped double quote, a comment to the matching closer counting nested comments, and a symbol is a maximal run of letters, digits, $ and letterlike characters with well-formed context marks (`); whitespace and newline tokens are single characters (CRLF one). If the closer never comes the token is the corresponding unterminated-token error; after #, ##, :: and _ the following name is a separate token.",
  ["inputs"],"all strings over quotes, backslashes, comment delimiters, letters, digits, backticks, blanks, newlines",
  "Tests use short well-formed strings and comments; escapes before the quote, partial comment delimiters, and nested or overlapping delimiters are combinatorial.",
  ["tokenize/tokenizer.rs","read/character_decoder.rs"],
  [("string / comment / symbol sub-lexers","tokenize/tokenizer.rs")],
  [TOK])

p("C12","Line continuations are transparent",
  "Outside of string and comment text, inserting a line continuation (backslash, newline, and any blanks starting the next line) between two characters of a token (but not inside an escape or a comment delimiter), or between tokens, changes neither the number nor the kinds of the tokens nor the structure of the concrete and abstract trees; only texts and positions change. Tokens that contain or directly precede such a continuation are reported, by their start, among the tracked source locations.",
  ["inputs"],"all short programs, every insertion position, LF / CR / CRLF, with and without following blanks",
  "Continuation tests use a few inputs; transparency is implemented by rewinding the reader at every lookahead, so it must be checked between each pair of characters of each token kind.",
  ["read/character_decoder.rs","tokenize/tokenizer.rs","parse.rs"],
  [("continuation skipping in the character decoder","read/character_decoder.rs"),("tracked locations","tokenize/tokenizer.rs")],
  [TOK,CST,AST])

p("C13","Operator precedence and associativity follow the published table",
  "For every expression, operators group as the published precedence and associativity table dictates: a tighter operator binds before a looser one, left- and right-associative operators nest on their own side, a run of the same infix operator forms one flat node, prefix and postfix operators take exactly the operand their precedence allows, and juxtaposition is multiplication. The node shape (prefix, postfix, binary, infix, ternary, call, group, compound) and its operator are those of the published operator table.",
  ["programs"],"all sequences of operands and operators: every operator, every pair of operators, and longer mixes",
  "Around 250 tokens act as operators, so there are tens of thousands of ordered pairs and far more triples; tests check a few dozen.",
  ["parse.rs","parse/parselet.rs","parse/token_parselets.rs","precedence.rs","generated/precedence_values.rs","CodeParser/Data/Precedence.wl","CodeParser/Data/InfixParselets.wl","CodeParser/Data/PrefixParselets.wl"],
  [("precedence climbing loop","parse.rs"),("token to parselet tables","parse/token_parselets.rs"),("precedence values","generated/precedence_values.rs")],
  [CST])

p("C14","The abstract tree is the documented desugaring of the concrete tree",
  "For every program, the abstract tree is the concrete tree with trivia removed and each form replaced by its full form: operators by the call they denote (a-b as Plus with a negated term, a/b as Times with Power -1, f@x, x//f and a~f~b as calls, a' as Derivative, comparisons as their relation or Inequality, blanks, slots and Out by their heads, a[[b]] as Part), parentheses dropped, groups and calls with their comma-separated arguments in order. No operand is lost, duplicated or reordered except where the desugaring is defined to reorder.",
  ["programs"],"all programs; every operator and every nesting of two or three constructs",
  "The abstraction has a rule per construct plus special cases for negation, division, flattening, comparison chains and calls; tests exercise each rule on one or two inputs.",
  ["abstract_cst.rs","abstract_cst/abstract_call_node.rs","agg.rs","ast.rs","symbols.rs","parse/operators.rs"],
  [("abstraction rules","abstract_cst.rs"),("call and Part abstraction","abstract_cst/abstract_call_node.rs"),("operator to symbol table","parse/operators.rs")],
  [AST])

p("C15","Whitespace and comments never change the meaning",
  "For every program, inserting blanks or comments between tokens, or newlines inside brackets, leaves the abstract tree unchanged up to positions, as long as the insertion does not separate the parts of a token-level construct (blanks and patterns such as x_y, slots #n, Out %n, file names, ::tags) and does not join tokens. Trivia appears in the concrete tree exactly where it stood in the source and never in the abstract tree.",
  ["programs"],"all short programs, every gap between tokens, every kind of trivia and pairs of them",
  "Each parselet eats and stores trivia itself at several points; tests place trivia in few of these gaps.",
  ["parse.rs","parse_cst.rs","parse/parselet.rs","abstract_cst.rs"],
  [("trivia eating variants in the parser session","parse.rs"),("aggregation","abstract_cst.rs")],
  [CST,AST])

p("C16","Top-level newlines separate expressions; results concatenate",
  "For every two complete programs A and B, parsing A, newline, B gives the trees of A, then the newline, then the trees of B, with only the positions of B shifted by the length of what precedes it; a newline inside any open bracket never separates expressions. In particular parsing an expression does not depend on what follows the newline that ends it.",
  ["programs"],"all pairs of short complete programs and each newline form",
  "Depends on lookahead and on the bracket context kept during parsing; tests contain few multi-expression inputs.",
  ["lib.rs","parse.rs","parse/parselet.rs","tokenize/tokenizer.rs"],
  [("top-level versus in-group newline policy","tokenize/tokenizer.rs"),("parser session loop","parse_cst.rs")],
  [CST,AST])

p("C17","Bracket matching errors are reported exactly",
  "For every sequence of opening and closing brackets of all kinds, the concrete tree contains a group for exactly the pairs that match, a missing-closer group for each opener that is closed by an outer bracket's closer or never closed, and an unexpected-closer leaf for each closer that matches no open bracket. A balanced sequence has no bracket error, and the nesting in the tree is the nesting in the source.",
  ["inputs"],"all bracket sequences up to a length, all bracket kinds, plain and as calls",
  "Recovery depends on the stack of open groups; tests contain only a few unbalanced inputs of depth one or two.",
  ["parse/parselet.rs","parse.rs","parse_cst.rs","tokenize/token_kind.rs"],
  [("stack of open groups consulted on a closer","parse.rs"),("group and call parselets","parse/parselet.rs")],
  [CST])

p("C18","Syntax errors are never silently dropped",
  "For every input, each error leaf or error node of the concrete tree (unexpected closer, missing operand, bad number, unknown character, unterminated token, missing bracket, expected symbol, tilde or set) is still visible as an error in the abstract tree, and the abstract tree contains no error that the concrete tree does not justify (an empty comma operand, which is an implicit Null, aside). Well-formed programs produce trees without any error.",
  ["inputs"],"all byte strings",
  "Abstraction rebuilds every node; an error leaf in an unusual position (empty group, comma list, operand of a desugared operator) can vanish without any test noticing.",
  ["abstract_cst.rs","abstract_cst/abstract_call_node.rs","parse/parselet.rs"],
  [("error leaves and missing-closer nodes carried through abstraction","abstract_cst.rs")],
  [CST,AST])

p("C19","Options change only what they say they change",
  "For every input, the source convention and the tab width change nothing but positions, and with the character-index convention the tab width changes nothing at all; the encoding mode may change which issues are reported but no token, tree or position. Texts, kinds, tree shapes and tracked places (line continuations, embedded newlines and tabs) are identical under every combination of these options, and so are the issues unless the encoding mode differs.",
  ["inputs","configurations"],"all byte strings, all pairs of option values",
  "Almost all tests run with default options.",
  ["lib.rs","source.rs","read.rs"],
  [("options copied into the session","lib.rs"),("source convention dispatch","source.rs")],
  [TOK,CST,AST])

p("C20","Results do not depend on earlier or concurrent calls",
  "The result of every call is a function of its input and options only: for every sequence of calls on one thread, and every interleaving of calls on several threads, with arbitrary and differing options and inputs (malformed ones included), each call returns exactly what it returns when made alone in a fresh process. Quirk settings given to one call never leak into another one.",
  ["histories","schedules"],"all short call histories, and all two-thread interleavings within a preemption bound with a scheduling point at every memory allocation or release",
  "Tests make single calls with default quirks; leakage needs two calls with different settings in one history or overlapping in time.",
  ["quirks.rs","abstract_cst.rs","lib.rs","parse.rs"],
  [("thread-local quirk settings set at the start of each abstraction","quirks.rs"),("fresh session per call","parse.rs")],
  [AST,"abstract_cst()"])

p("C21","Quirk settings affect only the constructs they name",
  "For every program, enabling or disabling the infix-at, flatten-times or old-@@@ quirk changes the abstract tree only at, respectively, an infix operand of the form Head@x whose Head is the operator's own name, a division or minus nested in a product, and an @@@ application, and there exactly as documented; the concrete tree and the tokens are the same under all quirk settings. A program containing none of these constructs has the same abstract tree under all eight settings.",
  ["programs","configurations"],"all short programs times all eight settings",
  "One test per quirk on one input; interactions (nested products, operands at each position, several quirks at once) are not covered.",
  ["quirks.rs","abstract_cst.rs","lib.rs"],
  [("quirk lookups in abstraction","abstract_cst.rs")],
  [AST])

p("C22","All entry points agree with each other",
  "For every input, the string and byte entry points give the same result; the single-expression entry points return the corresponding element of the sequence entry points; the token iterator yields exactly the tokens of tokenize; the abstract parse equals aggregating and abstracting the concrete parse; and the leaves of the concrete tree, apart from error recovery and invented leaves, are the tokens of the tokenizer.",
  ["inputs","configurations"],"all byte strings (valid UTF-8 for the string entry points), all options",
  "Tests call one entry point per input and never compare two.",
  ["lib.rs","iter.rs","tokenize/tokenizer.rs"],
  [("thin wrappers over one session","lib.rs"),("iterator adaptors","iter.rs")],
  ["tokenize*","parse_*","iter::tokens()","iter::source_chars()","iter::wolfram_chars()"])

p("C23","Reported issues and tracked locations are well-formed and stable",
  "For every input, each reported issue refers to a source range inside the input, issues are not duplicated, and the tracked locations (line continuations, embedded newlines, embedded tabs) are exactly the starts of the tokens that contain or (line continuations) are directly followed by such a feature. The severity, confidence and code-action fields are within their documented ranges, and a replacement code action is located inside or at the edge of the input.",
  ["inputs"],"all byte strings",
  "Tests look at the issues of a few inputs, never at all issues of all inputs.",
  ["issue.rs","tokenize/tokenizer.rs","read/character_decoder.rs","read.rs"],
  [("issue sets without duplicates","read.rs"),("tracked locations","tokenize/tokenizer.rs")],
  [TOK,CST])

p("C24","A script's first line is handled as configured",
  "For every input, under the not-a-script setting the first line is ordinary source; under the check and script settings the first line is skipped exactly (up to and including its newline) when it starts with #! and is otherwise ordinary source, and the rest is parsed as if alone with its positions kept. No byte after the first newline is ever skipped.",
  ["inputs","configurations"],"all short first lines and newline forms, all three settings",
  "Tests have one or two shebang inputs, with LF only.",
  ["lib.rs","parse.rs","tokenize/tokenizer.rs"],
  [("first line skipping at session start","parse.rs")],
  [TOK,CST])

p("C25","File-name and tag operands are read as raw text",
  "For every input, after << , >> and >>> the next token is the longest file name (quoted string, or unquoted run of the documented file-name characters with balanced square brackets), after :: the next token is a symbol-like tag or a quoted string, and neither mode leaks to the tokens after it. When the operand is missing an expected-file or expected-tag error is produced without consuming what follows.",
  ["inputs"],"all strings over the file-name alphabet after each operator",
  "Tests use a few file names; the raw-text modes have their own character classes, nesting counter and stop conditions.",
  ["tokenize/tokenizer.rs","parse/parselet.rs"],
  [("file and tag stringify lexers","tokenize/tokenizer.rs"),("parselets that request a mode for one token","parse/parselet.rs")],
  [CST])

p("C26","Optional string-scan optimisation does not change results",
  "For every valid UTF-8 input, a build with the fast string scanning feature returns the same tokens and trees with the same positions as the default build.",
  ["inputs","configurations"],"all strings over quotes, escapes, newlines, multi-byte characters and surrounding tokens",
  "The feature is only type-checked by the build and has no tests.",
  ["feature.rs","tokenize/tokenizer.rs"],
  [("alternative string scanning path","tokenize/tokenizer.rs")],
  [TOK,CST])

p("C27","The kernel library sends and receives syntax trees without loss",
  "For every input, option set and entry point (ConcreteParseBytes, ConcreteParseFile, TokenizeBytes, TokenizeFile, ConcreteParseLeaf, SafeString, RoundTripTest, Abstract, TokenIsEmpty), the kernel library puts on the link exactly one complete expression, which is the documented form of what the parser returns for these bytes and options (every node, text, position, issue and tracked location; Missing[...] for an unsafe encoding). A container of nodes sent to the library is read back as the same container, and abstracting a node that was sent gives the documented form of the abstraction of that node under the quirks sent. When the user aborts, at whatever moment, the result is still one complete expression, which differs from the unaborted one only in nodes replaced by $Aborted. A file is read only after the kernel has allowed reading that path.",
  ["inputs","configurations","fault_sequences"],"all byte strings, all option sets, all abort points, box trees as front ends send them",
  "The library has no tests that run without a kernel: the build only type-checks it.",
  ["crates/codeparser-wll/src/lib.rs","crates/codeparser-wll/src/convert_wstp.rs","crates/codeparser-wll/src/from_expr.rs"],
  [("entry points of the kernel","crates/codeparser-wll/src/lib.rs"),("expressions put on the link","crates/codeparser-wll/src/convert_wstp.rs"),("expressions read from the link","crates/codeparser-wll/src/from_expr.rs")],
  ["kernel library functions"])

p("C28","Tree traversal and aggregation reach every node exactly once",
  "For every parsed input, visit, visit_mut and map_visit call the visitor on every node of the concrete tree exactly once, a parent before its children and siblings (for a call: the head, then the body) in source order; a change made by the visitor reaches the tree and nothing else changes; the identity visitor changes nothing. Converting a tree to owned text gives the same tree. Aggregation removes all whitespace, newline and comment leaves and nothing else, and leaves no call with an unaggregated head.",
  ["inputs"],"all syntax trees of all inputs, concrete, owned and aggregated",
  "Tests compare finished trees of a few inputs and never call the visitors on most node types.",
  ["cst.rs","cst/visit.rs","abstract_cst.rs"],
  [("visitors","cst/visit.rs"),("aggregation","abstract_cst.rs")],
  ["Cst::visit","Cst::visit_mut","Cst::map_visit","Cst::into_owned_input","abstract_cst::aggregate_cst*"])

p("C29","Span and location relations agree with the text order",
  "For any two spans of one source convention, overlaps is true exactly when some location lies in both (and is symmetric), contains is true exactly for the locations between start and end inclusive in text order, start/end/start_end/kind/at return what the span was made of.",
  ["inputs"],"all pairs of spans in small texts, both conventions",
  "Tests check a few hand-picked pairs.",
  ["source.rs"],
  [("span relations","source.rs")],
  ["Span::overlaps","LineColumnSpan::overlaps","LineColumnSpan::contains"])

p("C30","The printed expression form is faithful",
  "For every valid UTF-8 input and tab width, under line-and-column positions, the printed expression form of a concrete syntax sequence or a token sequence is the documented textual form: node type, operator or kind symbol, all children in order, leaf text and source span of every node, with no node left out.",
  ["inputs","configurations"],"all syntax trees of all valid inputs",
  "Tests do not compare the printed form of most node kinds.",
  ["fmt_as_expr.rs"],
  [("printing","fmt_as_expr.rs")],
  ["fmt_as_expr::FmtAsExpr"])

p("C31","Names of kinds, operators and issues can be read back",
  "For every token kind, operator, group, error kind, issue tag, severity and box kind that any input produces, the symbol or string naming it is the documented one and converting that name back gives the same item; a name that is not in the documented set is never converted to an item with another name. (The two newline token kinds share a name.)",
  ["inputs"],"everything any explored input produces, plus all known names in every context",
  "Tests convert a handful of names; each of the several hundred entries can be wrong alone.",
  ["tokenize/token_kind.rs","parse/operators.rs","cst.rs","issue.rs","symbols.rs"],
  [("token kind names","tokenize/token_kind.rs"),("operator names","parse/operators.rs"),("box kind names","cst.rs")],
  ["to_symbol","try_from_symbol","from_symbol","as_str","from_str"])

p("C32","Exactly the issues that the text calls for are reported",
  "For every input and option value, each suspicious or undecodable piece of the source gives its issue and nothing else does: undecodable escapes and long names (with the nearest name, or the missing bracket, as suggestion), invalid byte sequences, lone carriage returns, non-ASCII and strange characters (by class, and less severe in strings and comments), strange letters in symbols, slots and tags, suspicious adjacency such as 1.2.3 or a..1. Each issue has the tag, severity, confidence and source range that belong to that piece, and its code actions, in order, edit exactly that range with the right text. At most ten fatal issues are reported; nothing else is dropped. Box encoding mode only removes the remarks about non-ASCII characters.",
  ["inputs","options"],"all byte strings; conventions, tab widths, first-line behaviours, encoding modes",
  "Tests look at the issues of a few inputs. Which issue appears, and where, depends on the escape form, the context (string, comment, symbol, tag, slot), the character class and the options together.",
  ["read/character_decoder.rs","read/byte_decoder.rs","tokenize/tokenizer.rs","utils.rs","issue.rs","read.rs"],
  [("undecodable escapes","read/character_decoder.rs"),("byte-level issues","read/byte_decoder.rs"),("token-level issues","tokenize/tokenizer.rs"),("issue collection","read.rs")],
  [TOK,CST])

p("C33","Unterminated constructs are confined to the statement they start in",
  "For every valid UTF-8 input, an unterminated string, comment or linear-syntax token, and a group that is never closed, is cut at the end of the last non-empty line before the next line that looks like a new top-level statement (an assignment to a symbol or to symbol[...], a line of the form ] := ..., a call of a package directive such as Begin or Needs, or an annotation comment (*: ... *), each starting in the first column), or runs to the last non-empty line of the input if there is none; the newline of that last line belongs to a token only under character-index positions. Its span ends exactly where its text ends, the leaves of a cut group are flat and complete up to the cut, and lines before the construct play no role.",
  ["inputs","options"],"all texts; both source conventions, tab widths",
  "Tests contain a few unterminated constructs. Where the cut falls depends on the newline style, tabs, the position convention, nesting, and the tokens of every following line.",
  ["error.rs","utils.rs","parse_cst.rs","lib.rs"],
  [("cutting unterminated tokens and groups","error.rs"),("lines","utils.rs")],
  [TOK,CST])

p("C34","The command-line tool prints what the library returns",
  "For every combination and order of its arguments, the command-line program applied to a file prints the result of the library call selected by the last mode argument (concrete tree in expression form by default; tokens, single token, safe string, concrete or abstract tree on demand) on the whole bytes of the file, with the quirk asked for, followed by one newline; with an argument that suppresses output it prints nothing. Without a file it reads lines, prints a prompt before each and the result for each line without its trailing whitespace, and ends normally at the end of its input. It fails on an unknown argument and exactly where the library call fails.",
  ["inputs","histories"],"all argument lists, files and sequences of lines",
  "No test runs the program.",
  ["bin/main.rs","lib.rs","fmt_as_expr.rs"],
  [("argument loop and modes","bin/main.rs"),("reading of lines","bin/main.rs")],
  ["the program's standard output and exit status"])

p("C35","Boxes in a tree are operands like any other",
  "For every concrete tree and every quirk setting, a box node in the place of an operand gives the abstraction that a symbol in that place gives, with the box (same kind and range, its children abstracted in order) in the symbol's place. Only a bracket call whose head is a box of a kind that cannot be called (all but Template, Interpretation, Subscript, Superscript, Style, Namespace, Overscript and Subsuperscript boxes) gets in addition one StrangeCall error at the bracket. A second child [[...]] (or double bracket) of a subscript box and a TagBox of a parenthesised derivative in a superscript box keep their brackets; contents of any other form are abstracted as usual. Nothing panics (RowBox and GridBox are not supported).",
  ["inputs"],"all trees a caller may build from parsed text and boxes",
  "Tests abstract a few hand-written boxes; the outcome depends on the kind, on the contents, and on every construct a box can stand in.",
  ["abstract_cst.rs","abstract_cst/abstract_call_node.rs","cst.rs"],
  [("box abstraction","abstract_cst.rs"),("calls of boxes","abstract_cst/abstract_call_node.rs")],
  ["abstract_cst::aggregate_cst","abstract_cst::abstract_cst"])


here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
