#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json
R='crates/wolfram-parser/src/'
P=[]
def at(f): return f if f.startswith('crates/') else R+f
def p(id,title,statement,over,text,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[at(f) for f in files],mechanism=[dict(name=n,where=at(w)) for n,w in mech],
        **({'observe_at':obs} if obs else {}),hook_needed=False)))
p('P01','Every input is parsed to completion without a panic',
  'For every byte sequence and every combination of parse options, each entry point (tokens, concrete tree, aggregate tree, abstract tree, single-leaf parsing, safe string) terminates and returns a result or its documented encoding error; none of them panics or loops. Excluded: nesting so deep that the thread stack is exhausted, a tab width of zero, and the findings listed in the known-findings file.',
  ['inputs','configurations'],'all byte strings x first-line behaviour x source convention x tab width x encoding mode x quirks',
  'The input space is all byte strings; crashes found so far needed a combination such as an unterminated group plus a carriage return plus a truncated character that no hand-written test samples.',
  ['lib.rs','parse.rs','error.rs','abstract_cst.rs','tokenize/tokenizer.rs'],
  [('public entry points','lib.rs'),('error recovery re-tokenisation','error.rs'),('abstraction of malformed trees','abstract_cst.rs')],['return value of every public entry point'])
p('P02','The token stream is an exact, ordered partition of the input',
  'The texts of the tokens returned for an input, concatenated in order, are exactly the bytes of the input (apart from a line continuation hanging at the very end of the input, which belongs to no token, a skipped script first line, and what follows the line at which an unterminated string, comment or linear-syntax token is cut off). Each token is one contiguous, non-overlapping, non-empty piece of the input that starts where the previous one ended. This holds also for erroneous and unterminated input.',
  ['inputs','configurations'],'all byte strings x options','Requires every lexing path, including every back-up path of every multi-character operator, number and error token, to consume exactly what it reports.',
  ['tokenize/tokenizer.rs','tokenize/token.rs','read.rs'],[('token construction from reader marks','tokenize/tokenizer.rs'),('reader position save and restore','read.rs')],['tokenize_bytes'])
p('P03','The concrete syntax tree is lossless',
  'Reading the leaves of the concrete syntax tree from left to right and concatenating their texts gives back the input byte for byte (apart from a line continuation hanging at the very end of the input, a skipped script first line, and what follows the line at which an unterminated token or group is cut off): no whitespace, newline, comment or error token is dropped, duplicated or moved, and inserted implicit tokens are empty. This holds for malformed and badly encoded input too.',
  ['inputs','configurations'],'all byte strings x options','Losslessness depends on every parse rule handing back the trivia it looked at; a rule that loses a comment in one unusual position passes all example based tests.',
  ['parse.rs','parse_cst.rs','parse/parselet.rs','error.rs'],[('trivia push and reset','parse.rs'),('reduction into nodes','parse_cst.rs'),('unterminated group reconstruction','error.rs')],['parse_bytes_cst_seq'])
p('P04','Source positions are exact in both conventions',
  'Every token and every tree node carries the source span of exactly the text it covers: lines advance at LF, CR and CRLF (counted once), columns by one per character and to the next tab stop at a tab, and in the character-index convention indices count characters (CRLF as two). A node\'s span runs from the start of its first child to the end of its last child, inserted implicit tokens have an empty span at their position, and the two conventions describe the same places (except for the newline after the line at which something unterminated is cut off).',
  ['inputs','configurations'],'all byte strings x tab widths x both source conventions','Positions are an arithmetic function of the entire prefix of the input and must be right for each mix of newline styles, tabs, multi-byte and malformed characters.',
  ['source.rs','read/byte_decoder.rs','tokenize/token.rs','cst.rs'],[('location advance per character','source.rs'),('span of a node from its children','cst.rs')],['span of each token and node'])
p('P05','UTF-8 decoding is exact and malformed encoding is always reported',
  'Well-formed UTF-8 is decoded to exactly its code points; each maximal malformed prefix (as in the Unicode standard: bad lead byte, missing or out of range continuation, overlong form, surrogate, byte order mark, beyond U+10FFFF) becomes one unsafe character of one to three bytes which is never silently accepted. An input with an unsafe character makes the token and safe-string entry points return the encoding error, makes tree results carry the encoding flag and a fatal issue at that place, and input without one never does.',
  ['inputs'],'all byte strings','There are millions of 1 to 4 byte sequences and their class boundaries (E0 A0, ED 9F, F0 90, F4 8F, truncated tails) are where decoders go wrong.',
  ['read/byte_decoder.rs','lib.rs','tokenize/tokenizer.rs'],[('byte decoding state machine','read/byte_decoder.rs'),('unsafe encoding result','lib.rs')],['tokens, unsafe_character_encoding, fatal_issues'])
p('P06','Character escapes denote exactly their documented characters',
  'The escape forms (named characters, two, four and six digit hex, three digit octal, string meta characters, line continuations, linear syntax) are recognised exactly when well formed and denote exactly their documented code point, so that an escaped character is tokenised as the character it denotes would be; every named character of the table resolves to its code point and no other name resolves. A malformed escape yields an error token for the malformed part, after which tokenising goes on.',
  ['inputs'],'all escape sequences: all names, all hex and octal digit patterns, in every lexical context','The name table alone has 1100 entries with derived character classes, and numeric escapes cover the whole code space; tests sample a few dozen.',
  ['read/character_decoder.rs','generated/long_names_registration.rs','long_names.rs','read/wl_character.rs'],[('escape decoding','read/character_decoder.rs'),('name tables','generated/long_names_registration.rs')],['tokens'])
p('P07','Every token is the longest legal lexeme and has the right kind',
  'At each position the lexer produces the longest operator, symbol, string, comment or linear-syntax lexeme of the language that starts there, with the token kind of that lexeme: contexts in symbols, nested comments, escaped quotes in strings, and multi-character operators that share prefixes are resolved as the language defines, including across line continuations and with escaped or non-ASCII characters. Ill-formed lexemes get the matching error kind.',
  ['inputs'],'all character sequences','Maximal munch interacts with context (digits after a dot, slots, comments, line continuations); an operator mis-lexed only before one particular character is invisible to example tests.',
  ['tokenize/tokenizer.rs','tokenize/token_kind.rs','read/wl_character.rs'],[('lexer dispatch and operator handlers','tokenize/tokenizer.rs'),('character classes','read/wl_character.rs')],['tokenize_bytes'])
p('P08','Number literals are delimited and classified exactly',
  'A number literal (decimal or base^^digits, with fraction, precision or accuracy marks, and exponent) extends exactly as far as the number syntax allows and is classified Integer, Real, Rational or ill-formed according to that syntax: bases outside 2 to 36, digits not below the base and incomplete exponents are rejected, and text that cannot continue the number (a second dot, a bare caret or star) is left for the next token.',
  ['inputs'],'all digit/dot/backtick/caret/star/sign/letter sequences','The number recogniser has dozens of back-up points; each needs a specific sequence of several characters to be reached.',
  ['tokenize/tokenizer.rs'],[('number recogniser','tokenize/tokenizer.rs')],['tokenize_bytes'])
p('P09','Layout changes meaning only where the language says so',
  'Whitespace and comments between tokens never change the shape of the tree (except where the language requires tokens to touch, as in blanks, slots and file names), and newlines inside brackets are insignificant while a newline at top level ends the expression unless an operator is still waiting for its operand or the next line goes on with the same infix operator. Every trivia token is kept in the tree next to the token it accompanies, as the grammar assigns it, and is never a significant operand.',
  ['inputs','histories'],'all token sequences x all placements of trivia between the tokens','Each parse rule decides for itself which trivia to skip and which to hand back; the number of rule/placement combinations is far beyond tests.',
  ['parse.rs','parse/parselet.rs'],[('trivia eating policies','parse.rs'),('newline policy inside groups','parse/parselet.rs')],['parse_bytes_cst_seq'])
p('P10','Operator precedence and associativity define the tree',
  'The tree of any sequence of operators and operands is the one determined by the language\'s operator table: tighter operators bind first, right-associative operators nest to the right, left-associative ones to the left, and associative infix operators are flat n-ary nodes. This holds for each operator in prefix, infix and postfix position and for any nesting of them.',
  ['inputs'],'all sequences over all operators and operand positions','There are more than 200 operators, so more than 40000 ordered pairs and unboundedly many longer mixes; tests cover a handful.',
  ['parse.rs','parse/parselet.rs','parse/token_parselets.rs','generated/precedence_values.rs','precedence.rs'],[('precedence climbing','parse.rs'),('operator table','parse/token_parselets.rs'),('precedence values','generated/precedence_values.rs')],['parse_bytes_cst_seq'])
p('P11','Missing and implicit operands are filled in exactly as defined',
  'Juxtaposed operands become an implicit multiplication, omitted bounds of a span become the implicit one or all, omitted elements between commas and after semicolons become implicit nulls, and any other missing operand becomes an explicit expected-operand error leaf, in exactly those places and nowhere else. Each inserted token is empty and sits at the place of the missing text.',
  ['inputs'],'all token sequences','Depends on what precedes and follows each operator, on newlines and on the enclosing operator.',
  ['parse/parselet.rs','parse.rs'],[('implicit times','parse.rs'),('span, comma and semicolon rules','parse/parselet.rs')],['parse_bytes_cst_seq'])
p('P12','Brackets match by kind and errors are contained',
  'Every opener is paired with its own kind of closer, properly nested; a closer that matches an enclosing group closes it and marks the inner groups as missing their closer, a closer that matches nothing becomes an unexpected-closer error where it stands, and an opener without a closer yields an unterminated-group node with the leaves of its text, up to the line before the first one that looks like a new statement. Material before the error keeps the tree it would have had.',
  ['inputs'],'all bracket and operand sequences over all bracket kinds','The bad cases are arbitrary interleavings of twenty bracket kinds with operators and ends of lines.',
  ['parse/parselet.rs','parse.rs','error.rs'],[('group rule','parse/parselet.rs'),('group stack','parse.rs'),('unterminated group recovery','error.rs')],['parse_bytes_cst_seq'])
p('P13','Context-sensitive forms are parsed as the language defines',
  'Pattern blanks with attached names and heads, slots and outputs, pattern and optional colons, tilde infix, tag assignments, unset, message names, file reads and writes, spans and integrals produce the specific node the language defines for that arrangement of tokens, and the defined syntax-error node when the arrangement is incomplete.',
  ['inputs'],'all arrangements of the operands, operators and trivia around these forms','Each form looks at its left operand, the enclosing operators and several following tokens.',
  ['parse/parselet.rs','parse.rs'],[('special parse rules','parse/parselet.rs')],['parse_bytes_cst_seq'])
p('P14','Aggregation removes trivia and nothing else',
  'The aggregate tree of any concrete tree is that tree with every whitespace, newline and comment leaf removed at every level and every other node, operator and order kept; the span of a node reaches from the first to the last child that is left. It contains no trivia at any depth, so inputs that differ only in insignificant layout have equal aggregate trees up to positions. Boxes and code in the tree (as the kernel sends them) are kept with their place, the children of boxes aggregated.',
  ['inputs'],'all concrete trees of all inputs','Must hold for every node shape including call heads, syntax errors and unterminated groups at any depth.',
  ['abstract_cst.rs','cst.rs'],[('aggregation','abstract_cst.rs')],['aggregate_cst_seq'])
p('P15','The abstract tree has the meaning of the concrete tree',
  'The abstract tree is the full form the language assigns to the concrete tree: every operator becomes a call of its documented head with its operands in order, negation, division, inequalities, strings, slots, blanks, calls and parenthesised groups are rewritten by their defined rules, parentheses disappear, and error nodes are kept as errors. Quirk settings change exactly the forms they name. Boxes in the tree stay boxes with abstracted children, except that [[..]] in a subscript and the parentheses of a derivative in a superscript keep their brackets; code is not touched; abstraction never fails on them.',
  ['inputs','configurations'],'all concrete trees x quirk settings','More than 200 operators with special rewriting rules that interact when nested.',
  ['abstract_cst.rs','abstract_cst/abstract_call_node.rs','symbol.rs','quirks.rs'],[('abstraction rules','abstract_cst.rs'),('call abstraction','abstract_cst/abstract_call_node.rs')],['parse_bytes_ast_seq'])
p('P16','Abstract nodes carry the position and the issues of their source',
  'Each abstract node that stands for a concrete node carries that node\'s source span, and nodes that are synthesised inside a rewriting (implied heads, powers and factors) carry none; so spans of abstract nodes nest like the nodes and lie within the input. Issues found while abstracting (strange call heads and part heads, calls of slot sequences, undocumented message names, doubled negation) are attached to the node they concern exactly when the condition holds, with the documented severity and confidence and the places concerned; boxes as heads are strange unless they are of the kinds that may stand for a function.',
  ['inputs'],'all concrete trees','Issue conditions depend on node arrangement; a lost or duplicated issue is not noticed by tests that compare only shapes.',
  ['abstract_cst.rs','abstract_cst/abstract_call_node.rs'],[('issue creation','abstract_cst.rs'),('call issues','abstract_cst/abstract_call_node.rs')],['source and issues of abstract nodes'])
p('P17','Results depend only on the input and the options of that call',
  'Parsing is deterministic and keeps no state between calls: repeating a call, or making other calls with other options in between on the same thread or on other threads at the same time, never changes a result. The entry points agree with each other: the tree built from tokens, the byte and string variants, and the abstract tree obtained directly or from the concrete tree describe the same parse.',
  ['histories','schedules','inputs'],'all sequences and interleavings of calls with arbitrary options','Needs histories of calls with differing options and comparison across entry points.',
  ['lib.rs','quirks.rs','parse.rs'],[('session set-up','lib.rs'),('quirk settings','quirks.rs')],['results of call histories'])
p('P18','Lexical diagnostics are complete, exact and unique',
  'Each suspicious character, escape or lexeme (malformed encoding, unexpected control, space, newline or letterlike character, unrecognised or undocumented escape, stray carriage return, non-ASCII character outside box mode, ambiguous or doubtful number and operator) produces its documented issue with the documented severity and confidence at its position, exactly once however often the lexer looks at it, and clean text produces none. Fatal issues are capped at ten and no issue list contains duplicates.',
  ['inputs','configurations'],'all inputs x encoding modes x convention','Look-ahead and back-up make the lexer read the same characters several times under different policies.',
  ['read/byte_decoder.rs','read/character_decoder.rs','read.rs','issue.rs'],[('issue creation','read/byte_decoder.rs'),('deduplication','read.rs')],['fatal_issues, non_fatal_issues'])
p('P19','Line continuations and embedded newlines and tabs are tracked exactly',
  'The sets of tracked positions (line continuations outside strings, line continuations inside strings, tokens with embedded newlines, tokens with embedded tabs) contain exactly the positions at which those occur in the input.',
  ['inputs'],'all inputs','Positions must survive look-ahead, back-up and error recovery.',
  ['tokenize/tokenizer.rs','read/character_decoder.rs'],[('tracking','tokenize/tokenizer.rs')],['tracked'])
p('P20','Script first lines are skipped exactly when they are present',
  'With script handling on, a first line that starts with a hash-bang is skipped up to and including its newline and everything after it is parsed exactly as it would be on its own at that position; a first line without hash-bang is parsed normally, and with script handling off nothing is skipped.',
  ['inputs','configurations'],'all inputs x first-line behaviours','Whether and how much is skipped depends on the tokens of an arbitrary first line.',
  ['tokenize/tokenizer.rs','lib.rs'],[('first line handling','tokenize/tokenizer.rs'),('parse options','lib.rs')],['tokens, tree'])
p('P21','Single-leaf parsing delimits tags and file names exactly',
  'Parsing a text as one leaf in normal, tag or file mode returns the leaf the language defines for that mode: the first token as tokenised normally, the message tag that starts the text, or the file name with its own character set and bracket nesting; text that cannot start such a leaf yields the empty expected-tag or expected-file error.',
  ['inputs'],'all inputs x the three modes','File names and tags have lexical rules of their own which are reached only after particular operators.',
  ['lib.rs','tokenize/tokenizer.rs'],[('tag and file lexing','tokenize/tokenizer.rs')],['parse_to_token'])
p('P22','The character and token iterators expose each layer exactly',
  'For every text, the iterator over source characters yields its characters one by one (CRLF as one character), the iterator over Wolfram characters yields them after decoding of escapes (a line continuation is one character), each with the form in which it was written, and the token iterator yields the tokens, uncut, in order. Printing a source character gives its text; printing an escaped character gives an escape of the same form for the same character, its graphical form is printable ASCII which stands for the same character, and printing never panics for well-encoded text.',
  ['inputs'],'all valid UTF-8 texts','Each layer is a state machine of its own over all texts; the printed form of a character depends on its code point (all of Unicode) and on how it was escaped.',
  ['iter.rs','read/character_decoder.rs','read/wl_character.rs','source.rs','byte_encoder.rs','read/byte_decoder.rs'],[('iterators over the layers','iter.rs'),('escape kept with the character','read/wl_character.rs'),('printing of characters','source.rs')],['iter::source_chars, iter::wolfram_chars, iter::tokens'])
p('P23','Tree walks meet every node once and in order',
  'Visiting a concrete or aggregate tree meets every node exactly once, a node before its children and children from left to right (of a call: the head, then what is between and including its brackets; its bracketed group is not a node of its own). The mutable and the mapping walk meet the same nodes, go on with the children of whatever the visitor has put in place, change nothing else, and keep the kind and operator of every node they rebuild, also in trees with boxes, code and groups without an opener.',
  ['inputs','histories'],'all trees of all inputs, concrete and aggregate, under visitors that keep, change and replace nodes','Each node type has its own arm in each of the three walks; a missing or misordered arm shows only for a tree with that node type in a particular place.',
  ['cst/visit.rs','cst.rs'],[('visitors','cst/visit.rs')],['CstSeq::visit, visit_mut, map_visit'])
p('P24','Printed trees and canonical symbols identify every node',
  'Every token kind, operator and syntax error has one canonical symbol, which no other one of its class has (the two newline kinds share theirs), and converting the symbol back gives the same kind or operator while any other symbol gives none; issue tags and severities convert to their names and back in the same way. Printing tokens or a tree as an expression writes each node exactly once, nested as in the tree: node type, canonical symbol, text of each leaf verbatim (badly encoded pieces as replacement characters), and line and column span, with error tokens marked as errors.',
  ['inputs'],'all symbols; all inputs with line and column positions','There are more than 700 kinds and operators in eleven classes, and conversion back and forth is written out by hand for each.',
  ['fmt_as_expr.rs','parse/operators.rs','tokenize/token_kind.rs','symbols.rs','cst.rs'],[('printing as expressions','fmt_as_expr.rs'),('operators to and from symbols','parse/operators.rs'),('token kinds to and from symbols','tokenize/token_kind.rs')],['FmtAsExpr, Operator::to_symbol, Operator::try_from_symbol, TokenKind::from_symbol'])
p('P25','Span containment, overlap and order follow the text',
  'Locations are ordered as they are read; a span contains exactly the places from its start up to and including its end; two spans of the same convention overlap exactly when some place is in both, so that overlap is symmetric and includes enclosing and touching spans. The printed form of a span names its start and end.',
  ['inputs'],'all pairs of spans in both conventions','The cases of one or several lines, enclosing, touching and disjoint spans combine to many more than tests sample.',
  ['source.rs','utils.rs'],[('containment and overlap','source.rs'),('interval intersection','utils.rs')],['Span::overlaps, LineColumnSpan::contains, LineColumnSpan::overlaps'])
p('P26','Issues carry the edits that repair them, and taking an edit is safe',
  'Each lexical issue that has a repair carries it as suggested edits (insert, replace or delete text) which lie at the place of the issue, say exactly which text to put there, and are complete and in order: a space where two tokens are easily misread, the sign of an implied multiplication, the bracket missing from a character name, the nearest known name for a misspelt one (at most two changes away), a doubled backslash for a malformed escape, the escape and the customary ASCII spellings of a character outside ASCII, the character that was meant for one that looks like it. Taking a suggested space leaves tokens and tree as they were, taking the suggested multiplication sign only makes the implied product explicit, replacing a character by its escape leaves the meaning as it was, and after a repair the issue is no longer reported there.',
  ['inputs','configurations'],'all inputs x encoding modes x both source conventions, every suggested edit of every issue','There are some thirty kinds of suggestions, several hundred characters with spellings of their own, and the effect of an edit depends on the text around it.',
  ['issue.rs','utils.rs','long_names.rs','read/byte_decoder.rs','read/character_decoder.rs','tokenize/tokenizer.rs','generated/long_names_registration.rs'],[('edits of characters','read/byte_decoder.rs'),('edits of escapes','read/character_decoder.rs'),('edits of numbers and operators','tokenize/tokenizer.rs'),('characters that were meant','utils.rs')],['actions of each issue'])
L='crates/codeparser-wll/src/'
p('P27','Results reach the kernel complete and unchanged',
  'What the library functions called by the kernel put on the link is exactly one complete expression that says what the Rust API returns for the same bytes and options: the nodes in order with their kind, text and place (line and column, or first and last character), or Missing with the encoding error instead of nodes; the fatal issues if there are any and all other issues otherwise, each with tag, message, severity, place, confidence and suggested edits; and the four lists of tracked locations. Reading the same bytes from a file gives the same answer, the options of the request are the ones that are used, and a file the kernel does not permit to be read is not read. If the kernel asks to abort while the answer is being sent, the remaining nodes are replaced by $Aborted, and the answer is still one complete expression.',
  ['inputs','configurations','schedules'],'all inputs x options x entry points (concrete tree and tokens from bytes and from files, single leaf, safe string), aborted at the first, at a middle and at the last poll','The crate is only type-checked by the build here and no test runs it; a miscounted argument only shows for nodes or issues of one shape, and an abort at one particular moment.',
  [L+'lib.rs',L+'convert_wstp.rs'],[('entry points and options',L+'lib.rs'),('encoding of results',L+'convert_wstp.rs'),('abort while sending',L+'convert_wstp.rs')],['tokens put on the link by ConcreteParseBytes, ConcreteParseFile, TokenizeBytes, TokenizeFile, ConcreteParseLeaf, SafeString'])
p('P28','Trees the kernel sends back are read exactly as they were sent',
  'A concrete tree that is sent back by the kernel is read without loss: a container with any nodes, issues, suggested edits, locations and other data, over text or over boxes, is returned by the round trip exactly as it was sent, whether system symbols are written with or without their context, and the computed position of a row of boxes is that of the row; abstracting a node over the link gives exactly the abstract tree, with its data and issues, that the Rust API gives for that node and the same quirks; and a kind of token is called empty exactly if its tokens have no text.',
  ['inputs','configurations'],'all trees of all inputs x container kinds (String, File, Byte, Hold, Box, Cell) x quirks x both source conventions','Every kind of node, operator, issue and data has its own decoding, none of it is run by the tests, and the two directions have to agree on all of them.',
  [L+'from_expr.rs',L+'convert_wstp.rs',L+'lib.rs','source.rs','cst.rs'],[('decoding',L+'from_expr.rs'),('encoding',L+'convert_wstp.rs'),('box positions','source.rs')],['answers of RoundTripTest, Abstract and TokenIsEmpty'])
p('P29','The command line program prints what the call it names returns',
  'For every sequence of arguments and every file or standard input the program makes the library call its last mode argument names (the expression form of the concrete tree if there is none), with the settings its arguments give, once on the whole file, or on each line of standard input without the white space at its end after a prompt, until the input ends; it prints the result, and nothing with the silent modes, and ends normally; an unknown argument, a missing file, or a text whose encoding the call rejects makes it end with an error and print nothing for it.',
  ['inputs','histories','configurations'],'all argument sequences x all files and standard inputs','The program is run by no test; arguments combine and override each other, and lines depend on what was printed before.',
  ['bin/main.rs','fmt_as_expr.rs','lib.rs'],[('argument loop','bin/main.rs'),('read loop','bin/main.rs'),('printing','fmt_as_expr.rs')],['standard output and exit status of the program'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,x['title']
print(len(P))
