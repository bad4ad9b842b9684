TK = 'tokenize/tokenizer.rs'
CD = 'read/character_decoder.rs'
AB = 'abstract_cst.rs'
SS = 'parse/parselet/semi_semi_parselet.rs'
SEEDS = [
 dict(id='p18-fatal-cap', property='P18',
  edits=[('read.rs', "if self.fatal_issues.len() >= 10 {", "if self.fatal_issues.len() > 10 {")],
  demo='let b = b"\\x80 ".repeat(14); let n = parse_bytes_cst_seq(&b, &opts()).fatal_issues.len(); assert_eq!(n, 10);',
  needs='an input with more than ten distinct fatal errors', breaks='the eleventh fatal issue is reported although reports stop at ten'),
 dict(id='p06-six-digit-seek', property='P06',
  edits=[(CD, "    let Some(mut point) = CodePoint::from_u32(point) else {\n        session.seek(bar);\n\n        return WLCharacter::new('\\\\');\n    };", "    let Some(mut point) = CodePoint::from_u32(point) else {\n        return WLCharacter::new('\\\\');\n    };")],
  pre='fn chars(s: &str) -> Vec<String> { wolfram_parser::iter::wolfram_chars(s, &opts()).map(|c| format!("{:?}", c)).collect() }',
  demo='let c = chars("\\\\|110000"); assert_eq!(c.len(), 8, "{c:?}");',
  needs='a six digit escape above U+10FFFF', breaks='the digits of an out-of-range \\|hhhhhh escape are swallowed'),
 dict(id='p19-carriage-return', property='P19',
  edits=[(TK, "            Char('\\n' | '\\r') | CRLF if session.compute_oob => {\n                session.addEmbeddedNewline(token_start.loc);\n            },\n            Char('\\t') if session.compute_oob => {\n                session.addEmbeddedTab(token_start.loc);\n            },\n            _ => (),\n        }\n    } // while\n}\n\nfn Tokenizer_handleString_stringifyAsTag",
              "            Char('\\n') | CRLF if session.compute_oob => {\n                session.addEmbeddedNewline(token_start.loc);\n            },\n            Char('\\t') if session.compute_oob => {\n                session.addEmbeddedTab(token_start.loc);\n            },\n            _ => (),\n        }\n    } // while\n}\n\nfn Tokenizer_handleString_stringifyAsTag")],
  demo='assert_eq!(parse_bytes_cst_seq(b"\\"a\\rb\\"", &opts()).tracked.embedded_newlines.len(), 1);',
  needs='a string with a lone carriage return', breaks='the string is not tracked as containing a newline'),
 dict(id='p21-file-separator', property='P21',
  edits=[(TK, "                if c.isMBWhitespace() || c.isMBNewline() {\n                    return HandledFileOpsBracket::UnterminatedFileString;", "                if c.isMBWhitespace() {\n                    return HandledFileOpsBracket::UnterminatedFileString;")],
  demo='let r = parse_to_token("a[\\u{2028}b]".as_bytes(), &opts(), StringifyMode::File); assert_eq!(format!("{:?}", r.syntax.0[0].tok), "Error_UnterminatedFileString");',
  needs='a file name with brackets around a Unicode line separator', breaks='the line separator is accepted in a bracketed file name'),
 dict(id='p12-blank-lines', property='P12',
  edits=[('error.rs', "    while last_good_line.content == \"\" {", "    if last_good_line.content == \"\" {")],
  demo='let t = tree(b"\\"a\\n\\n\\nf[x_] := 1"); assert_eq!(t, "Error_UnterminatedString<\\"a>");',
  needs='an unterminated string followed by two or more blank lines before a new statement', breaks='the error swallows blank lines after the last good line'),
 dict(id='p15-vector-inequality', property='P15',
  edits=[(AB, "            if affinity == Some(false) {\n                //", "            if affinity == Some(false) && processed.1.len() > 1 {\n                //")],
  demo='let a = ast("a \\\\[LessTilde] b \\\\[VectorLess] c".as_bytes()); assert!(a.matches("Call").count() >= 2, "{a}");',
  needs='an inequality of exactly two operators, the first ordinary and the second a vector inequality', breaks='a \\[LessTilde] b \\[VectorLess] c becomes one inequality'),
 dict(id='p25-first-line', property='P25',
  edits=[('source.rs', "            return srcCol1 <= cursorCol;", "            return srcCol1 <= cursorCol && srcLine1 + 1 != srcLine2 || srcCol1 < cursorCol;")],
  demo='assert!(macros::src!(1:3-2:5).contains(macros::src!(1:3))); assert!(macros::src!(1:3-3:5).contains(macros::src!(1:3))); assert!(!macros::src!(1:3-2:5).contains(macros::src!(1:2)));',
  needs='a span of exactly two lines and a cursor exactly at its start', breaks='the start of a two-line span is no longer in the span'),
 dict(id='p23-error-children', property='P23',
  edits=[('cst/visit.rs', "            Cst::SyntaxError(SyntaxErrorNode { err: _, children }) => {\n                children.visit_mut(visit)\n            },", "            Cst::SyntaxError(SyntaxErrorNode { err: _, children: _ }) => (),")],
  demo='let mut s = parse_bytes_cst_seq(b"a b:c:d:e f[x, ?]", &opts()).syntax; for t in [&b"a:b:c:d"[..], b"a:1", b"1:x", b"\\"s\\":x", b"f[]:x", b"_:_:_"] { let mut s = parse_bytes_cst_seq(t, &opts()).syntax; let mut n = 0; s.visit(&mut |_| n += 1); let mut m = 0; s.visit_mut(&mut |_| m += 1); assert_eq!(n, m); }',
  needs='a tree with a syntax error node', breaks='the mutable walk does not meet the children of syntax errors'),
 dict(id='p13-capital-d', property='P13',
  edits=[('parse/parselet/integral_parselet.rs', "        if Tok.tok == TokenKind::LongName_DifferentialD\n            || Tok.tok == TokenKind::LongName_CapitalDifferentialD\n        {", "        if Tok.tok == TokenKind::LongName_DifferentialD {")],
  demo='let t = tree(b"\\\\[Integral]\\\\[CapitalDifferentialD]x"); assert!(t.contains("ImplicitOne"), "{t}");',
  needs='an integral whose integrand is missing, with the capital differential', breaks='no implicit 1 is inserted'),
 dict(id='p09-span-newline', property='P09',
  edits=[(SS, "        //\n        // Span should not cross toplevel newlines\n        //\n        let (trivia4, FourthTok) =\n            session.current_token_eat_trivia_but_not_toplevel_newlines_into();", "        //\n        // Span should not cross toplevel newlines\n        //\n        let (trivia4, FourthTok) = session.current_token();")],
  demo='let t = tree(b"a;;b;;\\nc"); assert!(!t.contains("Ternary"), "{t}");',
  needs='a span with a second ;; at the end of a top-level line', breaks='a;;b;; at the end of a line takes its third operand from the next line'),
 dict(id='p03-span-trivia', property='P03',
  edits=[(SS, "            session.trivia_reset(trivia4);\n            ThirdTok.reset(&mut session.tokenizer);\n            session.trivia_reset(trivia3);", "            session.trivia_reset(trivia4);\n            ThirdTok.reset(&mut session.tokenizer);")],
  demo='let t = tree(b"a;;b ;; &"); assert_eq!(t.matches("Whitespace").count(), 2, "{t}");',
  needs='a span with white space before a second ;; that has no operand', breaks='the white space before the second ;; is lost'),
 dict(id='p14-box-whitespace', property='P14',
  edits=[(AB, "        Cst::PrefixBinary(PrefixBinaryNode(op)) => {\n            Cst::PrefixBinary(PrefixBinaryNode(aggregate_op(op)))\n        },", "        Cst::PrefixBinary(op) => Cst::PrefixBinary(op),")],
  demo='let s = parse_bytes_cst_seq(b"\\\\[Integral]x \\\\[DifferentialD]x", &opts()).syntax; let a = abstract_cst::aggregate_cst_seq(s); let t = format!("{a:?}"); assert!(!t.contains("Whitespace"), "{t}");',
  needs='white space or a comment inside an integral', breaks='trivia inside integrals survives aggregation'),
 dict(id='p11-null-after-comma', property='P11',
  edits=[('parse/parselet.rs', "        let kind = if session.top_precedence() == Precedence::COMMA {\n            TokenKind::Error_InfixImplicitNull\n        } else {\n            TokenKind::Error_ExpectedOperand\n        };\n\n        let node = session.push_leaf(Token::at_start(kind, tok_in));\n\n        //\n        // Do not take the closer.", "        let kind = if session.top_precedence() == Precedence::HIGHEST {\n            TokenKind::Error_InfixImplicitNull\n        } else {\n            TokenKind::Error_ExpectedOperand\n        };\n\n        let node = session.push_leaf(Token::at_start(kind, tok_in));\n\n        //\n        // Do not take the closer.")],
  demo='let t = tree(b"{a, ]}"); let u = tree(b"(a,])"); let v = tree(b"f[a,}]"); assert!(t.contains("InfixImplicitNull") || u.contains("InfixImplicitNull") || v.contains("InfixImplicitNull"), "{t} {u} {v}");',
  needs='a comma directly before a closer of another kind', breaks='the missing operand is reported as an expected operand, not as an implicit Null'),
 dict(id='p04-tab-far', property='P04',
  edits=[('read/byte_decoder.rs', "                let currentTabStop =\n                    self.tab_width * ((column.get() - 1) / self.tab_width) + 1;", "                let currentTabStop = self.tab_width\n                    * (((column.get() - 1) & 0xff) / self.tab_width)\n                    + 1;")],
  demo='let mut b = vec![b\'a\'; 260]; b.extend(b"\\tx"); let NodeSeq(v) = tokenize_bytes(&b, &opts()).unwrap(); assert_eq!(format!("{}", v.last().unwrap().src.start()), "1:265");',
  needs='a tab beyond column 256 of a line', breaks='the column after such a tab is that of a tab in the first 256 columns'),
 dict(id='p17-sticky-quirks', property='P17',
  edits=[(AB, "    crate::quirks::set_quirks(quirks);\n\n    abstract_(cst)", "    // only touch the global state when a setting changes\n    if quirks.infix_binary_at != quirks::is_quirk_enabled(Quirk::InfixBinaryAt)\n        || quirks.flatten_times != quirks::is_quirk_enabled(Quirk::FlattenTimes)\n        || quirks.old_at_at_at\n    {\n        crate::quirks::set_quirks(quirks);\n    }\n\n    abstract_(cst)")],
  demo='let s = parse_bytes_cst_seq(b"a @@@ b", &opts()).syntax; let c = abstract_cst::aggregate_cst_seq(s).0.remove(0); let d = c.clone(); let e = c.clone(); let q = quirks::QuirkSettings::const_default(); let x = format!("{:?}", abstract_cst::abstract_cst(c, q)); abstract_cst::abstract_cst(d, q.old_at_at_at(true)); let y = format!("{:?}", abstract_cst::abstract_cst(e, q)); assert_eq!(x, y);',
  needs='abstraction with a quirk, then abstraction with the default quirks, without a parse between them', breaks='the quirk of the earlier call still applies'),
 dict(id='p10-vector-operators', property='P10',
  edits=[('parse/token_parselets.rs', "TK::LongName_LeftRightVector     => &InfixOperatorParselet::new(Precedence::CLASS_VECTOROPERATORS, InfixOperator::LeftRightVector),", "TK::LongName_LeftRightVector     => &InfixOperatorParselet::new(Precedence::CLASS_ORDERINGOPERATORS, InfixOperator::LeftRightVector),")],
  demo='let t = tree(b"a \\\\[LeftRightVector] b \\\\[VerticalBar] c"); assert_eq!(t, tree(b"a \\\\[LeftVector] b \\\\[VerticalBar] c").replace("LeftVector", "LeftRightVector"));',
  needs='two different rare operators of neighbouring precedence', breaks='\\[LeftRightVector] binds like an ordering operator, not like the other vector operators'),
 dict(id='p24-not-element', property='P24',
  edits=[('parse/operators.rs', "            sym::NotElement => InfixOperator::NotElement,", "            sym::NotElement => InfixOperator::Element,")],
  demo='use parse::operators::{InfixOperator as O, Operator}; assert_eq!(O::try_from_symbol(O::NotElement.to_symbol()), Some(O::NotElement));',
  needs='the symbol of one particular operator', breaks='System`NotElement is read back as another operator'),
 dict(id='p01-nested-inequality', property='P01',
  edits=[(AB, "        | sym::NotNestedGreaterGreater\n        | sym::NotNestedLessLess => false,", "        | sym::NotNestedGreaterGreater => false,")],
  demo='let a = ast("a < b \\\\[NotNestedLessLess] c".as_bytes()); assert!(a.contains("NotNestedLessLess"), "{a}");',
  needs='a chain of different inequality operators one of which is \\[NotNestedLessLess], abstracted', breaks='abstraction panics'),
 dict(id='p16-linear-call', property='P16',
  edits=[('abstract_cst/abstract_call_node.rs', "                LHS!(LeafNode[LinearSyntaxBlob, _, _]) => {\n                    data.issues.push(\n                        Issue::syntax(\n                            IssueTag::StrangeCall,\n                            \"Unexpected Call.\".to_owned(),\n                            Severity::Remark,", "                LHS!(LeafNode[LinearSyntaxBlob, _, _]) => {\n                    data.issues.push(\n                        Issue::syntax(\n                            IssueTag::StrangeCall,\n                            \"Unexpected Call.\".to_owned(),\n                            Severity::Warning,")],
  demo='let a = ast("\\\\(a\\\\)\\\\[LeftDoubleBracket]x\\\\[RightDoubleBracket]".as_bytes()); assert!(a.contains("StrangeCall") && !a.contains("Warning"), "{a}");',
  needs='a part of linear syntax, with \\[LeftDoubleBracket]', breaks='the strange call is reported as a Warning, not as a Remark'),
 dict(id='p22-octal-backslash', property='P22',
  edits=[('read/wl_character.rs', "            Escape::Octal => {\n                i = match i {\n                    CodePoint::StringMeta_DoubleQuote => {\n                        Char(CODEPOINT_ACTUAL_DOUBLEQUOTE)\n                    },\n                    CodePoint::StringMeta_Backslash => {\n                        Char(CODEPOINT_ACTUAL_BACKSLASH)\n                    },\n                    _ => i,", "            Escape::Octal => {\n                i = match i {\n                    CodePoint::StringMeta_DoubleQuote\n                    | CodePoint::StringMeta_Backslash => {\n                        Char(CODEPOINT_ACTUAL_DOUBLEQUOTE)\n                    },\n                    _ => i,")],
  demo='let c: Vec<String> = wolfram_parser::iter::wolfram_chars("\\\\134\\\\042", &opts()).map(|c| c.to_string()).collect(); assert_eq!(c.concat(), "\\\\134\\\\042");',
  needs='a backslash written as an octal escape, printed', breaks='it is printed as the escape of a double quote'),
 dict(id='p26-rule-delayed-escape', property='P26',
  edits=[('utils.rs', "(if c.escape() == Escape::None { \"\\u{F51F}\" } else { \"\\\\[RuleDelayed]\" }).to_owned()", "(if c.escape() != Escape::LongName { \"\\u{F51F}\" } else { \"\\\\[RuleDelayed]\" }).to_owned()")],
  demo='let i = format!("{:?}", parse_bytes_cst_seq(b"a \\\\:29f4 b", &opts()).non_fatal_issues); assert!(i.contains("[RuleDelayed]\\""), "{i}");',
  needs='the look-alike of the delayed rule, written as a hexadecimal escape', breaks='the suggested replacement is the bare character although the text spelt it as an escape'),
]
