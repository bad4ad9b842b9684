TK = 'tokenize/tokenizer.rs'
SEEDS = [
 dict(id='p08-exponent-dots', property='P08',
  edits=[(TK, "        if self.NegativeExponent && self.NonZeroExponentDigitCount != 0 {", "        if self.NegativeExponent {")],
  demo='assert_eq!(toks(b"1*^-0"), vec![("Integer".into(), "1*^-0".into())]); assert_eq!(kinds(b"1*^-2"), vec!["Rational".to_string()]);',
  needs='a number with a negative exponent whose digits are all zero', breaks='1*^-0 is classified Rational instead of Integer'),
 dict(id='p07-comment-overlap', property='P07',
  edits=[(TK, "                    depth = depth + 1;\n\n                    c = session.next_source_char(policy);\n                }\n            },\n            Char('*') => {",
              "                    depth = depth + 1;\n                }\n            },\n            Char('*') => {")],
  demo='assert_eq!(texts(b"(* (*) *) *) a"), vec!["(* (*) *) *)".to_string(), " ".into(), "a".into()]);',
  needs='a nested comment opener whose star is directly followed by a closing parenthesis: (*)', breaks='(*) inside a comment counts as opener and closer, so the comment ends too early'),
 dict(id='p05-f4-boundary', property='P05',
  edits=[('read/byte_decoder.rs', "if !(0x80 <= secondByte && secondByte <= 0x8f) {", "if !(0x80 <= secondByte && secondByte <= 0x9f) {")],
  demo='let r = std::panic::catch_unwind(|| tokenize_bytes(b"a\\xf4\\x90\\x80\\x80b", &opts()).is_err()); assert!(r.expect("no panic")); let n = parse_bytes_cst_seq(b"a \\xf4\\x90\\x80\\x80", &opts()).syntax.0.len(); assert_eq!(n, 6);',
  needs='a four byte sequence just above U+10FFFF', breaks='F4 90..9F sequences are taken for one character (or panic) instead of four malformed bytes'),
]
