TK = 'tokenize/tokenizer.rs'
SEEDS = [
 dict(id='p02-tab-before-open-string', property='P02',
  edits=[('error.rs', "                    .index_columns(tab_width, better_src.start.column()..),", "                    .index_columns(tab_width.max(2), better_src.start.column()..),")],
  demo='let o = opts().tab_width(1); let NodeSeq(v) = tokenize_bytes(b"\\t\\t\\"abc", &o).expect("tokens"); let s: String = v.iter().map(|t| String::from_utf8_lossy(t.input.as_bytes()).into_owned()).collect(); assert_eq!(s, "\\t\\t\\"abc");',
  needs='tab width 1 and a tab before an unterminated string on its line', breaks='the text of the unterminated string does not start where its token starts'),
 dict(id='p20-boxes-script', property='P20',
  edits=[(TK, "        tokenizer.handle_first_line();\n\n        tokenizer", "        if encoding_mode == crate::EncodingMode::Normal {\n            tokenizer.handle_first_line();\n        }\n\n        tokenizer"), (TK, "            first_line_behavior,\n            src_convention: _,\n            encoding_mode: _,", "            first_line_behavior,\n            src_convention: _,\n            encoding_mode,")],
  demo='let o = ParseOptions::make(FirstLineBehavior::Check, SourceConvention::LineColumn, EncodingMode::Box, 4, Default::default()); let NodeSeq(v) = tokenize_bytes(b"#!/bin/x\\na", &o).expect("tokens"); assert_eq!(v.len(), 1);',
  needs='script handling together with the box encoding', breaks='the first line of a script is not skipped in box encoding'),
]
