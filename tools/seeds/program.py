M = 'bin/main.rs'
SEEDS = [
 dict(id='p29-leading-space', property='P29',
  edits=[(M, "handle(input.trim_end().as_bytes(), mode, output_mode, quirks)", "handle(input.trim().as_bytes(), mode, output_mode, quirks)")],
  sh='printf "  a\\n" | program -tokenize | grep -q "{{1, 3}, {1, 4}}"\n',
  needs='a line of standard input that starts with white space', breaks='the positions are those of another text'),
 dict(id='p29-quiet-cst', property='P29',
  edits=[(M, "            let result = wolfram_parser::parse_bytes_ast_seq(input, &opts);", "            let mut opts = opts;\n            opts.quirk_settings.flatten_times &= !input.ends_with(b\"\\n\");\n            let result = wolfram_parser::parse_bytes_ast_seq(input, &opts);")],
  sh='printf "a (b c)/d\\n" > "$t/in"; printf "a (b c)/d" > "$t/in2"\n[ "$(program --ast --flatten-times -file "$t/in" | wc -l)" = "$(program --ast --flatten-times -file "$t/in2" | wc -l)" ]\n',
  needs='the setting to flatten products, on a file that ends with a newline', breaks='the setting is dropped'),
]
