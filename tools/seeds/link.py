W = 'crates/codeparser-wll/src/convert_wstp.rs'
F = 'crates/codeparser-wll/src/from_expr.rs'
SEEDS = [
 dict(id='p27-empty-span', property='P27', link=True,
  edits=[(W, "link.put_i64((end - 1).into()).unwrap();", "link.put_i64((end - 1).max(start).into()).unwrap();")],
  demo='let v = concrete(b"a b", 1); assert!(has(&v, &[f("System`List", 2), Int(3), Int(2)]) || has(&v, &[f("List", 2), Int(3), Int(2)]), "{v:?}");',
  needs='character positions and a node of no width (an implicit operator)', breaks='a node of no width reaches the kernel with the place of the character after it'),
 dict(id='p27-fatal-only', property='P27', link=True,
  edits=[(W, "let issues = if !fatal_issues.is_empty() {", "let issues = if fatal_issues.len() > non_fatal_issues.len() {")],
  demo='let v = concrete(b"\\\\[COMPATIBILITYNoBreak] \\\\[COMPATIBILITYNoBreak] \\x80", 0); let n = v.iter().filter(|t| matches!(t, Function(h, 4) if h.ends_with("EncodingIssue") || h.ends_with("SyntaxIssue"))).count(); assert_eq!(n, 1, "{v:?}");',
  needs='a file with fatal issues and at least as many others', breaks='the fatal issues do not reach the kernel'),
 dict(id='p28-empty-span', property='P28', link=True,
  edits=[(F, "                end_index + 1,\n            )));", "                end_index.max(start_index) + 1,\n            )));")],
  demo='''let mut q = vec![f("System`List", 1), f("CodeParser`ContainerNode", 3), s("System`String"), f("System`List", 1)];
q.extend(leaf(vec![f("System`List", 2), Int(3), Int(2)])); q.push(f("System`Association", 0));
let v = ask(codeparser_wll::RoundTripTest_LibraryLink, q); assert!(has(&v, &[Int(3), Int(2)]), "{v:?}");''',
  needs='a node of no width given by character positions', breaks='a node of no width is read back as one character wide'),
 dict(id='p28-before', property='P28', link=True,
  edits=[(F, "            return Ok(Source::Box(BoxPosition::Before(indexes)));", "            return Ok(Source::Box(if indexes.is_empty() { BoxPosition::Before(indexes) } else { BoxPosition::At(indexes) }));")],
  demo='''let mut q = vec![f("System`List", 1), f("CodeParser`ContainerNode", 3), s("System`Box"), f("System`List", 1)];
q.extend(leaf(vec![f("System`Before", 1), f("System`List", 2), Int(1), Int(2)])); q.push(f("System`Association", 0));
let v = ask(codeparser_wll::RoundTripTest_LibraryLink, q); assert!(v.iter().any(|t| matches!(t, Function(h, 1) if h.ends_with("Before"))), "{v:?}");''',
  needs='a node placed before a box', breaks='a node before a box is read back as the box itself'),
 dict(id='p28-tabs', property='P28', link=True,
  edits=[(F, 'lhs == Expr::string("EmbeddedTabs") {\n                embedded_tabs = Some(rhs);', 'lhs == Expr::string("EmbeddedTabs") {\n                if embedded_newlines.is_none() {\n                    embedded_tabs = Some(rhs);\n                }')],
  demo='''let mut q = vec![f("System`List", 1), f("CodeParser`ContainerNode", 3), s("System`String"), f("System`List", 1)];
q.extend(leaf(vec![f("System`List", 2), Int(3), Int(2)])); q.push(f("System`Association", 2));
for k in ["EmbeddedNewlines", "EmbeddedTabs"] { q.extend([f("System`Rule", 2), t(k), f("System`List", 1), f("System`List", 2), Int(1), Int(1)]); }
let v = ask(codeparser_wll::RoundTripTest_LibraryLink, q); assert!(has(&v, &[t("EmbeddedTabs")]), "{v:?}");''',
  needs='a file with strings containing newlines and strings containing tabs, the tabs listed second', breaks='the tracked tabs are lost when a container is read'),
]
