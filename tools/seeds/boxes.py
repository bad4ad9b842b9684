AB = 'abstract_cst.rs'
BOX = '''
type N<'i> = cst::Cst<TokenStr<'i>>;
fn nodes(b: &[u8]) -> Vec<N<'_>> { parse_bytes_cst_seq(b, &opts()).syntax.0 }
fn boxed<'i>(kind: cst::BoxKind, children: Vec<N<'i>>) -> N<'i> { cst::Cst::Box(cst::BoxNode { src: children[0].get_source(), kind, children: NodeSeq(children) }) }
'''
SEEDS = [
 dict(id='p14-boxed-comment', property='P14',
  edits=[(AB, "        }) => Cst::Box(BoxNode {\n            kind,\n            children: aggregate_cst_seq(children),", "        }) => Cst::Box(BoxNode {\n            kind,\n            children: if children.0.len() > 1 {\n                children\n            } else {\n                aggregate_cst_seq(children)\n            },")],
  pre=BOX, demo='let t = nodes(b"f[a (*c*) b]"); let u = boxed(cst::BoxKind::OverscriptBox, vec![t[0].clone(), t[0].clone()]); let NodeSeq(v) = wolfram_parser::abstract_cst::aggregate_cst_seq(NodeSeq(vec![u])); let mut n = 0; NodeSeq(v).visit(&mut |c| if let cst::Cst::Token(t) = c { n += (t.tok == TokenKind::Comment) as usize }); assert_eq!(n, 0);',
  needs='a box of several children with comments or spaces inside', breaks='comments and spaces survive aggregation inside a box'),
 dict(id='p16-subscript-place', property='P16',
  edits=[(AB, "            // BoxNode[SubscriptBox, {abstract[a], GroupNode[GroupDoubleBracket, {o, abstract[b], c}, data1]}, data]\n            let ast = Ast::Box {\n                kind: BoxKind::SubscriptBox,", "            // BoxNode[SubscriptBox, {abstract[a], GroupNode[GroupDoubleBracket, {o, abstract[b], c}, data1]}, data]\n            let data1 = match &b {\n                Cst::Token(_) => data1,\n                other => other.get_source(),\n            };\n            let ast = Ast::Box {\n                kind: BoxKind::SubscriptBox,")],
  pre=BOX, demo='let t = nodes("x; \\u{301a}a+b\\u{301b}".as_bytes()); let g = nodes("\\u{301a}a+b\\u{301b}".as_bytes()).remove(0); let want = format!("{:?}", g.get_source()); let u = boxed(cst::BoxKind::SubscriptBox, vec![nodes(b"x").remove(0), g]); let a = abstract_cst::abstract_cst(u, Default::default()); let s = format!("{a:?}"); let i = s.find("GroupDoubleBracket").expect("group"); let tail = &s[s.rfind("source").unwrap_or(0)..]; assert!(s.matches(&want).count() >= 1, "{s} {want}");',
  needs='a subscript of double brackets around an operator expression', breaks='the group of the subscript gets the place of its contents'),
 dict(id='p23-boxed-walk', property='P23',
  edits=[('cst/visit.rs', "            Cst::Box(BoxNode {\n                kind: _,\n                children,\n                src: _,\n            }) => {\n                children.visit_mut(visit);", "            Cst::Box(BoxNode {\n                kind: _,\n                children: NodeSeq(children),\n                src: _,\n            }) => {\n                if let Some(first) = children.first_mut() {\n                    first.visit_mut(visit);\n                }")],
  pre=BOX, demo='let t = nodes(b"f[a, b]"); let mut u = boxed(cst::BoxKind::OverscriptBox, vec![t[0].clone(), t[0].clone()]); let mut n = 0; u.visit(&mut |_| n += 1); let mut m = 0; u.visit_mut(&mut |_| m += 1); assert_eq!(n, m);',
  needs='a box of several children', breaks='the mutable walk meets only the first child of a box'),
]
