//! Walks over syntax trees: visiting, changing in place, mapping, printing.
use crate::json::W;
use std::fmt::Write as _;
use wolfram_parser::{
    cst::{BoxKind, BoxNode, Cst, GroupNode, PostfixNode},
    fmt_as_expr::FmtAsExpr,
    tokenize::{TokenKind, TokenStr},
    NodeSeq,
};

type Node<'i> = Cst<TokenStr<'i>>;

/// The change that a walk makes to the nodes it meets: an integer becomes a
/// symbol, a group of exactly three nodes becomes a row of boxes, and a
/// postfix node becomes its first child.
fn change<'i>(c: Node<'i>) -> Node<'i> {
    match c {
        Cst::Token(mut t) => {
            if t.tok == TokenKind::Integer {
                t.tok = TokenKind::Symbol;
            }
            Cst::Token(t)
        },
        Cst::Group(GroupNode(op)) if op.children.0.len() == 3 => {
            let src = Cst::Group(GroupNode(op.clone())).get_source();
            Cst::Box(BoxNode { kind: BoxKind::RowBox, children: op.children, src })
        },
        Cst::Postfix(PostfixNode(op)) if !op.children.0.is_empty() => op.children.0.into_iter().next().unwrap(),
        c => c,
    }
}

fn heads<'i>(w: &mut W<'i>, list: String) {
    let _ = write!(w.o, "[{}]", list.trim_end_matches(','));
}

/// `[tree, nodes visited, nodes visited mutably, changed tree, nodes mapped,
/// mapped tree, nodes of the mapped tree]`
pub fn walks<'i>(w: &mut W<'i>, tree: NodeSeq<Node<'i>>) {
    let input = w.input;
    let head = |c: &Node<'i>, list: &mut String| {
        let mut h = W { o: String::new(), input };
        h.head(c);
        list.push_str(&h.o);
        list.push(',');
    };
    w.o.push('[');
    w.csts(&tree);

    w.o.push(',');
    let mut list = String::new();
    tree.visit(&mut |c| head(c, &mut list));
    heads(w, list);

    w.o.push(',');
    let mut list = String::new();
    let mut changed = tree.clone();
    changed.visit_mut(&mut |c| {
        head(c, &mut list);
        *c = change(c.clone());
    });
    heads(w, list);
    w.o.push(',');
    w.csts(&changed);

    w.o.push(',');
    let mut list = String::new();
    let mapped = tree.map_visit(&mut |c| {
        head(&c, &mut list);
        change(c)
    });
    heads(w, list);
    w.o.push(',');
    w.csts(&mapped);

    w.o.push(',');
    let mut list = String::new();
    mapped.visit(&mut |c| head(c, &mut list));
    heads(w, list);
    w.o.push(']');
}

/// `[tree, its printed form]`
pub fn printed<'i>(w: &mut W<'i>, tree: NodeSeq<Node<'i>>) {
    w.o.push('[');
    w.csts(&tree);
    write!(w.o, ",{:?}]", FmtAsExpr(&tree).to_string().as_bytes()).unwrap();
}
