//! Trees with boxes and code in them, made from the tree of a text: some operands are put into boxes, some become code,
//! some calls become subscripts and some products become superscripts.
use crate::json::W;
use std::fmt::Write as _;
use wolfram_expr::{Expr, Symbol};
use wolfram_parser::{
    abstract_cst::{abstract_cst, aggregate_cst_seq},
    cst::{BoxKind, BoxNode, CallBody, CallHead, CodeNode, Cst, GroupMissingOpenerNode, GroupNode, InfixNode, OperatorNode},
    parse::operators::{GroupOperator, InfixOperator, Operator},
    quirks::QuirkSettings,
    tokenize::{TokenKind, TokenStr},
    NodeSeq,
};

type Node<'i> = Cst<TokenStr<'i>>;

struct Boxer {
    /// decides what becomes of the next operand
    next: usize,
}

fn kinds() -> Vec<BoxKind> {
    use BoxKind::*;
    vec![
        TagBox, TemplateBox, InterpretationBox, SubscriptBox, SuperscriptBox, StyleBox, NamespaceBox, OverscriptBox,
        SubsuperscriptBox, GraphicsBox, Other(Symbol::new("System`FractionBox")), Other(Symbol::new("System`PaneBox")),
    ]
}

fn code() -> Vec<(Expr, Expr)> {
    let s = |n: &str| Expr::symbol(Symbol::new(n));
    vec![
        (s("System`Evaluated"), s("System`Derivative")),
        (s("System`Null"), s("System`Derivative")),
        (s("System`Evaluated"), s("Global`Derivative")),
        (s("System`Evaluated"), Expr::string("Derivative")),
    ]
}

impl Boxer {
    fn draw(&mut self, n: usize) -> usize {
        self.next = (self.next.wrapping_mul(1103515245).wrapping_add(12345)) & 0x7fffffff;
        (self.next >> 8) % n
    }

    fn operand<'i>(&mut self, c: &Node<'i>) -> bool {
        match c {
            Cst::Token(t) => matches!(t.tok, TokenKind::Symbol | TokenKind::Integer | TokenKind::Real),
            _ => true,
        }
    }

    /// a node where an expression stands
    fn any<'i>(&mut self, c: Node<'i>) -> Node<'i> {
        if !self.operand(&c) {
            return c;
        }
        let src = c.get_source();
        match (self.draw(8), c) {
            (0, c) => {
                let kind = kinds().swap_remove(self.draw(12));
                let mut children = vec![self.inner(c)];
                for _ in 0..self.draw(3) {
                    let again = again(&children[0]);
                    children.push(again);
                }
                if kind == BoxKind::TagBox && children.len() > 1 {
                    let (first, second) = code().swap_remove(self.draw(4));
                    children[1] = Cst::Code(CodeNode { first, second, src });
                }
                Cst::Box(BoxNode { kind, children: NodeSeq(children), src })
            },
            (1, Cst::Token(_)) => {
                let (first, second) = code().swap_remove(self.draw(4));
                Cst::Code(CodeNode { first, second, src })
            },
            // a[..], a[[..]] as subscripts
            (1 | 2, Cst::Call(n)) => {
                let head = match n.head {
                    CallHead::Concrete(h) => h,
                    CallHead::Aggregate(h) => NodeSeq(vec![*h]),
                };
                let CallBody::Group(GroupNode(g)) = n.body else {
                    return Cst::Call(wolfram_parser::cst::CallNode { head: CallHead::Concrete(head), body: n.body });
                };
                let mut children = self.seq(head).0;
                let op = GroupOperator::try_from_symbol(g.op.to_symbol()).expect("group");
                children.push(Cst::Group(GroupNode(OperatorNode { op, children: self.seq(g.children) })));
                let kind = if self.draw(4) == 0 { BoxKind::OverscriptBox } else { BoxKind::SubscriptBox };
                if self.draw(3) == 0 {
                    let again = again(&children[0]);
                    children.push(again);
                }
                Cst::Box(BoxNode { kind, children: NodeSeq(children), src })
            },
            // a group without its opener
            (3, Cst::Group(GroupNode(g))) if g.children.0.len() > 1 => {
                let OperatorNode { op, children: NodeSeq(mut children) } = self.op(g);
                children.remove(0);
                Cst::GroupMissingOpener(GroupMissingOpenerNode(OperatorNode { op, children: NodeSeq(children) }))
            },
            // a (..) as a derivative
            (_, Cst::Infix(InfixNode(op))) if op.op == InfixOperator::Times && derivative(&op) => {
                let OperatorNode { op: _, children: NodeSeq(mut children) } = self.op(op);
                let group = children.pop().unwrap();
                let inner = group.get_source();
                let (first, second) = code().swap_remove([0, 0, 0, 1, 2, 3][self.draw(6)]);
                let mut tagged = vec![group, Cst::Code(CodeNode { first, second, src: inner })];
                if self.draw(5) == 0 {
                    let again = tagged[1].clone();
                    tagged.push(again);
                }
                let tag = Cst::Box(BoxNode { kind: BoxKind::TagBox, children: NodeSeq(tagged), src: inner });
                let mut children = vec![children.swap_remove(0), tag];
                if self.draw(3) == 0 {
                    let again = again(&children[0]);
                    children.push(again);
                }
                let kind = if self.draw(6) == 0 { BoxKind::OverscriptBox } else { BoxKind::SuperscriptBox };
                Cst::Box(BoxNode { kind, children: NodeSeq(children), src })
            },
            (_, c) => self.inner(c),
        }
    }

    fn seq<'i>(&mut self, s: NodeSeq<Node<'i>>) -> NodeSeq<Node<'i>> {
        NodeSeq(s.0.into_iter().map(|c| self.any(c)).collect())
    }

    fn op<'i, O>(&mut self, n: OperatorNode<TokenStr<'i>, wolfram_parser::source::Span, O>) -> OperatorNode<TokenStr<'i>, wolfram_parser::source::Span, O> {
        OperatorNode { op: n.op, children: self.seq(n.children) }
    }

    /// the nodes below
    fn inner<'i>(&mut self, c: Node<'i>) -> Node<'i> {
        use wolfram_parser::cst::*;
        match c {
            Cst::Call(n) => {
                let head = match n.head {
                    CallHead::Concrete(h) => CallHead::Concrete(self.seq(h)),
                    h => h,
                };
                let body = match n.body {
                    CallBody::Group(GroupNode(g)) => CallBody::Group(GroupNode(self.op(g))),
                    CallBody::GroupMissingCloser(GroupMissingCloserNode(g)) => CallBody::GroupMissingCloser(GroupMissingCloserNode(self.op(g))),
                };
                Cst::Call(CallNode { head, body })
            },
            Cst::Prefix(PrefixNode(n)) => Cst::Prefix(PrefixNode(self.op(n))),
            Cst::Infix(InfixNode(n)) => Cst::Infix(InfixNode(self.op(n))),
            Cst::Postfix(PostfixNode(n)) => Cst::Postfix(PostfixNode(self.op(n))),
            Cst::Binary(BinaryNode(n)) => Cst::Binary(BinaryNode(self.op(n))),
            Cst::Ternary(TernaryNode(n)) => Cst::Ternary(TernaryNode(self.op(n))),
            Cst::PrefixBinary(PrefixBinaryNode(n)) => Cst::PrefixBinary(PrefixBinaryNode(self.op(n))),
            Cst::Group(GroupNode(n)) => Cst::Group(GroupNode(self.op(n))),
            Cst::GroupMissingCloser(GroupMissingCloserNode(n)) => Cst::GroupMissingCloser(GroupMissingCloserNode(self.op(n))),
            c => c,
        }
    }
}

fn derivative(op: &OperatorNode<TokenStr<'_>>) -> bool {
    let last = op.children.0.last();
    matches!(last, Some(Cst::Group(GroupNode(g))) if g.op == GroupOperator::CodeParser_GroupParen)
        && !matches!(op.children.0[0], Cst::Token(t) if t.tok.isTrivia())
}

/// one more child
fn again<'i>(c: &Node<'i>) -> Node<'i> {
    match c {
        Cst::Token(_) => c.clone(),
        _ => {
            let (first, second) = code().swap_remove(0);
            Cst::Code(CodeNode { first, second, src: c.get_source() })
        },
    }
}

pub fn boxed<'i>(tree: NodeSeq<Node<'i>>, input: &[u8]) -> NodeSeq<Node<'i>> {
    let next = input.iter().fold(7usize, |h, b| (h * 31 + *b as usize) & 0x7fffffff);
    Boxer { next }.seq(tree)
}

/// the aggregate and the abstract tree of the tree with boxes
pub fn record<'i>(o: &mut String, input: &'i [u8], tree: NodeSeq<Node<'i>>, quirks: QuirkSettings) -> bool {
    let tree = boxed(tree, input);
    let mut ok = true;
    let mut put = |key: &str, f: &dyn Fn(&mut W<'i>)| {
        ok &= crate::guarded(input, key, o, |w| {
            w.o.push_str("[\"ok\",");
            f(w);
            w.o.push(']');
        })
    };
    put("c", &|w| w.csts(&tree));
    put("g", &|w| w.csts(&aggregate_cst_seq(tree.clone())));
    put("a", &|w| {
        let g = aggregate_cst_seq(tree.clone());
        w.asts(&NodeSeq(g.0.into_iter().map(|c| abstract_cst(c, quirks)).collect()))
    });
    ok
}

/// what the code is, in one word
pub fn name(first: &Expr, second: &Expr) -> String {
    let mut s = String::new();
    write!(s, "{first} {second}").unwrap();
    s.replace('"', "'")
}
