//! Trees over boxes: every node that is not a single box is a row of its own, so that the i-th child of the node at
//! position P is at P.1.i, and what has no text lies before or after its neighbour.
use crate::read::{Node, Out};
use std::fmt::Write;
use wolfram_library_link::wstp::Tk;
use wolfram_parser::{
    cst::{CallBody, CallHead, Cst},
    parse::operators::Operator,
    tokenize::TokenInput,
};

const KINDS: [&str; 14] = [
    "RowBox", "GridBox", "TagBox", "TemplateBox", "InterpretationBox", "SubscriptBox", "SuperscriptBox", "StyleBox",
    "NamespaceBox", "OverscriptBox", "SubsuperscriptBox", "GraphicsBox", "FractionBox", "PaneSelectorBox",
];

#[derive(Clone)]
pub enum Pos {
    At(Vec<u32>),
    Before(Vec<u32>),
    After(Vec<u32>),
    /// the part of a row
    Nowhere,
}
use Pos::*;

pub struct Boxes<'a> {
    pub q: &'a mut Out,
    pub o: &'a mut String,
    pub leaves: usize,
}

/// whether the tree can be one of boxes: the head of a call is one box
pub fn possible(c: &Node) -> bool {
    let mut ok = true;
    c.clone().visit(&mut |n: &Node| {
        if let Cst::Call(c) = n {
            ok &= matches!(&c.head, CallHead::Concrete(h) if h.0.len() == 1);
        }
    });
    ok
}

fn empty(c: &Node) -> bool {
    matches!(c, Cst::Token(t) if t.input.as_bytes().is_empty())
}

fn below(p: &[u32], i: u32) -> Vec<u32> {
    let mut v = p.to_vec();
    v.extend([1, i]);
    v
}

/// positions of children, the first with text being number i of the row at p
fn row(children: &[Node], p: &[u32], mut i: u32) -> Vec<Pos> {
    children
        .iter()
        .map(|c| {
            if !empty(c) {
                i += 1;
                At(below(p, i - 1))
            } else if i == 1 {
                Before(below(p, 1))
            } else {
                After(below(p, i - 1))
            }
        })
        .collect()
}

impl Boxes<'_> {
    fn json(&mut self, p: &Pos) {
        let (k, v): (_, &[u32]) = match p {
            At(v) => ("At", v),
            Before(v) => ("Before", v),
            After(v) => ("After", v),
            Nowhere => ("None", &[]),
        };
        write!(self.o, "[\"{k}\",{v:?}]").unwrap();
    }
    fn data(&mut self, p: &Pos) {
        if let Nowhere = p {
            return self.q.f("Association", 0);
        }
        self.q.f("Association", 1);
        self.q.f("Rule", 2);
        self.q.s("CodeParser`Source");
        let v = match p {
            At(v) => v,
            Before(v) => {
                self.q.f("Before", 1);
                v
            },
            After(v) => {
                self.q.f("After", 1);
                v
            },
            Nowhere => unreachable!(),
        };
        self.q.f("List", v.len());
        v.iter().for_each(|i| self.q.i(*i));
    }

    pub fn seq(&mut self, children: &[Node], ps: &[Pos]) {
        self.q.f("List", children.len());
        self.o.push('[');
        for (i, (c, p)) in children.iter().zip(ps).enumerate() {
            if i > 0 {
                self.o.push(',');
            }
            self.node(c, p);
        }
        self.o.push(']');
    }

    fn op(&mut self, tag: &str, debug: String, symbol: &str, children: &[Node], ps: Vec<Pos>, p: &Pos) {
        self.q.f(&format!("CodeParser`{tag}Node"), 3);
        self.q.s(symbol);
        write!(self.o, "[\"{tag}\",\"{debug}\",").unwrap();
        self.json(p);
        self.o.push(',');
        self.seq(children, &ps);
        self.o.push(']');
        self.data(p);
    }

    pub fn node(&mut self, c: &Node, p: &Pos) {
        if let Cst::Token(t) = c {
            self.leaves += 1;
            let boxed = !empty(c) && self.leaves % 4 == 3;
            let kind = KINDS[self.leaves / 4 % KINDS.len()];
            if boxed && self.leaves % 16 == 3 {
                // code that is already an expression
                self.q.f("CodeParser`CodeNode", 3);
                self.q.s("System`Evaluated");
                self.q.f("Global`f", 2);
                self.q.t(t.input.as_str());
                self.q.v.push(Tk::Int(-7));
                self.data(p);
                self.o.push_str("[\"Code\",\"\",");
                self.json(p);
                write!(self.o, ",{:?}]", t.input.as_bytes()).unwrap();
                return;
            }
            if boxed {
                self.q.f("CodeParser`BoxNode", 3);
                self.q.s(&format!("System`{kind}"));
                self.q.f("List", 1);
                write!(self.o, "[\"Box\",\"{kind}\",").unwrap();
                self.json(p);
                self.o.push_str(",[");
            }
            self.q.f(if t.tok.isError() { "CodeParser`ErrorNode" } else { "CodeParser`LeafNode" }, 3);
            self.q.s(t.tok.to_symbol().as_str());
            self.q.t(t.input.as_str());
            self.data(p);
            write!(self.o, "[\"Leaf\",\"{:?}\",", t.tok).unwrap();
            self.json(p);
            write!(self.o, ",{:?}]", t.input.as_bytes()).unwrap();
            if boxed {
                self.o.push_str("]]");
                self.data(p);
            }
            return;
        }
        let At(at) = p else { unreachable!() };
        macro_rules! op {
            ($tag:literal, $n:expr) => {{
                let children = &$n.0.children.0[..];
                let one = $tag == "Compound" || children.len() == 1;
                let ps = if one { vec![p.clone(); children.len()] } else { row(children, at, 1) };
                self.op($tag, format!("{:?}", $n.0.op), $n.0.op.to_symbol().as_str(), children, ps, p)
            }};
        }
        match c {
            Cst::Token(_) | Cst::Box(_) | Cst::Code(_) => unreachable!(),
            Cst::Call(n) => {
                let CallHead::Concrete(heads) = &n.head else { unreachable!() };
                self.q.f("CodeParser`CallNode", 3);
                self.o.push_str("[\"Call\",\"\",");
                self.json(p);
                self.o.push_str(",[");
                self.q.f("List", 1);
                self.node(&heads.0[0], &At(below(at, 1)));
                self.o.push(',');
                macro_rules! group {
                    ($tag:literal, $n:expr) => {{
                        let children = &$n.0.children.0[..];
                        let ps = row(children, at, 2);
                        let q = if children.len() == 1 { ps[0].clone() } else { Nowhere };
                        self.op($tag, format!("{:?}", $n.0.op), $n.0.op.to_symbol().as_str(), children, ps, &q)
                    }};
                }
                match &n.body {
                    CallBody::Group(g) => group!("Group", g),
                    CallBody::GroupMissingCloser(g) => group!("GroupMissingCloser", g),
                }
                self.o.push_str("]]");
                self.data(p);
            },
            Cst::SyntaxError(n) => {
                let children = &n.children.0[..];
                let ps = if children.len() == 1 { vec![p.clone()] } else { row(children, at, 1) };
                self.op("SyntaxError", format!("{:?}", n.err), n.err.to_symbol().as_str(), children, ps, p)
            },
            Cst::Prefix(n) => op!("Prefix", n),
            Cst::Infix(n) => op!("Infix", n),
            Cst::Postfix(n) => op!("Postfix", n),
            Cst::Binary(n) => op!("Binary", n),
            Cst::Ternary(n) => op!("Ternary", n),
            Cst::PrefixBinary(n) => op!("PrefixBinary", n),
            Cst::Compound(n) => op!("Compound", n),
            Cst::Group(n) => op!("Group", n),
            Cst::GroupMissingCloser(n) => op!("GroupMissingCloser", n),
            Cst::GroupMissingOpener(n) => op!("GroupMissingOpener", n),
        }
    }
}
