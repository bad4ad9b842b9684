//! Projection of the public result types of `wolfram-parser` to JSON.
use std::fmt::Write;
use wolfram_parser::{
    ast::{Ast, AstMetadata},
    cst::{CallBody, CallHead, Cst, OperatorNode},
    issue::{CodeActionKind, Issue, Severity},
    source::{Location, Source, Span},
    tokenize::{Token, TokenInput, TokenStr},
    NodeSeq,
};

pub struct W<'i> {
    pub o: String,
    pub input: &'i [u8],
}

pub fn loc(o: &mut String, l: Location) {
    match l {
        Location::LineColumn(lc) => write!(o, "{},{}", lc.line(), lc.column()).unwrap(),
        Location::CharacterIndex(i) => write!(o, "{i}").unwrap(),
    }
}

pub fn span(o: &mut String, s: Span) {
    o.push('[');
    loc(o, s.start());
    o.push(',');
    loc(o, s.end());
    o.push(']');
}

pub fn source(o: &mut String, s: &Source) {
    match s {
        Source::Span(s) => span(o, *s),
        _ => o.push_str("[]"),
    }
}

impl<'i> W<'i> {
    fn seq<T>(&mut self, items: &[T], mut f: impl FnMut(&mut Self, &T)) {
        self.o.push('[');
        for (i, x) in items.iter().enumerate() {
            if i > 0 {
                self.o.push(',');
            }
            f(self, x);
        }
        self.o.push(']');
    }

    /// A leaf is `["Leaf", kind, span, [offset, length]]`; the offset of a
    /// leaf without text is 0, and -1 stands for text that is not a part of
    /// the input.
    pub fn token(&mut self, t: &Token<TokenStr<'i>>) {
        let b = t.input.as_bytes();
        let (mut off, len) = (
            (b.as_ptr() as isize) - (self.input.as_ptr() as isize),
            b.len() as isize,
        );
        if len == 0 {
            off = 0;
        } else if off < 0 || off + len > self.input.len() as isize {
            off = -1;
        }
        write!(self.o, "[\"Leaf\",\"{:?}\",", t.tok).unwrap();
        span(&mut self.o, t.src);
        write!(self.o, ",[{off},{len}]]").unwrap();
    }

    pub fn tokens(&mut self, t: &NodeSeq<Token<TokenStr<'i>>>) {
        self.seq(&t.0, |w, t| w.token(t));
    }

    fn op<O: std::fmt::Debug>(&mut self, tag: &str, src: Span, n: &OperatorNode<TokenStr<'i>, Span, O>) {
        self.node(tag, &format!("{:?}", n.op), src, &n.children);
    }

    fn node(&mut self, tag: &str, name: &str, src: Span, children: &NodeSeq<Cst<TokenStr<'i>>>) {
        write!(self.o, "[\"{tag}\",\"{name}\",").unwrap();
        span(&mut self.o, src);
        self.o.push(',');
        self.csts(children);
        self.o.push(']');
    }

    pub fn csts(&mut self, s: &NodeSeq<Cst<TokenStr<'i>>>) {
        self.seq(&s.0, |w, c| w.cst(c));
    }

    pub fn cst(&mut self, c: &Cst<TokenStr<'i>>) {
        if let Cst::Token(t) = c {
            return self.token(t);
        }
        let src = c.get_source();
        match c {
            Cst::Token(_) => unreachable!(),
            Cst::Call(n) => {
                // Children of a call: the head nodes, then the bracketed group.
                write!(self.o, "[\"Call\",\"\",").unwrap();
                span(&mut self.o, src);
                self.o.push_str(",[");
                match &n.head {
                    CallHead::Concrete(s) => {
                        for c in &s.0 {
                            self.cst(c);
                            self.o.push(',');
                        }
                    },
                    CallHead::Aggregate(c) => {
                        self.cst(c);
                        self.o.push(',');
                    },
                }
                match &n.body {
                    CallBody::Group(g) => self.op("Group", g.get_source(), &g.0),
                    CallBody::GroupMissingCloser(g) => self.op("GroupMissingCloser", g.get_source(), &g.0),
                }
                self.o.push_str("]]");
            },
            Cst::SyntaxError(n) => self.node("SyntaxError", &format!("{:?}", n.err), src, &n.children),
            Cst::Prefix(n) => self.op("Prefix", src, &n.0),
            Cst::Infix(n) => self.op("Infix", src, &n.0),
            Cst::Postfix(n) => self.op("Postfix", src, &n.0),
            Cst::Binary(n) => self.op("Binary", src, &n.0),
            Cst::Ternary(n) => self.op("Ternary", src, &n.0),
            Cst::PrefixBinary(n) => self.op("PrefixBinary", src, &n.0),
            Cst::Compound(n) => self.op("Compound", src, &n.0),
            Cst::Group(n) => self.op("Group", src, &n.0),
            Cst::GroupMissingCloser(n) => self.op("GroupMissingCloser", src, &n.0),
            Cst::GroupMissingOpener(n) => self.op("GroupMissingOpener", src, &n.0),
            Cst::Box(n) => self.node("Box", n.kind.as_str(), n.src, &n.children),
            Cst::Code(n) => {
                write!(self.o, "[\"Code\",\"{}\",", crate::boxed::name(&n.first, &n.second)).unwrap();
                span(&mut self.o, n.src);
                self.o.push_str(",[]]");
            },
        }
    }

    /// A node without its children.
    pub fn head(&mut self, c: &Cst<TokenStr<'i>>) {
        let mut put = |tag: &str, name: String| write!(self.o, "[\"{tag}\",\"{name}\",").unwrap();
        match c {
            Cst::Token(n) => put("Leaf", format!("{:?}", n.tok)),
            Cst::Call(_) => put("Call", String::new()),
            Cst::SyntaxError(n) => put("SyntaxError", format!("{:?}", n.err)),
            Cst::Prefix(n) => put("Prefix", format!("{:?}", n.0.op)),
            Cst::Infix(n) => put("Infix", format!("{:?}", n.0.op)),
            Cst::Postfix(n) => put("Postfix", format!("{:?}", n.0.op)),
            Cst::Binary(n) => put("Binary", format!("{:?}", n.0.op)),
            Cst::Ternary(n) => put("Ternary", format!("{:?}", n.0.op)),
            Cst::PrefixBinary(n) => put("PrefixBinary", format!("{:?}", n.0.op)),
            Cst::Compound(n) => put("Compound", format!("{:?}", n.0.op)),
            Cst::Group(n) => put("Group", format!("{:?}", n.0.op)),
            Cst::GroupMissingCloser(n) => put("GroupMissingCloser", format!("{:?}", n.0.op)),
            Cst::GroupMissingOpener(n) => put("GroupMissingOpener", format!("{:?}", n.0.op)),
            Cst::Box(n) => put("Box", n.kind.as_str().to_string()),
            Cst::Code(n) => put("Code", crate::boxed::name(&n.first, &n.second)),
        }
        span(&mut self.o, c.get_source());
        self.o.push(']');
    }

    fn data(&mut self, d: &AstMetadata) {
        self.o.push('[');
        source(&mut self.o, &d.source);
        self.o.push(',');
        self.issues(&d.issues);
        self.o.push(']');
    }

    fn astnode(&mut self, tag: &str, name: &str, data: &AstMetadata, head: Option<&Ast>, args: &[Ast]) {
        write!(self.o, "[\"{tag}\",\"{name}\",").unwrap();
        self.data(data);
        self.o.push_str(",[");
        let mut first = true;
        for a in head.into_iter().chain(args) {
            if !first {
                self.o.push(',');
            }
            first = false;
            self.ast(a);
        }
        self.o.push_str("]]");
    }

    pub fn asts(&mut self, s: &NodeSeq<Ast>) {
        self.seq(&s.0, |w, a| w.ast(a));
    }

    /// `[tag, kind, [source, issues], children or text]`; the first child of
    /// a call is its head.
    pub fn ast(&mut self, a: &Ast) {
        match a {
            Ast::Leaf { kind, input, data } | Ast::Error { kind, input, data } => {
                let tag = if matches!(a, Ast::Leaf { .. }) { "Leaf" } else { "Error" };
                write!(self.o, "[\"{tag}\",\"{kind:?}\",").unwrap();
                self.data(data);
                write!(self.o, ",{:?}]", input.as_bytes()).unwrap();
            },
            Ast::Call { head, args, data } => self.astnode("Call", "", data, Some(head), args),
            Ast::CallMissingCloser { head, args, data } => self.astnode("CallMissingCloser", "", data, Some(head), args),
            Ast::SyntaxError { kind, children, data } => self.astnode("SyntaxError", &format!("{kind:?}"), data, None, children),
            Ast::AbstractSyntaxError { kind, args, data } => self.astnode("AbstractSyntaxError", &format!("{kind:?}"), data, None, args),
            Ast::Group { kind, children, data } => {
                let (a, b, c) = &**children;
                self.astnode("Group", &format!("{kind:?}"), data, None, &[a.clone(), b.clone(), c.clone()])
            },
            Ast::GroupMissingCloser { kind, children, data } => self.astnode("GroupMissingCloser", &format!("{kind:?}"), data, None, children),
            Ast::GroupMissingOpener { kind, children, data } => self.astnode("GroupMissingOpener", &format!("{kind:?}"), data, None, children),
            Ast::PrefixNode_PrefixLinearSyntaxBang(c, data) => self.astnode("PrefixLinearSyntaxBang", "", data, None, &c[..]),
            Ast::Box { kind, args, data } => self.astnode("Box", kind.as_str(), data, None, args),
            Ast::Code { first, second, data } => self.astnode("Code", &crate::boxed::name(first, second), data, None, &[]),
            Ast::TagBox_GroupParen { group, tag, data } => {
                let (a, b, c, src) = &**group;
                self.o.push_str("[\"Box\",\"TagBox\",");
                self.data(data);
                self.o.push_str(",[[\"Group\",\"CodeParser_GroupParen\",[");
                source(&mut self.o, src);
                self.o.push_str(",[]],[");
                for (i, x) in [a, b, c].into_iter().enumerate() {
                    self.o.push_str(if i > 0 { "," } else { "" });
                    self.ast(x);
                }
                write!(self.o, "]],[\"Code\",\"{}\",[", crate::boxed::name(&tag.first, &tag.second)).unwrap();
                source(&mut self.o, &tag.src);
                self.o.push_str(",[]],[]]]]");
            },
        }
    }

    /// `[tag, severity, source, confidence in percent, additional sources]`
    pub fn issues(&mut self, s: &[Issue]) {
        self.seq(s, |w, i| w.issue(i, false));
    }

    /// the same, followed by the message and the suggested edits
    /// `["Replace" | "Insert" | "Delete", source, new text]`
    pub fn full_issues(&mut self, s: &[Issue]) {
        self.seq(s, |w, i| w.issue(i, true));
    }

    fn issue(&mut self, i: &Issue, full: bool) {
        let w = self;
            let sev = match i.sev {
                Severity::Formatting => "Formatting",
                Severity::Remark => "Remark",
                Severity::Warning => "Warning",
                Severity::Error => "Error",
                Severity::Fatal => "Fatal",
            };
            write!(w.o, "[\"{:?}\",\"{sev}\",", i.tag).unwrap();
            source(&mut w.o, &i.src);
            write!(w.o, ",{},", (f64::from(i.val) * 100.0).round() as i64).unwrap();
            w.seq(&i.additional_sources, |w, s| source(&mut w.o, s));
            if full {
                write!(w.o, ",{:?},", format!("{} {:?}", i.msg, i.additional_descriptions).as_bytes()).unwrap();
                w.seq(&i.actions, |w, a| {
                    let (kind, text) = match &a.kind {
                        CodeActionKind::ReplaceText { replacement_text } => ("Replace", replacement_text.as_str()),
                        CodeActionKind::InsertText { insertion_text } => ("Insert", insertion_text.as_str()),
                        CodeActionKind::DeleteText => ("Delete", ""),
                    };
                    write!(w.o, "[\"{kind}\",").unwrap();
                    span(&mut w.o, a.src);
                    write!(w.o, ",{:?}]", text.as_bytes()).unwrap();
                });
            }
            w.o.push(']');
    }
}

pub fn string(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            },
            ' '..='~' => o.push(c),
            c => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    write!(o, "\\u{u:04x}").unwrap();
                }
            },
        }
    }
    o.push('"');
}
