//! Trees the kernel sends back, and what the library makes of them.
use crate::boxes;
use crate::answer::{call, function, issues, quirks, shuffled, string, symbol, tokens};
use harness::{boxed, guarded, json, json::W, Job};
use std::collections::BTreeMap;
use std::fmt::Write;
use wolfram_library_link::wstp::Tk;
use wolfram_parser::{
    abstract_cst::{abstract_cst, aggregate_cst_seq},
    ast::{Ast, AstMetadata},
    cst::{CallBody, CallHead, Cst, OperatorNode},
    issue::{CodeAction, CodeActionKind, Issue},
    parse::operators::Operator,
    parse_bytes_cst_seq,
    source::{Location, Source, Span},
    tokenize::{Token, TokenInput, TokenKind, TokenStr},
    NodeSeq,
};

pub type Node<'i> = Cst<TokenStr<'i>, Span>;

/// How the kernel writes down a tree.
pub struct Out {
    pub v: Vec<Tk>,
    /// with the context of system symbols or without
    pub full: bool,
}

impl Out {
    fn system(&self, name: &str) -> String {
        if self.full { format!("System`{name}") } else { name.to_string() }
    }
    pub fn f(&mut self, head: &str, n: usize) {
        let head = if head.contains('`') { head.to_string() } else { self.system(head) };
        self.v.push(function(&head, n));
    }
    pub fn s(&mut self, name: &str) {
        let name = match name.strip_prefix("System`") {
            Some(n) => self.system(n),
            None => name.to_string(),
        };
        self.v.push(symbol(&name));
    }
    pub fn t(&mut self, s: &str) {
        self.v.push(string(s));
    }
    pub fn i(&mut self, i: u32) {
        self.v.push(Tk::Int(i.into()));
    }
    fn loc(&mut self, l: Location) {
        self.f("List", 2);
        match l {
            Location::LineColumn(lc) => {
                self.i(lc.line().get());
                self.i(lc.column().get());
            },
            Location::CharacterIndex(i) => {
                self.i(0);
                self.i(i);
            },
        }
    }
    fn place(&mut self, s: Span) {
        self.f("List", 2);
        match (s.start(), s.end()) {
            (Location::CharacterIndex(a), Location::CharacterIndex(b)) => {
                self.i(a);
                self.v.push(Tk::Int(b as i64 - 1));
            },
            (a, b) => {
                self.loc(a);
                self.loc(b);
            },
        }
    }
    fn source(&mut self, s: Span) {
        self.f("Rule", 2);
        self.s("CodeParser`Source");
        self.place(s);
    }
    fn data(&mut self, s: Span) {
        self.f("Association", 1);
        self.source(s);
    }
    fn leaf(&mut self, t: &Token<TokenStr>) {
        self.f(if t.tok.isError() { "CodeParser`ErrorNode" } else { "CodeParser`LeafNode" }, 3);
        self.s(t.tok.to_symbol().as_str());
        self.t(t.input.as_str());
        self.data(t.src);
    }
    fn node(&mut self, tag: &str, name: &str, children: &NodeSeq<Node>, src: Span) {
        self.f(&format!("CodeParser`{tag}Node"), 3);
        self.s(name);
        self.nodes(children);
        self.data(src);
    }
    fn op<O: Operator>(&mut self, tag: &str, n: &OperatorNode<TokenStr, Span, O>, src: Span) {
        self.node(tag, n.op.to_symbol().as_str(), &n.children, src);
    }
    fn nodes(&mut self, s: &NodeSeq<Node>) {
        self.f("List", s.0.len());
        s.0.iter().for_each(|c| self.cst(c));
    }
    fn cst(&mut self, c: &Node) {
        let src = c.get_source();
        match c {
            Cst::Token(t) => self.leaf(t),
            Cst::Call(n) => {
                self.f("CodeParser`CallNode", 3);
                match &n.head {
                    CallHead::Concrete(h) => self.nodes(h),
                    CallHead::Aggregate(h) => self.cst(h),
                }
                match &n.body {
                    CallBody::Group(g) => self.op("Group", &g.0, g.get_source()),
                    CallBody::GroupMissingCloser(g) => self.op("GroupMissingCloser", &g.0, g.get_source()),
                }
                self.data(src);
            },
            Cst::SyntaxError(n) => self.node("SyntaxError", n.err.to_symbol().as_str(), &n.children, src),
            Cst::Prefix(n) => self.op("Prefix", &n.0, src),
            Cst::Infix(n) => self.op("Infix", &n.0, src),
            Cst::Postfix(n) => self.op("Postfix", &n.0, src),
            Cst::Binary(n) => self.op("Binary", &n.0, src),
            Cst::Ternary(n) => self.op("Ternary", &n.0, src),
            Cst::PrefixBinary(n) => self.op("PrefixBinary", &n.0, src),
            Cst::Compound(n) => self.op("Compound", &n.0, src),
            Cst::Group(n) => self.op("Group", &n.0, src),
            Cst::GroupMissingCloser(n) => self.op("GroupMissingCloser", &n.0, src),
            Cst::GroupMissingOpener(n) => self.op("GroupMissingOpener", &n.0, src),
            Cst::Box(n) => self.node("Box", &format!("System`{}", n.kind.as_str()), &n.children, src),
            Cst::Code(n) => {
                self.f("CodeParser`CodeNode", 3);
                self.expr(&n.first);
                self.expr(&n.second);
                self.data(src);
            },
        }
    }
    fn expr(&mut self, e: &wolfram_expr::Expr) {
        match e.kind() {
            wolfram_expr::ExprKind::Symbol(s) => self.s(s.as_str()),
            wolfram_expr::ExprKind::String(s) => self.t(s),
            _ => unreachable!(),
        }
    }
    fn real(&mut self, r: f64) {
        self.v.push(Tk::Real(r));
    }
    fn action(&mut self, a: &CodeAction) {
        self.f("CodeParser`CodeAction", 3);
        self.t(&a.label);
        let (kind, extra) = match &a.kind {
            CodeActionKind::ReplaceText { replacement_text } => ("Replace", Some(("ReplacementText", replacement_text))),
            CodeActionKind::InsertText { insertion_text } => ("Insert", Some(("InsertionText", insertion_text))),
            CodeActionKind::DeleteText => ("Delete", None),
        };
        self.s(&format!("CodeParser`{kind}Text"));
        self.f("Association", 1 + extra.is_some() as usize);
        self.source(a.src);
        if let Some((key, text)) = extra {
            self.f("Rule", 2);
            self.t(key);
            self.t(text);
        }
    }
    fn actions(&mut self, v: &[CodeAction]) {
        self.f("Rule", 2);
        self.s("CodeParser`CodeActions");
        self.f("List", v.len());
        v.iter().for_each(|a| self.action(a));
    }
    fn descriptions(&mut self, v: &[String]) {
        self.f("Rule", 2);
        self.t("AdditionalDescriptions");
        self.f("List", v.len());
        v.iter().for_each(|d| self.t(d));
    }
    fn confidence(&mut self, r: f64) {
        self.f("Rule", 2);
        self.s("System`ConfidenceLevel");
        self.real(r);
    }
    fn issue(&mut self, i: &Issue) {
        self.f(i.make_sym.as_str(), 4);
        self.t(&format!("{:?}", i.tag));
        self.t(&i.msg);
        self.t(&format!("{:?}", i.sev));
        self.f("Association", 2 + !i.actions.is_empty() as usize + !i.additional_descriptions.is_empty() as usize);
        let Source::Span(src) = i.src else { unreachable!() };
        self.source(src);
        self.confidence(i.val);
        if !i.actions.is_empty() {
            self.actions(&i.actions);
        }
        if !i.additional_descriptions.is_empty() {
            self.descriptions(&i.additional_descriptions);
        }
    }
}

fn data(o: &mut String, d: &AstMetadata) {
    o.push('[');
    json::source(o, &d.source);
    o.push(',');
    issues(o, &d.issues);
    o.push(']');
}

fn ast_node<'a>(o: &mut String, tag: &str, name: &str, d: &AstMetadata, args: impl Iterator<Item = &'a Ast>) {
    write!(o, "[\"{tag}\",\"{name}\",").unwrap();
    data(o, d);
    o.push_str(",[");
    for (i, a) in args.enumerate() {
        if i > 0 {
            o.push(',');
        }
        ast(o, a);
    }
    o.push_str("]]");
}

/// `[tag, name, [source, issues], children or text]`; the first child of a call is its head.
fn ast(o: &mut String, a: &Ast) {
    use std::iter::once;
    match a {
        Ast::Leaf { kind, input, data: d } | Ast::Error { kind, input, data: d } => {
            let tag = if matches!(a, Ast::Leaf { .. }) { "Leaf" } else { "Error" };
            write!(o, "[\"{tag}\",\"{kind:?}\",").unwrap();
            data(o, d);
            write!(o, ",{:?}]", input.as_bytes()).unwrap();
        },
        Ast::Call { head, args, data } => ast_node(o, "Call", "", data, once(&**head).chain(args)),
        Ast::CallMissingCloser { head, args, data } => ast_node(o, "CallMissingCloser", "", data, once(&**head).chain(args)),
        Ast::SyntaxError { kind, children, data } => ast_node(o, "SyntaxError", &format!("{kind:?}"), data, children.iter()),
        Ast::AbstractSyntaxError { kind, args, data } => ast_node(o, "AbstractSyntaxError", &format!("{kind:?}"), data, args.iter()),
        Ast::Group { kind, children, data } => {
            let (a, b, c) = &**children;
            ast_node(o, "Group", &format!("{kind:?}"), data, [a, b, c].into_iter())
        },
        Ast::GroupMissingCloser { kind, children, data } => ast_node(o, "GroupMissingCloser", &format!("{kind:?}"), data, children.iter()),
        Ast::GroupMissingOpener { kind, children, data } => ast_node(o, "GroupMissingOpener", &format!("{kind:?}"), data, children.iter()),
        Ast::PrefixNode_PrefixLinearSyntaxBang(c, data) => ast_node(o, "Prefix", "CodeParser_PrefixLinearSyntaxBang", data, c.iter()),
        Ast::Box { kind, args, data } => ast_node(o, "Box", kind.as_str(), data, args.iter()),
        Ast::Code { first, second, data } => ast_node(o, "Code", &boxed::name(first, second), data, [].into_iter()),
        Ast::TagBox_GroupParen { group, tag, data: d } => {
            let (a, b, c, src) = &**group;
            o.push_str("[\"Box\",\"TagBox\",");
            data(o, d);
            o.push_str(",[");
            ast_node(o, "Group", "CodeParser_GroupParen", &AstMetadata { source: src.clone(), issues: vec![] }, [a, b, c].into_iter());
            o.push(',');
            let d = AstMetadata { source: tag.src.clone(), issues: vec![] };
            ast_node(o, "Code", &boxed::name(&tag.first, &tag.second), &d, [].into_iter());
            o.push_str("]]");
        },
    }
}

const KINDS: [&str; 4] = ["String", "File", "Byte", "Hold"];

fn run(o: &mut String, answer: &[Tk]) {
    o.push_str("[0,0,");
    tokens(o, answer);
    o.push(']');
}

fn kinds(c: &Node, m: &mut BTreeMap<(String, bool), TokenKind>) {
    c.clone().visit(&mut |n: &Node| {
        if let Cst::Token(t) = n {
            m.insert((format!("{:?}", t.tok), t.input.as_bytes().is_empty()), t.tok);
        }
    });
}

pub fn record(job: &Job, o: &mut String) -> bool {
    let input = &job.bytes[..];
    let job = &Job { enc: 'N', ..job.clone() };
    let n: usize = input.iter().map(|b| *b as usize).sum();
    let (full, kind) = (n % 2 == 0, KINDS[n / 2 % 4]);
    let Ok(r) = std::panic::catch_unwind(|| parse_bytes_cst_seq(input, &job.opts())) else { return true };
    let unreadable = r.unsafe_character_encoding.map(|e| format!("UnsafeCharacterEncoding_{}", e.as_str()));
    let missing = if input.is_empty() || n % 41 == 0 { Some("EmptyInput") } else { unreadable.as_deref() };
    let mut ok = true;

    // a container, there and back
    ok &= guarded(input, "kr", o, |w| {
        let mut e = W { o: String::new(), input };
        let mut q = Out { v: vec![], full };
        q.f("List", 1);
        q.f("CodeParser`ContainerNode", 3);
        q.s(&format!("System`{kind}"));
        write!(w.o, "[\"{kind}\",").unwrap();
        match missing {
            None => {
                e.csts(&r.syntax);
                q.nodes(&r.syntax);
            },
            Some(u) => {
                e.o.push_str("[]");
                q.f("List", 1);
                q.f("Missing", 1);
                q.t(u);
            },
        }
        w.o.push_str(&e.o);
        write!(w.o, ",\"{}\",[", missing.unwrap_or("")).unwrap();
        metadata(&mut w.o, &mut q, &r, n, missing.is_some());
        w.o.push_str("],[");
        let asked = crate::answer::settle(q.v[1..].to_vec());
        run(&mut w.o, &asked);
        w.o.push(',');
        run(&mut w.o, &call(codeparser_wll::RoundTripTest_LibraryLink, shuffled(q.v, n), u64::MAX).0);
        w.o.push_str("]]");
    });
    if unreadable.is_some() {
        return ok;
    }

    // a failure passes
    if n % 11 == 0 {
        ok &= guarded(input, "kf", o, |w| {
            let text = String::from_utf8_lossy(input);
            let q = vec![function("List", 1), function("System`Failure", 2), string(&text), function("Global`f", 1), Tk::Int(n as i64)];
            write!(w.o, "[{:?},{n},[", text.as_bytes()).unwrap();
            run(&mut w.o, &call(codeparser_wll::RoundTripTest_LibraryLink, q, u64::MAX).0);
            w.o.push_str("]]");
        });
    }

    // a container of boxes
    if input.len() <= 300 && r.syntax.0.iter().all(boxes::possible) {
        ok &= guarded(input, "kb", o, |w| {
            let mut q = Out { v: vec![], full };
            q.f("List", 1);
            q.f("CodeParser`ContainerNode", 3);
            let kind = ["Box", "Cell"][n / 2 % 2];
            q.s(&format!("System`{kind}"));
            write!(w.o, "[\"{kind}\",").unwrap();
            let ps: Vec<_> = (0..r.syntax.0.len()).map(|i| boxes::Pos::At(vec![i as u32 + 1])).collect();
            boxes::Boxes { q: &mut q, o: &mut w.o, leaves: n }.seq(&r.syntax.0, &ps);
            q.f("Association", 0);
            w.o.push_str(",[");
            run(&mut w.o, &crate::answer::settle(q.v[1..].to_vec()));
            w.o.push(',');
            run(&mut w.o, &call(codeparser_wll::RoundTripTest_LibraryLink, shuffled(q.v, n), u64::MAX).0);
            w.o.push_str("]]");
        });
    }

    // every kind of leaf
    let mut m = BTreeMap::new();
    r.syntax.0.iter().for_each(|c| kinds(c, &mut m));
    write!(o, ",\"ke\":[").unwrap();
    for (i, ((_, empty), k)) in m.iter().enumerate() {
        let mut q = Out { v: vec![], full };
        q.v.push(function("List", 1));
        q.s(k.to_symbol().as_str());
        let a = std::panic::catch_unwind(|| call(codeparser_wll::TokenIsEmpty_LibraryLink, q.v, u64::MAX).0).unwrap_or_default();
        write!(o, "{}[\"{k:?}\",{empty},", if i > 0 { "," } else { "" }).unwrap();
        tokens(o, &a);
        o.push(']');
    }
    o.push(']');

    // the nodes of the aggregate tree, one at a time
    let tree = if n % 3 == 0 { boxed::boxed(r.syntax, input) } else { r.syntax };
    for (i, c) in aggregate_cst_seq(tree).0.into_iter().take(4).enumerate() {
        ok &= guarded(input, &format!("kq{i}"), o, |w| {
            let mut e = W { o: String::new(), input };
            e.cst(&c);
            let mut q = Out { v: vec![], full };
            q.f("List", 3);
            q.cst(&c);
            write!(w.o, "[{},[", e.o).unwrap();
            run(&mut w.o, &crate::answer::settle(q.v[1..].to_vec()));
            w.o.push_str("]]");
        });
        ok &= guarded(input, &format!("ka{i}"), o, |w| {
            let mut q = Out { v: vec![], full };
            q.f("List", 3);
            q.cst(&c);
            q.v.extend(quirks(job));
            q.s(&format!("System`{kind}"));
            w.o.push('[');
            ast(&mut w.o, &abstract_cst(c.clone(), job.quirk_settings()));
            w.o.push_str(",[");
            run(&mut w.o, &call(codeparser_wll::Abstract_LibraryLink, q.v, u64::MAX).0);
            w.o.push_str("]]");
        });
    }
    ok
}

/// the data of a container, `[key, value]` each
fn metadata(
    o: &mut String, q: &mut Out, r: &wolfram_parser::ParseResult<NodeSeq<Node>>, n: usize, unreadable: bool,
) {
    let all: &[Issue] = if r.fatal_issues.is_empty() { &r.non_fatal_issues } else { &r.fatal_issues };
    let t = &r.tracked;
    let mut parts: Vec<Box<dyn FnOnce(&mut String, &mut Out)>> = vec![];
    if !all.is_empty() {
        parts.push(Box::new(|o, q| {
            o.push_str("[\"SyntaxIssues\",");
            issues(o, all);
            o.push(']');
            q.f("Rule", 2);
            q.s("CodeParser`SyntaxIssues");
            q.f("List", all.len());
            all.iter().for_each(|i| q.issue(i));
        }));
    }
    for (key, set) in [
        ("EmbeddedTabs", &t.embedded_tabs),
        ("EmbeddedNewlines", &t.embedded_newlines),
        ("SimpleLineContinuations", &t.simple_line_continuations),
        ("ComplexLineContinuations", &t.complex_line_continuations),
    ] {
        if !set.is_empty() {
            parts.push(Box::new(move |o, q| {
                write!(o, "[\"{key}\",[").unwrap();
                q.f("Rule", 2);
                q.t(key);
                q.f("List", set.len());
                for (i, l) in set.iter().enumerate() {
                    o.push_str(if i > 0 { ",[" } else { "[" });
                    if matches!(l, Location::CharacterIndex(_)) {
                        o.push_str("0,");
                    }
                    json::loc(o, *l);
                    o.push(']');
                    q.loc(*l);
                }
                o.push_str("]]");
            }));
        }
    }
    let ends = (r.syntax.0.first(), r.syntax.0.last());
    if let (false, (Some(a), Some(b))) = (unreadable, ends) {
        let src = if n % 2 == 0 { a.get_source() } else { b.get_source() };
        parts.push(Box::new(move |o, q| {
            o.push_str("[\"Source\",");
            json::span(o, src);
            o.push(']');
            q.source(src);
        }));
    }
    if n % 5 == 1 {
        parts.push(Box::new(move |o, q| {
            write!(o, "[\"ConfidenceLevel\",{}]", n % 100 * 100).unwrap();
            q.confidence((n % 100) as f64 / 100.0);
        }));
    }
    let edits: Vec<CodeAction> = all.iter().flat_map(|i| i.actions.clone()).collect();
    if n % 3 == 1 && !edits.is_empty() {
        parts.push(Box::new(move |o, q| {
            // the edits of a made up issue
            let mut i = all[0].clone();
            i.actions = edits;
            let mut s = String::new();
            issues(&mut s, &[i.clone()]);
            write!(o, "[\"CodeActions\",{s}]").unwrap();
            q.actions(&i.actions);
        }));
    }
    if n % 7 == 1 {
        parts.push(Box::new(move |o, q| {
            let d = vec!["first".to_string(), "zw\u{f6}lf \"2\"".to_string()];
            write!(o, "[\"AdditionalDescriptions\",[{:?},{:?}]]", d[0].as_bytes(), d[1].as_bytes()).unwrap();
            q.descriptions(&d);
        }));
    }
    if n % 3 == 0 {
        parts.push(Box::new(move |o, q| {
            write!(o, "[\"FileName\",{:?}]", "/a b/c.wl".as_bytes()).unwrap();
            q.f("Rule", 2);
            q.t("FileName");
            q.t("/a b/c.wl");
        }));
    }
    q.f("Association", parts.len());
    for (i, p) in parts.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        p(o, q);
    }
}
