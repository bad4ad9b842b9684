//! Conversion between symbols, token kinds and operators.
use crate::json::W;
use std::fmt::{Debug, Write as _};
use wolfram_parser::{
    parse::operators::{
        BinaryOperator, CallOperator, CompoundOperator, GroupOperator, InfixOperator, Operator, PostfixOperator,
        PrefixBinaryOperator, PrefixOperator, TernaryOperator,
    },
    issue::{IssueTag, Severity},
    parse::SyntaxErrorKind,
    symbol::Symbol,
    tokenize::TokenKind,
};

fn put(w: &mut W, class: &str, v: Option<(String, Symbol)>) {
    text(w, class, v.map(|(n, s)| (n, s.as_str().to_string())));
}

fn text(w: &mut W, class: &str, v: Option<(String, String)>) {
    let (name, symbol) = v.unwrap_or_default();
    write!(w.o, "[\"{class}\",\"{name}\",{:?}],", symbol.as_bytes()).unwrap();
}

fn op<O: Operator + Debug>(w: &mut W, class: &str, s: Symbol) {
    put(w, class, O::try_from_symbol(s).map(|o| (format!("{o:?}"), o.to_symbol())));
}

/// What the symbol stands for in each class of names: `[class, name, symbol of that name]`
pub fn names(w: &mut W, asked: &str) {
    let asked: &'static str = Box::leak(asked.to_string().into_boxed_str());
    let Some(s) = Symbol::try_new(asked) else {
        w.o.push_str("[\"no symbol\"]");
        return;
    };
    w.o.push('[');
    op::<PrefixOperator>(w, "Prefix", s);
    op::<InfixOperator>(w, "Infix", s);
    op::<PostfixOperator>(w, "Postfix", s);
    op::<BinaryOperator>(w, "Binary", s);
    op::<TernaryOperator>(w, "Ternary", s);
    op::<PrefixBinaryOperator>(w, "PrefixBinary", s);
    op::<CompoundOperator>(w, "Compound", s);
    op::<GroupOperator>(w, "Group", s);
    op::<CallOperator>(w, "Call", s);
    put(w, "Leaf", TokenKind::from_symbol(s).map(|k| (format!("{k:?}"), k.to_symbol())));
    let e = asked.strip_prefix("SyntaxError`").and_then(SyntaxErrorKind::from_str);
    put(w, "SyntaxError", e.map(|k| (format!("{k:?}"), k.to_symbol())));
    let e = asked.strip_prefix("IssueTag`").and_then(IssueTag::from_str);
    text(w, "IssueTag", e.map(|k| (format!("{k:?}"), format!("IssueTag`{}", k.as_str()))));
    let e = asked.strip_prefix("Severity`").and_then(Severity::from_str);
    text(w, "Severity", e.map(|k| (format!("{k:?}"), format!("Severity`{}", k.as_str()))));
    w.o.pop();
    w.o.push(']');
}
