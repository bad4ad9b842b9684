//! Requests and answers as tokens.
use harness::{json, Job};
use std::fmt::Write;
use wolfram_library_link::{
    rtl,
    wstp::{Link, Tk},
};
use wolfram_parser::{
    issue::{CodeActionKind, Issue, IssueTag},
};

pub fn function(head: &str, n: usize) -> Tk {
    Tk::Function(head.to_string(), n)
}
pub fn symbol(name: &str) -> Tk {
    Tk::Symbol(name.to_string())
}
pub fn string(s: &str) -> Tk {
    Tk::Str(s.to_string())
}

/// `ByteArray[bytes]`
pub fn bytes(b: &[u8]) -> Vec<Tk> {
    vec![function("ByteArray", 1), Tk::Bytes(b.to_vec())]
}

/// source convention, tab width, first line, encoding if asked for, quirks
pub fn options(job: &Job, encoding: bool) -> Vec<Tk> {
    let mut v = vec![
        Tk::Int((job.conv == 'C') as i64),
        Tk::Int(job.tab.into()),
        Tk::Int("NCS".find(job.flb).unwrap() as i64),
    ];
    if encoding {
        v.push(Tk::Int((job.enc == 'B') as i64));
    }
    v.extend(quirks(job));
    v
}

pub fn quirks(job: &Job) -> Vec<Tk> {
    let has = |c| job.quirks.contains(c);
    let mut v = vec![function("Association", 3)];
    for (key, on) in [("InfixBinaryAt", !has('i')), ("FlattenTimes", has('f')), ("OldAtAtAt", has('o'))] {
        v.extend([function("Rule", 2), string(key), symbol(if on { "True" } else { "False" })]);
    }
    v
}

/// What one call of an entry point put on the link, and how often it asked whether to abort.
pub fn call(f: fn(&mut Link), request: Vec<Tk>, limit: u64) -> (Vec<Tk>, u64) {
    rtl::POLLS.with(|p| p.set((0, limit)));
    let mut link = Link::default();
    link.incoming.extend(request);
    f(&mut link);
    let polls = rtl::POLLS.with(|p| p.get().0);
    (settle(link.outgoing), polls)
}

/// The kernel merges an association inside an association and finds symbols without a context in `System`.
pub fn settle(tokens: Vec<Tk>) -> Vec<Tk> {
    let tokens: Vec<Tk> = tokens
        .into_iter()
        .map(|t| match t {
            Tk::Function(h, n) if !h.contains('`') => Tk::Function(format!("System`{h}"), n),
            Tk::Symbol(h) if !h.contains('`') => Tk::Symbol(format!("System`{h}")),
            t => t,
        })
        .collect();
    each(tokens, &|rule| KEYS.iter().position(|k| rule.get(1).map_or(false, |t| key(t) == Some(k))).unwrap_or(KEYS.len()))
}

/// The same request with its associations in some other order.
pub fn shuffled(tokens: Vec<Tk>, seed: usize) -> Vec<Tk> {
    if seed % 3 == 0 {
        return tokens;
    }
    each(tokens, &|rule| {
        let name = rule.get(1).and_then(key).unwrap_or("");
        name.bytes().fold(seed, |h, b| h.wrapping_mul(31).wrapping_add(b as usize)) % 97
    })
}

/// the order in which the specification lists the keys of an association
const KEYS: [&str; 14] = [
    "CodeParser`SyntaxIssues", "EmbeddedTabs", "EmbeddedNewlines", "SimpleLineContinuations", "ComplexLineContinuations",
    "CodeParser`Source", "System`ConfidenceLevel", "CodeParser`CodeActions", "AdditionalDescriptions", "AdditionalSources", "FileName",
    "InsertionText", "ReplacementText", "CodeParser`AbstractSyntaxIssues",
];

fn key(t: &Tk) -> Option<&str> {
    match t {
        Tk::Symbol(s) | Tk::Str(s) => Some(s),
        _ => None,
    }
}

fn each(tokens: Vec<Tk>, order: &dyn Fn(&[Tk]) -> usize) -> Vec<Tk> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < tokens.len() {
        match expression(&tokens, &mut i, order) {
            Some(e) => out.extend(e),
            None => return tokens,
        }
    }
    out
}

/// the tokens of the next expression, its associations in order
fn expression(tokens: &[Tk], i: &mut usize, order: &dyn Fn(&[Tk]) -> usize) -> Option<Vec<Tk>> {
    let t = tokens.get(*i)?;
    *i += 1;
    let Tk::Function(h, n) = t else { return Some(vec![t.clone()]) };
    let association = |t: &Tk| matches!(t, Tk::Function(g, _) if g == "System`Association" || g == "Association");
    let mut args: Vec<Vec<Tk>> = Vec::new();
    for _ in 0..*n {
        let e = expression(tokens, i, order)?;
        if association(t) && association(&e[0]) {
            let mut j = 1;
            while j < e.len() {
                args.push(expression(&e, &mut j, order)?);
            }
        } else {
            args.push(e);
        }
    }
    if association(t) {
        args.sort_by_key(|a| order(a));
    }
    let mut out = vec![Tk::Function(h.clone(), args.len())];
    out.extend(args.into_iter().flatten());
    Some(out)
}

pub fn tokens(o: &mut String, v: &[Tk]) {
    o.push('[');
    for (i, t) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        match t {
            Tk::Function(h, n) => write!(o, "[\"f\",{h:?},{n}]"),
            Tk::Symbol(s) => write!(o, "[\"s\",{s:?}]"),
            // the bytes, and a short plain text once more as a name
            Tk::Str(s) => {
                let plain = s.len() <= 60 && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_');
                write!(o, "[\"t\",{:?},\"{}\"]", s.as_bytes(), if plain { s } else { "" })
            },
            Tk::Int(i) => write!(o, "[\"i\",{i}]"),
            Tk::Real(r) => write!(o, "[\"r\",{}]", (r * 10000.0).round() as i64),
            Tk::Bytes(b) => write!(o, "[\"b\",{b:?}]"),
        }
        .unwrap();
    }
    o.push(']');
}

fn list<T>(o: &mut String, v: &[T], mut f: impl FnMut(&mut String, &T)) {
    o.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        f(o, x);
    }
    o.push(']');
}

/// `[symbol, tag, message, severity, source, confidence, edits, descriptions, sources]`, an edit being
/// `[kind, label, source, text]`
pub fn issues(o: &mut String, v: &[Issue]) {
    list(o, v, |o, i| {
        // a message that shows a box shows how it is stored here, which depends on who made it: any text will do
        let shown = i.tag == IssueTag::StrangeCall && i.msg.contains("``");
        let msg = if shown { &[] } else { i.msg.as_bytes() };
        write!(o, "[{:?},\"{:?}\",{:?},\"{:?}\",", i.make_sym.as_str(), i.tag, msg, i.sev).unwrap();
        json::source(o, &i.src);
        write!(o, ",{},", (i.val * 10000.0).round() as i64).unwrap();
        list(o, &i.actions, |o, a| {
            let (kind, text) = match &a.kind {
                CodeActionKind::ReplaceText { replacement_text } => ("Replace", replacement_text.as_str()),
                CodeActionKind::InsertText { insertion_text } => ("Insert", insertion_text.as_str()),
                CodeActionKind::DeleteText => ("Delete", ""),
            };
            write!(o, "[\"{kind}\",{:?},", a.label.as_bytes()).unwrap();
            json::span(o, a.src);
            write!(o, ",{:?}]", text.as_bytes()).unwrap();
        });
        o.push(',');
        list(o, &i.additional_descriptions, |o, d| write!(o, "{:?}", d.as_bytes()).unwrap());
        o.push(',');
        list(o, &i.additional_sources, |o, s| json::source(o, s));
        o.push(']');
    });
}
