//! Histories of calls: several threads, overlapping calls, differing options.
//!
//! A history is a text of lines
//!   in HEX                                            an input
//!   c THREAD ENTRY FIRSTLINE CONV TAB ENC QUIRKS IN   a call
//!   e B|E CALL                                        call begins / has ended
//! Calls that overlap in the history run at the same time.  Afterwards each
//! call is made once more in a thread of its own.
use crate::{json::W, result, Job};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use wolfram_parser::{
    abstract_cst::{abstract_cst, aggregate_cst_seq},
    ast::Ast,
    cst::CstSeq,
    parse_ast, parse_ast_seq, parse_bytes_ast, parse_bytes_ast_seq, parse_bytes_cst, parse_bytes_cst_seq, parse_cst,
    parse_cst_seq, parse_to_token, quirks, safe_string,
    tokenize::TokenStr,
    tokenize, tokenize_bytes, NodeSeq, ParseResult, StringifyMode,
};

type Parts = Vec<(&'static str, String)>;

struct Call {
    thread: usize,
    entry: String,
    job: Job,
    input: usize,
}

fn digest(s: &str) -> String {
    let mut h = DefaultHasher::new();
    h.write(s.as_bytes());
    format!("{:016x}", h.finish())
}

fn written<'i>(input: &'i [u8], f: impl FnOnce(&mut W<'i>)) -> String {
    let mut w = W { o: String::new(), input };
    f(&mut w);
    digest(&w.o)
}

/// everything but the syntax
fn rest<T>(input: &[u8], r: &ParseResult<T>) -> (&'static str, String) {
    ("issues", written(input, |w| result(w, r, |w, _| w.o.push('0'))))
}

fn csts<'i>(input: &'i [u8], r: ParseResult<CstSeq<TokenStr<'i>>>) -> Parts {
    vec![
        ("cst", written(input, |w| w.csts(&r.syntax))),
        rest(input, &r),
        ("single cst", format!("{}", r.syntax.0.len() == 1)),
    ]
}

fn asts(input: &[u8], r: ParseResult<NodeSeq<Ast>>) -> Parts {
    vec![
        ("ast", written(input, |w| w.asts(&r.syntax))),
        rest(input, &r),
        ("single ast", format!("{}", r.syntax.0.len() == 1)),
    ]
}

fn one<T>(r: ParseResult<T>) -> ParseResult<NodeSeq<T>> {
    ParseResult {
        syntax: NodeSeq(vec![r.syntax]),
        unsafe_character_encoding: r.unsafe_character_encoding,
        fatal_issues: r.fatal_issues,
        non_fatal_issues: r.non_fatal_issues,
        tracked: r.tracked,
    }
}

/// `parse_cst` and its like panic unless there is exactly one expression
fn single(part: &'static str, f: impl FnOnce() -> Parts) -> Parts {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| vec![(part, "false".into())])
}

fn call(c: &Call, input: &[u8]) -> Parts {
    let o = c.job.opts();
    let text = std::str::from_utf8(input).ok().filter(|s| !s.contains('\u{feff}'));
    match (c.entry.as_str(), text) {
        ("tok", _) => vec![(
            "tokens",
            match tokenize_bytes(input, &o) {
                Ok(t) => written(input, |w| w.tokens(&t)),
                Err(e) => e.as_str().to_string(),
            },
        )],
        ("tokstr", Some(s)) => vec![("tokens", written(input, |w| w.tokens(&tokenize(s, &o))))],
        ("cst", _) => csts(input, parse_bytes_cst_seq(input, &o)),
        ("cststr", Some(s)) => csts(input, parse_cst_seq(s, &o)),
        ("cst1", _) => single("single cst", || csts(input, one(parse_bytes_cst(input, &o)))),
        ("cst1str", Some(s)) => single("single cst", || csts(input, one(parse_cst(s, &o)))),
        ("ast", _) => asts(input, parse_bytes_ast_seq(input, &o)),
        ("aststr", Some(s)) => asts(input, parse_ast_seq(s, &o)),
        ("ast1", _) => single("single ast", || asts(input, one(parse_bytes_ast(input, &o)))),
        ("ast1str", Some(s)) => single("single ast", || asts(input, one(parse_ast(s, &o)))),
        // concrete tree first, abstracted afterwards.  One parse is made elsewhere, so that nothing
        // comes between this abstraction and the call before it; the other one is made here, with
        // quirks that differ in one setting.
        ("abs", _) | ("own", _) => {
            let mut plain = c.job.clone();
            let r = if c.entry == "abs" {
                std::thread::scope(|s| spawn(s, || parse_bytes_cst_seq(input, &plain.opts())).join().unwrap())
            } else {
                let f = ["i", "f", "o"][input.iter().map(|b| *b as usize).sum::<usize>() % 3];
                plain.quirks = if plain.quirks.contains(f) { plain.quirks.replace(f, "") } else { plain.quirks + f };
                parse_bytes_cst_seq(input, &plain.opts())
            };
            let NodeSeq(g) = aggregate_cst_seq(r.syntax);
            let q = c.job.quirk_settings();
            let a: Vec<Ast> = if c.entry == "abs" {
                g.into_iter().map(|n| abstract_cst(n, q)).collect()
            } else {
                g.into_iter().map(|n| abstract_cst(n.into_owned_input(), q)).collect()
            };
            vec![("ast", written(input, |w| w.asts(&NodeSeq(a))))]
        },
        ("agg", _) => {
            let g = aggregate_cst_seq(parse_bytes_cst_seq(input, &o).syntax);
            vec![("agg", written(input, |w| w.csts(&g)))]
        },
        ("leaf", _) => [
            ("leaf", StringifyMode::Normal),
            ("tag", StringifyMode::Tag),
            ("file", StringifyMode::File),
        ]
        .into_iter()
        .map(|(k, m)| {
            let r = parse_to_token(input, &o, m);
            (k, written(input, |w| result(w, &r, |w, s| w.tokens(s))))
        })
        .collect(),
        ("safe", _) => vec![(
            "safe",
            match safe_string(input, &o) {
                Ok(s) => digest(s),
                Err(e) => e.as_str().to_string(),
            },
        )],
        // the settings of the thread are public
        ("set", _) => {
            quirks::set_quirks(c.job.quirk_settings());
            vec![]
        },
        _ => vec![],
    }
}

fn guarded(c: &Call, input: &[u8]) -> Parts {
    catch_unwind(AssertUnwindSafe(|| call(c, input))).unwrap_or_else(|_| vec![("panic", "panic".into())])
}

fn spawn<'s, T: Send + 's>(s: &'s std::thread::Scope<'s, '_>, f: impl FnOnce() -> T + Send + 's) -> std::thread::ScopedJoinHandle<'s, T> {
    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap()
}

pub fn run(text: &[u8]) -> String {
    let text = std::str::from_utf8(text).unwrap();
    let (mut inputs, mut calls, mut events) = (vec![], vec![], vec![]);
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "in" => inputs.push(crate::parse_job(&format!("N L 4 N - {}", f[1])).bytes),
            "c" => calls.push(Call {
                thread: f[1].parse().unwrap(),
                entry: f[2].into(),
                job: crate::parse_job(&format!("{} {} {} {} {} .", f[3], f[4], f[5], f[6], f[7])),
                input: f[8].parse().unwrap(),
            }),
            _ => events.push((f[1].to_string(), f[2].parse::<usize>().unwrap())),
        }
    }
    let mut got: Vec<Option<Parts>> = calls.iter().map(|_| None).collect();
    let threads = calls.iter().map(|c| c.thread + 1).max().unwrap_or(0);
    let (calls, inputs) = (&calls, &inputs);
    std::thread::scope(|s| {
        let (done, results) = mpsc::channel::<(usize, Parts)>();
        let start: Vec<mpsc::Sender<usize>> = (0..threads)
            .map(|_| {
                let (tx, rx) = mpsc::channel::<usize>();
                let done = done.clone();
                spawn(s, move || {
                    for k in rx {
                        done.send((k, guarded(&calls[k], &inputs[calls[k].input]))).unwrap();
                    }
                });
                tx
            })
            .collect();
        for (kind, k) in &events {
            if kind == "B" {
                start[calls[*k].thread].send(*k).unwrap();
            } else {
                while got[*k].is_none() {
                    let (j, r) = results.recv().unwrap();
                    got[j] = Some(r);
                }
            }
        }
    });
    let fresh: Vec<Parts> = calls
        .iter()
        .map(|c| std::thread::scope(|s| spawn(s, || guarded(c, &inputs[c.input])).join().unwrap()))
        .collect();
    let mut o = String::from(",\"h\":{\"in\":[");
    let list = |o: &mut String, n: usize, f: &dyn Fn(&mut String, usize)| {
        for i in 0..n {
            if i > 0 {
                o.push(',');
            }
            f(o, i);
        }
    };
    list(&mut o, inputs.len(), &|o, i| write!(o, "{:?}", inputs[i]).unwrap());
    o.push_str("],\"cs\":[");
    list(&mut o, calls.len(), &|o, i| {
        let (c, j) = (&calls[i], &calls[i].job);
        write!(
            o,
            "[{},\"{}\",[\"{}\",\"{}\",{},\"{}\",\"{}\"],{}]",
            c.thread + 1, c.entry, j.flb, j.conv, j.tab, j.enc, j.quirks, c.input + 1
        )
        .unwrap()
    });
    o.push_str("],\"ev\":[");
    list(&mut o, events.len(), &|o, i| write!(o, "[\"{}\",{}]", events[i].0, events[i].1 + 1).unwrap());
    let parts = |o: &mut String, p: &Parts| {
        let v: Vec<String> = p.iter().map(|(k, d)| format!("[\"{k}\",\"{d}\"]")).collect();
        write!(o, "[{}]", v.join(",")).unwrap();
    };
    o.push_str("],\"r\":[");
    list(&mut o, calls.len(), &|o, i| parts(o, got[i].as_ref().unwrap_or(&vec![])));
    o.push_str("],\"f\":[");
    list(&mut o, calls.len(), &|o, i| parts(o, &fresh[i]));
    o.push_str("]}");
    o
}
