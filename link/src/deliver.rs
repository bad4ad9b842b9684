//! What the library returns, and what reaches the kernel.
use crate::answer::{bytes, call, function, issues, options, string, tokens};
use harness::{guarded, json, json::W, Job};
use std::fmt::Write;
use wolfram_library_link::{
    rtl,
    wstp::{Link, Tk},
};
use wolfram_parser::{
    parse_bytes_cst_seq, parse_to_token, safe_string, source::Location, tokenize_bytes, ParseOptions, ParseResult, StringifyMode,
};

fn request(job: &Job, source: Vec<Tk>, mode: Option<i64>) -> Vec<Tk> {
    let mut v = vec![function("List", if mode.is_some() { 8 } else { 6 }), Tk::Int(0)];
    v.extend(source);
    v.extend(mode.map(Tk::Int));
    v.extend(options(job, mode.is_some()));
    v
}

/// `[limit, polls, answer]` of one call
fn run(w: &mut W, f: fn(&mut Link), request: Vec<Tk>, limit: u64) -> u64 {
    let (answer, polls) = call(f, request, limit);
    write!(w.o, "[{},{polls},", if limit == u64::MAX { 0 } else { limit }).unwrap();
    tokens(&mut w.o, &answer);
    w.o.push(']');
    polls
}

/// `"ok", nodes, flag, issues that end everything, other issues, locations`
fn expected<'i, T>(w: &mut W<'i>, r: &ParseResult<T>, f: impl FnOnce(&mut W<'i>, &T)) {
    w.o.push_str("\"ok\",");
    match r.unsafe_character_encoding {
        None => f(w, &r.syntax),
        Some(_) => w.o.push_str("[]"),
    }
    write!(w.o, ",\"{}\",", r.unsafe_character_encoding.map(|e| e.as_str()).unwrap_or("")).unwrap();
    issues(&mut w.o, &r.fatal_issues);
    w.o.push(',');
    issues(&mut w.o, &r.non_fatal_issues);
    w.o.push_str(",[");
    let t = &r.tracked;
    for (i, s) in [&t.simple_line_continuations, &t.complex_line_continuations, &t.embedded_newlines, &t.embedded_tabs]
        .into_iter()
        .enumerate()
    {
        w.o.push_str(if i > 0 { ",[" } else { "[" });
        for (j, l) in s.iter().enumerate() {
            w.o.push_str(if j > 0 { ",[" } else { "[" });
            if matches!(l, Location::CharacterIndex(_)) {
                w.o.push_str("0,");
            }
            json::loc(&mut w.o, *l);
            w.o.push(']');
        }
        w.o.push(']');
    }
    w.o.push(']');
}

pub fn record(job: &Job, o: &mut String) -> bool {
    let input = &job.bytes[..];
    let mut ok = true;
    let normal = Job { enc: 'N', ..job.clone() };
    let concrete = |w: &mut W, f: fn(&mut Link), source: Vec<Tk>, aborts: bool| {
        w.o.push('[');
        // what is expected borrows from the input of the writer
        let r = parse_bytes_cst_seq(input, &normal.opts());
        let mut e = W { o: String::new(), input };
        expected(&mut e, &r, |e, s| e.csts(s));
        w.o.push_str(&e.o);
        w.o.push_str(",[");
        let n = run(w, f, request(&normal, source.clone(), None), u64::MAX);
        if aborts && n > 0 {
            let mut limits = vec![1, n / 2 + 1, n];
            limits.dedup();
            for k in limits {
                w.o.push(',');
                run(w, f, request(&normal, source.clone(), None), k);
            }
        }
        w.o.push_str("]]");
    };
    let tokenized = |w: &mut W, f: fn(&mut Link), source: Vec<Tk>| {
        w.o.push('[');
        let mut e = W { o: String::new(), input };
        match tokenize_bytes(input, &normal.opts()) {
            Ok(t) => {
                e.o.push_str("\"ok\",");
                e.tokens(&t);
            },
            Err(x) => write!(e.o, "\"err\",\"{}\"", x.as_str()).unwrap(),
        }
        w.o.push_str(&e.o);
        w.o.push_str(",[");
        run(w, f, request(&normal, source, None), u64::MAX);
        w.o.push_str("]]");
    };
    ok &= guarded(input, "kc", o, |w| concrete(w, codeparser_wll::ConcreteParseBytes_LibraryLink, bytes(input), true));
    ok &= guarded(input, "kt", o, |w| tokenized(w, codeparser_wll::TokenizeBytes_LibraryLink, bytes(input)));
    for (key, code, mode) in
        [("kmn", 0, StringifyMode::Normal), ("kmt", 1, StringifyMode::Tag), ("kmf", 2, StringifyMode::File)]
    {
        ok &= guarded(input, key, o, |w| {
            w.o.push('[');
            let r = parse_to_token(input, &job.opts(), mode);
            expected(w, &r, |w, s| w.tokens(s));
            w.o.push_str(",[");
            run(w, codeparser_wll::ConcreteParseLeaf_LibraryLink, request(job, bytes(input), Some(code)), u64::MAX);
            w.o.push_str("]]");
        });
    }
    ok &= guarded(input, "ks", o, |w| {
        match safe_string(input, &ParseOptions::default()) {
            Ok(s) => write!(w.o, "[\"ok\",{:?},[", s.as_bytes()).unwrap(),
            Err(e) => write!(w.o, "[\"err\",\"{}\",[", e.as_str()).unwrap(),
        }
        let mut v = vec![function("List", 2), Tk::Int(0)];
        v.extend(bytes(input));
        run(w, codeparser_wll::SafeString_LibraryLink, v, u64::MAX);
        w.o.push_str("]]");
    });

    // the same from a file
    let file = std::env::temp_dir().join(format!("link-{}-{:?}", std::process::id(), std::thread::current().id()));
    let path = file.to_str().unwrap().to_string();
    std::fs::write(&file, input).unwrap();
    let source = || vec![string(&path)];
    let (cf, tf): (fn(&mut Link), fn(&mut Link)) =
        (codeparser_wll::ConcreteParseFile_LibraryLink, codeparser_wll::TokenizeFile_LibraryLink);
    ok &= guarded(input, "kC", o, |w| concrete(w, cf, source(), false));
    ok &= guarded(input, "kT", o, |w| tokenized(w, tf, source()));
    // how much of a file that may not be read is delivered, and whether the question was about that file
    rtl::READABLE.with(|r| r.set(false));
    let refused: Vec<String> = [cf, tf]
        .into_iter()
        .map(|f| {
            rtl::ASKED.with(|a| a.borrow_mut().clear());
            let n = std::panic::catch_unwind(|| call(f, request(&normal, source(), None), u64::MAX).0.len()).unwrap_or(0);
            let asked = rtl::ASKED.with(|a| *a.borrow() == path.as_bytes());
            format!("[{n},{asked}]")
        })
        .collect();
    rtl::READABLE.with(|r| r.set(true));
    write!(o, ",\"kd\":[{}]", refused.join(",")).unwrap();
    std::fs::remove_file(&file).unwrap();
    ok
}
