//! Runs the real `wolfram-parser` on a list of jobs and records what it did.
//!
//!   harness record WHAT JOBS OUT     WHAT: subset of t c g a s m (see below)
//!   harness probe JOBS               prints one line per job that panics
//!
//! A job line is `FIRSTLINE CONVENTION TABWIDTH ENCODING QUIRKS HEX`.
pub mod boxed;
mod geometry;
mod history;
pub mod json;
mod layers;
mod names;
mod program;
mod walk;

use json::W;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use wolfram_parser::{
    abstract_cst::aggregate_cst_seq, fmt_as_expr::FmtAsExpr, parse_bytes_ast_seq, parse_bytes_cst_seq, parse_to_token, safe_string,
    source::SourceConvention, tokenize, tokenize_bytes, EncodingMode, FirstLineBehavior, ParseOptions, ParseResult,
    QuirkSettings, StringifyMode,
};

#[derive(Clone)]
pub struct Job {
    pub line: String,
    pub flb: char,
    pub conv: char,
    pub tab: u32,
    pub enc: char,
    pub quirks: String,
    pub bytes: Vec<u8>,
}

fn parse_job(line: &str) -> Job {
    let f: Vec<&str> = line.split(' ').collect();
    let hex = if f[5] == "." { "" } else { f[5] };
    Job {
        line: line.to_string(),
        flb: f[0].chars().next().unwrap(),
        conv: f[1].chars().next().unwrap(),
        tab: f[2].parse().unwrap(),
        enc: f[3].chars().next().unwrap(),
        quirks: f[4].to_string(),
        bytes: (0..hex.len() / 2)
            .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
            .collect(),
    }
}

impl Job {
    pub fn quirk_settings(&self) -> QuirkSettings {
        QuirkSettings::default()
            .infix_binary_at(!self.quirks.contains('i'))
            .flatten_times(self.quirks.contains('f'))
            .old_at_at_at(self.quirks.contains('o'))
    }

    pub fn opts(&self) -> ParseOptions {
        ParseOptions::make(
            match self.flb {
                'C' => FirstLineBehavior::Check,
                'S' => FirstLineBehavior::Script,
                _ => FirstLineBehavior::NotScript,
            },
            match self.conv {
                'C' => SourceConvention::CharacterIndex,
                _ => SourceConvention::LineColumn,
            },
            match self.enc {
                'B' => EncodingMode::Box,
                _ => EncodingMode::Normal,
            },
            self.tab,
            self.quirk_settings(),
        )
    }
}

fn result<'i, T>(w: &mut W<'i>, r: &ParseResult<T>, f: impl FnOnce(&mut W<'i>, &T)) {
    w.o.push_str("[\"ok\",");
    f(w, &r.syntax);
    write!(
        w.o,
        ",\"{}\",",
        r.unsafe_character_encoding.map(|e| e.as_str()).unwrap_or("")
    )
    .unwrap();
    w.full_issues(&r.fatal_issues);
    w.o.push(',');
    w.full_issues(&r.non_fatal_issues);
    w.o.push_str(",[");
    let t = &r.tracked;
    for (i, s) in [
        &t.simple_line_continuations,
        &t.complex_line_continuations,
        &t.embedded_newlines,
        &t.embedded_tabs,
    ]
    .iter()
    .enumerate()
    {
        if i > 0 {
            w.o.push(',');
        }
        let mut v: Vec<String> = s
            .iter()
            .map(|l| {
                let mut o = String::from("[");
                json::loc(&mut o, *l);
                o.push(']');
                o
            })
            .collect();
        v.sort();
        write!(w.o, "[{}]", v.join(",")).unwrap();
    }
    w.o.push_str("]]");
}

pub fn guarded<'i>(input: &'i [u8], key: &str, out: &mut String, f: impl FnOnce(&mut W<'i>)) -> bool {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut w = W { o: String::new(), input };
        f(&mut w);
        w.o
    }));
    write!(out, ",\"{key}\":").unwrap();
    match r {
        Ok(s) => {
            out.push_str(&s);
            true
        },
        Err(_) => {
            out.push_str("[\"panic\"]");
            false
        },
    }
}

/// Records what the harness itself does not know about.
pub type Extra = fn(&Job, char, &mut String) -> bool;

fn record(job: &Job, what: &str, extra: Extra) -> (String, bool) {
    let mut o = String::new();
    let mut ok = true;
    let input = &job.bytes[..];
    write!(
        o,
        "{{\"o\":[\"{}\",\"{}\",{},\"{}\",\"{}\"],\"b\":{:?}",
        job.flb, job.conv, job.tab, job.enc, job.quirks, job.bytes
    )
    .unwrap();
    for k in what.chars() {
        match k {
            // tokens
            't' => {
                ok &= guarded(input, "t", &mut o, |w| match tokenize_bytes(input, &job.opts()) {
                    Ok(t) => {
                        w.o.push_str("[\"ok\",");
                        w.tokens(&t);
                        w.o.push(']');
                    },
                    Err(e) => write!(w.o, "[\"err\",\"{}\"]", e.as_str()).unwrap(),
                })
            },
            // concrete syntax tree
            'c' => {
                ok &= guarded(input, "c", &mut o, |w| {
                    let r = parse_bytes_cst_seq(input, &job.opts());
                    result(w, &r, |w, s| w.csts(s));
                })
            },
            // aggregate syntax tree
            'g' => {
                ok &= guarded(input, "g", &mut o, |w| {
                    let r = parse_bytes_cst_seq(input, &job.opts());
                    let g = aggregate_cst_seq(r.syntax);
                    w.o.push_str("[\"ok\",");
                    w.csts(&g);
                    w.o.push(']');
                })
            },
            // abstract syntax tree
            'a' => {
                ok &= guarded(input, "a", &mut o, |w| {
                    let r = parse_bytes_ast_seq(input, &job.opts());
                    result(w, &r, |w, s| w.asts(s));
                })
            },
            // safe string
            's' => {
                ok &= guarded(input, "s", &mut o, |w| match safe_string(input, &job.opts()) {
                    Ok(s) => write!(w.o, "[\"ok\",{:?}]", s.as_bytes()).unwrap(),
                    Err(e) => write!(w.o, "[\"err\",\"{}\"]", e.as_str()).unwrap(),
                })
            },
            // single leaf in the three modes
            'm' => {
                for (key, mode) in [
                    ("mn", StringifyMode::Normal),
                    ("mt", StringifyMode::Tag),
                    ("mf", StringifyMode::File),
                ] {
                    ok &= guarded(input, key, &mut o, |w| {
                        let r = parse_to_token(input, &job.opts(), mode);
                        result(w, &r, |w, s| w.tokens(s));
                    });
                }
            },
            // tokens of a string
            'T' => {
                if let Ok(s) = std::str::from_utf8(input) {
                    ok &= guarded(input, "ts", &mut o, |w| {
                        w.o.push_str("[\"ok\",");
                        w.tokens(&tokenize(s, &job.opts()));
                        w.o.push(']');
                    });
                }
            },
            // the layers as iterators
            'i' => {
                if let Ok(s) = std::str::from_utf8(input) {
                    ok &= guarded(input, "is", &mut o, |w| layers::source(w, s, &job.opts()));
                    ok &= guarded(input, "iw", &mut o, |w| layers::wolfram(w, s, &job.opts()));
                    ok &= guarded(input, "it", &mut o, |w| layers::tokens(w, s, &job.opts()));
                }
            },
            // the aggregate and the abstract tree, of a tree with boxes
            'b' => {
                let r = catch_unwind(|| parse_bytes_cst_seq(input, &job.opts()).syntax);
                ok &= match r {
                    Ok(tree) => boxed::record(&mut o, input, tree, job.quirk_settings()),
                    Err(_) => false,
                };
            },
            // walks over trees with boxes
            'B' => {
                let parse = || boxed::boxed(parse_bytes_cst_seq(input, &job.opts()).syntax, input);
                ok &= guarded(input, "vc", &mut o, |w| walk::walks(w, parse()));
                ok &= guarded(input, "vg", &mut o, |w| walk::walks(w, aggregate_cst_seq(parse())));
            },
            // walks over the concrete and the aggregate tree
            'v' => {
                let parse = || parse_bytes_cst_seq(input, &job.opts()).syntax;
                ok &= guarded(input, "vc", &mut o, |w| walk::walks(w, parse()));
                ok &= guarded(input, "vg", &mut o, |w| walk::walks(w, aggregate_cst_seq(parse())));
            },
            // the printed form of the tokens and both trees
            'p' => {
                if job.conv == 'L' {
                    let parse = || parse_bytes_cst_seq(input, &job.opts()).syntax;
                    if let Ok(Ok(t)) = catch_unwind(|| tokenize_bytes(input, &job.opts())) {
                        ok &= guarded(input, "pt", &mut o, |w| {
                            w.o.push('[');
                            w.tokens(&t);
                            write!(w.o, ",{:?}]", FmtAsExpr(&t).to_string().as_bytes()).unwrap();
                        });
                    }
                    ok &= guarded(input, "pc", &mut o, |w| walk::printed(w, parse()));
                    ok &= guarded(input, "pg", &mut o, |w| walk::printed(w, aggregate_cst_seq(parse())));
                }
            },
            // what a symbol stands for
            'n' => {
                if let Ok(s) = std::str::from_utf8(input) {
                    ok &= guarded(input, "n", &mut o, |w| names::names(w, s));
                }
            },
            // spans as regions
            'x' => ok &= guarded(input, "x", &mut o, |w| geometry::spans(w, input, job.conv == 'L')),
            // the command line program
            'O' => ok &= program::record(&job.bytes, &mut o),
            // a history of calls
            'h' => o.push_str(&history::run(&job.bytes)),
            _ => ok &= extra(job, k, &mut o),
        }
    }
    o.push_str("}\n");
    (o, ok)
}

/// A job that takes longer than this (in tenths of a second) is reported as a hang.
const HANG_TENTHS: u64 = 300;

fn parallel<F: Fn(usize, &Job) -> String + Sync>(jobs: &[Job], f: F) -> Vec<String> {
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let size = (jobs.len() / (n * 4)).max(1);
    let chunks: Vec<&[Job]> = jobs.chunks(size).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results: Vec<std::sync::Mutex<String>> = chunks.iter().map(|_| Default::default()).collect();
    // what each worker is busy with: (job number + 1) * 2^20 + start in tenths of a second
    let busy: Vec<std::sync::atomic::AtomicU64> = (0..n).map(|_| Default::default()).collect();
    let left = std::sync::atomic::AtomicUsize::new(n);
    let t0 = std::time::Instant::now();
    std::thread::scope(|s| {
        let (busy, left, next, results, chunks, f) = (&busy, &left, &next, &results, &chunks, &f);
        s.spawn(move || {
            while left.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for b in busy {
                    let v = b.load(std::sync::atomic::Ordering::SeqCst);
                    let now = t0.elapsed().as_millis() as u64 / 100;
                    if v != 0 && now > (v & 0xfffff) + HANG_TENTHS {
                        println!("HANG {}", jobs[(v >> 20) as usize - 1].line);
                        std::process::exit(3);
                    }
                }
            }
        });
        for me in 0..n {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || {
                    struct Done<'a>(&'a std::sync::atomic::AtomicUsize);
                    impl Drop for Done<'_> {
                        fn drop(&mut self) {
                            self.0.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                        }
                    }
                    let _done = Done(left);
                    loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= chunks.len() {
                        break;
                    }
                    let mut o = String::new();
                    for (j, job) in chunks[i].iter().enumerate() {
                        let k = i * size + j;
                        busy[me].store(
                            ((k as u64 + 1) << 20) | (t0.elapsed().as_millis() as u64 / 100),
                            std::sync::atomic::Ordering::SeqCst,
                        );
                        o.push_str(&f(k, job));
                    }
                    busy[me].store(0, std::sync::atomic::Ordering::SeqCst);
                    *results[i].lock().unwrap() = o;
                    }
                })
                .unwrap();
        }
    });
    results.into_iter().map(|m| m.into_inner().unwrap()).collect()
}

fn read_jobs(path: &str) -> Vec<Job> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .filter(|l| !l.is_empty())
        .map(parse_job)
        .collect()
}

pub fn run(extra: Extra) {
    if std::env::var_os("VERIF_SHOW_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "record" => {
            let jobs = read_jobs(&args[3]);
            let out = parallel(&jobs, |_, j| record(j, &args[2], extra).0);
            let mut f = std::io::BufWriter::new(std::fs::File::create(&args[4]).unwrap());
            for o in out {
                f.write_all(o.as_bytes()).unwrap();
            }
        },
        "probe" => {
            let jobs = read_jobs(&args[2]);
            let out = parallel(&jobs, |_, j| {
                let (o, ok) = record(j, "tcgasm", extra);
                if ok {
                    String::new()
                } else {
                    format!("{} {}\n", j.line, o.len())
                }
            });
            for o in out {
                print!("{o}");
            }
        },
        // one line of hashes per job: tokens, concrete tree, its issues, aggregate, abstract tree, safe string, leaves
        "digest" => {
            use std::hash::Hasher;
            let jobs = read_jobs(&args[2]);
            let out = parallel(&jobs, |_, j| {
                let mut o = String::new();
                for k in ["t", "C", "c", "g", "a", "s", "m"] {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    if k == "C" {
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut w = W { o: String::new(), input: &j.bytes };
                            w.csts(&parse_bytes_cst_seq(&j.bytes, &j.opts()).syntax);
                            w.o
                        }));
                        h.write(r.unwrap_or_default().as_bytes());
                    } else {
                        h.write(record(j, k, extra).0.as_bytes());
                    }
                    write!(o, "{:08x} ", h.finish() as u32).unwrap();
                }
                o.pop();
                o.push('\n');
                o
            });
            for o in out {
                print!("{o}");
            }
        },
        _ => std::process::exit(2),
    }
}
