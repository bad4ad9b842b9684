//! Runs the command line program, and next to it the calls it may make.
//!
//! The bytes of a job are the arguments (separated by 1F), 1E, and the text. The argument `@` stands for a file with
//! the text, which otherwise comes from standard input.
use crate::json;
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::panic::catch_unwind;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use wolfram_parser::{
    fmt_as_expr::FmtAsExpr, parse_bytes_ast_seq, parse_bytes_cst_seq, parse_to_token, safe_string, tokenize_bytes, ParseOptions,
    QuirkSettings, StringifyMode,
};

static FILES: AtomicUsize = AtomicUsize::new(0);
/// more than this is never the answer to a job
const LIMIT: u64 = 1 << 20;

fn text(mode: &str, input: &[u8], opts: &ParseOptions) -> Option<String> {
    Some(match mode {
        "tokens" => FmtAsExpr(&tokenize_bytes(input, opts).ok()?).to_string(),
        "leaf" => FmtAsExpr(&parse_to_token(input, opts, StringifyMode::Normal).syntax).to_string(),
        "safe" => safe_string(input, opts).ok()?.to_string(),
        "expr" => FmtAsExpr(&parse_bytes_cst_seq(input, opts).syntax).to_string(),
        "cst" => format!("{:#?}", parse_bytes_cst_seq(input, opts).syntax),
        _ => format!("{:#?}", parse_bytes_ast_seq(input, opts).syntax),
    })
}

pub fn record(bytes: &[u8], o: &mut String) -> bool {
    let cut = bytes.iter().position(|b| *b == 0x1e).expect("arguments and text");
    let (args, body) = (&bytes[..cut], &bytes[cut + 1..]);
    let args: Vec<&str> = args.split(|b| *b == 0x1f).filter(|a| !a.is_empty()).map(|a| std::str::from_utf8(a).unwrap()).collect();
    let path = std::env::temp_dir().join(format!("text-{}-{}", std::process::id(), FILES.fetch_add(1, Ordering::Relaxed)));
    std::fs::write(&path, body).expect("a file");
    let mut child = Command::new(std::env::var_os("VERIF_PROGRAM").expect("VERIF_PROGRAM"))
        .args(args.iter().map(|a| if *a == "@" { path.as_os_str() } else { a.as_ref() }))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("the program");
    // the text fits in the pipe
    let _ = child.stdin.take().unwrap().write_all(body);
    let mut out = Vec::new();
    child.stdout.take().unwrap().take(LIMIT).read_to_end(&mut out).unwrap();
    let endless = out.len() as u64 == LIMIT;
    if endless {
        child.kill().unwrap();
        out.truncate(200);
    }
    let status = child.wait().unwrap();
    std::fs::remove_file(&path).unwrap();

    o.push_str(",\"args\":[");
    for (i, a) in args.iter().enumerate() {
        write!(o, "{}{a:?}", if i > 0 { "," } else { "" }).unwrap();
    }
    write!(o, "],\"body\":{body:?},\"end\":\"{}\",\"out\":", if endless { "endless" } else if status.success() { "ok" } else { "fail" }).unwrap();
    json::string(o, &String::from_utf8_lossy(&out));

    // what the calls return for the text and for each of its lines
    let mut inputs = vec![body];
    inputs.extend(body.split(|b| *b == b'\n').filter_map(|l| std::str::from_utf8(l).ok()).map(|l| l.trim_end().as_bytes()));
    inputs.sort();
    inputs.dedup();
    o.push_str(",\"texts\":[");
    let mut first = true;
    for input in inputs {
        for flat in [false, true] {
            for mode in ["expr", "cst", "ast", "tokens", "leaf", "safe"] {
                let r = catch_unwind(|| {
                    let mut opts = ParseOptions::default();
                    opts.quirk_settings = QuirkSettings::default().flatten_times(flat);
                    text(mode, input, &opts)
                });
                let r = r.unwrap_or_default();
                write!(o, "{}[{input:?},{flat},\"{mode}\",{},", if first { "" } else { "," }, r.is_some()).unwrap();
                json::string(o, &r.unwrap_or_default());
                o.push(']');
                first = false;
            }
        }
    }
    o.push(']');
    true
}
