//! The iterators over source characters, Wolfram characters and tokens.
use crate::json::W;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use wolfram_parser::{
    iter,
    read::{Escape, WLCharacter},
    source::SourceCharacter as S,
    ParseOptions,
};

/// Code point as a number, specials as in spec/Source.tla.
fn point(c: S) -> i32 {
    match c {
        S::Char(c) => c as i32,
        S::EndOfFile => -1,
        S::LinearSyntax_Space => -3,
        S::StringMeta_Open => -4,
        S::StringMeta_Close => -5,
        S::StringMeta_DoubleQuote => -6,
        S::StringMeta_Backslash => -7,
        S::StringMeta_Backspace => -8,
        S::StringMeta_FormFeed => -9,
        S::StringMeta_LineFeed => -10,
        S::StringMeta_CarriageReturn => -11,
        S::StringMeta_Tab => -12,
        S::CRLF => -13,
        S::Unsafe1ByteUtf8Sequence => -14,
        S::Unsafe2ByteUtf8Sequence => -15,
        S::Unsafe3ByteUtf8Sequence => -16,
        S::LineContinuation_LineFeed => -17,
        S::LineContinuation_CarriageReturn => -18,
        S::LineContinuation_CRLF => -19,
    }
}

const SPECIAL: [S; 18] = [
    S::EndOfFile,
    S::LinearSyntax_Space,
    S::StringMeta_Open,
    S::StringMeta_Close,
    S::StringMeta_DoubleQuote,
    S::StringMeta_Backslash,
    S::StringMeta_Backspace,
    S::StringMeta_FormFeed,
    S::StringMeta_LineFeed,
    S::StringMeta_CarriageReturn,
    S::StringMeta_Tab,
    S::CRLF,
    S::Unsafe1ByteUtf8Sequence,
    S::Unsafe2ByteUtf8Sequence,
    S::Unsafe3ByteUtf8Sequence,
    S::LineContinuation_LineFeed,
    S::LineContinuation_CarriageReturn,
    S::LineContinuation_CRLF,
];
const ESCAPES: [(Escape, &str); 8] = [
    (Escape::None, "none"),
    (Escape::Raw, "raw"),
    (Escape::Single, "single"),
    (Escape::Hex2, "hex2"),
    (Escape::Hex4, "hex4"),
    (Escape::Hex6, "hex6"),
    (Escape::Octal, "octal"),
    (Escape::LongName, "name"),
];

/// What a Wolfram character is equal to. `guess` holds the code points that come into question.
fn identify(c: WLCharacter, guess: &[char]) -> Option<(i32, &'static str)> {
    for (e, name) in ESCAPES {
        for s in SPECIAL {
            if c == WLCharacter::escaped(s, e) {
                return Some((point(s), name));
            }
        }
        for &g in guess {
            if c == WLCharacter::escaped(g, e) {
                return Some((g as i32, name));
            }
        }
    }
    None
}

/// The character shown by `{:?}`, as a guess.
fn shown(c: WLCharacter) -> Vec<char> {
    let d = format!("{c:?}");
    let Some(a) = d.find("Char('") else { return vec![] };
    let r = &d[a + 6..];
    let Some(z) = r.rfind("')") else { return vec![] };
    let r = &r[..z];
    let c = match r {
        "\\n" => Some('\n'),
        "\\r" => Some('\r'),
        "\\t" => Some('\t'),
        "\\0" => Some('\0'),
        "\\'" => Some('\''),
        "\\\\" => Some('\\'),
        _ if r.starts_with("\\u{") => u32::from_str_radix(&r[3..r.len() - 1], 16).ok().and_then(char::from_u32),
        _ => r.chars().next(),
    };
    c.into_iter().collect()
}

fn printed(f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => format!("{:?}", s.as_bytes()),
        Err(_) => "[-1]".into(),
    }
}

pub fn source<'i>(w: &mut W<'i>, s: &'i str, o: &ParseOptions) {
    w.o.push_str("[\"ok\",[");
    for (i, c) in iter::source_chars(s, o).enumerate() {
        if i > 0 {
            w.o.push(',');
        }
        let (a, b) = (printed(|| c.to_string()), printed(|| format!("{c:#}")));
        write!(w.o, "[{},\"none\",{a},{b}]", point(c)).unwrap();
    }
    w.o.push_str("]]");
}

pub fn wolfram<'i>(w: &mut W<'i>, s: &'i str, o: &ParseOptions) {
    w.o.push_str("[\"ok\",[");
    for (i, c) in iter::wolfram_chars(s, o).enumerate() {
        if i > 0 {
            w.o.push(',');
        }
        let (p, e) = identify(c, &shown(c)).unwrap_or((-99, "?"));
        let (a, b) = (printed(|| c.to_string()), printed(|| format!("{c:#}")));
        write!(w.o, "[{p},\"{e}\",{a},{b}]").unwrap();
    }
    w.o.push_str("]]");
}

pub fn tokens<'i>(w: &mut W<'i>, s: &'i str, o: &ParseOptions) {
    w.o.push_str("[\"ok\",");
    let v = wolfram_parser::NodeSeq(iter::tokens(s, o).collect());
    w.tokens(&v);
    w.o.push(']');
}
