//! Spans as regions of the text.
use crate::json::W;
use std::fmt::Write as _;
use std::num::NonZeroU32;
use wolfram_parser::source::{CharacterSpan, LineColumn, LineColumnSpan, Location, Span, SpanKind};

fn lc(b: &[u8]) -> LineColumn {
    LineColumn(NonZeroU32::new(b[0].into()).unwrap(), NonZeroU32::new(b[1].into()).unwrap())
}

fn order(a: Location, b: Location) -> &'static str {
    match a.partial_cmp(&b) {
        Some(o) if o.is_lt() => "before",
        Some(o) if o.is_gt() => "after",
        Some(_) => "same",
        None => "none",
    }
}

/// Two spans: eight coordinates (line, column, ...) or four indices.
/// `[[order of starts, order of ends], first overlaps second, second overlaps first,
///   [first contains start and end of second], printed first]`
pub fn spans(w: &mut W, b: &[u8], lines: bool) {
    let (a, c): (Span, Span) = if lines {
        (Span::line_column(lc(&b[0..]), lc(&b[2..])), Span::line_column(lc(&b[4..]), lc(&b[6..])))
    } else {
        (
            Span::from(CharacterSpan(b[0].into(), b[1].into())),
            Span::from(CharacterSpan(b[2].into(), b[3].into())),
        )
    };
    write!(
        w.o,
        "[[\"{}\",\"{}\"],{},{},[",
        order(a.start(), c.start()),
        order(a.end(), c.end()),
        a.overlaps(c),
        c.overlaps(a)
    )
    .unwrap();
    if let (SpanKind::LineColumnSpan(x), SpanKind::LineColumnSpan(y)) = (a.kind(), c.kind()) {
        let LineColumnSpan { start, end } = y;
        write!(w.o, "{},{}", x.contains(start), x.contains(end)).unwrap();
        assert!(x.overlaps(y) == a.overlaps(c) && Span::from(x) == a);
    }
    write!(w.o, "],{:?}]", a.to_string().as_bytes()).unwrap();
}
