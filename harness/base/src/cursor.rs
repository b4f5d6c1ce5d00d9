//! C07: SourceCursor and LexerState reading a source piecewise, against a position in a string.
use crate::toy::{T, Toy};
use kit::*;
use oak_core::lexer::LexerState;
use oak_core::source::{ChunkedBuffer, RopeBuffer, Source, SourceCursor, SourceText, TextEdit};

/// The text in a source with random chunk borders.
pub fn scattered(g: &mut Gen, s: &str) -> Box<dyn Source> {
    let mut pieces = Vec::new();
    let step = *g.pick(&[2, 4, 12, 40, 5000]);
    let mut rest = s;
    while !rest.is_empty() {
        let k = g.range(1, step);
        let e = rest.char_indices().nth(k).map(|x| x.0).unwrap_or(rest.len());
        pieces.push(&rest[..e]);
        rest = &rest[e..];
    }
    match g.usize(4) {
        0 => Box::new(SourceText::new(s)),
        1 => {
            let mut b = ChunkedBuffer::new();
            pieces.iter().for_each(|p| b.push_str(p));
            if g.bool() { Box::new(b) } else { Box::new(b.snapshot()) }
        }
        _ => {
            let mut b = RopeBuffer::new("");
            let mut at = 0;
            for p in pieces {
                b.apply_edits(&[TextEdit { span: (at..at).into(), text: p.to_string().into() }]);
                at += p.len();
            }
            if g.bool() { Box::new(b) } else { Box::new(b.snapshot()) }
        }
    }
}

pub fn chars(s: &str, at: usize) -> Option<char> {
    s.get(at..).and_then(|s| s.chars().next())
}

/// A text with runs, so that scanning passes over several chunks.
pub fn runs(g: &mut Gen) -> String {
    let mut s = String::new();
    // now and then runs longer than the chunks a source makes by itself
    let long = if g.chance(1, 400) { 200 } else { 1 };
    for _ in 0..g.range(1, 12) {
        match g.usize(7) {
            0 => { let n = g.range(1, 50) * long; s.extend((0..n).map(|_| *g.pick(&[' ', '\t', '\n', '\r']))) }
            1 => { let n = g.range(1, 50) * long; s.extend((0..n).map(|_| (b'0' + g.below(10) as u8) as char)) }
            2 => { let n = g.range(1, 50) * long; s.extend((0..n).map(|_| *g.pick(&['a', 'z', 'A', 'Z', '_', '5', 'q']))) }
            3 => { let n = g.range(1, 10) * long; s.extend((0..n).map(|_| *g.pick(text::WIDE))) }
            4 => s.push_str(*g.pick(&["//", "/*", "*/", "\"", "\\", "'", "\r\n", "-->", "aab"])),
            _ => s.push_str(&text::any(g, 12)),
        }
    }
    s
}

fn needle(g: &mut Gen, m: &str) -> String {
    if g.chance(3, 4) {
        let a = g.boundary(m);
        let k = g.range(0, 9);
        m[a..].chars().take(k).collect()
    } else {
        text::any(g, 4)
    }
}

enum Sub<'s> {
    C(SourceCursor<'s, dyn Source>),
    L(LexerState<'s, dyn Source, Toy>),
}
macro_rules! on {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Sub::C($x) => $e,
            Sub::L($x) => $e,
        }
    };
}

fn pred(k: usize) -> fn(char) -> bool {
    [|c: char| c.is_whitespace(), |c: char| c.is_alphanumeric(), |c: char| c != 'a', |_: char| true, |c: char| !c.is_ascii(), |_: char| false][k]
}
fn bpred(k: usize) -> fn(u8) -> bool {
    [|b: u8| b == b' ' || b == b'\n', |b: u8| b.is_ascii_alphanumeric(), |b: u8| b != b'\n', |_: u8| true, |b: u8| b >= 0x80 || b == b'a'][k]
}

fn run(g: &mut Gen, c: &mut Case, lexer: bool) -> Res {
    let m = runs(g);
    let src = scattered(g, &m);
    let mut log = format!("{m:?}");
    let start = if lexer { 0 } else { g.boundary(&m) };
    let mut sub = if lexer { Sub::L(LexerState::new(&*src)) } else { Sub::C(SourceCursor::new_at(&*src, start)) };
    let mut p = start;
    let steps = g.range(1, 25);
    let mut moved = 0;
    for _ in 0..steps {
        let rest = &m[p..];
        let k = g.usize(20);
        let before = p;
        // predicted end of a scan
        let span = |f: &dyn Fn(char) -> bool| rest.find(|c| !f(c)).unwrap_or(rest.len()) + p;
        match k {
            0 => {
                log.push_str(" peek");
                let r = on!(&mut sub, x => match lexer { _ => { let a = x.peek_byte(); (a,) } });
                ensure_eq!(r.0, m.as_bytes().get(p).copied(), "peek_byte", "{log} at {p}");
                let ch = match &mut sub { Sub::C(x) => x.peek_char(), Sub::L(x) => { let a = x.peek(); ensure_eq!(x.current(), a, "current", "{log}: current and peek"); a } };
                ensure_eq!(ch, rest.chars().next(), "peek", "{log} at {p}");
                let nx = match &mut sub { Sub::C(x) => x.peek_next_char(), Sub::L(x) => x.peek_next() };
                ensure_eq!(nx, rest.chars().nth(1), "peek_next", "{log} at {p}");
            }
            1 => {
                let q = g.boundary(rest);
                let n = if g.chance(1, 5) { rest.len() + g.usize(3) } else { q };
                log.push_str(&format!(" peek_next_n {n}"));
                ensure_eq!(on!(&mut sub, x => x.peek_next_n(n)), chars(&m, p + n), "peek_next_n", "{log} at {p}");
            }
            2 => {
                let want = rest.chars().next();
                log.push_str(" bump");
                let r = match &mut sub { Sub::C(x) => x.advance_char(), Sub::L(x) => x.bump() };
                ensure_eq!(r, want, "bump", "{log} at {p}");
                p += want.map_or(0, |c| c.len_utf8());
            }
            3 => {
                let q = g.boundary(rest);
                let n = if g.chance(1, 8) { rest.len() + g.usize(5) } else { q };
                log.push_str(&format!(" advance {n}"));
                match &mut sub { Sub::C(x) => { x.advance_bytes(n); } Sub::L(x) => x.advance(n) };
                p = (p + n).min(m.len());
            }
            4 => {
                let q = g.boundary(&m);
                log.push_str(&format!(" goto {q}"));
                let old = on!(&mut sub, x => x.set_position(q));
                ensure_eq!(old, p, "set_position", "{log}: previous position");
                p = q;
            }
            5 => {
                log.push_str(" rest");
                match &mut sub {
                    Sub::C(x) => {
                        let r = x.rest().to_string();
                        ensure!(rest.starts_with(&r) && r.is_empty() == rest.is_empty(), "rest", "{log}: rest at {p} is {r:?}");
                        let e = x.chunk_end();
                        ensure_eq!(e, p + r.len(), "chunk_end", "{log}: the end of the chunk");
                        ensure_eq!(x.rest_of_source(), rest, "rest_of_source", "{log} at {p}");
                    }
                    Sub::L(x) => {
                        ensure_eq!(x.rest(), rest, "lexer-rest", "{log} at {p}");
                        ensure_eq!(x.rest_bytes(), rest.as_bytes(), "lexer-rest", "{log} at {p}");
                        ensure!(x.not_at_end() == !rest.is_empty() && x.fully_reused() == rest.is_empty() && x.get_length() == m.len(), "end", "{log}: not_at_end at {p}");
                    }
                }
            }
            6 | 7 => {
                let i = g.usize(6);
                log.push_str(&format!(" take_while {i}"));
                let r = on!(&mut sub, x => x.take_while(pred(i)));
                let e = span(&pred(i));
                ensure_eq!((r.start, r.end), (p, e), "take_while", "{log} from {p}");
                p = e;
            }
            8 | 9 => {
                let i = g.usize(5);
                log.push_str(&format!(" take_while_byte {i}"));
                let r = on!(&mut sub, x => x.take_while_byte(bpred(i)));
                let e = p + rest.bytes().position(|b| !bpred(i)(b)).unwrap_or(rest.len());
                ensure_eq!((r.start, r.end), (p, e), "take_while_byte", "{log} from {p}");
                p = e;
            }
            10 => {
                log.push_str(" skip_ws");
                let r = on!(&mut sub, x => x.skip_ascii_whitespace());
                let e = span(&|c| " \t\r\n".contains(c));
                ensure_eq!((r.start, r.end), (p, e), "skip_ascii_whitespace", "{log} from {p}");
                p = e;
            }
            11 => {
                log.push_str(" skip_digits");
                let r = on!(&mut sub, x => x.skip_ascii_digits());
                let e = span(&|c| c.is_ascii_digit());
                ensure_eq!((r.start, r.end), (p, e), "skip_ascii_digits", "{log} from {p}");
                p = e;
            }
            12 => {
                log.push_str(" skip_ident");
                let r = on!(&mut sub, x => x.skip_ascii_ident_continue());
                let e = span(&|c| c.is_ascii_alphanumeric() || c == '_');
                ensure_eq!((r.start, r.end), (p, e), "skip_ascii_ident_continue", "{log} from {p}");
                p = e;
            }
            13 => {
                let t = *g.pick(&[b'\n', b'"', b'a', b'*', b'5', b'-', 0, b' ']);
                log.push_str(&format!(" skip_until {:?}", t as char));
                let r = on!(&mut sub, x => x.skip_until(t));
                let e = span(&|c| c != t as char);
                ensure_eq!((r.start, r.end), (p, e), "skip_until", "{log} from {p}");
                p = e;
            }
            14 | 15 => {
                let n = if g.bool() { let k = g.range(0, 9); rest.chars().take(k).collect() } else { needle(g, &m) };
                log.push_str(&format!(" starts_with {n:?}"));
                ensure_eq!(on!(&mut sub, x => x.starts_with(&n)), rest.starts_with(&n), "starts_with", "{log} at {p}");
                if g.bool() {
                    ensure_eq!(on!(&mut sub, x => x.consume_if_starts_with(&n)), rest.starts_with(&n), "consume", "{log} at {p}");
                    if rest.starts_with(&n) {
                        p += n.len();
                    }
                }
            }
            16 | 17 => {
                let n = needle(g, &m);
                log.push_str(&format!(" find {n:?}"));
                if let Sub::C(x) = &mut sub {
                    ensure_eq!(x.find_str(&n), rest.find(&n).map(|i| i + p), "find_str", "{log} at {p}");
                } else {
                    let (a, b) = g.span(&m);
                    let Sub::L(x) = &mut sub else { unreachable!() };
                    ensure_eq!(x.get_text_in((a..b).into()), m[a..b], "get_text_in", "{log} {a}..{b}");
                    ensure_eq!(x.get_text_from(a), m[a..], "get_text_from", "{log} {a}");
                    ensure_eq!(x.get_char_at(a), chars(&m, a), "get_char_at", "{log} {a}");
                }
            }
            18 => {
                // a whole character for the lexer, only single bytes for the cursor
                let ascii = m.as_bytes().get(p).is_none_or(|b| b.is_ascii());
                if lexer || ascii {
                    log.push_str(" advance_byte");
                    ensure_eq!(on!(&mut sub, x => x.advance_byte()), m.as_bytes().get(p).copied(), "advance_byte", "{log} at {p}");
                    p += rest.chars().next().map_or(0, |c| c.len_utf8());
                }
            }
            _ => {
                if let Sub::L(x) = &mut sub {
                    log.push_str(" dead_lock");
                    let point = if g.bool() { p } else { g.usize(m.len() + 1) };
                    x.advance_if_dead_lock(point);
                    if point == p {
                        p += rest.chars().next().map_or(0, |c| c.len_utf8());
                    }
                }
            }
        }
        c.desc(log.clone());
        let now = match &sub { Sub::C(x) => x.position(), Sub::L(x) => x.get_position() };
        ensure_eq!(now, p, "position", "{log}: position");
        if p != before {
            moved += 1;
        }
    }
    if moved >= 2 {
        c.nontrivial();
    }
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C07",
        rule: "one case = up to 25 operations of a cursor or lexer state over a text cut into chunks, results and positions compared with a position in a plain string; non-trivial: the position moved twice",
        assumptions: vec!["positions given to the cursor are character boundaries", "patterns are text"],
        facets: vec![Facet::new("cursor", 120_000, 6_000_000, |g, c| run(g, c, false)), Facet::new("lexer-state", 120_000, 6_000_000, |g, c| run(g, c, true))],
    }]
}
