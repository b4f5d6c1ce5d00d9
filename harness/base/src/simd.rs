//! C08: vectorized byte scanning against plain loops.
use kit::*;
use oak_core::lexer::{scan_comment, scan_identifier, scan_number, scan_string, scan_white_space};
use oak_core::source::SimdScanner as S;

fn byte(g: &mut Gen, hot: &[u8]) -> u8 {
    match g.weighted(&[12, 3, 2, 1]) {
        0 => *g.pick(hot),
        1 => *g.pick(b" \t\n\r09azAZ_fFgG\"\\'/`@[{:^"),
        2 => (b' ' + g.below(95) as u8) as u8,
        _ => g.below(256) as u8,
    }
}

/// Bytes around the vector width, mostly from a small hot set, read at some offset into the buffer.
fn bytes(g: &mut Gen, hot: &[u8]) -> Vec<u8> {
    let n = match g.weighted(&[3, 3, 1]) {
        0 => g.range(0, 70),
        1 => 32 * g.range(0, 6) + g.range(0, 4),
        _ => g.range(0, 400),
    };
    // long runs of hot bytes with a few others
    let holes = g.range(0, 3);
    let mut v: Vec<u8> = (0..n).map(|_| *g.pick(hot)).collect();
    for _ in 0..holes {
        if n > 0 {
            let i = g.usize(n);
            v[i] = byte(g, hot);
        }
    }
    v
}

fn prefix(b: &[u8], f: impl Fn(u8) -> bool) -> usize {
    b.iter().position(|x| !f(*x)).unwrap_or(b.len())
}

pub fn all() -> Vec<Check> {
    let word = |x: u8| x.is_ascii_alphanumeric() || x == b'_';
    vec![Check {
        id: "C08",
        rule: "one case = one byte string (0..400 bytes, around multiples of the vector width, at a random alignment) given to every scanning function; non-trivial: at least 32 bytes",
        assumptions: vec![],
        facets: vec![Facet::new("bytes", 300_000, 8_000_000, move |g, c| {
            let hot: Vec<u8> = match g.usize(8) {
                0 => b" \t\n\r".to_vec(),
                1 => b"0123456789".to_vec(),
                2 => b"abcxyzABCXYZ0189_".to_vec(),
                3 => b"0189afAF".to_vec(),
                4 => b" \t".to_vec(),
                5 => vec![g.below(256) as u8],
                6 => (0..=255).collect(),
                _ => b"xyz".to_vec(),
            };
            let all = bytes(g, &hot);
            let skip = g.usize(all.len().min(9) + 1);
            let b = &all[skip..];
            let [p, q, r, s] = [0; 4].map(|_| if g.bool() && !b.is_empty() { b[g.usize(b.len())] } else { byte(g, &hot) });
            c.desc(format!("{:?} needles {:?}", String::from_utf8_lossy(b), [p, q, r, s]));
            if b.len() >= 32 {
                c.nontrivial();
            }
            let pos = |f: &dyn Fn(u8) -> bool| b.iter().position(|x| f(*x));
            ensure_eq!(S::find_byte(b, p), pos(&|x| x == p), "find_byte", "find_byte {p}");
            ensure_eq!(S::skip_byte(b, p), prefix(b, |x| x == p), "skip_byte", "skip_byte {p}");
            ensure_eq!(S::skip_two_bytes(b, p, q), prefix(b, |x| x == p || x == q), "skip_two_bytes", "skip_two_bytes {p} {q}");
            ensure_eq!(S::skip_ascii_whitespace(b), prefix(b, |x| b" \t\n\r".contains(&x)), "skip_ascii_whitespace", "skip_ascii_whitespace");
            ensure_eq!(S::skip_ascii_digits(b), prefix(b, |x| x.is_ascii_digit()), "skip_ascii_digits", "skip_ascii_digits");
            ensure_eq!(S::skip_ascii_ident_continue(b), prefix(b, word), "skip_ascii_ident_continue", "skip_ascii_ident_continue");
            ensure_eq!(S::skip_ascii_hexdigits(b), prefix(b, |x| x.is_ascii_hexdigit()), "skip_ascii_hexdigits", "skip_ascii_hexdigits");
            ensure_eq!(S::find_first_of_4(b, p, q, r, s), pos(&|x| x == p || x == q || x == r || x == s), "find_first_of_4", "find_first_of_4");
            ensure_eq!(S::skip_until(b, p), prefix(b, |x| x != p), "skip_until", "skip_until {p}");
            ensure_eq!(scan_number::count_ascii_digit_prefix(b), prefix(b, |x| x.is_ascii_digit()), "count_digit", "count_ascii_digit_prefix");
            ensure_eq!(scan_number::count_ascii_hexdigit_prefix(b), prefix(b, |x| x.is_ascii_hexdigit()), "count_hexdigit", "count_ascii_hexdigit_prefix");
            ensure_eq!(scan_white_space::count_space_tab_prefix(b), prefix(b, |x| x == b' ' || x == b'\t'), "count_space", "count_space_tab_prefix");
            ensure_eq!(scan_string::find_first_of_4(b, p, q, r, s), pos(&|x| x == p || x == q || x == r || x == s), "find4", "find_first_of_4");
            ensure_eq!(scan_comment::starts_with_line_comment(b), b.len() > 1 && b[0] == b'/' && b[1] == b'/', "line-comment", "starts_with_line_comment");
            ensure_eq!(scan_comment::starts_with_block_comment(b), b.len() > 1 && b[0] == b'/' && b[1] == b'*', "block-comment", "starts_with_block_comment");
            ensure_eq!(scan_identifier::is_ascii_ident_start(p), p.is_ascii_alphabetic() || p == b'_', "ident-start", "is_ascii_ident_start {p}");
            ensure_eq!(scan_identifier::is_ascii_ident_continue(p), word(p), "ident-continue", "is_ascii_ident_continue {p}");
            Ok(())
        })],
    }]
}
