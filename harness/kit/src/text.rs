//! Text generators.
use crate::Gen;

pub const WIDE: &[char] = &['é', 'ß', '中', '日', '😀', '𝒳', '\u{301}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{3000}', 'Ω', 'ñ', '\u{200d}', '\u{7f}', '\u{85}'];
pub const ASCII_PUNCT: &[char] = &['"', '\'', '\\', '/', '*', '{', '}', '[', ']', '(', ')', '<', '>', ',', ':', ';', '.', '-', '+', '=', '#', '@', '$', '%', '&', '|', '!', '?', '`', '~', '^', '_'];

/// One arbitrary char: letters, digits, white space, punctuation, multi-byte.
pub fn any_char(g: &mut Gen) -> char {
    match g.weighted(&[8, 3, 4, 6, 3, 1]) {
        0 => (b'a' + g.below(26) as u8) as char,
        1 => (b'0' + g.below(10) as u8) as char,
        2 => *g.pick(&[' ', '\n', '\t', '\r', ' ', '\n']),
        3 => *g.pick(ASCII_PUNCT),
        4 => *g.pick(WIDE),
        _ => *g.pick(&['A', 'Z', '\0', '\u{b}', '\u{c}', '\u{1}']),
    }
}

/// Arbitrary text of at most `max` chars (mix of line structures and multi-byte).
pub fn any(g: &mut Gen, max: usize) -> String {
    let n = g.len(max);
    let mut s = String::new();
    let mut i = 0;
    while i < n {
        match g.weighted(&[10, 1, 1]) {
            0 => s.push(any_char(g)),
            1 => s.push_str("\r\n"),
            _ => {
                // run
                let c = any_char(g);
                for _ in 0..g.range(1, 12) {
                    s.push(c);
                }
            }
        }
        i += 1;
    }
    s
}

/// A long text (for block boundaries): repeats a small unit up to about `len` bytes.
pub fn long(g: &mut Gen, len: usize) -> String {
    let unit = {
        let mut u = any(g, 40);
        if u.is_empty() {
            u.push('x');
        }
        u
    };
    let mut s = String::with_capacity(len + unit.len());
    while s.len() < len {
        s.push_str(&unit);
        if g.chance(1, 16) {
            s.push(any_char(g));
        }
    }
    s
}

pub fn ident(g: &mut Gen) -> String {
    let n = g.range(1, 6);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 && g.chance(1, 5) {
            s.push(*g.pick(&['_', '1', '9']));
        } else {
            s.push((b'a' + g.below(26) as u8) as char);
        }
    }
    s
}

pub fn show(s: &str) -> String {
    format!("{:?}", s)
}
