//! Text generation for one language: committed dictionary and seed programs, plus mutation.
use kit::{Gen, text};

pub struct Corpus {
    pub dict: Vec<String>,
    pub seeds: Vec<String>,
}

impl Corpus {
    pub fn load(json: &str) -> Self {
        let v: serde_json::Value = serde_json::from_str(json).unwrap();
        let list = |k: &str| v[k].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect::<Vec<_>>();
        Corpus { dict: list("dict"), seeds: list("seeds") }
    }

    /// One lexical fragment.
    pub fn fragment(&self, g: &mut Gen, out: &mut String) {
        match g.weighted(&[8, 6, 3, 4, 3, 3, 2, 2]) {
            0 if !self.dict.is_empty() => {
                let i = g.usize(self.dict.len());
                out.push_str(&self.dict[i]);
            }
            0 | 1 => out.push_str(&text::ident(g)),
            2 => number(g, out),
            3 => out.push_str(*g.pick(&[" ", "\n", " ", "\t", "\r\n", "  ", "\n\n", "\n    "])),
            4 => string(g, out),
            5 => out.push(*g.pick(text::ASCII_PUNCT)),
            6 => out.push(text::any_char(g)),
            _ => comment(g, out),
        }
    }

    /// A text of the language's lexical alphabet; valid programs, mutated programs, token soup.
    pub fn source(&self, g: &mut Gen, max: usize) -> String {
        let mode = g.weighted(&[4, 5, 1, if self.seeds.is_empty() { 0 } else { 8 }, 1]);
        match mode {
            0 | 1 => {
                let n = g.len(max.min(60));
                let mut s = String::new();
                let spaced = g.chance(1, 2);
                for _ in 0..n {
                    if s.len() >= max {
                        break;
                    }
                    self.fragment(g, &mut s);
                    if spaced {
                        s.push(' ');
                    }
                }
                s
            }
            2 => text::any(g, max.min(60)),
            3 => {
                let seed = self.excerpt(g, max);
                let k = g.weighted(&[1, 4, 2, 1, 1]);
                let mut s = seed;
                for _ in 0..k {
                    s = self.mutate(g, &s);
                }
                s
            }
            _ => {
                // nested / repeated
                let mut s = String::new();
                let n = g.len(40);
                let open = g.pick(&["(", "[", "{", "<a>", "\"", "/*", "-", "!", "if ", "x(", "{{", "a.", "a+", "${"]).to_string();
                for _ in 0..n {
                    s.push_str(&open);
                }
                self.fragment(g, &mut s);
                if g.bool() {
                    for _ in 0..g.len(40) {
                        s.push_str(match open.as_str() {
                            "(" | "x(" => ")",
                            "[" => "]",
                            "<a>" => "</a>",
                            "/*" => "*/",
                            "\"" => "\"",
                            "{{" => "}}",
                            _ => "}",
                        });
                    }
                }
                s
            }
        }
    }

    /// A seed, or a run of its lines when it is long.
    fn excerpt(&self, g: &mut Gen, max: usize) -> String {
        let i = g.usize(self.seeds.len());
        let seed = &self.seeds[i];
        if seed.len() <= max && g.chance(1, 3) {
            return seed.clone();
        }
        let lines: Vec<&str> = seed.split_inclusive('\n').collect();
        let a = g.usize(lines.len());
        let mut s = String::new();
        let n = g.range(1, 12);
        for l in &lines[a..(a + n).min(lines.len())] {
            if s.len() + l.len() > max {
                break;
            }
            s.push_str(l);
        }
        if s.is_empty() {
            // one long line
            let mut e = max.min(lines[a].len());
            while !lines[a].is_char_boundary(e) {
                e -= 1;
            }
            s.push_str(&lines[a][..e]);
        }
        s
    }

    /// The replacement text of an edit.
    pub fn edit_text(&self, g: &mut Gen) -> String {
        let mut s = String::new();
        for _ in 0..g.weighted(&[4, 6, 2, 1]) {
            self.fragment(g, &mut s);
        }
        s
    }

    pub fn mutate(&self, g: &mut Gen, s: &str) -> String {
        let (a, b) = if g.chance(2, 3) {
            // small, local
            let a = g.boundary(s);
            let k = g.usize(4);
            let b = s[a..].char_indices().nth(k).map(|(i, _)| a + i).unwrap_or(s.len());
            (a, b)
        } else {
            g.span(s)
        };
        let mut out = String::new();
        match g.weighted(&[3, 5, 2, 1]) {
            0 => {
                out.push_str(&s[..a]);
                out.push_str(&s[b..]);
            }
            1 => {
                out.push_str(&s[..a]);
                out.push_str(&self.edit_text(g));
                out.push_str(&s[b..]);
            }
            2 => out.push_str(&s[..b]), // truncate
            _ => {
                out.push_str(&s[..b]);
                out.push_str(&s[a..]);
            }
        }
        out
    }
}

fn number(g: &mut Gen, out: &mut String) {
    let n = g.range(1, 4);
    match g.weighted(&[6, 1, 1, 1]) {
        1 => out.push_str("0x"),
        2 => out.push_str("0b"),
        3 => out.push('-'),
        _ => {}
    }
    for _ in 0..n {
        out.push((b'0' + g.below(10) as u8) as char);
    }
    if g.chance(1, 4) {
        out.push('.');
        if g.chance(3, 4) {
            out.push_str("25");
        }
    }
    if g.chance(1, 6) {
        out.push_str(*g.pick(&["e", "e5", "e-3", "E+", "f", "u32", "_0", "L"]));
    }
}

fn string(g: &mut Gen, out: &mut String) {
    let q = *g.pick(&["\"", "'", "`", "\"\"\"", "'''"]);
    out.push_str(q);
    for _ in 0..g.usize(5) {
        match g.weighted(&[4, 2, 1, 1]) {
            0 => out.push_str(&text::ident(g)),
            1 => {
                out.push('\\');
                out.push(*g.pick(&['n', '"', '\'', '\\', 'u', 'x', '0', 'é']));
            }
            2 => out.push(*g.pick(text::WIDE)),
            _ => out.push_str(*g.pick(&["{", "}", "${", "#{", "\n", "%", " "])),
        }
    }
    if g.chance(5, 6) {
        out.push_str(q);
    }
}

fn comment(g: &mut Gen, out: &mut String) {
    let (o, c) = *g.pick(&[("//", "\n"), ("#", "\n"), ("--", "\n"), ("/*", "*/"), (";", "\n"), ("%", "\n"), ("(*", "*)"), ("<!--", "-->"), ("{-", "-}"), ("--[[", "]]"), ("REM ", "\n"), ("!", "\n")]);
    out.push_str(o);
    for _ in 0..g.usize(4) {
        match g.weighted(&[4, 1, 1, 1]) {
            0 => out.push_str(&text::ident(g)),
            1 => out.push(*g.pick(text::WIDE)),
            2 => out.push(*g.pick(text::ASCII_PUNCT)),
            _ => out.push(' '),
        }
    }
    if g.chance(4, 5) {
        out.push_str(c);
    }
}
