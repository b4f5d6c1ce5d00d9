use crate::driver::*;
use crate::langs;
use kit::*;
use oak_core::source::{ChunkedBuffer, RopeBuffer, Source, SourceText, TextEdit};

/// Step budget for one call: far above what any terminating lexer or parser of this repository
/// spends on a text of this size; an endless loop runs into it at once.
fn budget(len: usize) -> u64 {
    1_000_000 + 4_000 * len as u64
}

fn budgeted<T>(len: usize, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            oak_core::verif::set_step_budget(None);
        }
    }
    let _r = Reset;
    oak_core::verif::set_step_budget(Some(budget(len)));
    f()
}

fn lex(l: &langs::Lang, src: &dyn Source) -> Result<Lexed, Fail> {
    guarded("lex ", || budgeted(src.length(), || l.session().lex(src, &[])))
}
fn parse(l: &langs::Lang, src: &dyn Source) -> Result<Parsed, Fail> {
    guarded("parse ", || budgeted(src.length(), || l.session().parse(src, &[])))
}

pub fn tiling(s: &str, toks: &[Tok]) -> Res {
    let mut at = 0;
    for (i, t) in toks.iter().enumerate() {
        if t.eof && t.start == t.end && i == toks.len() - 1 {
            ensure!(t.start == s.len() && t.end == s.len(), "eof", "end-of-stream token at {}..{} of {}", t.start, t.end, s.len());
            break;
        }
        ensure!(t.start <= t.end && t.end <= s.len(), "bounds", "token {i} {:?} out of bounds (length {})", t, s.len());
        ensure!(t.start >= at, "overlap", "token {i} {:?} starts before {at}", t);
        ensure!(t.start == at, "gap", "gap {}..{} {:?} before token {i} {:?}", at, t.start, s.get(at..t.start), t);
        ensure!(s.is_char_boundary(t.start) && s.is_char_boundary(t.end), "boundary", "token {i} {:?} splits a character", t);
        at = t.end;
    }
    ensure!(at == s.len(), "tail", "text {:?} after the last token", s.get(at..));
    Ok(())
}

/// Pieces of s, cut at random char boundaries.
fn pieces<'a>(g: &mut Gen, s: &'a str) -> Vec<&'a str> {
    let big = g.bool();
    let scale = 1 + s.len() / 2000;
    let mut v = Vec::new();
    let mut rest = s;
    while !rest.is_empty() {
        let k = scale * if big { g.range(1, 60) } else { g.range(1, 6) };
        let e = rest.char_indices().nth(k).map(|(i, _)| i).unwrap_or(rest.len());
        v.push(&rest[..e]);
        rest = &rest[e..];
    }
    v
}

/// The same text in a source made of many chunks.
fn scattered(g: &mut Gen, s: &str) -> (Box<dyn Source>, String) {
    let p = pieces(g, s);
    match g.usize(4) {
        k @ (0 | 1) => {
            let mut b = ChunkedBuffer::new();
            for x in &p {
                b.push_str(x);
            }
            if k == 0 { (Box::new(b), format!("chunked buffer {p:?}")) } else { (Box::new(b.snapshot()), format!("chunked source {p:?}")) }
        }
        k => {
            // built by inserting the pieces in a random order
            let mut b = RopeBuffer::new("");
            let mut done: Vec<usize> = Vec::new();
            let mut left: Vec<usize> = (0..p.len()).collect();
            while !left.is_empty() {
                let j = g.usize(left.len());
                let i = left.swap_remove(j);
                let at: usize = done.iter().filter(|d| **d < i).map(|d| p[*d].len()).sum();
                b.apply_edits(&[TextEdit { span: (at..at).into(), text: p[i].to_string().into() }]);
                done.push(i);
            }
            if k == 2 { (Box::new(b), format!("rope buffer {p:?}")) } else { (Box::new(b.snapshot()), format!("rope source {p:?}")) }
        }
    }
}

/// A text of the language; for the harness's own language now and then a large one.
fn sample(l: &langs::Lang, g: &mut Gen, max: usize) -> String {
    if l.name == "toy" && g.chance(1, 500) { large(g) } else { l.corpus.source(g, max) }
}
/// More tokens, or longer ones, than sixteen bits count, or than a source keeps in one chunk.
fn large(g: &mut Gen) -> String {
    const UNITS: [&str; 8] = ["let a = 1 + 2 * b;\n", "fn f(a, b) => a ^ «é»; ", "x(1, 中);\n// é\n", "@t let s = \"\\\"\";", "/* a /* b */ */ fn g() { -1; }\n", "let = ;", "\u{3000}§ ", "y?;"];
    let mut s = String::new();
    for _ in 0..g.range(1, 3) {
        let n = *g.pick(&[3, 700, 4096, 7000, 23_000, 70_000]);
        match g.usize(8) {
            0 => s.push_str(&"a".repeat(n)),
            1 => s.push_str(&"7".repeat(n)),
            2 => s.push_str(&format!("\"{}\"", "é\\n".repeat(n / 3))),
            3 => s.push_str(&format!("/*{}*/", "* /".repeat(n / 3))),
            4 => s.push_str(&format!("//{}\n", "中".repeat(n / 3))),
            5 => s.push_str(&" \n".repeat(n / 2)),
            _ => {
                let k = g.range(1, 3);
                let unit: String = (0..k).map(|_| *g.pick(&UNITS)).collect();
                s.push_str(&unit.repeat(1 + n / 6 / k))
            }
        }
        s.push_str(*g.pick(&[";", " ", "\n", ""]));
    }
    s
}

fn classify(c: &mut Case, lx: &Lexed) {
    if let Ok(t) = &lx.toks {
        let kinds: std::collections::BTreeSet<&str> = t.iter().filter(|t| !t.eof).map(|t| t.kind.as_str()).collect();
        if kinds.len() >= 3 {
            c.nontrivial();
        }
        if !lx.diags.is_empty() {
            c.label("lexer-diagnostics");
        }
    }
}

/// A text on which the language itself gives no answer (it panics or never ends) is C05's
/// matter; the checks that compare answers skip it.
macro_rules! answer {
    ($c:expr, $e:expr) => {
        match $e {
            Ok(x) => x,
            Err(_) => {
                $c.label("no-answer");
                return Ok(());
            }
        }
    };
}

/// The tree against the tokens: every inner node is as long as its children together, and the
/// leaves are the tokens.
fn lossless(lx: &Lexed, p: &Parsed) -> Res {
    let Ok(_) = &p.tree else { return Ok(()) };
    ensure!(p.inconsistent().is_none(), "inconsistent", "node {:?} of the tree is not as long as its children together", p.inconsistent());
    let Ok(toks) = &lx.toks else { return fail("lexerr", "a tree although lexing failed") };
    let want: Vec<_> = toks.iter().filter(|t| t.start != t.end).map(|t| (t.kind.clone(), t.end - t.start)).collect();
    let got: Vec<_> = p.leaves().into_iter().filter(|t| t.1 != t.2).map(|t| (t.0, t.2 - t.1)).collect();
    if got != want {
        let mut w = want.iter();
        let missing_only = got.iter().all(|x| w.any(|y| x == y));
        ensure!(!missing_only, "missing", "the tree lacks {} of {} tokens; leaves {got:?}, tokens {want:?}", want.len() - got.len(), want.len());
        ensure_eq!(got, want, "leaves", "the leaves are not the tokens");
    }
    Ok(())
}

fn per_lang(quick: u64, thorough: u64, lossy: bool, f: impl Fn(&langs::Lang, &mut Gen, &mut Case) -> Res + Send + Sync + Copy + 'static) -> Vec<Facet> {
    // the harness's own language has no known defects and is cheap: it gets more cases
    let mut v: Vec<Facet> = langs::all().iter().map(|l| { let k = if l.name == "toy" { 20 } else { 1 }; Facet::new(l.name, quick * k, thorough * k, move |g, c| f(l, g, c)) }).collect();
    v.push(Facet::new("generated", quick * 60, thorough * 60, move |g, c| {
        let lossy = lossy && g.bool();
        let (l, shown) = langs::generated(g, lossy);
        let r = f(&l, g, c);
        c.desc(format!("{}; language {shown}", c.desc));
        r
    }));
    v
}

const TRUST: &str = "the text generator draws from excerpts of the repository's own sample files, mutated, plus arbitrary text; it is not a grammar of every language";

pub fn all() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "one case = one text (sample excerpt, mutation, token soup or arbitrary Unicode) lexed by one language's lexer; non-trivial: at least three kinds of token",
            assumptions: vec![TRUST, "dejavu and valkyrie emit nested tokens and raku's lexer is a stub; those are listed as known findings"],
            facets: per_lang(10_000, 300_000, false, |l, g, c| {
                let s = sample(l, g, 500);
                c.desc(text::show(&s));
                let a = lex(l, &SourceText::new(s.clone()))?;
                classify(c, &a);
                match &a.toks {
                    Ok(t) => {
                        tiling(&s, t)?;
                        let eofs = t.iter().filter(|t| t.eof && t.start == t.end).count();
                        ensure!(eofs <= 1, "eofs", "{eofs} end-of-stream tokens");
                    }
                    Err(e) => return fail("err", e.clone()),
                }
                for d in &a.diags {
                    ensure!(d.at.is_none_or(|x| x <= s.len()), "diag", "diagnostic outside the text: {:?}", d);
                }
                Ok(())
            }),
        },
        Check {
            id: "C02",
            rule: "one case = one text parsed by one language's parser, its tree compared with the token stream; non-trivial: at least three kinds of token and a tree",
            assumptions: vec![TRUST, "element kinds are compared through their hash"],
            facets: per_lang(6_000, 200_000, false, |l, g, c| {
                let s = sample(l, g, 500);
                c.desc(text::show(&s));
                let a = answer!(c, parse(l, &SourceText::new(s.clone())));
                let lx = answer!(c, lex(l, &SourceText::new(s.clone())));
                match &a.tree {
                    Ok(_) => classify(c, &lx),
                    Err(_) => c.label("no-tree"),
                }
                if !a.diags.is_empty() {
                    c.label("with-diagnostics");
                }
                lossless(&lx, &a)
            }),
        },
        Check {
            id: "C03",
            rule: "one case = one text lexed and parsed from one contiguous string and from a rope or chunk list with random cuts; non-trivial: at least three kinds of token and two chunks",
            assumptions: vec![TRUST],
            facets: per_lang(4_000, 120_000, false, |l, g, c| {
                let s = sample(l, g, 400);
                let (b, how) = scattered(g, &s);
                c.desc(how);
                let flat = SourceText::new(s.clone());
                let want = answer!(c, lex(l, &flat));
                classify(c, &want);
                let got = lex(l, &*b)?;
                ensure_eq!(got, want, "lex", "lexing a chunked source differs from lexing the same text");
                let want = answer!(c, parse(l, &flat));
                let got = parse(l, &*b)?;
                ensure_eq!(got, want, "parse", "parsing a chunked source differs from parsing the same text");
                let got = parse(l, &s.as_str() as &dyn Source)?;
                ensure_eq!(got, want, "parse-str", "parsing a string slice differs from parsing the same text");
                Ok(())
            }),
        },
        Check {
            id: "C04",
            rule: "one case = a session that parses a text and then 1..5 edited versions of it (1..3 edits each, reported to the session), compared after every step with a fresh session; non-trivial: at least three kinds of token and two steps",
            assumptions: vec![TRUST, "edits are reported in coordinates of the previous text, do not overlap and lie on character boundaries"],
            facets: per_lang(2_000, 60_000, false, |l, g, c| {
                let mut s = sample(l, g, 300);
                let steps = g.range(1, 5);
                let mut log = format!("{s:?}");
                let (mut parsing, mut lexing) = (l.session(), l.session());
                let slow = g.bool();
                // a text whose tokens do not account for it (C01) is told apart
                let untiled = |s: &str, lx: &Lexed| lx.toks.as_ref().is_ok_and(|t| tiling(s, t).is_err());
                let mut broken = untiled(&s, &answer!(c, lex(l, &SourceText::new(s.clone()))));
                answer!(c, guarded("first ", || {
                    budgeted(s.len(), || {
                        parsing.parse(&SourceText::new(s.clone()), &[]);
                        if slow { lexing.lex_slow(&SourceText::new(s.clone()), &[]) } else { lexing.lex(&SourceText::new(s.clone()), &[]) };
                    })
                }));
                for step in 0..steps {
                    let mut cuts: Vec<usize> = Vec::new();
                    for _ in 0..g.weighted(&[0, 6, 2, 1]) {
                        let (a, b) = if g.chance(2, 3) {
                            let a = g.boundary(&s);
                            let k = g.usize(4);
                            (a, s[a..].char_indices().nth(k).map(|(i, _)| a + i).unwrap_or(s.len()))
                        } else {
                            g.span(&s)
                        };
                        cuts.push(a);
                        cuts.push(b);
                    }
                    cuts.sort();
                    let mut edits = Vec::new();
                    let mut shown = Vec::new();
                    let mut new = String::new();
                    let mut at = 0;
                    for w in cuts.chunks(2) {
                        let t = l.corpus.edit_text(g);
                        new.push_str(&s[at..w[0]]);
                        new.push_str(&t);
                        at = w[1];
                        shown.push((w[0], w[1], t.clone()));
                        edits.push(TextEdit { span: (w[0]..w[1]).into(), text: t.into() });
                    }
                    new.push_str(&s[at..]);
                    log.push_str(&format!(" edit {shown:?}"));
                    c.desc(log.clone());
                    let src: Box<dyn Source> = if g.chance(1, 4) { scattered(g, &new).0 } else { Box::new(SourceText::new(new.clone())) };
                    let w = answer!(c, parse(l, &SourceText::new(new.clone())));
                    let wl = answer!(c, lex(l, &SourceText::new(new.clone())));
                    broken |= untiled(&new, &wl);
                    let sig = |s: &'static str| if broken { format!("{s}-untiled") } else { s.to_string() };
                    let (r, lx) = guarded("incremental ", || budgeted(new.len() + s.len(), || (parsing.parse(&*src, &edits), if slow { lexing.lex_slow(&*src, &edits) } else { lexing.lex(&*src, &edits) })))?;
                    ensure_eq!(r.tree, w.tree, sig("tree"), "the tree after step {step} differs from a fresh parse of {new:?}");
                    ensure_eq!(r.diags, w.diags, sig("diagnostics"), "the diagnostics after step {step} differ from a fresh parse of {new:?}");
                    if let Ok(t) = &r.tree {
                        ensure!(parsing.last().as_ref() == Some(t), "remembered", "the session does not remember the tree it returned");
                    }
                    ensure_eq!(lx.toks, wl.toks, "tokens", "the tokens after step {step} differ from fresh ones of {new:?}");
                    ensure_eq!(lx.diags, wl.diags, "lexer-diagnostics", "the lexer's diagnostics after step {step} differ from fresh ones of {new:?}");
                    if steps >= 2 {
                        classify(c, &wl);
                    }
                    s = new;
                }
                Ok(())
            }),
        },
        Check {
            id: "C05",
            rule: "one case = one text (biased to arbitrary, truncated and deeply repeated input) lexed and parsed twice under a step budget; non-trivial: at least three kinds of token",
            assumptions: vec![TRUST, "endless means more than a million steps plus four thousand per byte, or over a minute of wall time", "nesting up to 40 levels"],
            facets: per_lang(6_000, 200_000, true, |l, g, c| {
                let s = if g.chance(1, 3) { text::any(g, 300) } else { sample(l, g, 600) };
                c.desc(text::show(&s));
                let src = SourceText::new(s.clone());
                let a = lex(l, &src)?;
                classify(c, &a);
                let b = lex(l, &src)?;
                ensure_eq!(a, b, "lex-again", "lexing the same text twice");
                let a = parse(l, &src)?;
                let b = parse(l, &src)?;
                ensure_eq!(a, b, "parse-again", "parsing the same text twice");
                for d in &a.diags {
                    ensure!(d.at.is_none_or(|x| x <= s.len()), "diag", "diagnostic outside the text: {:?}", d);
                }
                Ok(())
            }),
        },
    ]
}
