//! C09: the scanning helpers a lexer is built from, against references on the plain text.
use crate::cursor::{runs, scattered};
use crate::toy::{T, Toy};
use kit::*;
use oak_core::lexer::{CommentConfig, LexerState, StringConfig, WhitespaceConfig};
use oak_core::source::Source;

type St<'s> = LexerState<'s, dyn Source, Toy>;

const LINES: &[&str] = &["//", "#", "--", ";", "", "%", "→", "REM "];
const BLOCKS: &[(&str, &str)] = &[("/*", "*/"), ("{-", "-}"), ("(*", "*)"), ("<!--", "-->"), ("#|", "|#"), ("/+", "+/"), ("", ""), ("--[[", "]]"), ("«", "»"), ("=begin", "=end"), ("/**", "**/")];
const QUOTES: &[&[char]] = &[&['"'], &['\''], &['"', '\''], &['`', '"'], &['“', '"'], &['«'], &[]];
const ESCAPES: &[Option<char>] = &[Some('\\'), None, Some('^'), Some('…'), Some('%')];

fn check(st: &St, p: usize, got: bool, want: Option<(T, usize)>, m: &str, what: &str, sig: &str) -> Res {
    ensure!(got == want.is_some(), sig, "{what} at {p} of {m:?} answers {got}");
    let end = want.map_or(p, |w| w.1);
    ensure!(st.get_position() == end, sig, "{what} at {p} of {m:?} stops at {} instead of {end}", st.get_position());
    let toks: Vec<_> = st.tokens().iter().map(|t| (t.kind, t.span.start, t.span.end)).collect();
    let exp: Vec<_> = want.iter().map(|w| (w.0, p, w.1)).collect();
    ensure!(toks == exp, sig, "{what} at {p} of {m:?} adds {toks:?} instead of {exp:?}");
    ensure!(st.get_tokens().len() == toks.len(), sig, "get_tokens");
    Ok(())
}

fn line_end(m: &str, p: usize) -> usize {
    m[p..].find('\n').map_or(m.len(), |i| p + i)
}

/// End of a comment body that begins at `p` (after the opening marker).
fn block_end(m: &str, mut p: usize, open: &str, close: &str, nested: bool) -> usize {
    let mut depth = 1;
    while p < m.len() {
        let r = &m[p..];
        if nested && r.starts_with(open) {
            depth += 1;
            p += open.len();
        } else if !close.is_empty() && r.starts_with(close) {
            depth -= 1;
            p += close.len();
            if depth == 0 {
                return p;
            }
        } else {
            p += r.chars().next().unwrap().len_utf8();
        }
    }
    m.len()
}

fn string_end(m: &str, mut p: usize, quote: char, escape: Option<char>) -> usize {
    while let Some(c) = m[p..].chars().next() {
        p += c.len_utf8();
        if Some(c) == escape {
            p += m[p..].chars().next().map_or(0, |c| c.len_utf8());
        } else if c == quote {
            return p;
        }
    }
    p
}

/// A text rich in the given pieces.
fn mixed(g: &mut Gen, pieces: &[&str]) -> String {
    let mut s = String::new();
    for _ in 0..g.range(0, 14) {
        match g.weighted(&[6, 2, 1, 1]) {
            0 if !pieces.is_empty() => {
                let p = *g.pick(pieces);
                // sometimes only a part of it
                let k = if g.chance(1, 5) { g.range(1, 3) } else { p.chars().count() };
                s.extend(p.chars().take(k));
            }
            1 => s.push_str(&text::any(g, 6)),
            2 => { let n = g.range(20, 70); s.extend(std::iter::repeat_n(*g.pick(&['x', ' ', 'é', '9']), n)) }
            _ => s.push_str(&text::ident(g)),
        }
    }
    s
}

pub fn all() -> Vec<Check> {
    let comment = |g: &mut Gen, c: &mut Case| -> Res {
        let line = *g.pick(LINES);
        let (open, close) = *g.pick(BLOCKS);
        let nested = g.bool() && open != close;
        let m = mixed(g, &[open, close, open, line, "\n", "\r\n", " "].into_iter().filter(|s| !s.is_empty()).collect::<Vec<_>>());
        let (p, _) = start(g, &m, &[open, line]);
        let src = scattered(g, &m);
        c.desc(format!("{m:?} from {p}: line {line:?} block {open:?} {close:?} nested {nested}"));
        let mut st = St::new(&*src);
        st.set_position(p);
        let r = &m[p..];
        let cfg = CommentConfig { line_marker: line, block_start: open, block_end: close, nested_blocks: nested };
        let got = cfg.scan(&mut st, T::Comment, T::Other);
        let want = if !line.is_empty() && r.starts_with(line) {
            Some((T::Comment, line_end(&m, p)))
        } else if !open.is_empty() && r.starts_with(open) {
            Some((T::Other, block_end(&m, p + open.len(), open, close, nested)))
        } else {
            None
        };
        if want.is_some() {
            c.nontrivial();
        }
        check(&st, p, got, want, &m, "CommentConfig", "comment")?;
        // the simple forms
        if !line.is_empty() {
            let mut st = St::new(&*src);
            st.set_position(p);
            let got = st.scan_line_comment(T::Comment, line);
            check(&st, p, got, r.starts_with(line).then(|| (T::Comment, line_end(&m, p))), &m, "scan_line_comment", "line-comment")?;
        }
        if !open.is_empty() && !close.is_empty() {
            let mut st = St::new(&*src);
            st.set_position(p);
            let got = st.scan_block_comment(T::Other, open, close);
            check(&st, p, got, r.starts_with(open).then(|| (T::Other, block_end(&m, p + open.len(), open, close, false))), &m, "scan_block_comment", "block-comment")?;
        }
        Ok(())
    };
    let string = |g: &mut Gen, c: &mut Case| -> Res {
        let quotes = *g.pick(QUOTES);
        let escape = *g.pick(ESCAPES);
        let q: Vec<String> = quotes.iter().chain(escape.iter()).chain(&['"', '\'']).map(|c| c.to_string()).collect();
        let m = mixed(g, &q.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        let (p, _) = start(g, &m, &q.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        let src = scattered(g, &m);
        c.desc(format!("{m:?} from {p}: quotes {quotes:?} escape {escape:?}"));
        let mut st = St::new(&*src);
        st.set_position(p);
        let got = StringConfig { quotes, escape }.scan(&mut st, T::Str);
        let want = m[p..].chars().next().filter(|c| quotes.contains(c)).map(|q| (T::Str, string_end(&m, p + q.len_utf8(), q, escape)));
        if want.is_some() {
            c.nontrivial();
        }
        check(&st, p, got, want, &m, "StringConfig", "string")
    };
    let words = |g: &mut Gen, c: &mut Case| -> Res {
        let m = runs(g);
        let p = g.boundary(&m);
        let src = scattered(g, &m);
        c.desc(format!("{m:?} from {p}"));
        let r = &m[p..];
        for unicode in [false, true] {
            let mut st = St::new(&*src);
            st.set_position(p);
            let got = WhitespaceConfig { unicode_whitespace: unicode }.scan(&mut st, T::Ws);
            let n = r.find(|c: char| !(if unicode { c.is_whitespace() } else { " \t\r\n".contains(c) })).unwrap_or(r.len());
            if n > 0 {
                c.nontrivial();
            }
            check(&st, p, got, (n > 0).then_some((T::Ws, p + n)), &m, "WhitespaceConfig", "whitespace")?;
        }
        let mut st = St::new(&*src);
        st.set_position(p);
        let got = st.scan_ascii_identifier(T::Ident);
        let n = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(r.len());
        let ok = r.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_');
        if ok {
            c.nontrivial();
        }
        check(&st, p, got, ok.then_some((T::Ident, p + n)), &m, "scan_ascii_identifier", "identifier")
    };
    // finishing: the token list and errors a lexer state hands out
    let finish = |g: &mut Gen, c: &mut Case| -> Res {
        use oak_core::{LexerCache, OakError, ParseSession, SourceText, Token};
        let m = text::any(g, 30);
        let src = SourceText::new(m.clone());
        let mut st = LexerState::<SourceText, Toy>::new(&src);
        let mut toks: Vec<Token<T>> = Vec::new();
        let mut errs = Vec::new();
        for _ in 0..g.range(0, 10) {
            let p = st.get_position();
            match g.usize(4) {
                0 => { st.bump(); let e = st.get_position(); let k = *g.pick(&T::ALL[..15]); st.add_token(k, p, e); toks.push(Token { kind: k, span: (p..e).into() }); }
                1 => { let k = *g.pick(&T::ALL[..15]); let n = m[p..].chars().next().map_or(0, |c| c.len_utf8()); let t = Token { kind: k, span: (p..p + n).into() }; toks.push(t); let e = st.advance_with(t); ensure_eq!(e, p + n, "advance_with", "position after advance_with"); }
                2 => { let e = OakError::syntax_error(format!("e{}", errs.len()), p, None); errs.push(format!("{e}")); st.add_error(e); }
                _ => { st.take_while(|c| c.is_alphanumeric()); }
            }
        }
        if toks.len() > 1 { c.nontrivial(); }
        st.set_position(m.len());
        st.add_eof();
        toks.push(Token { kind: T::Eof, span: (m.len()..m.len()).into() });
        if g.bool() { st.add_eof(); }
        c.desc(format!("{m:?} {} tokens {} errors", toks.len(), errs.len()));
        let ok = g.chance(3, 4);
        let mut cache = ParseSession::<Toy>::default();
        let res = if ok { Ok(()) } else { Err(OakError::custom_error("bad")) };
        let out = st.finish_with_cache(res, &mut cache);
        ensure_eq!(out.diagnostics.iter().map(|e| format!("{e}")).collect::<Vec<_>>(), errs, "errors", "diagnostics");
        ensure!(out.result.is_ok() == ok, "result", "result");
        ensure!(out.has_errors() == (!ok || !errs.is_empty()), "has_errors", "has_errors");
        if ok {
            ensure!(*out.result.as_ref().unwrap().as_ref() == toks[..], "tokens", "tokens {:?} instead of {toks:?}", out.result);
            ensure!(cache.has_tokens() && cache.count_tokens() == toks.len() && cache.get_tokens() == Some(&toks[..]), "cache", "the cache has other tokens");
            for i in 0..toks.len() + 2 {
                ensure!(cache.get_token(i) == toks.get(i).copied(), "cache", "get_token({i}) is {:?}", cache.get_token(i));
            }
        } else {
            ensure!(!cache.has_tokens() && cache.count_tokens() == 0 && cache.get_token(0).is_none() && cache.get_tokens().is_none(), "cache", "tokens although lexing failed");
        }
        Ok(())
    };
    vec![Check {
        id: "C09",
        rule: "one case = one scanning helper (comments, strings, white space, identifiers, in many configurations) at one place of a text cut into chunks; non-trivial: the helper recognizes something",
        assumptions: vec!["an escape character differs from the quotes", "nested comments have different start and end markers"],
        facets: vec![Facet::new("comment", 300_000, 10_000_000, comment), Facet::new("string", 300_000, 10_000_000, string), Facet::new("words", 200_000, 5_000_000, words), Facet::new("finish", 500_000, 3_000_000, finish)],
    }]
}

/// A place to scan from: usually where one of the given markers is.
fn start(g: &mut Gen, m: &str, marks: &[&str]) -> (usize, ()) {
    let mut v: Vec<usize> = Vec::new();
    for k in marks.iter().filter(|k| !k.is_empty()) {
        v.extend(m.match_indices(k).map(|x| x.0));
    }
    v.sort();
    v.dedup();
    if !v.is_empty() && g.chance(5, 6) { (*g.pick(&v), ()) } else { (g.boundary(m), ()) }
}
