//! C06: every kind of text source against a plain string.
use kit::*;
use oak_core::source::{ChunkedBuffer, RopeBuffer, Source, SourceText, TextEdit};

/// Every read of the source, compared with the model.
pub fn same_text(g: &mut Gen, src: &dyn Source, m: &str, id: Option<u32>, who: &str) -> Res {
    ensure!(src.length() == m.len(), "length", "{who}: length {} of {}", src.length(), m.len());
    ensure!(src.is_empty() == m.is_empty(), "empty", "{who}: is_empty");
    ensure!(src.source_id() == id, "id", "{who}: source id {:?} instead of {:?}", src.source_id(), id);
    ensure!(src.get_text_from(0) == m, "all", "{who}: get_text_from(0) is {:?}, not {:?}", src.get_text_from(0), m);
    // chunks
    let mut at = 0;
    let mut glued = String::new();
    while at < m.len() {
        let c = src.chunk_at(at);
        ensure!(c.start <= at && c.end() > at, "chunk", "{who}: chunk_at({at}) is {}..{}", c.start, c.end());
        ensure!(m.get(c.start..c.end()) == Some(c.text), "chunk", "{who}: chunk_at({at}) {}..{} is {:?}", c.start, c.end(), c.text);
        glued.push_str(c.slice_from(at));
        at = c.end();
    }
    ensure!(glued == m, "chunks", "{who}: the chunks joined are {:?}", glued);
    let e = src.chunk_at(m.len());
    ensure!(e.text.is_empty() && e.start == m.len(), "chunk-end", "{who}: chunk_at(end) is {:?}", e);
    for _ in 0..g.range(1, 4) {
        let at = g.boundary(m);
        ensure_eq!(src.get_char_at(at), m[at..].chars().next(), "char", "{who}: get_char_at({at}) of {m:?}");
        if at < m.len() {
            let c = src.chunk_at(at);
            ensure!(c.start <= at && at < c.end() && m.get(c.start..c.end()) == Some(c.text), "chunk", "{who}: chunk_at({at}) is {:?} in {m:?}", c);
            ensure!(m[at..].starts_with(c.slice_from(at)) && !c.slice_from(at).is_empty(), "slice_from", "{who}: slice_from({at}) is {:?}", c.slice_from(at));
        }
        let (a, b) = g.span(m);
        ensure_eq!(src.get_text_in((a..b).into()), m[a..b], "text", "{who}: get_text_in({a}..{b}) of {m:?}");
        ensure_eq!(src.get_text_from(a), m[a..], "from", "{who}: get_text_from({a}) of {m:?}");
        let ch = if g.bool() && !m.is_empty() { m[g.boundary(m)..].chars().next().unwrap_or('x') } else { text::any_char(g) };
        ensure_eq!(src.find_char_from(at, ch), m[at..].find(ch).map(|i| i + at), "find_char", "{who}: find_char_from({at}, {ch:?}) in {m:?}");
        let pat = if g.chance(3, 4) {
            let a = g.boundary(m);
            let k = g.range(0, 8);
            m[a..].chars().take(k).collect::<String>()
        } else {
            text::any(g, 4)
        };
        ensure_eq!(src.find_str_from(at, &pat), m[at..].find(&pat).map(|i| i + at), "find_str", "{who}: find_str_from({at}, {pat:?}) in {m:?}");
    }
    ensure!(src.get_char_at(m.len()).is_none() && src.get_text_from(m.len()) == "", "past", "{who}: something after the end");
    let at = g.boundary(m);
    let e = src.syntax_error("m".into(), at);
    ensure!(matches!(e.kind(), oak_core::OakErrorKind::SyntaxError { offset, source_id, message } if *offset == at && *source_id == id && message == "m"), "error", "{who}: syntax_error({at}) is {:?} for source {:?}", e, id);
    Ok(())
}

/// Valid edits (in the coordinates of s, sorted, not overlapping) and their result.
pub fn edits(g: &mut Gen, s: &str, piece: &mut dyn FnMut(&mut Gen) -> String) -> (Vec<(usize, usize, String)>, String) {
    let mut cuts = Vec::new();
    for _ in 0..g.weighted(&[1, 8, 4, 2, 1]) {
        let (a, b) = if g.chance(1, 3) { g.span(s) } else { let a = g.boundary(s); (a, s[a..].char_indices().nth(g.usize(6)).map(|x| a + x.0).unwrap_or(s.len())) };
        cuts.push(a);
        cuts.push(b);
    }
    cuts.sort();
    let mut v = Vec::new();
    let mut new = String::new();
    let mut at = 0;
    for w in cuts.chunks(2) {
        let t = piece(g);
        new.push_str(&s[at..w[0]]);
        new.push_str(&t);
        at = w[1];
        v.push((w[0], w[1], t));
    }
    new.push_str(&s[at..]);
    (v, new)
}

pub fn to_edits(v: &[(usize, usize, String)]) -> Vec<TextEdit> {
    v.iter().map(|(a, b, t)| TextEdit { span: (*a..*b).into(), text: t.clone().into() }).collect()
}

fn shuffle(g: &mut Gen, v: &mut [(usize, usize, String)]) {
    for i in (1..v.len()).rev() {
        let j = g.usize(i + 1);
        v.swap(i, j);
    }
}

enum Buf {
    Text(SourceText),
    Rope(RopeBuffer),
    Chunked(ChunkedBuffer),
}
impl Buf {
    fn dynamic(&self) -> &dyn Source {
        match self {
            Buf::Text(s) => s,
            Buf::Rope(s) => s,
            Buf::Chunked(s) => s,
        }
    }
}

fn history(g: &mut Gen, c: &mut Case, kind: usize, big: bool) -> Res {
    let id = if g.bool() { Some(g.below(1000) as u32) } else { None };
    let n = g.range(1000, 20_000);
    let mut m = if big { text::long(g, n) } else { text::any(g, 60) };
    let mut log = String::new();
    if !big {
        log = format!("{m:?}");
    }
    let mut buf = match kind {
        0 => Buf::Text(match id { Some(i) => SourceText::new_with_id(m.clone(), i), None => SourceText::new(m.clone()) }),
        1 => Buf::Rope(RopeBuffer::new_with_id(&m, id)),
        _ => {
            let mut b = ChunkedBuffer::new_with_id(id);
            b.push_str(&m);
            Buf::Chunked(b)
        }
    };
    // snapshots taken along the way and what they must keep saying
    let mut snaps: Vec<(Box<dyn Source>, String)> = Vec::new();
    same_text(g, buf.dynamic(), &m, id, "new")?;
    let steps = g.range(1, 8);
    for step in 0..steps {
        if g.chance(1, 3) {
            let s: Box<dyn Source> = match &buf {
                Buf::Text(s) => Box::new(s.clone()),
                Buf::Rope(s) => if g.bool() { Box::new(s.snapshot()) } else { Box::new(s.clone()) },
                Buf::Chunked(s) => if g.bool() { Box::new(s.snapshot()) } else { Box::new(s.clone()) },
            };
            snaps.push((s, m.clone()));
        }
        let mut piece = |g: &mut Gen| if big && g.chance(1, 4) { let n = g.range(1, 9000); text::long(g, n) } else { text::any(g, 12) };
        if let Buf::Chunked(b) = &mut buf {
            let t = piece(g);
            log.push_str(&format!(" push {:?}", trunc(&t)));
            b.push_str(&t);
            m.push_str(&t);
        } else {
            let (mut v, new) = edits(g, &m, &mut piece);
            let last = v.iter().max_by_key(|e| (e.1, e.0)).cloned();
            let distinct = v.windows(2).all(|w| w[0].0 != w[1].0);
            if distinct && g.bool() {
                shuffle(g, &mut v);
            }
            log.push_str(&format!(" edit {:?}", v.iter().map(|e| (e.0, e.1, trunc(&e.2))).collect::<Vec<_>>()));
            c.desc(log.clone());
            let e = to_edits(&v);
            let whole = g.bool();
            let (from, to) = match &mut buf {
                Buf::Text(s) => if whole { let r = s.apply_edits_range(&e); (r.start, Some(r.end)) } else { (s.apply_edits(&e), None) },
                Buf::Rope(s) => if whole { let r = s.apply_edits_range(&e); (r.start, Some(r.end)) } else { (s.apply_edits(&e), None) },
                _ => unreachable!(),
            };
            match last {
                None => ensure!(from == m.len() && to.is_none_or(|t| t == m.len()), "range", "no edits, yet {from}..{to:?} affected"),
                Some(l) => {
                    let first = v.iter().map(|e| e.0).min().unwrap();
                    ensure!(from == first, "range-start", "affected from {from}, edits {v:?} begin at {first}");
                    // what follows the last edit is untouched, and the affected range ends just before it
                    let want = new.len() - (m.len() - l.1);
                    ensure!(to.is_none_or(|t| t == want), "range-end", "affected up to {to:?}, the edits end at {want} in the new text");
                }
            }
            m = new;
        }
        if m.chars().any(|c| !c.is_ascii()) {
            c.label("multi-byte");
        }
        same_text(g, buf.dynamic(), &m, id, "buffer").map_err(|f| Fail { msg: format!("step {step}: {}", f.msg), ..f })?;
        let by_ref = &buf.dynamic();
        ensure!(by_ref.length() == m.len() && by_ref.source_id() == id, "by-ref", "a reference to a source differs from the source");
    }
    if let Buf::Text(s) = &buf {
        ensure!(s.text() == m && s.len() == m.len() && SourceText::is_empty(s) == m.is_empty(), "source-text", "text()");
    }
    for (s, m) in &snaps {
        same_text(g, &**s, m, id, "snapshot")?;
    }
    if !snaps.is_empty() {
        c.label("snapshots");
    }
    if steps >= 2 && !m.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

fn trunc(s: &str) -> String {
    if s.len() > 60 { format!("{}… ({} bytes)", s.chars().take(20).collect::<String>(), s.len()) } else { s.to_string() }
}

pub fn all() -> Vec<Check> {
    let mut facets = Vec::new();
    for (kind, name) in ["source-text", "rope", "chunked"].into_iter().enumerate() {
        facets.push(Facet::new(name, 30_000, 1_500_000, move |g, c| history(g, c, kind, false)));
        facets.push(Facet::new(format!("{name}-big"), 600, 30_000, move |g, c| history(g, c, kind, true)));
    }
    facets.push(Facet::new("str", 10_000, 300_000, |g, c| {
        let m = text::any(g, 80);
        c.desc(text::show(&m));
        if m.len() > 3 {
            c.nontrivial();
        }
        same_text(g, &m.as_str(), &m, None, "str")
    }));
    vec![Check {
        id: "C06",
        rule: "one case = one history of 1..8 edit steps (or appends) on one kind of source with snapshots, every read compared with a plain string after each step; non-trivial: two steps and a non-empty text",
        assumptions: vec!["edits lie on character boundaries, inside the text, and do not overlap; insertions at one place are applied in the order given", "reads start at character boundaries"],
        facets,
    }]
}
