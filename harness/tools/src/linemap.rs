//! C17: line maps against a count over the whole text.
use kit::*;
use oak_core::source::{ChunkedBuffer, RopeBuffer, Source, SourceText, TextEdit};
use oak_vfs::{LineMap, MemoryVfs, Vfs};

/// Texts with many line structures and characters of every width.
pub fn lined(g: &mut Gen) -> String {
    let n = g.len(60);
    let mut s = String::new();
    for _ in 0..n {
        match g.weighted(&[6, 4, 1, 1, 3, 1]) {
            0 => s.push((b'a' + g.below(26) as u8) as char),
            1 => s.push('\n'),
            2 => s.push_str("\r\n"),
            3 => s.push('\r'),
            4 => s.push(*g.pick(text::WIDE)),
            _ => s.push_str(&text::any(g, 10)),
        }
    }
    s
}

fn edit(a: usize, b: usize, t: &str) -> TextEdit {
    TextEdit { span: (a..b).into(), text: t.to_string().into() }
}
pub fn source_of(g: &mut Gen, s: &str) -> (Box<dyn Source>, &'static str) {
    match g.usize(4) {
        0 => (Box::new(SourceText::new(s.to_string())), "text"),
        1 => {
            let mut b = ChunkedBuffer::new();
            let mut rest = s;
            while !rest.is_empty() {
                let k = g.range(1, 5) * (1 + s.len() / 1000);
                let e = rest.char_indices().nth(k).map(|(i, _)| i).unwrap_or(rest.len());
                b.push_str(&rest[..e]);
                rest = &rest[e..];
            }
            (Box::new(b), "chunked")
        }
        2 => {
            let mut b = RopeBuffer::new("");
            let mut done = 0;
            while done < s.len() {
                let k = g.range(1, 6) * (1 + s.len() / 1000);
                let e = s[done..].char_indices().nth(k).map(|(i, _)| done + i).unwrap_or(s.len());
                b.apply_edits(&[edit(done, done, &s[done..e])]);
                done = e;
            }
            (Box::new(b), "rope")
        }
        _ => {
            let mut b = RopeBuffer::new(s);
            let (x, y) = g.span(s);
            let cut = s[x..y].to_string();
            b.apply_edits(&[edit(x, y, "")]);
            b.apply_edits(&[edit(x, x, &cut)]);
            (Box::new(b.snapshot()), "rope snapshot")
        }
    }
}

fn map(g: &mut Gen, c: &mut Case) -> Res {
    let s = if g.chance(1, 400) {
        // more lines, or columns, than sixteen bits count
        let (unit, n) = *g.pick(&[("\n", 70_000), ("é\n", 66_000), ("a", 70_000), ("😀", 40_000), ("\r\n", 300), ("é", 300)]);
        format!("{}{}{}", lined(g), unit.repeat(n), lined(g))
    } else if g.chance(1, 40) { text::long(g, 9000) } else { lined(g) };
    let (src, how) = source_of(g, &s);
    c.label(how);
    c.desc(format!("{how} {s:?}"));
    let m = if g.chance(1, 4) {
        let v = MemoryVfs::new();
        v.write_file("f", s.as_str());
        ensure!(v.line_map("g").is_none(), "nofile", "a line map of a file that does not exist");
        v.line_map("f").unwrap()
    } else {
        LineMap::from_source(&*src)
    };
    let starts: Vec<usize> = std::iter::once(0).chain(s.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1)).collect();
    if starts.len() > 2 && s.chars().any(|c| c.len_utf8() > 1) {
        c.nontrivial();
    }
    ensure_eq!(m.line_count(), starts.len(), "count", "number of lines");
    for (i, &st) in starts.iter().enumerate() {
        let end = starts.get(i + 1).copied().unwrap_or(s.len());
        ensure_eq!(m.line_start(i as u32), Some(st), "start", "start of line {i}");
        ensure_eq!(m.line_end(i as u32), Some(end), "end", "end of line {i}");
    }
    for past in [starts.len() as u32, starts.len() as u32 + 7, u32::MAX] {
        ensure_eq!((m.line_start(past), m.line_end(past)), (None, None), "past", "a line that is not there");
        ensure_eq!(m.line_col_utf16_to_offset(&*src, past, g.below(5) as u32), s.len(), "past-offset", "a line that is not there is the end of the text");
    }
    // every position, or some of a long text
    let step = if s.len() > 600 { 1 + s.len() / 200 } else { 1 };
    let at: Vec<usize> = (0..=s.len()).step_by(step).map(|mut o| { while !s.is_char_boundary(o) { o -= 1 } o }).collect();
    for o in at {
        let line = s[..o].matches('\n').count();
        let col = s[starts[line]..o].encode_utf16().count();
        ensure_eq!(m.offset_to_line_col_utf16(&*src, o), (line as u32, col as u32), "position", "position of offset {o}");
        ensure_eq!(m.line_col_utf16_to_offset(&*src, line as u32, col as u32), o, "offset", "offset of {line}:{col}");
    }
    let far = s.len() + 1 + g.usize(1000);
    ensure_eq!(m.offset_to_line_col_utf16(&*src, far), m.offset_to_line_col_utf16(&*src, s.len()), "beyond", "an offset beyond the end");
    // columns past the end of a line stay in that line (or at the start of the next)
    let line = g.usize(starts.len());
    let end = starts.get(line + 1).copied().unwrap_or(s.len());
    let len = s[starts[line]..end].encode_utf16().count();
    let o = m.line_col_utf16_to_offset(&*src, line as u32, (len + g.usize(50)) as u32);
    let text = s[starts[line]..end].trim_end_matches(['\n', '\r']);
    ensure!(o >= starts[line] + text.len() && o <= end, "past-column", "a column past the end of line {line} is offset {o}, the line is {}..{end}", starts[line]);
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C17",
        rule: "the text has over two lines and a character of over one byte",
        assumptions: vec!["offsets are at character boundaries, as all offsets this repository produces are"],
        facets: vec![Facet::new("map", 40_000, 600_000, map)],
    }]
}
