//! C20: rendered diagnostics against what they are made of; C21: errors as diagnostics.
use crate::linemap::{lined, source_of};
use kit::*;
use oak_core::errors::OakError;
use oak_core::source::Source;
use oak_diagnostic::{ConsoleEmitter, Diagnostic, DiagnosticProvider, Emitter, HtmlEmitter, Label, Localizer, LspEmitter, PlainTextEmitter, Severity};
use std::collections::HashMap;

/// Text on one line.
fn line(g: &mut Gen) -> String {
    let n = g.usize(8);
    (0..n).map(|_| *g.pick(&['a', 'b', ' ', '<', '>', '&', '"', '\'', 'é', '😀', ']', '[', '^', ':', '|'])).collect()
}
const COLORS: &[&str] = &["\x1b[32m", "\x1b[35;1m"];
fn diagnostic(g: &mut Gen, s: &str) -> Diagnostic {
    let mut d = match g.usize(3) {
        0 => Diagnostic::error(line(g)),
        1 => Diagnostic::warning(line(g)),
        _ => Diagnostic { severity: Severity::Advice, ..Diagnostic::error(line(g)) },
    };
    if g.bool() {
        d = d.with_code(line(g))
    }
    if g.chance(1, 3) {
        d = d.with_i18n(text::ident(g));
        for _ in 0..g.usize(3) {
            d = d.with_arg(text::ident(g), line(g))
        }
    }
    if g.chance(1, 3) {
        d = d.with_help(line(g))
    }
    for _ in 0..g.usize(4) {
        let (a, b) = g.span(s);
        if g.bool() {
            d = d.with_label((a..b).into(), line(g))
        } else {
            d.labels.push(Label { message: g.bool().then(|| line(g)), span: (a..b).into(), color: g.bool().then(|| g.pick(COLORS).to_string()) })
        }
    }
    d
}
struct Shout;
impl Localizer for Shout {
    fn localize(&self, key: &str, args: &HashMap<String, String>) -> String {
        let mut a: Vec<String> = args.iter().map(|(k, v)| format!("{k}={v}")).collect();
        a.sort();
        format!("<{key}> {}", a.join("&"))
    }
}
/// Line and column (characters and UTF-16), both from 0.
fn place(s: &str, at: usize) -> (usize, usize, usize) {
    let st = s[..at].rfind('\n').map_or(0, |i| i + 1);
    (s[..at].matches('\n').count(), s[st..at].chars().count(), s[st..at].encode_utf16().count())
}
struct Style {
    vbar: &'static str,
    hbar: char,
    ltop: &'static str,
    lbot: &'static str,
    gap: &'static str,
}
const UNICODE: Style = Style { vbar: "│", hbar: '─', ltop: "┌", lbot: "└", gap: "" };
const ASCII: Style = Style { vbar: "|", hbar: '_', ltop: "/", lbot: "|", gap: "" };

/// The rows of the snippet of one label, in order; gives back what follows them.
fn snippet<'a>(mut rows: &'a [&'a str], s: &str, l: &Label, uri: Option<&str>, st: &Style, header: bool) -> Result<&'a [&'a str], Fail> {
    let lines: Vec<&str> = s.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    let last_cr = s.ends_with('\r');
    let text = |i: usize| if i + 1 == lines.len() && last_cr { format!("{}\r", lines[i]) } else { lines[i].to_string() };
    let ((sl, sc, _), (el, ec, _)) = (place(s, l.span.start), place(s, l.span.end));
    let w = (el + 1).to_string().len();
    let (pad, v) = (" ".repeat(w), st.vbar);
    let mut next = |what: &str| -> Result<&'a str, Fail> {
        let Some(r) = rows.first() else { return fail("rows", format!("nothing is left for {what}")) };
        rows = &rows[1..];
        Ok(r)
    };
    if header {
        ensure_eq!(next("the place")?, format!("  {} at {}:{}:{}", st.ltop, uri.unwrap_or("<anonymous>"), sl + 1, sc + 1), "place", "the place of the label {:?}", l.span);
    }
    ensure_eq!(next("the upper border")?, format!("{pad} {v}"), "border", "upper border");
    let msg = l.message.as_ref().map(|m| format!(" {m}")).unwrap_or_default();
    if sl == el {
        ensure_eq!(next("the line")?, format!("{:>w$} {v} {}", sl + 1, text(sl)), "line", "line {sl}");
        let n = s[l.span.start..l.span.end].chars().count().max(1);
        ensure_eq!(next("the underline")?, format!("{pad} {v} {}{}{msg}", " ".repeat(sc), "^".repeat(n)), "underline", "underline of {:?}", l.span);
    } else {
        for i in sl..=el {
            let mark = if i == sl { st.ltop } else { v };
            ensure_eq!(next("a line")?, format!("{:>w$} {v} {mark}{}{}", i + 1, st.gap, text(i)), "line", "line {i} of {:?}", l.span);
        }
        let row = next("the marker")?;
        let Some(r) = row.strip_prefix(&format!("{pad} {v} {}", st.lbot)) else { return fail("marker", format!("the row after the last line of {:?} is {row:?}", l.span)) };
        let bars = r.chars().take_while(|c| *c == st.hbar).count();
        ensure_eq!(bars, ec, "marker", "bars up to the end of {:?} in {row:?}", l.span);
        let r = r.trim_start_matches(st.hbar);
        let carets = r.chars().take_while(|c| *c == '^').count();
        ensure!(carets > 0 && r.ends_with(&msg) && (msg.starts_with(" ^") || r.trim_start_matches('^') == msg), "marker", "the marker of {:?} is {row:?}, the message {msg:?}", l.span);
    }
    ensure_eq!(next("the lower border")?, format!("{pad} {v}"), "border", "lower border");
    Ok(rows)
}
fn name(s: Severity) -> &'static str {
    match s {
        Severity::Error => "error",
        Severity::Warning => "warning",
        Severity::Advice => "advice",
    }
}
fn whole(out: &str, s: &str, d: &Diagnostic, message: &str, uri: Option<&str>, st: &Style) -> Res {
    let out = out.strip_suffix('\n').unwrap_or(out);
    let rows: Vec<&str> = out.split('\n').collect();
    ensure_eq!(rows[0], format!("[{}] {message}", d.code.as_deref().unwrap_or(name(d.severity))), "header", "first line");
    let mut rest = &rows[1..];
    for l in &d.labels {
        rest = snippet(rest, s, l, uri, st, true)?
    }
    match &d.help {
        Some(h) => ensure_eq!(rest.to_vec(), vec!["", format!("help: {h}").as_str()], "help", "after the labels"),
        None => ensure!(rest.is_empty(), "rest", "after the labels: {rest:?}"),
    }
    Ok(())
}
/// Without escape sequences; every line ends in the normal color.
fn uncolored(out: &str) -> Result<(String, Vec<String>), Fail> {
    let (mut t, mut seqs, mut on) = (String::new(), Vec::new(), false);
    let mut rest = out;
    while let Some(c) = rest.chars().next() {
        if let Some(r) = rest.strip_prefix("\x1b[") {
            let Some(e) = r.find('m') else { return fail("escape", format!("an escape sequence without end: {r:?}")) };
            on = &r[..e] != "0";
            seqs.push(format!("\x1b[{}", &r[..=e]));
            rest = &r[e + 1..];
            continue;
        }
        ensure!(!(c == '\n' && on), "leak", "a color goes on over the end of a line: {out:?}");
        t.push(c);
        rest = &rest[c.len_utf8()..];
    }
    ensure!(!on, "leak", "a color goes on over the end: {out:?}");
    Ok((t, seqs))
}
/// An HTML element: tag, attributes as written, and its content.
#[derive(Debug)]
pub enum H {
    Text(String),
    El(String, String, Vec<H>),
}
impl H {
    pub fn text(&self, out: &mut String) {
        match self {
            H::Text(t) => out.push_str(t),
            H::El(_, _, c) => c.iter().for_each(|h| h.text(out)),
        }
    }
    pub fn find<'a>(&'a self, class: &str, out: &mut Vec<&'a H>) {
        if let H::El(_, a, c) = self {
            if a.contains(&format!("class=\"{class}")) {
                out.push(self)
            }
            c.iter().for_each(|h| h.find(class, out))
        }
    }
    pub fn all(&self, class: &str) -> Vec<String> {
        let mut v = Vec::new();
        self.find(class, &mut v);
        v.iter().map(|h| { let mut s = String::new(); h.text(&mut s); s }).collect()
    }
}
pub fn unescape(s: &str) -> Result<String, Fail> {
    let (mut out, mut rest) = (String::new(), s);
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i..];
        let Some((e, c)) = [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&#39;", '\''), ("&#x27;", '\''), ("&apos;", '\'')].into_iter().find(|(e, _)| rest.starts_with(e)) else {
            return fail("entity", format!("an ampersand that is not escaped: {rest:?}"));
        };
        out.push(c);
        rest = &rest[e.len()..];
    }
    out.push_str(rest);
    Ok(out)
}
/// Parses markup strictly: every element is closed, attributes are quoted, nothing is unescaped.
pub fn markup(s: &str) -> Result<H, Fail> {
    let mut stack: Vec<(String, String, Vec<H>)> = vec![("".into(), "".into(), vec![])];
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('<') {
            if let Some(r) = r.strip_prefix("!--") {
                let Some(e) = r.find("-->") else { return fail("markup", "a comment without end") };
                rest = &r[e + 3..];
                continue;
            }
            let mut q = false;
            let Some(e) = r.char_indices().find(|(_, c)| { if *c == '"' { q = !q } *c == '>' && !q }).map(|x| x.0) else { return fail("markup", format!("a tag without end: {rest:?}")) };
            let tag = &r[..e];
            rest = &r[e + 1..];
            if tag.starts_with(['!', '?']) {
                continue;
            }
            if let Some(t) = tag.strip_prefix('/') {
                let Some((n, a, c)) = stack.pop() else { unreachable!() };
                ensure!(n == t && !stack.is_empty(), "markup", "</{t}> closes <{n}>");
                stack.last_mut().unwrap().2.push(H::El(n, a, c));
                continue;
            }
            let (t, empty) = match tag.strip_suffix('/') {
                Some(t) => (t, true),
                None => (tag, false),
            };
            let n: String = t.chars().take_while(|c| c.is_alphanumeric()).collect();
            ensure!(!n.is_empty(), "markup", "a tag without name: <{tag}>");
            // attributes: name="value" ...
            let mut a = t[n.len()..].trim();
            let attrs = a.to_string();
            let mut names = Vec::new();
            while !a.is_empty() {
                let Some(i) = a.find("=\"") else { return fail("attribute", format!("<{tag}>")) };
                let k = &a[..i];
                ensure!(!k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || "-:_".contains(c)), "attribute", "attribute {k:?} of <{tag}>");
                ensure!(!names.contains(&k), "attribute", "attribute {k:?} twice in <{tag}>");
                names.push(k);
                let v = &a[i + 2..];
                let Some(j) = v.find('"') else { return fail("attribute", format!("<{tag}>")) };
                ensure!(!v[..j].contains('<'), "attribute", "a '<' in <{tag}>");
                unescape(&v[..j])?;
                let after = &v[j + 1..];
                ensure!(after.is_empty() || after.starts_with(char::is_whitespace), "attribute", "<{tag}>");
                a = after.trim_start()
            }
            if empty || n == "meta" || n == "br" || n == "link" { stack.last_mut().unwrap().2.push(H::El(n, attrs, vec![])) } else { stack.push((n, attrs, vec![])) }
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            let t = &rest[..e];
            let raw = stack.last().is_some_and(|s| s.0 == "style");
            let t = if raw { t.to_string() } else { unescape(t)? };
            stack.last_mut().unwrap().2.push(H::Text(t));
            rest = &rest[e..];
        }
    }
    ensure!(stack.len() == 1, "markup", "<{}> is not closed", stack.last().unwrap().0);
    let (n, a, c) = stack.pop().unwrap();
    Ok(H::El(n, a, c))
}

fn render(g: &mut Gen, c: &mut Case) -> Res {
    let s = lined(g);
    let (src, how) = source_of(g, &s);
    let d = diagnostic(g, &s);
    let uri = g.bool().then(|| g.pick(&["a.rs", "file:///a<b>&\"c\".rs", "é"]).to_string());
    let local = g.bool();
    c.desc(format!("{how} {s:?} {d:?} uri {uri:?} localized {local}"));
    if d.labels.iter().any(|l| s[l.span.start..l.span.end].contains('\n')) {
        c.nontrivial()
    }
    let message = if local && d.i18n_key.is_some() { Shout.localize(d.i18n_key.as_ref().unwrap(), &d.i18n_args) } else { d.message.clone() };
    fn out<M: Emitter>(e: &M, s: &dyn Source, d: &Diagnostic, local: bool, uri: Option<&str>) -> Result<String, Fail> {
        let full = e.render_localized(s, d, local.then_some(&Shout), uri);
        if !local && uri.is_none() {
            ensure_eq!(e.render(s, d), full, "render", "render and render_localized without anything");
        }
        Ok(full)
    }
    let uri = uri.as_deref();
    for unicode in [false, true] {
        let st = if unicode { UNICODE } else { ASCII };
        whole(&out(&PlainTextEmitter { unicode }, &*src, &d, local, uri)?, &s, &d, &message, uri, &st).map_err(|e| Fail { sig: format!("plain-{}", e.sig), ..e })?;
        let colored = out(&ConsoleEmitter { unicode }, &*src, &d, local, uri)?;
        (|| {
            let (t, seqs) = uncolored(&colored)?;
            let st = Style { gap: " ", ..st };
            whole(&t, &s, &d, &message, uri, &st)?;
            let sev = match d.severity {
                Severity::Error => "\x1b[31;1m",
                Severity::Warning => "\x1b[33;1m",
                Severity::Advice => "\x1b[36;1m",
            };
            ensure_eq!(seqs[0], sev, "color", "color of the header");
            for l in &d.labels {
                if let Some(c) = &l.color {
                    ensure!(seqs.contains(c), "color", "the color {c:?} of a label is not used")
                }
            }
            Ok(())
        })()
        .map_err(|e: Fail| Fail { sig: format!("console-{}", e.sig), ..e })?;
    }
    let html = out(&HtmlEmitter, &*src, &d, local, uri)?;
    (|| {
        let h = markup(&html)?;
        ensure_eq!(h.all("message"), vec![message.clone()], "message", "message");
        match &d.code {
            Some(code) => ensure_eq!(h.all("code"), vec![format!("[{code}]")], "code", "code"),
            None => ensure_eq!(h.all("severity"), vec![format!("[{}]", name(d.severity))], "severity", "severity"),
        }
        ensure_eq!(h.all(&format!("header {}", name(d.severity))).len(), 1, "header", "class of the header");
        ensure_eq!(h.all("help"), d.help.iter().map(|h| format!("help: {h}")).collect::<Vec<_>>(), "help", "help");
        let mut sn = Vec::new();
        h.find("snippet", &mut sn);
        ensure_eq!(sn.len(), d.labels.len(), "snippets", "number of snippets");
        for (x, l) in sn.iter().zip(&d.labels) {
            let (sl, sc, _) = place(&s, l.span.start);
            ensure_eq!(x.all("location"), vec![format!("  ┌ at {}:{}:{}", uri.unwrap_or("<anonymous>"), sl + 1, sc + 1)], "place", "place of {:?}", l.span);
            let mut pre = String::new();
            if let H::El(_, _, c) = x {
                for e in c {
                    if matches!(e, H::El(n, ..) if n == "pre") {
                        e.text(&mut pre)
                    }
                }
            }
            let pre = pre.strip_suffix('\n').unwrap_or(&pre);
            let rows: Vec<&str> = pre.split('\n').collect();
            let rest = snippet(&rows, &s, l, uri, &UNICODE, false)?;
            ensure!(rest.is_empty(), "rest", "after the snippet: {rest:?}");
            ensure_eq!(x.all("label-msg"), l.message.iter().cloned().collect::<Vec<_>>(), "label-msg", "message of the label");
        }
        Ok(())
    })()
    .map_err(|e: Fail| Fail { sig: format!("html-{}", e.sig), msg: format!("{}\n{html}", e.msg) })?;
    let lsp = out(&LspEmitter, &*src, &d, local, uri)?;
    let j: serde_json::Value = serde_json::from_str(&lsp).map_err(|e| Fail { sig: "lsp-json".into(), msg: format!("{e}: {lsp}") })?;
    let range = |sp: std::range::Range<usize>| {
        let (a, b) = (place(&s, sp.start), place(&s, sp.end));
        serde_json::json!({"start": {"line": a.0, "character": a.2}, "end": {"line": b.0, "character": b.2}})
    };
    let first = d.labels.first().map(|l| l.span).unwrap_or((0..0).into());
    ensure_eq!(j["range"], range(first), "lsp-range", "range");
    ensure_eq!(j["severity"], serde_json::json!(match d.severity { Severity::Error => 1, Severity::Warning => 2, Severity::Advice => 3 }), "lsp-severity", "severity");
    ensure_eq!(j["message"], serde_json::json!(message), "lsp-message", "message");
    if let Some(code) = &d.code {
        ensure_eq!(j["code"], serde_json::json!(code), "lsp-code", "code");
    }
    let info: Vec<_> = d.labels.iter().filter_map(|l| l.message.as_ref().map(|m| serde_json::json!({"location": {"uri": uri.unwrap_or(""), "range": range(l.span)}, "message": m}))).collect();
    ensure_eq!(j["relatedInformation"], serde_json::json!(info), "lsp-related", "labels");
    let back: Result<Diagnostic, _> = serde_json::from_str(&serde_json::to_string(&d).unwrap());
    ensure!(back.is_ok(), "json", "a diagnostic cannot be read back: {:?}", back.err());
    ensure_eq!(format!("{:?}", back.as_ref().unwrap().labels), format!("{:?}", d.labels), "json", "labels read back");
    let b = back.unwrap();
    ensure_eq!((b.code, b.message, b.i18n_key, b.i18n_args, b.severity, b.help), (d.code.clone(), d.message.clone(), d.i18n_key.clone(), d.i18n_args.clone(), d.severity, d.help.clone()), "json", "a diagnostic read back");
    Ok(())
}

fn errors(g: &mut Gen, c: &mut Case) -> Res {
    let s = lined(g);
    let (src, how) = source_of(g, &s);
    let far = g.chance(1, 8);
    let at = if far { s.len() + g.usize(10) } else { g.boundary(&s) };
    let (w, id) = (line(g), g.bool().then_some(3));
    let (e, placed, arg): (OakError, bool, Option<&str>) = match g.usize(12) {
        0 => (OakError::syntax_error(w.clone(), at, id), true, None),
        1 => (OakError::unexpected_character('é', at, id), true, None),
        2 => (OakError::unexpected_token(w.clone(), at, id), true, Some("token")),
        3 => (OakError::unexpected_eof(at, id), true, None),
        4 => (OakError::expected_token(w.clone(), at, id), true, Some("expected")),
        5 => (OakError::expected_name(w.clone(), at, id), true, Some("name_kind")),
        6 => (OakError::trailing_comma_not_allowed(at, id), true, None),
        7 => (OakError::custom_error(w.clone()), false, None),
        8 => (OakError::semantic_error(w.clone()), false, None),
        9 => (OakError::internal_error(w.clone()), false, None),
        10 => (std::io::Error::other(w.clone()).into(), false, None),
        _ => (OakError::format_error(w.clone()), false, None),
    };
    c.desc(format!("{how} {s:?} {e:?}"));
    if placed && at < s.len() && !s[at..].starts_with(|c: char| c.is_ascii()) {
        c.nontrivial()
    }
    let d = if g.bool() { e.to_diagnostic(&*src) } else { Diagnostic::from_provider(&e, &*src) };
    ensure_eq!(d.severity, Severity::Error, "severity", "severity");
    ensure_eq!(d.message, e.kind().to_string(), "message", "message");
    ensure_eq!((d.code.as_deref(), d.i18n_key.as_deref()), (Some(e.kind().key()), Some(e.kind().key())), "code", "code and key");
    ensure_eq!(d.labels.len(), placed as usize, "labels", "number of labels");
    if let Some(l) = d.labels.first() {
        let st = at.min(s.len());
        let end = st + s[st..].chars().next().map_or(0, char::len_utf8);
        ensure_eq!((l.span.start, l.span.end), (st, end), "span", "span of the label: the character at {at}");
        let j: serde_json::Value = serde_json::from_str(&LspEmitter.render(&*src, &d)).unwrap();
        let (a, b) = (place(&s, st), place(&s, end));
        ensure_eq!(j["range"], serde_json::json!({"start": {"line": a.0, "character": a.2}, "end": {"line": b.0, "character": b.2}}), "lsp", "range");
    }
    if let Some(k) = arg {
        ensure_eq!(d.i18n_args.get(k), Some(&w), "args", "argument {k}");
    }
    ensure_eq!(Diagnostic::from(&e).message, format!("{e}"), "from", "an error as a diagnostic");
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C20",
        rule: "one case = a diagnostic with up to three labels rendered by every emitter (render), or an error of any kind made into a diagnostic for a text (errors); non-trivial: a label over several lines / an error at a wide character",
        assumptions: vec!["spans are at character boundaries inside the text", "messages, codes and names of files are on one line and have no control characters", "how many carets end the marker of a label over several lines is not judged"],
        facets: vec![Facet::new("render", 40_000, 1_500_000, render), Facet::new("errors", 180_000, 1_500_000, errors)],
    }]
}
