//! C29: highlighting covers the text, resolves scopes, and every export shows it.
use crate::diag::{H, markup, unescape};
use kit::*;
use oak_core::language::LanguageCategory;
use oak_core::parser::session::ParseCache;
use oak_core::source::{Source, TextEdit};
use oak_core::tree::{GreenLeaf, GreenNode, GreenTree, RedNode};
use oak_core::visitor::Visitor;
use oak_core::{ElementType, Language, TokenRole, TokenType, UniversalElementRole as ER, UniversalTokenRole as TR};
use oak_highlight::highlighter::{HighlightSpan, HighlightVisitor, ScopeProvider};
use oak_highlight::{AnsiExporter, CssExporter, ExportFormat, Exporter, HighlightResult, HighlightSegment, HighlightStyle, HighlightTheme, Highlighter, HtmlExporter, JsonExporter, OakHighlighter, Theme};
use std::borrow::Cow;

const U: [TR; 11] = [TR::Name, TR::Keyword, TR::Literal, TR::Escape, TR::Operator, TR::Punctuation, TR::Comment, TR::Whitespace, TR::Error, TR::None, TR::Eof];
const SPECIFIC: [&str; 8] = ["keyword.control", "keyword.control.flow", "constant.numeric", "string", "a.b.c.d", "variable.other", "source", ""];
/// a token: a universal role (below 11), or a specific name with one
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
struct K(u8);
#[derive(Clone, Copy, PartialEq, Eq)]
struct Role(u8);
impl TokenRole for Role {
    fn universal(&self) -> TR {
        U[self.0 as usize % 11]
    }
    fn name(&self) -> &str {
        if self.0 < 11 { universal_name(U[self.0 as usize]) } else { SPECIFIC[(self.0 as usize / 11 - 1) % 8] }
    }
}
fn universal_name(r: TR) -> &'static str {
    match r {
        TR::Keyword => "keyword",
        TR::Name => "variable.other",
        TR::Literal => "constant",
        TR::Escape => "constant.character.escape",
        TR::Operator => "keyword.operator",
        TR::Punctuation => "punctuation",
        TR::Comment => "comment",
        TR::Whitespace => "punctuation.whitespace",
        TR::Error => "invalid",
        TR::None => "none",
        TR::Eof => "punctuation.eof",
    }
}
impl TokenType for K {
    type Role = Role;
    const END_OF_STREAM: Self = K(10);
    fn role(&self) -> Role {
        Role(self.0)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum El {
    N,
    Tok(K),
}
impl From<K> for El {
    fn from(k: K) -> El {
        El::Tok(k)
    }
}
impl ElementType for El {
    type Role = ER;
    fn role(&self) -> ER {
        ER::None
    }
}
macro_rules! langs {
    ($($n:ident $name:literal $cat:ident;)*) => {$(
        #[derive(Debug, Clone, Copy)]
        struct $n;
        impl Language for $n {
            const NAME: &'static str = $name;
            const CATEGORY: LanguageCategory = LanguageCategory::$cat;
            type TokenType = K;
            type ElementType = El;
            type TypedRoot = ();
        }
    )*};
}
langs! { P "prog" Programming; M "mark" Markup; C "conf" Config; D "dom" Dsl; S "style" StyleSheet; }

#[derive(Debug, Clone)]
enum Doc {
    L(K, String),
    N(Vec<Doc>),
}
fn doc(g: &mut Gen, depth: usize) -> Doc {
    if depth > 0 && g.chance(1, 3) {
        let n = g.usize(5);
        Doc::N((0..n).map(|_| doc(g, depth - 1)).collect())
    } else {
        let k = if g.bool() { g.below(11) as u8 } else { 11 + g.below(88) as u8 };
        let t = if g.chance(1, 10) { String::new() } else { piece(g) };
        Doc::L(K(k), t)
    }
}
fn piece(g: &mut Gen) -> String {
    if g.bool() { g.pick(&["fn", "a", "é", "<b>", "\"x\"", "&amp;", "'", "\\", "\n", "\r\n", "日本", "😀", "a & b < c", "\t", "</span>", "\u{7f}", "\u{85}", "\u{1}"]).to_string() } else { text::any(g, 8) }
}
fn leaves(d: &Doc, at: &mut usize, out: &mut Vec<(K, usize, usize)>) {
    match d {
        Doc::L(k, s) => {
            out.push((*k, *at, *at + s.len()));
            *at += s.len()
        }
        Doc::N(v) => v.iter().for_each(|d| leaves(d, at, out)),
    }
}
fn whole(d: &Doc, out: &mut String) {
    match d {
        Doc::L(_, s) => out.push_str(s),
        Doc::N(v) => v.iter().for_each(|d| whole(d, out)),
    }
}
fn build<'a, L: Language<TokenType = K, ElementType = El>>(d: &[Doc], a: &'a oak_core::memory::arena::SyntaxArena) -> &'a GreenNode<'a, L> {
    let v: Vec<GreenTree<'a, L>> = d
        .iter()
        .map(|d| match d {
            Doc::L(k, s) => GreenTree::Leaf(GreenLeaf::new(*k, s.len() as u32)),
            Doc::N(v) => GreenTree::Node(build(v, a)),
        })
        .collect();
    a.alloc(GreenNode::new(El::N, a.alloc_slice_copy(&v)))
}
struct Parser(Vec<Doc>);
impl<L: Language<TokenType = K, ElementType = El> + Send + Sync> oak_core::parser::Parser<L> for Parser {
    fn parse<'a, S: Source + ?Sized>(&self, _: &'a S, _: &[TextEdit], cache: &'a mut impl ParseCache<L>) -> oak_core::parser::ParseOutput<'a, L> {
        cache.prepare_generation();
        let cache: &'a _ = cache;
        oak_core::OakDiagnostics { result: Ok(build(&self.0, cache.arena())), diagnostics: vec![] }
    }
}
struct Lex;
impl<L: Language<TokenType = K, ElementType = El> + Send + Sync> oak_core::Lexer<L> for Lex {
    fn lex<'a, S: Source + ?Sized>(&self, _: &'a S, _: &[TextEdit], _: &'a mut impl oak_core::LexerCache<L>) -> oak_core::lexer::LexOutput<L> {
        unreachable!()
    }
}
fn scopes(name: &str, universal: &str, lang: &str, category: LanguageCategory) -> Vec<String> {
    let p = match category {
        LanguageCategory::Markup => "markup",
        LanguageCategory::Config => "config",
        LanguageCategory::Dsl => "dsl",
        _ => "source",
    };
    let mut v = vec![format!("{name}.{lang}")];
    if name != universal {
        v.push(name.to_string())
    }
    v.extend([format!("{p}.{universal}"), universal.to_string(), format!("{p}.{lang}")]);
    v
}
/// The styles a set of scopes may get: of the deepest prefix any of them has in the theme.
fn allowed(t: &HighlightTheme, scopes: &[String]) -> Vec<HighlightStyle> {
    let (mut best, mut out) = (0, vec![]);
    for s in scopes {
        let parts: Vec<&str> = s.split('.').collect();
        for n in (1..=parts.len()).rev() {
            let k = parts[..n].join(".");
            if k.is_empty() {
                break;
            }
            if let Some(x) = t.styles.get(&k) {
                if n > best {
                    best = n;
                    out.clear()
                }
                if n == best {
                    out.push(x.clone())
                }
                break;
            }
        }
    }
    if out.is_empty() {
        out.push(t.styles.get("none").cloned().unwrap_or_default())
    }
    out
}
fn color(g: &mut Gen) -> Option<String> {
    g.chance(2, 3).then(|| g.pick(&["#FF0000", "#F44747", "#00FF00", "#6A9955", "#FFFF00", "#E6DB74", "#0000FF", "#005CC5", "#FF00FF", "#D73A49", "#00FFFF", "#2AA198", "#123456", "red", "#ff0000", "", "a\"b", "<&>", "url('x')"]).to_string())
}
fn style(g: &mut Gen) -> HighlightStyle {
    HighlightStyle { color: color(g), background_color: color(g), bold: g.bool(), italic: g.bool(), underline: g.bool() }
}
fn theme(g: &mut Gen, scopes: &[Vec<String>]) -> HighlightTheme {
    match g.below(5) {
        0 => g.pick(&[Theme::OneDarkPro, Theme::OneLight, Theme::Default]).get_theme(),
        _ => {
            let mut styles = std::collections::HashMap::new();
            let all: Vec<&String> = scopes.iter().flatten().collect();
            for _ in 0..g.usize(10) {
                let s = if all.is_empty() || g.chance(1, 6) { "none".to_string() } else { g.pick(&all).to_string() };
                let n = s.split('.').count();
                let k = s.split('.').take(g.range(1, n)).collect::<Vec<_>>().join(".");
                styles.insert(k, style(g));
            }
            HighlightTheme { name: "t".into(), styles }
        }
    }
}
fn tile(segs: &[HighlightSegment], s: &str, toks: &[(K, usize, usize)]) -> Res {
    let got: Vec<(usize, usize, String)> = segs.iter().map(|x| (x.span.start, x.span.end, x.text.to_string())).filter(|x| x.0 != x.1).collect();
    let want: Vec<(usize, usize, String)> = toks.iter().filter(|t| t.1 != t.2).map(|t| (t.1, t.2, s[t.1..t.2].to_string())).collect();
    ensure_eq!(got, want, "segments", "segments of {s:?}");
    Ok(())
}
fn tree_in<L: Language<TokenType = K, ElementType = El> + Send + Sync + 'static>(g: &mut Gen, c: &mut Case) -> Res {
    let n = g.range(0, 10);
    let d: Vec<Doc> = (0..n).map(|_| doc(g, 4)).collect();
    let mut s = String::new();
    d.iter().for_each(|d| whole(d, &mut s));
    let mut toks = Vec::new();
    let mut at = 0;
    d.iter().for_each(|d| leaves(d, &mut at, &mut toks));
    let sc: Vec<Vec<String>> = toks.iter().map(|t| scopes(t.0.role().name(), universal_name(t.0.role().universal()), L::NAME, L::CATEGORY)).collect();
    let t = theme(g, &sc);
    c.desc(format!("{} {d:?} theme {:?}", L::NAME, t.styles));
    if toks.len() > 3 && t.styles.len() > 2 {
        c.nontrivial()
    }
    // visitor with any theme
    let arena = oak_core::memory::arena::SyntaxArena::default();
    let root: &GreenNode<L> = build(&d, &arena);
    let mut v = HighlightVisitor { theme: &t, segments: Vec::new(), source: &s };
    <HighlightVisitor as Visitor<L>>::visit_node(&mut v, RedNode::new(root, 0));
    let segs = v.segments;
    tile(&segs, &s, &toks)?;
    let mut want = toks.iter().zip(&sc).filter(|(t, _)| t.1 != t.2);
    for seg in segs.iter().filter(|x| x.span.start != x.span.end) {
        let (k, sc) = want.next().unwrap();
        let ok = allowed(&t, sc);
        ensure!(ok.contains(&seg.style), "style", "{:?} of {k:?} with scopes {sc:?} has style {:?}, the theme gives {ok:?}", seg.text, seg.style);
    }
    // the whole way, with the themes there are
    let th = *g.pick(&[Theme::OneDarkPro, Theme::OneLight, Theme::Default]);
    let p = Parser(d.clone());
    let r = match OakHighlighter::new().highlight_with_language::<L, _, _>(&s, th, &p, &Lex) {
        Ok(r) => r,
        Err(e) => return fail("language", format!("{e:?}")),
    };
    ensure_eq!(&*r.source, s.as_str(), "language", "source");
    tile(&r.segments, &s, &toks)?;
    let cfg = th.get_theme();
    for (seg, (_, sc)) in r.segments.iter().filter(|x| x.span.start != x.span.end).zip(toks.iter().zip(&sc).filter(|(t, _)| t.1 != t.2)) {
        ensure!(allowed(&cfg, sc).contains(&seg.style), "style", "{:?} with scopes {sc:?} has style {:?}", seg.text, seg.style);
    }
    // single scopes
    for x in sc.iter().flatten().take(12) {
        ensure_eq!(vec![t.resolve_style(x)], allowed(&t, std::slice::from_ref(x)), "resolve", "{x:?}");
    }
    let u = *g.pick(&U);
    use LanguageCategory as LC;
    let cat = *g.pick(&[LC::Programming, LC::Markup, LC::Config, LC::StyleSheet, LC::Dsl, LC::Modeling, LC::Other]);
    let lang = text::ident(g);
    ensure_eq!(u.scopes(&lang, cat), scopes(universal_name(u), universal_name(u), &lang, cat), "scopes", "{u:?}");
    ensure_eq!(vec![t.get_token_style(u)], allowed(&t, &[universal_name(u).to_string()]), "resolve", "{u:?}");
    let e = *g.pick(&crate::docs::ROLES);
    let en = oak_core::ElementRole::name(&e).to_string();
    ensure_eq!(vec![t.get_element_style(e)], allowed(&t, &[en.clone()]), "resolve", "{e:?}");
    ensure_eq!(e.scopes(&lang, cat), scopes(&en, &en, &lang, cat), "scopes", "{e:?}");
    let j = serde_json::to_string(&t).unwrap();
    let back: HighlightTheme = match serde_json::from_str(&j) {
        Ok(b) => b,
        Err(e) => return fail("theme-json", format!("{e} in {j}")),
    };
    ensure_eq!((back.name, back.styles), (t.name.clone(), t.styles.clone()), "theme-json", "theme through JSON");
    Ok(())
}
fn tree(g: &mut Gen, c: &mut Case) -> Res {
    match g.below(5) {
        0 => tree_in::<P>(g, c),
        1 => tree_in::<M>(g, c),
        2 => tree_in::<C>(g, c),
        3 => tree_in::<D>(g, c),
        _ => tree_in::<S>(g, c),
    }
}

/// (text, attributes) of the text pieces of an HTML export, in order
fn pieces(h: &H, attrs: &str, out: &mut Vec<(String, String)>) -> Res {
    match h {
        H::Text(t) => {
            if !t.is_empty() {
                out.push((t.clone(), attrs.to_string()))
            }
        }
        H::El(n, a, k) => {
            ensure!(n == "span" && attrs.is_empty() || n == "div", "html", "<{n} {a}>");
            for h in k {
                pieces(h, &if n == "span" { unescape(a)? } else { String::new() }, out)?
            }
        }
    }
    Ok(())
}
/// joins neighbours with equal attributes, which cannot be told apart
fn merge(v: Vec<(String, String)>) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = Vec::new();
    for (t, a) in v {
        match out.last_mut() {
            Some(l) if l.1 == a && a.is_empty() => l.0.push_str(&t),
            _ => {
                if !(t.is_empty() && a.is_empty()) {
                    out.push((t, a))
                }
            }
        }
    }
    out
}
fn ansi_color(c: &str) -> &'static str {
    match c {
        "#FF0000" | "#F44747" | "#DC322F" | "#FF5555" => "31",
        "#00FF00" | "#6A9955" | "#859900" => "32",
        "#FFFF00" | "#F1FA8C" | "#E6DB74" => "33",
        "#0000FF" | "#569CD6" | "#005CC5" => "34",
        "#FF00FF" | "#FF79C6" | "#D73A49" => "35",
        "#00FFFF" | "#9CDCFE" | "#2AA198" => "36",
        _ => "37",
    }
}
fn export(g: &mut Gen, c: &mut Case) -> Res {
    let n = g.usize(8);
    let mut s = String::new();
    let mut segs = Vec::new();
    for _ in 0..n {
        let t = piece(g);
        let a = s.len();
        s.push_str(&t);
        segs.push(HighlightSegment { span: HighlightSpan { start: a, end: s.len() }, style: if g.chance(1, 4) { HighlightStyle::default() } else { style(g) }, text: Cow::Owned(t) });
    }
    let r = HighlightResult { segments: segs.clone(), source: Cow::Borrowed(&s) };
    c.desc(format!("{segs:?}"));
    if segs.iter().any(|x| x.text.contains(['<', '&', '"', '\\'])) {
        c.nontrivial()
    }
    // JSON
    for pretty in [false, true] {
        let j = JsonExporter { pretty }.export(&r);
        let v: serde_json::Value = match serde_json::from_str(&j) {
            Ok(v) => v,
            Err(e) => return fail("json", format!("{e} in {j:?}")),
        };
        let mut want = serde_json::json!({"source": s, "segments": []});
        for x in &segs {
            let mut st = serde_json::json!({"bold": x.style.bold, "italic": x.style.italic, "underline": x.style.underline});
            if let Some(c) = &x.style.color {
                st["color"] = c.clone().into()
            }
            if let Some(c) = &x.style.background_color {
                st["background_color"] = c.clone().into()
            }
            want["segments"].as_array_mut().unwrap().push(serde_json::json!({"span": {"start": x.span.start, "end": x.span.end}, "style": st, "text": x.text}));
        }
        ensure_eq!(v, want, "json", "JSON export");
        let back: Result<HighlightResult, _> = serde_json::from_str(&j);
        ensure!(back.as_ref().is_ok_and(|b| b.segments.len() == segs.len() && b.segments.iter().zip(&segs).all(|(a, b)| a.span == b.span && a.style == b.style && a.text == b.text) && b.source == s), "json", "the JSON export read back as a result: {:?}", back.err());
    }
    // ANSI: what each piece of text is shown with
    let mut clean = segs.clone();
    for x in &mut clean {
        x.text = Cow::Owned(x.text.replace('\u{1b}', "?"))
    }
    let a = AnsiExporter.export(&HighlightResult { segments: clean.clone(), source: Cow::Borrowed(&s) });
    let (mut on, mut got) = (Vec::<String>::new(), Vec::<(String, String)>::new());
    let mut rest = a.as_str();
    while !rest.is_empty() {
        if let Some(x) = rest.strip_prefix("\u{1b}[") {
            let Some(e) = x.find('m') else { return fail("ansi", format!("{a:?}")) };
            for p in x[..e].split(';') {
                if p == "0" || p.is_empty() { on.clear() } else { on.push(p.to_string()) }
            }
            rest = &x[e + 1..]
        } else {
            let e = rest.find('\u{1b}').unwrap_or(rest.len());
            on.sort();
            got.push((rest[..e].to_string(), on.join(";")));
            rest = &rest[e..]
        }
    }
    ensure!(on.is_empty(), "ansi", "styles left on at the end: {a:?}");
    let mut want = Vec::new();
    for x in &clean {
        let mut v = Vec::new();
        if x.style.bold { v.push("1") }
        if x.style.italic { v.push("3") }
        if x.style.underline { v.push("4") }
        if let Some(c) = &x.style.color { v.push(ansi_color(c)) }
        v.sort();
        if !x.text.is_empty() {
            want.push((x.text.to_string(), v.join(";")))
        }
    }
    ensure_eq!(merge(got), merge(want), "ansi", "ANSI export");
    // HTML
    for (css, inline) in [(false, false), (false, true), (true, false), (true, true)] {
        let h = HtmlExporter::new(css, inline).export(&r);
        let H::El(_, _, top) = markup(&h)? else { unreachable!() };
        let top: Vec<&H> = top.iter().filter(|h| !matches!(h, H::Text(t) if t.trim().is_empty())).collect();
        ensure_eq!(top.len(), 1 + css as usize, "html", "parts of {h:?}");
        if css {
            ensure!(matches!(top[0], H::El(n, _, _) if n == "style"), "html", "the style block of {h:?}");
        }
        let div = top[css as usize];
        ensure!(matches!(div, H::El(n, a, _) if n == "div" && a.contains("class=\"highlight\"")), "html", "{h:?}");
        let mut got = Vec::new();
        pieces(div, "", &mut got)?;
        let mut t = String::new();
        div.text(&mut t);
        ensure_eq!(t, s, "html", "the text of the HTML export");
        let want: Vec<(String, String)> = segs
            .iter()
            .map(|x| {
                let mut v = Vec::new();
                if inline {
                    if let Some(c) = &x.style.color { v.push(format!("color: {c}")) }
                    if let Some(c) = &x.style.background_color { v.push(format!("background-color: {c}")) }
                    if x.style.bold { v.push("font-weight: bold".into()) }
                    if x.style.italic { v.push("font-style: italic".into()) }
                    if x.style.underline { v.push("text-decoration: underline".into()) }
                } else {
                    if x.style.bold { v.push("bold".to_string()) }
                    if x.style.italic { v.push("italic".into()) }
                    if x.style.underline { v.push("underline".into()) }
                }
                (x.text.to_string(), if v.is_empty() { String::new() } else if inline { format!("style=\"{}\"", v.join("; ")) } else { format!("class=\"{}\"", v.join(" ")) })
            })
            .filter(|x| !x.0.is_empty())
            .collect();
        ensure_eq!(merge(got), merge(want), "html", "HTML export, inline styles {inline}");
    }
    let css = CssExporter.export(&r);
    for k in [".highlight ", ".highlight .bold", ".highlight .italic", ".highlight .underline"] {
        ensure!(css.contains(k), "css", "{k:?} in {css:?}");
    }
    ensure!(css.matches('{').count() == css.matches('}').count(), "css", "{css:?}");
    // the facade
    let th = *g.pick(&[Theme::OneDarkPro, Theme::OneLight, Theme::Default]);
    let o = OakHighlighter::new().theme(th);
    let want = th.get_theme();
    ensure!((&o.theme.name, &o.theme.styles) == (&want.name, &want.styles), "facade", "theme({th:?}) gives the theme {:?}", o.theme.name);
    let own = HighlightTheme { name: "own".into(), styles: [("none".to_string(), style(g))].into() };
    let o2 = OakHighlighter::new().with_theme(own.clone());
    ensure!((&o2.theme.name, &o2.theme.styles) == (&own.name, &own.styles), "facade", "with_theme gives the theme {:?}", o2.theme);
    let Ok(whole) = Highlighter::highlight(&o, &s, "any", th) else { return fail("facade", "highlight fails") };
    ensure!(whole.source == s && whole.segments.iter().map(|x| x.text.to_string()).collect::<String>() == s, "facade", "highlight of {s:?}");
    for x in &whole.segments {
        ensure!(s.get(x.span.start..x.span.end) == Some(&*x.text) && allowed(&want, &["none".to_string()]).contains(&x.style), "facade", "{x:?} in the highlight of {s:?}");
    }
    let (a, b) = (g.usize(20), g.usize(20));
    ensure_eq!(HighlightSpan::from(oak_core::Range { start: a, end: a + b }), HighlightSpan { start: a, end: a + b }, "facade", "span of a range");
    for (f, e) in [(ExportFormat::Html, HtmlExporter::new(true, true).export(&whole)), (ExportFormat::Json, JsonExporter { pretty: true }.export(&whole)), (ExportFormat::Ansi, AnsiExporter.export(&whole)), (ExportFormat::Css, css.clone())] {
        let got = o.highlight_format(&s, "any", th, f).map_err(|e| e.to_string());
        ensure_eq!(got, Ok(e), "facade", "{f:?}");
    }
    ensure!(o.highlight_format(&s, "any", th, ExportFormat::Xml).is_err(), "facade", "XML is not supported");
    Ok(())
}
pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C29",
        rule: "one case = a tree of a language in one of five categories, highlighted with a generated or built-in theme (tree), or a list of styled segments in every export format (export); non-trivial: over 3 tokens and 2 styles / text or colours with characters that need escaping",
        assumptions: vec!["of styles at equal depth any is accepted", "texts in terminals have no escape characters of their own"],
        facets: vec![Facet::new("tree", 30_000, 1_000_000, tree), Facet::new("export", 30_000, 1_000_000, export)],
    }]
}
