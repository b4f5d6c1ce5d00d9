//! C14: errors keep what they say; C15: JSON round trips; C16: generated source code.
use crate::parser::tokens;
use crate::toy::T;
use kit::*;
use oak_core::errors::{OakError, OakErrorKind};
use oak_core::helpers::{create_file, source_from_path};
use oak_core::lexer::{Token, TokenStream};
use oak_core::source::{Source, SourceBuffer, ToSource};
use oak_core::tree::{ProvenancePart, TokenProvenance};
use oak_core::{ElementType, LanguageCategory, TokenType, OakDiagnostics, UniversalElementRole, UniversalTokenRole};
use std::io::Write;

/// What an error says: a name, the words it must show, where, in which source.
type Says = (&'static str, Vec<String>, Option<usize>, Option<u32>);
fn says(e: &OakError) -> Says {
    use OakErrorKind::*;
    let m = |k, s: &String| (k, vec![s.clone()], None, None);
    match e.kind() {
        IoError { error, source_id } => ("io", vec![error.to_string()], None, *source_id),
        SyntaxError { message, offset, source_id } => ("syntax", vec![message.clone()], Some(*offset), *source_id),
        UnexpectedCharacter { character, offset, source_id } => ("char", vec![character.to_string()], Some(*offset), *source_id),
        UnexpectedToken { token, offset, source_id } => ("token", vec![token.clone()], Some(*offset), *source_id),
        UnexpectedEof { offset, source_id } => ("eof", vec![], Some(*offset), *source_id),
        ExpectedToken { expected, offset, source_id } => ("expected", vec![expected.clone()], Some(*offset), *source_id),
        ExpectedName { name_kind, offset, source_id } => ("name", vec![name_kind.clone()], Some(*offset), *source_id),
        TrailingCommaNotAllowed { offset, source_id } => ("comma", vec![], Some(*offset), *source_id),
        CustomError { message } => m("custom", message),
        InvalidTheme { message } => m("theme", message),
        UnsupportedFormat { format } => m("format-unsupported", format),
        ColorParseError { color } => m("color", color),
        FormatError { message } => m("format", message),
        SemanticError { message } => m("semantic", message),
        ProtocolError { message } => m("protocol", message),
        SerdeError { message } => m("serde", message),
        DeserializeError { message } => m("deserialize", message),
        XmlError { message } => m("xml", message),
        ZipError { message } => m("zip", message),
        ParseError { message } => m("parse", message),
        InternalError { message } => m("internal", message),
        TestFailure { path, expected, actual } => ("test", vec![path.display().to_string(), expected.clone(), actual.clone()], None, None),
        TestRegenerated { path } => ("regenerated", vec![path.display().to_string()], None, None),
    }
}
/// Makes one error and says what it must say.
fn one(g: &mut Gen) -> (OakError, Says) {
    let s = if g.bool() { text::ident(g) } else { text::any(g, 10) };
    let o = match g.usize(3) { 0 => g.usize(5), 1 => g.usize(100_000), _ => usize::MAX };
    let id = g.bool().then(|| g.below(1 << 32) as u32);
    let p = std::path::PathBuf::from(text::ident(g));
    let v = vec![s.clone()];
    let msg = |k: &'static str| (k, vec![s.clone()], None, None);
    match g.usize(30) {
        0 => { let i = g.below(1000) as u32; (OakError::io_error(std::io::Error::other(s.clone()), i), ("io", v, None, Some(i))) }
        1 => (OakError::syntax_error(s.clone(), o, id), ("syntax", v, Some(o), id)),
        2 => { let ch = text::any_char(g); (OakError::unexpected_character(ch, o, id), ("char", vec![ch.to_string()], Some(o), id)) }
        3 => (OakError::unexpected_token(s.clone(), o, id), ("token", v, Some(o), id)),
        4 => (OakError::unexpected_eof(o, id), ("eof", vec![], Some(o), id)),
        5 => (OakError::expected_token(s.clone(), o, id), ("expected", v, Some(o), id)),
        6 => (OakError::expected_name(s.clone(), o, id), ("name", v, Some(o), id)),
        7 => (OakError::trailing_comma_not_allowed(o, id), ("comma", vec![], Some(o), id)),
        8 => (OakError::custom_error(s.clone()), msg("custom")),
        9 => (OakError::invalid_theme(s.clone()), msg("theme")),
        10 => (OakError::unsupported_format(s.clone()), msg("format-unsupported")),
        11 => (OakError::color_parse_error(s.clone()), msg("color")),
        12 => (OakError::format_error(s.clone()), msg("format")),
        13 => (OakError::semantic_error(s.clone()), msg("semantic")),
        14 => (OakError::protocol_error(s.clone()), msg("protocol")),
        15 => (OakError::serde_error(s.clone()), msg("serde")),
        16 => (OakError::deserialize_error(s.clone()), msg("deserialize")),
        17 => (OakError::xml_error(s.clone()), msg("xml")),
        18 => (OakError::zip_error(s.clone()), msg("zip")),
        19 => (OakError::parse_error(s.clone()), msg("parse")),
        20 => (OakError::internal_error(s.clone()), msg("internal")),
        21 => { let e = std::io::Error::new(std::io::ErrorKind::NotFound, s.clone()); (e.into(), ("io", v, None, None)) }
        22 => { let a = text::ident(g); (OakError::test_failure(p.clone(), s.clone(), a.clone()), ("test", vec![p.display().to_string(), s, a], None, None)) }
        23 | 24 => {
            let t = oak_core::source::SourceText::new_with_id(text::any(g, 6), id.unwrap_or(7));
            let id = Some(id.unwrap_or(7));
            match g.usize(5) {
                0 => (t.syntax_error(s.clone(), o), ("syntax", v, Some(o), id)),
                1 => { let ch = text::any_char(g); (t.unexpected_character(ch, o), ("char", vec![ch.to_string()], Some(o), id)) }
                2 => (t.expected_token(s.clone(), o), ("expected", v, Some(o), id)),
                3 => (t.expected_name(s.clone(), o), ("name", v, Some(o), id)),
                _ => (t.trailing_comma_not_allowed(o), ("comma", vec![], Some(o), id)),
            }
        }
        25 => (<OakError as serde::ser::Error>::custom(&s), msg("serde")),
        26 => (<OakError as serde::de::Error>::custom(&s), msg("deserialize")),
        27 => match s.parse::<i8>() {
            Err(e) => (e.clone().into(), ("parse", vec![e.to_string()], None, None)),
            Ok(_) => (OakError::parse_error(s.clone()), msg("parse")),
        },
        28 => match s.parse::<f64>() {
            Err(e) => (e.clone().into(), ("parse", vec![e.to_string()], None, None)),
            Ok(_) => (OakError::parse_error(s.clone()), msg("parse")),
        },
        _ => (OakError::test_regenerated(p.clone()), ("regenerated", vec![p.display().to_string()], None, None)),
    }
}
/// Kinds whose errors carry a source.
const LOCATED: &[&str] = &["io", "syntax", "char", "token", "eof", "expected", "name", "comma"];

fn json<V: serde::Serialize + for<'d> serde::Deserialize<'d>>(v: &V) -> Result<V, Fail> {
    let s = serde_json::to_string(v).map_err(|e| Fail { sig: "json".into(), msg: format!("writing fails: {e}") })?;
    serde_json::from_str(&s).map_err(|e| Fail { sig: "json".into(), msg: format!("reading {s} fails: {e}") })
}
/// Ranges written with the helpers for them.
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
struct Ranges {
    #[serde(with = "oak_core::serde_range")]
    a: core::range::Range<usize>,
    #[serde(with = "oak_core::serde_range::option")]
    b: Option<core::range::Range<u32>>,
    #[serde(with = "oak_core::serde_arc_str")]
    c: triomphe::Arc<str>,
}
/// Kinds whose role is themselves, with nothing but the defaults.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
struct Kind(UniversalTokenRole);
impl TokenType for Kind {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = Kind(UniversalTokenRole::Eof);
    fn role(&self) -> UniversalTokenRole {
        self.0
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
struct Node(UniversalElementRole);
impl From<Kind> for Node {
    fn from(_: Kind) -> Self {
        Node(UniversalElementRole::None)
    }
}
impl ElementType for Node {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        self.0
    }
}
const ALL_TOKENS: [UniversalTokenRole; 11] = { use UniversalTokenRole::*; [Keyword, Name, Literal, Escape, Operator, Punctuation, Comment, Whitespace, Error, None, Eof] };
const ALL_ELEMENTS: [UniversalElementRole; 19] = { use UniversalElementRole::*; [Root, Container, Definition, Binding, Reference, Typing, Documentation, Metadata, Attribute, AttributeKey, Detail, Name, Statement, Expression, Call, Value, Embedded, Error, None] };
struct Words(Vec<String>);
impl ToSource for Words {
    fn to_source(&self, b: &mut SourceBuffer) {
        self.0.iter().for_each(|w| b.push(w))
    }
}

pub fn all() -> Vec<Check> {
    vec![
        Check {
            id: "C14",
            rule: "one case = a list of errors of any kind made by the constructors, cloned, given a source and collected; non-trivial: an error that has a position",
            assumptions: vec!["files are written into a scratch directory of the check"],
            facets: vec![
                Facet::new("errors", 450_000, 3_000_000, |g, c| {
                    let (e, want) = one(g);
                    c.desc(format!("{want:?}"));
                    if want.2.is_some() {
                        c.nontrivial()
                    }
                    ensure_eq!(says(&e), want, "made", "what the constructor keeps");
                    ensure_eq!(e.offset(), want.2, "offset", "offset()");
                    let copy = e.clone();
                    ensure_eq!(says(&copy), want, "clone", "a clone");
                    if let (OakErrorKind::IoError { error: a, .. }, OakErrorKind::IoError { error: b, .. }) = (e.kind(), copy.kind()) {
                        ensure_eq!(b.kind(), a.kind(), "clone", "kind of I/O error in a clone")
                    }
                    for (what, shown) in [("Display", format!("{e}")), ("Debug", format!("{e:?}")), ("kind", format!("{}", e.kind()))] {
                        ensure!(shown.starts_with(e.kind().key()), "display", "{what} does not start with the key: {shown}");
                        for w in &want.1 {
                            let found = if want.0 == "test" || want.0 == "regenerated" { shown.contains(w.trim_matches('"')) } else { shown.contains(w.as_str()) };
                            ensure!(found, "display", "{what} does not show {w:?}: {shown}")
                        }
                        if let Some(o) = want.2 {
                            ensure!(shown.contains(&o.to_string()), "display", "{what} does not show the offset {o}: {shown}")
                        }
                    }
                    let id = g.below(1 << 32) as u32;
                    let located = e.with_source_id(id);
                    let mut with = want.clone();
                    if LOCATED.contains(&want.0) {
                        with.3 = Some(id)
                    }
                    ensure_eq!(says(&located), with, "with_source_id", "with_source_id({id})");
                    ensure_eq!(says(&copy), want, "clone", "a clone after the original was changed");
                    // containers
                    let d: Vec<OakError> = (0..g.usize(3)).map(|_| one(g).0).collect();
                    let (n, fatal) = (d.len(), g.bool());
                    let x = OakDiagnostics { result: if fatal { Err(copy) } else { Ok(5) }, diagnostics: d };
                    ensure_eq!(x.has_errors(), fatal || n > 0, "has_errors", "has_errors with {n} diagnostics");
                    ensure_eq!(x.clone().has_errors(), fatal || n > 0, "has_errors", "of a clone");
                    ensure!(!OakDiagnostics::success(1).has_errors() && OakDiagnostics::<i32>::error(located).has_errors() && !OakDiagnostics::new(Ok(1)).has_errors(), "has_errors", "of success/error/new");
                    Ok(())
                }),
                Facet::new("files", 300, 3_000, |g, c| {
                    let dir = scratch().join(format!("oak-verif-files-{}-{:?}", std::process::id(), std::thread::current().id()));
                    std::fs::create_dir_all(&dir).unwrap();
                    let t = text::any(g, 60);
                    let deep = (0..g.usize(3)).fold(dir.clone(), |d, _| d.join(text::ident(g))).join("f.txt");
                    c.desc(format!("{t:?}"));
                    c.nontrivial();
                    let r = (|| {
                        ensure!(source_from_path(&deep).is_err(), "missing", "a file that is not there is read");
                        let made = create_file(&deep);
                        ensure!(made.is_ok(), "create", "create_file fails: {made:?}");
                        made.unwrap().write_all(t.as_bytes()).unwrap();
                        let s = source_from_path(&deep);
                        ensure!(s.is_ok(), "read", "source_from_path fails");
                        let s = s.unwrap();
                        ensure_eq!(s.get_text_from(0), t.as_str(), "read", "text of the file");
                        ensure_eq!(s.length(), t.len(), "read", "length of the file");
                        Ok(())
                    })();
                    std::fs::remove_dir_all(&dir).ok();
                    r
                }),
            ],
        },
        Check {
            id: "C15",
            rule: "one case = tokens, a token stream, provenance, ranges, roles and categories with generated contents, written as JSON and read back; non-trivial: at least one token with a non-empty span",
            assumptions: vec![],
            facets: vec![Facet::new("json", 60_000, 1_000_000, |g, c| {
                let (raw, toks) = tokens(g, true);
                let mut at = 0;
                let tokens: Vec<Token<T>> = toks.iter().map(|(k, s)| { at += s.len(); Token { kind: *k, span: (at - s.len()..at).into() } }).collect();
                c.desc(format!("{toks:?}"));
                if tokens.iter().any(|t| t.length() > 0) {
                    c.nontrivial()
                }
                for (t, (_, s)) in tokens.iter().zip(&toks) {
                    ensure_eq!(t.length(), s.len(), "length", "length of {t:?}");
                    ensure_eq!(json(t)?, *t, "token", "a token");
                }
                let s = TokenStream { raw: raw.clone(), tokens: tokens.clone().into() };
                let r = json(&s)?;
                ensure_eq!((r.raw, r.tokens.to_vec()), (raw, tokens), "stream", "a token stream");
                let p = TokenProvenance { parts: g.vec(5, |g| match g.usize(3) { 0 => { let a = g.usize(1000); ProvenancePart::Source((a..a + g.usize(50)).into()) } 1 => ProvenancePart::Synthesized(text::any(g, 8)), _ => ProvenancePart::OpaqueTag(text::any(g, 8)) }) };
                ensure_eq!(json(&p)?, p, "provenance", "provenance");
                let a = g.below(u64::MAX) as usize;
                let b = g.below(1 << 32) as u32;
                let x = Ranges { a: (a / 2..a).into(), b: g.bool().then(|| (b / 3..b).into()), c: text::any(g, 12).as_str().into() };
                ensure_eq!(json(&x)?, x, "range", "ranges");
                // roles are written in snake case, each under a name of its own
                macro_rules! roles {
                    ($t:ident: $($r:ident)*) => {
                        let all = [$($t::$r),*];
                        let names: Vec<String> = all.iter().map(|r| serde_json::to_value(r).unwrap().as_str().unwrap_or("").to_string()).collect();
                        for (i, r) in all.iter().enumerate() {
                            ensure_eq!(json(r)?, *r, "role", "{r:?}");
                            ensure_eq!(names[i].replace('_', ""), format!("{r:?}").to_lowercase(), "role", "the name of {r:?}");
                            ensure_eq!(r.universal(), *r, "universal", "the universal role of {r:?}");
                            ensure!(all.iter().filter(|o| o.name() == r.name()).count() == 1, "scope", "two roles have the scope name {:?}", r.name());
                        }
                    };
                }
                use oak_core::{ElementRole, TokenRole};
                roles!(UniversalTokenRole: Keyword Name Literal Escape Operator Punctuation Comment Whitespace Error None Eof);
                roles!(UniversalElementRole: Root Container Definition Binding Reference Typing Documentation Metadata Attribute AttributeKey Detail Name Statement Expression Call Value Embedded Error None);
                // what a kind says of itself follows from its role
                let (r, other) = (*g.pick(&ALL_TOKENS), *g.pick(&ALL_TOKENS));
                let k = Kind(r);
                use UniversalTokenRole as TR;
                ensure_eq!((k.is_role(other), k.is_universal(other)), (r == other, r == other), "kind", "{r:?} is {other:?}");
                ensure_eq!((k.is_comment(), k.is_whitespace(), k.is_error(), k.is_ignored(), k.is_end_of_stream()), (r == TR::Comment, r == TR::Whitespace, r == TR::Error, matches!(r, TR::Comment | TR::Whitespace), r == TR::Eof), "kind", "comment, white space, error, ignored, end of stream of a token kind with role {r:?}");
                let (r, other) = (*g.pick(&ALL_ELEMENTS), *g.pick(&ALL_ELEMENTS));
                let k = Node(r);
                use UniversalElementRole as ER;
                ensure_eq!((k.is_role(other), k.is_universal(other), k.is_root(), k.is_error()), (r == other, r == other, r == ER::Root, r == ER::Error), "kind", "role {other:?}, root and error of an element kind with role {r:?}");
                for k in [LanguageCategory::Programming, LanguageCategory::Markup, LanguageCategory::Config, LanguageCategory::StyleSheet, LanguageCategory::Dsl, LanguageCategory::Modeling, LanguageCategory::Other] {
                    ensure_eq!(json(&k)?, k, "category", "category {k:?}")
                }
                Ok(())
            })],
        },
        Check {
            id: "C16",
            rule: "one case = a list of pieces (words, punctuation, white space, empty ones) pushed one after another; non-trivial: at least two adjacent words",
            assumptions: vec!["a word consists of letters, digits and underscores"],
            facets: vec![Facet::new("pieces", 600_000, 3_000_000, |g, c| {
                let ps: Vec<String> = g.vec(12, |g| match g.usize(6) { 0 => text::any(g, 4), 1 => String::new(), 2 => g.pick(&["(", ")", "+", ";", " ", "\n", "\"", "中", "é", "_", "5"]).to_string(), _ => text::ident(g) });
                c.desc(format!("{ps:?}"));
                let word = |c: char| c.is_alphanumeric() || c == '_';
                let mut want = String::new();
                let mut joins = 0;
                for p in &ps {
                    if let (Some(a), Some(b)) = (want.chars().last(), p.chars().next()) {
                        if word(a) && word(b) {
                            want.push(' ');
                            joins += 1
                        }
                    }
                    want.push_str(p)
                }
                if joins >= 1 {
                    c.nontrivial()
                }
                let mut b = SourceBuffer::new();
                ps.iter().for_each(|p| b.push(p));
                ensure_eq!(b.to_string(), want, "buffer", "pieces joined");
                ensure_eq!(String::from(b.clone()), want, "buffer", "as a string");
                ensure_eq!(b.finish(), want, "buffer", "finish");
                ensure_eq!(Words(ps).to_source_string(), want, "to_source", "to_source_string");
                Ok(())
            })],
        },
    ]
}
