//! C26: what editors are sent survives being written as JSON and read again.
use kit::*;
use oak_core::{Range, UniversalElementRole as ER};
use oak_lsp::types as l;
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};
use std::fmt::Debug;

fn r(g: &mut Gen) -> Range<usize> {
    let a = *g.pick(&[0usize, 1, 7, 300, usize::MAX - 1, u32::MAX as usize + 5]);
    Range { start: a, end: a.saturating_add(g.usize(3)) }
}
fn s(g: &mut Gen) -> String {
    if g.bool() { g.pick(&["", "a", "é\"\\\n", "😀", "<b>"]).to_string() } else { text::any(g, 8) }
}
fn o<T>(g: &mut Gen, f: impl FnOnce(&mut Gen) -> T) -> Option<T> {
    if g.bool() { Some(f(g)) } else { None }
}
fn v<T>(g: &mut Gen, f: impl Fn(&mut Gen) -> T) -> Vec<T> {
    (0..g.usize(4)).map(|_| f(g)).collect()
}
fn u(g: &mut Gen) -> u32 {
    *g.pick(&[0, 1, 9, u32::MAX])
}
fn pos(g: &mut Gen) -> l::Position {
    l::Position { line: u(g), character: u(g) }
}
fn lr(g: &mut Gen) -> l::LspRange {
    l::LspRange { start: pos(g), end: pos(g) }
}
fn loc(g: &mut Gen) -> l::LocationRange {
    l::LocationRange { uri: s(g).into(), range: r(g) }
}
const ROLES: &[ER] = &[ER::Root, ER::Container, ER::Definition, ER::Binding, ER::Reference, ER::Typing, ER::Metadata, ER::Attribute, ER::AttributeKey, ER::Detail, ER::Name, ER::Embedded, ER::Documentation, ER::Statement, ER::Expression, ER::Call, ER::Value, ER::Error, ER::None];
const KINDS: &[l::SymbolKind] = {
    use l::SymbolKind::*;
    &[File, Module, Namespace, Package, Class, Method, Property, Field, Constructor, Enum, Interface, Function, Variable, Constant, String, Number, Boolean, Array, Object, Key, Null, EnumMember, Struct, Event, Operator, TypeParameter]
};
const COMPLETIONS: &[l::CompletionItemKind] = {
    use l::CompletionItemKind::*;
    &[Text, Method, Function, Constructor, Field, Variable, Class, Interface, Module, Property, Unit, Value, Enum, Keyword, Snippet, Color, File, Reference, Folder, EnumMember, Constant, Struct, Event, Operator, TypeParameter]
};
fn edit(g: &mut Gen) -> l::TextEdit {
    l::TextEdit { range: r(g), new_text: s(g) }
}
fn diag(g: &mut Gen) -> l::Diagnostic {
    use l::DiagnosticSeverity::*;
    l::Diagnostic { range: r(g), severity: o(g, |g| *g.pick(&[Error, Warning, Information, Hint])), code: o(g, s), source: o(g, s), message: s(g) }
}
fn item(g: &mut Gen, depth: usize) -> l::StructureItem {
    l::StructureItem {
        name: s(g),
        detail: o(g, s),
        role: *g.pick(ROLES),
        kind: *g.pick(KINDS),
        range: r(g),
        selection_range: r(g),
        deprecated: g.bool(),
        children: if depth > 0 { v(g, |g| item(g, depth - 1)) } else { vec![] },
    }
}
fn view(g: &mut Gen, depth: usize) -> oak_structural_view::StructureItem {
    oak_structural_view::StructureItem { name: s(g), detail: o(g, s), role: *g.pick(ROLES), range: r(g), selection_range: r(g), deprecated: g.bool(), children: if depth > 0 { v(g, |g| view(g, depth - 1)) } else { vec![] } }
}
fn sel(g: &mut Gen, depth: usize) -> l::SelectionRange {
    l::SelectionRange { range: r(g), parent: if depth > 0 { o(g, |g| Box::new(sel(g, depth - 1))) } else { None } }
}
fn ranges(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().all(ranges),
        Value::Object(m) => m.iter().all(|(k, v)| {
            let is_range = matches!(k.as_str(), "range" | "selection_range");
            (!is_range || v.is_null() || (v.as_object().is_some_and(|o| o.len() == 2 && (o["start"].is_u64() && o["end"].is_u64() || o["start"].is_object())))) && ranges(v)
        }),
        _ => true,
    }
}
fn trip<T: Serialize + DeserializeOwned + Debug>(c: &mut Case, what: &str, x: T) -> Res {
    c.label(what);
    c.desc(format!("{what} {x:?}"));
    let text = serde_json::to_string(&x);
    ensure!(text.is_ok(), format!("{what}/write"), "writing fails: {:?}", text.err());
    let text = text.unwrap();
    let val: Value = serde_json::from_str(&text).unwrap();
    ensure!(ranges(&val), format!("{what}/range"), "a range is not written as start and end: {text}");
    let y: Result<T, _> = serde_json::from_str(&text);
    ensure!(y.is_ok(), format!("{what}/read"), "reading fails: {:?} from {text}", y.err());
    let y = y.unwrap();
    ensure_eq!(format!("{y:?}"), format!("{x:?}"), format!("{what}/trip"), "read back from {text}");
    let y: Result<T, _> = serde_json::from_value(val);
    ensure!(y.is_ok_and(|y| format!("{y:?}") == format!("{x:?}")), format!("{what}/value"), "reading from a value");
    if text.len() > 60 {
        c.nontrivial()
    }
    Ok(())
}
fn case(g: &mut Gen, c: &mut Case) -> Res {
    match g.usize(27) {
        0 => { let x = loc(g); trip(c, "LocationRange", x) }
        1 => { let x = loc(g); let y: l::Location = x.clone().into(); let z: l::LocationRange = y.clone().into(); ensure!(y.uri == x.uri && y.range == x.range && z == x, "convert", "converting {x:?}"); Ok(()) }
        2 => { let x = l::Location::<l::LspRange> { uri: s(g).into(), range: lr(g) }; trip(c, "Location<LspRange>", x) }
        3 => { let x = l::Hover { contents: s(g), range: o(g, r) }; trip(c, "Hover", x) }
        4 => { let x = item(g, 2); trip(c, "StructureItem", x) }
        5 => { let x = l::InitializeParams { root_uri: o(g, s), workspace_folders: v(g, |g| l::WorkspaceFolder { uri: s(g), name: s(g) }) }; trip(c, "InitializeParams", x) }
        6 => { let x = l::WorkspaceSymbol { name: s(g), kind: *g.pick(KINDS), location: loc(g), container_name: o(g, s) }; trip(c, "WorkspaceSymbol", x) }
        7 => { let x = l::SymbolInformation { name: s(g), kind: *g.pick(KINDS), location: loc(g), container_name: o(g, s) }; trip(c, "SymbolInformation", x) }
        8 => { let mut x = l::WorkspaceEdit::default(); if g.bool() { x.changes.insert(s(g), v(g, edit)); } trip(c, "WorkspaceEdit", x) }
        9 => { let x = edit(g); trip(c, "TextEdit", x) }
        10 => { let x = l::CompletionItem { label: s(g), kind: o(g, |g| *g.pick(COMPLETIONS)), detail: o(g, s), documentation: o(g, s), insert_text: o(g, s) }; trip(c, "CompletionItem", x) }
        11 => { let x = diag(g); trip(c, "Diagnostic", x) }
        12 => { let x = l::SemanticTokens { result_id: o(g, s), data: v(g, |g| l::SemanticToken { delta_line: u(g), delta_start: u(g), length: u(g), token_type: u(g), token_modifiers_bitset: u(g) }) }; trip(c, "SemanticTokens", x) }
        13 => { let x = sel(g, 4); trip(c, "SelectionRange", x) }
        14 => {
            let x = l::SignatureHelp { signatures: v(g, |g| l::SignatureInformation { label: s(g), documentation: o(g, s), parameters: o(g, |g| v(g, |g| l::ParameterInformation { label: s(g), documentation: o(g, s) })), active_parameter: o(g, u) }), active_signature: o(g, u), active_parameter: o(g, u) };
            trip(c, "SignatureHelp", x)
        }
        15 => { let x = l::InlayHint { position: pos(g), label: s(g), kind: o(g, |g| *g.pick(&[l::InlayHintKind::Type, l::InlayHintKind::Parameter])), tooltip: o(g, s), padding_left: o(g, |g| g.bool()), padding_right: o(g, |g| g.bool()) }; trip(c, "InlayHint", x) }
        16 => {
            let x = l::CodeAction { title: s(g), kind: o(g, s), diagnostics: o(g, |g| v(g, diag)), edit: None, command: o(g, |g| l::Command { title: s(g), command: s(g), arguments: o(g, |g| v(g, |g| json!({"k": s(g)}))) }), is_preferred: o(g, |g| g.bool()), disabled: o(g, |g| l::CodeActionDisabled { reason: s(g) }) };
            trip(c, "CodeAction", x)
        }
        17 => { let x = l::DocumentHighlight { range: lr(g), kind: o(g, |g| *g.pick(&[l::DocumentHighlightKind::Text, l::DocumentHighlightKind::Read, l::DocumentHighlightKind::Write])) }; trip(c, "DocumentHighlight", x) }
        18 => { let x = l::ColorInformation { range: lr(g), color: l::Color { red: *g.pick(&[0.0, 0.5, 1.0]), green: 0.25, blue: 1.0, alpha: *g.pick(&[0.0, 1.0]) } }; trip(c, "ColorInformation", x) }
        19 => { let x = oak_folding::FoldingRange { range: r(g), kind: o(g, |g| *g.pick(&[oak_folding::FoldingRangeKind::Comment, oak_folding::FoldingRangeKind::Imports, oak_folding::FoldingRangeKind::Region])) }; trip(c, "FoldingRange", x) }
        20 => { let x = oak_hover::Hover { contents: s(g), range: o(g, r) }; trip(c, "hover::Hover", x) }
        21 => { let x = view(g, 2); trip(c, "view::StructureItem", x) }
        22 => { let x = oak_semantic_tokens::SemanticToken { delta_line: u(g), delta_start: u(g), length: u(g), token_type: u(g), token_modifiers_bitset: u(g) }; trip(c, "semantic_tokens::SemanticToken", x) }
        23 => { let x = oak_navigation::Location { uri: s(g).into(), range: r(g) }; let y: l::LocationRange = x.clone().into(); let z: l::Location = x.clone().into(); ensure!(y.uri == x.uri && y.range == x.range && z.uri == x.uri && z.range == x.range, "convert", "converting {x:?}"); trip(c, "navigation::Location", x) }
        24 => { let x = oak_symbols::SymbolInformation { name: s(g), role: *g.pick(ROLES), uri: s(g).into(), range: r(g), container_name: o(g, s) }; trip(c, "symbols::SymbolInformation", x) }
        25 => { let x = l::SourcePosition { line: u(g), column: u(g), offset: g.usize(9), length: g.usize(9) }; trip(c, "SourcePosition", x) }
        _ => { let x = l::SourceLocation { line: u(g), column: u(g), url: o(g, |_| url::Url::parse("file:///a%20b").unwrap()) }; trip(c, "SourceLocation", x) }
    }
}
/// Requests an editor may send are read as they are meant.
fn requests(g: &mut Gen, c: &mut Case) -> Res {
    use oak_lsp::handlers::*;
    let (uri, q) = (s(g), s(g));
    let a = g.usize(1000);
    let b = a + g.usize(10);
    c.desc(format!("{uri:?} {q:?} {a}..{b}"));
    c.nontrivial();
    let x: Result<UriRequest, _> = serde_json::from_value(json!({"uri": uri}));
    ensure!(x.is_ok_and(|x| x.uri == uri), "uri", "UriRequest");
    let x: Result<RangeRequest, _> = serde_json::from_value(json!({"uri": uri, "range": {"start": a, "end": b}}));
    ensure!(x.is_ok_and(|x| x.uri == uri && x.range.start == a && x.range.end == b), "range", "RangeRequest");
    let x: Result<PositionRequest, _> = serde_json::from_value(json!({"uri": uri, "position": a}));
    ensure!(x.is_ok_and(|x| x.uri == uri && x.position == a), "position", "PositionRequest");
    let x: Result<QueryRequest, _> = serde_json::from_value(json!({"query": q}));
    ensure!(x.is_ok_and(|x| x.query == q), "query", "QueryRequest");
    let x: Result<RenameRequest, _> = serde_json::from_value(json!({"uri": uri, "range": {"start": a, "end": b}, "new_name": q}));
    ensure!(x.is_ok_and(|x| x.uri == uri && x.range.start == a && x.range.end == b && x.new_name == q), "rename", "RenameRequest");
    for bad in [json!({}), json!({"uri": 1}), json!({"uri": uri, "range": {"start": -1, "end": 2}}), json!({"uri": uri, "range": {"start": "1", "end": 2}})] {
        let x: Result<RangeRequest, _> = serde_json::from_value(bad.clone());
        ensure!(x.is_err(), "bad", "RangeRequest is read from {bad}");
    }
    Ok(())
}
pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C26",
        rule: "one case = a generated value of one of 27 types (types), or of each request (requests); non-trivial: over 60 characters of JSON / every requests case",
        assumptions: vec!["values are compared by their Debug text"],
        facets: vec![Facet::new("types", 180_000, 2_000_000, case), Facet::new("requests", 60_000, 200_000, requests)],
    }]
}
