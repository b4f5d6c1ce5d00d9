// what every generated program begins with
#![feature(new_range_api)]
#![allow(warnings)]
extern crate alloc;
pub use oak_core::{OakError, language::{ElementType, Language, TokenType, UniversalElementRole, UniversalTokenRole}, tree::{RedLeaf, RedNode, RedTree}};
pub use oak_json::{JsonLanguage, ast::{JsonArray, JsonBoolean, JsonField, JsonNull, JsonNumber, JsonObject, JsonString, JsonValue}, lexer::JsonLexer, parser::JsonParser};
pub use oak_macros::{json, oak_test, test_lexer, test_parser};
pub use oak_pretty_print::{AsDocument, Doc, Document, FormatConfig, FormatContext, FormatResult, FormatRule, ToDocument, define_rules, doc};
pub type Out = Result<(), String>;
pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Out {
    if got == want { Ok(()) } else { Err(format!("{what}: {got:?} instead of {want:?}")) }
}
pub fn nul() -> JsonValue { JsonValue::Null(JsonNull { span: (0..0).into() }) }
pub fn boo(value: bool) -> JsonValue { JsonValue::Boolean(JsonBoolean { value, span: (0..0).into() }) }
pub fn num(value: f64) -> JsonValue { JsonValue::Number(JsonNumber { value, span: (0..0).into() }) }
pub fn st(value: &str) -> JsonValue { JsonValue::String(JsonString { value: value.to_string(), span: (0..0).into() }) }
pub fn arr(elements: Vec<JsonValue>) -> JsonValue { JsonValue::Array(JsonArray { elements, span: (0..0).into() }) }
pub fn obj(fields: Vec<(&str, JsonValue)>) -> JsonValue {
    let fields = fields.into_iter().map(|(k, value)| JsonField { name: JsonString { value: k.to_string(), span: (0..0).into() }, value, span: (0..0).into() }).collect();
    JsonValue::Object(JsonObject { fields, span: (0..0).into() })
}
pub fn flat(d: &Document, out: &mut Vec<String>) {
    match d {
        Document::Nil => {}
        Document::Text(t) => out.push(format!("text {t:?}")),
        Document::Concat(v) => v.iter().for_each(|d| flat(d, out)),
        Document::Group(d) => { out.push("group(".into()); flat(d, out); out.push(")".into()) }
        Document::Indent(d) => { out.push("indent(".into()); flat(d, out); out.push(")".into()) }
        Document::Line => out.push("line".into()),
        Document::SoftLine => out.push("soft_line".into()),
        Document::SoftLineSpace => out.push("soft_line_space".into()),
        Document::HardLine => out.push("hard_line".into()),
    }
}
pub fn flattened(d: &Document) -> Vec<String> { let mut v = Vec::new(); flat(d, &mut v); v }
pub fn same_doc(got: Document, want: Document) -> Out {
    same("document", flattened(&got), flattened(&want))?;
    for w in [1, 8, 20, 80] {
        let c = || FormatConfig { max_width: w, ..Default::default() };
        same("rendered", got.render(c()), want.render(c()))?;
    }
    Ok(())
}
pub fn shown(r: FormatResult<Option<Document>>) -> String {
    match r {
        Ok(Some(d)) => format!("doc {:?}", flattened(&d)),
        Ok(None) => "none".into(),
        Err(e) => format!("error {e}"),
    }
}
pub const TEXT: &str = "{\"a\": [1, true, null], \"b\": {\"c\": \"x\"}}";
pub fn over_tree(f: &mut dyn FnMut(RedTree<JsonLanguage>) -> Out) -> Out {
    let source = oak_core::source::SourceText::new(TEXT);
    let lang = JsonLanguage::default();
    let parser = JsonParser::new(&lang);
    let mut session = oak_core::parser::session::ParseSession::<JsonLanguage>::default();
    let out = oak_core::parser::Parser::parse(&parser, &source, &[], &mut session);
    let root = RedNode::new(out.result.map_err(|e| e.to_string())?, 0);
    fn walk(n: RedNode<JsonLanguage>, f: &mut dyn FnMut(RedTree<JsonLanguage>) -> Out) -> Out {
        f(RedTree::Node(n.clone()))?;
        for c in n.children() {
            match c { RedTree::Node(n) => walk(n, f)?, leaf => f(leaf)? }
        }
        Ok(())
    }
    walk(root, f)
}
/// JSON, slowly where the text says so.
#[derive(Clone, Copy)]
pub struct SlowLexer(pub &'static JsonLanguage);
impl SlowLexer { pub fn new(l: &'static JsonLanguage) -> Self { SlowLexer(l) } }
pub fn nap<S: oak_core::source::Source + ?Sized>(s: &S) {
    if s.get_text_in((0..s.length()).into()).contains("slow") { std::thread::sleep(std::time::Duration::from_millis(2200)) }
}
impl oak_core::Lexer<JsonLanguage> for SlowLexer {
    fn lex<'a, S: oak_core::source::Source + ?Sized>(&self, s: &S, e: &[oak_core::source::TextEdit], c: &'a mut impl oak_core::LexerCache<JsonLanguage>) -> oak_core::lexer::LexOutput<JsonLanguage> {
        nap(s);
        JsonLexer::new(self.0).lex(s, e, c)
    }
}
#[derive(Clone, Copy)]
pub struct SlowParser(pub &'static JsonLanguage);
impl SlowParser { pub fn new(l: &'static JsonLanguage) -> Self { SlowParser(l) } }
impl oak_core::Parser<JsonLanguage> for SlowParser {
    fn parse<'a, S: oak_core::source::Source + ?Sized>(&self, s: &'a S, e: &[oak_core::source::TextEdit], c: &'a mut impl oak_core::ParseCache<JsonLanguage>) -> oak_core::ParseOutput<'a, JsonLanguage> {
        nap(s);
        JsonParser::new(self.0).parse(s, e, c)
    }
}
