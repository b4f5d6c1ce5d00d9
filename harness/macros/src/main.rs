#![feature(new_range_api)]
//! C35: the macros. Random programs are generated, compiled with rustc and run; what each call
//! makes is compared with the same thing spelled by hand.
mod compile;

use compile::{Expect, Item};
use kit::*;

// ---------------------------------------------------------------- words

const WORDS: &[&str] = &["a", "b", "key", "x y", "é", "日本", "😀", "", " ", "\"", "\\", "\n", "\t", "{}", "{x}", "//", "'", "\u{0}", "#", "a\"#b"];
fn words(g: &mut Gen) -> String {
    let n = g.range(0, 3);
    (0..n).map(|_| *g.pick(WORDS)).collect()
}
/// A string literal, plain or raw.
fn lit(g: &mut Gen, s: &str) -> String {
    if g.chance(1, 4) && !s.contains(['\n', '\r', '\u{0}']) {
        let mut hashes = String::new();
        while s.contains(&format!("\"{hashes}")) {
            hashes.push('#')
        }
        if hashes.is_empty() && g.bool() {
            hashes.push('#')
        }
        return format!("r{hashes}\"{s}\"{hashes}");
    }
    format!("{s:?}")
}
const NAMES: &[&str] = &["a", "b", "name", "value", "x1", "_y", "kind", "nul", "True", "indent", "group", "line", "self_", "r", "json"];

// ---------------------------------------------------------------- json!

/// (macro input, the same by hand)
fn json_value(g: &mut Gen, depth: usize) -> (String, String) {
    let leaf = depth == 0;
    match g.weighted(&[2, 2, 4, 4, if leaf { 1 } else { 5 }, if leaf { 1 } else { 5 }, 4]) {
        0 => ("null".into(), "nul()".into()),
        1 => {
            let b = g.bool();
            (format!("{b}"), format!("boo({b})"))
        }
        2 => {
            let (a, b) = *g.pick(&[("0", "0"), ("1", "1"), ("-1", "-1"), ("42", "42"), ("1_000", "1000"), ("0xff", "255"), ("4000000000u64", "4000000000"), ("7usize", "7"), ("8i64", "8"), ("9u32", "9"), ("1.5", "1.5"), ("-2.25", "-2.25"), ("1e3", "1000"), ("0.5f32", "0.5"), ("2.0f64", "2"), ("2147483647", "2147483647"), ("(1 + 2)", "3"), ("0b11", "3")]);
            (a.into(), format!("num({b}f64)"))
        }
        3 => {
            let s = words(g);
            let l = lit(g, &s);
            (l, format!("st({s:?})"))
        }
        4 => {
            let n = if leaf { 0 } else { g.range(0, 4) };
            let v: Vec<_> = (0..n).map(|_| json_value(g, depth - 1)).collect();
            let tail = if n > 0 && g.chance(1, 4) { "," } else { "" };
            (format!("[{}{tail}]", v.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(", ")), format!("arr(vec![{}])", v.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(", ")))
        }
        5 => {
            let n = if leaf { 0 } else { g.range(0, 4) };
            let (mut a, mut b) = (vec![], vec![]);
            for _ in 0..n {
                let (k, kl) = if g.bool() {
                    let k = words(g);
                    let l = lit(g, &k);
                    (k, l)
                } else {
                    let k = g.pick(NAMES).to_string();
                    (k.clone(), k)
                };
                let v = json_value(g, depth - 1);
                a.push(format!("{kl}: {}", v.0));
                b.push(format!("({k:?}, {})", v.1));
            }
            let tail = if n > 0 && g.chance(1, 4) { "," } else { "" };
            (format!("{{{}{tail}}}", a.join(", ")), format!("obj(vec![{}])", b.join(", ")))
        }
        _ => {
            let (a, b) = *g.pick(&[
                ("n", "num(n as f64)"),
                ("n + 1", "num((n + 1) as f64)"),
                ("n as f64 / 2.0", "num(n as f64 / 2.0)"),
                ("s.clone()", "st(&s)"),
                ("s.as_str()", "st(&s)"),
                ("&s[..]", "st(&s)"),
                ("format!(\"{}!\", s)", "st(&format!(\"{}!\", s))"),
                ("opt", "match opt { Some(x) => num(x as f64), None => nul() }"),
                ("None::<i32>", "nul()"),
                ("Some(\"t\")", "st(\"t\")"),
                ("()", "nul()"),
                ("vec![json!(1), json!(null)]", "arr(vec![num(1f64), nul()])"),
                ("if n > 2 { 1 } else { 2 }", "num(if n > 2 { 1f64 } else { 2f64 })"),
                ("match n { 0 => \"zero\", _ => \"more\" }", "st(match n { 0 => \"zero\", _ => \"more\" })"),
                ("!flag", "boo(!flag)"),
                ("flag && n > 3", "boo(flag && n > 3)"),
                ("json!({ \"in\": [n] })", "obj(vec![(\"in\", arr(vec![num(n as f64)]))])"),
                ("inner.clone()", "inner.clone()"),
                ("(0..n).map(|i| i).collect::<JsonValue>()", "arr((0..n).map(|i| num(i as f64)).collect())"),
            ]);
            (a.into(), b.into())
        }
    }
}
fn json_case(g: &mut Gen, c: &mut Case) -> Item {
    let depth = g.range(0, 3);
    let (code, want) = json_value(g, depth);
    let (n, flag, opt, s) = (g.usize(6), g.bool(), g.bool(), words(g));
    if code.len() > 12 {
        c.nontrivial()
    }
    c.desc(format!("json!({code}) with n = {n}, s = {s:?}, flag = {flag}, opt = {opt}"));
    Item::run(format!(
        "pub fn run() -> Out {{ let n: i32 = {n}; let flag = {flag}; let opt: Option<i32> = if {opt} {{ Some(n) }} else {{ None }}; let s = String::from({s:?}); let inner = obj(vec![(\"i\", nul())]); let got: JsonValue = json!({code}); let want = {want}; same(\"value\", got, want) }}"
    ))
}

// ---------------------------------------------------------------- doc!

struct Scope {
    /// (expression of some string value, the document by hand)
    exprs: Vec<(String, String)>,
    /// (expression of something to iterate, how to get owned strings)
    lists: Vec<(String, String)>,
}
fn scope() -> Scope {
    let e = |a: &str, b: &str| (a.to_string(), b.to_string());
    Scope {
        exprs: vec![
            e("a.as_str()", "Document::text(a.clone())"),
            e("a.clone()", "Document::text(a.clone())"),
            e("&a", "Document::text(a.clone())"),
            e("&*b", "Document::text(b.clone())"),
            e("a.clone() + \"!\"", "Document::text(a.clone() + \"!\")"),
            e("format!(\"{}-{}\", a, b)", "Document::text(format!(\"{}-{}\", a, b))"),
            e("if n > 2 { Document::Line } else { Document::text(\"few\") }", "if n > 2 { Document::Line } else { Document::text(\"few\") }"),
            e("match n { 0 => \"none\", _ => \"some\" }", "Document::text(match n { 0 => \"none\", _ => \"some\" })"),
            e("opt.as_ref().map(|s| s.as_str()).unwrap_or(\"no\")", "Document::text(opt.clone().unwrap_or(\"no\".into()))"),
            e("&opt", "match &opt { Some(s) => Document::text(s.clone()), None => Document::Nil }"),
            e("&list", "Document::concat(list.iter().map(|s| Document::text(s.clone())).collect())"),
            e("doc!(group(\"in\", soft_line))", "Document::group(Document::concat(vec![Document::text(\"in\"), Document::SoftLine]))"),
            e("Document::HardLine", "Document::HardLine"),
            e("(a.as_str())", "Document::text(a.clone())"),
            e("{ let t = n + 1; t.to_string() }", "Document::text((n + 1).to_string())"),
            e("nothing", "Document::text(\"nothing\")"),
            e("String::from(\"s\")", "Document::text(\"s\")"),
        ],
        lists: vec![e("list.clone()", "list.clone()"), e("list.iter()", "list.clone()"), e("&list", "list.clone()"), e("list.iter().rev()", "list.iter().rev().cloned().collect::<Vec<_>>()"), e("list.iter().map(|s| format!(\"<{}>\", s))", "list.iter().map(|s| format!(\"<{}>\", s)).collect::<Vec<_>>()"), e("[a.as_str(), b.as_str()]", "vec![a.clone(), b.clone()]"), e("vec![doc!(\"q\"), doc!(line)]", "vec![\"q\".to_string(), \"\u{1}line\".to_string()]")],
    }
}
const LET: &str = "let nothing = \"nothing\";";
fn doc_many(g: &mut Gen, s: &Scope, depth: usize, lo: usize) -> (String, String) {
    let n = g.range(lo, lo + 3);
    let v: Vec<_> = (0..n).map(|_| doc_one(g, s, depth)).collect();
    let code = v.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(", ") + if n > 0 && g.chance(1, 5) { "," } else { "" };
    (code, format!("Document::concat(vec![{}])", v.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(", ")))
}
fn doc_one(g: &mut Gen, s: &Scope, depth: usize) -> (String, String) {
    let deep = if depth == 0 { 0 } else { 4 };
    match g.weighted(&[5, 5, 6, deep, deep, deep, deep]) {
        0 => {
            let w = words(g);
            (lit(g, &w), format!("Document::text({w:?})"))
        }
        1 => {
            let (a, b) = *g.pick(&[("nil", "Nil"), ("line", "Line"), ("soft_line", "SoftLine"), ("soft_line_space", "SoftLineSpace"), ("hard_line", "HardLine")]);
            (a.into(), format!("Document::{b}"))
        }
        2 if !s.exprs.is_empty() => g.pick(&s.exprs).clone(),
        3 => {
            let (a, b) = doc_many(g, s, depth - 1, 1);
            (format!("indent({a})"), format!("Document::indent({b})"))
        }
        4 => {
            let (a, b) = doc_many(g, s, depth - 1, 1);
            (format!("group({a})"), format!("Document::group({b})"))
        }
        5 => {
            let (a, b) = doc_many(g, s, depth - 1, 0);
            (format!("[{a}]"), b)
        }
        6 if !s.lists.is_empty() => {
            let (l, w) = g.pick(&s.lists).clone();
            let (a, b) = doc_many(g, s, depth - 1, 1);
            (format!("join({l}, {a})"), format!("joined({w}, {b})"))
        }
        _ => ("nil".into(), "Document::Nil".into()),
    }
}
const JOINED: &str = "fn joined(v: Vec<String>, sep: Document<'static>) -> Document<'static> { let mut out = Vec::new(); for (i, s) in v.into_iter().enumerate() { if i > 0 { out.push(sep.clone()) } out.push(if s == \"\\u{1}line\" { Document::Line } else { Document::text(s) }) } Document::concat(out) }";
fn owned(want: &str) -> String {
    want.to_string()
}
fn list(g: &mut Gen) -> String {
    let n = g.usize(4);
    format!("vec![{}]", (0..n).map(|_| format!("String::from({:?})", words(g))).collect::<Vec<_>>().join(", "))
}
fn doc_case(g: &mut Gen, c: &mut Case) -> Item {
    let s = scope();
    let depth = g.range(0, 3);
    let (code, want) = doc_many(g, &s, depth, 1);
    let (a, b, n, opt, l) = (words(g), words(g), g.usize(5), g.bool(), list(g));
    if code.contains('(') {
        c.nontrivial()
    }
    c.desc(format!("doc!({code}) with a = {a:?}, b = {b:?}, n = {n}, list = {l}"));
    Item::run(format!(
        "{JOINED} pub fn run() -> Out {{ {LET} let a = String::from({a:?}); let b = String::from({b:?}); let n: usize = {n}; let opt = if {opt} {{ Some(b.clone()) }} else {{ None }}; let list: Vec<String> = {l}; same_doc(doc!({code}), {}) }}",
        owned(&want)
    ))
}

// ---------------------------------------------------------------- derives

fn field_type(g: &mut Gen) -> (&'static str, String, &'static str) {
    // type, value, the document of `v: &T` by hand
    let w = words(g);
    match g.usize(7) {
        0 => ("String", format!("String::from({w:?})"), "Document::text(v.clone())"),
        1 => ("&'static str", format!("{w:?}"), "Document::text(v.to_string())"),
        2 => ("Option<String>", if g.bool() { "None".into() } else { format!("Some(String::from({w:?}))") }, "match v { Some(s) => Document::text(s.clone()), None => Document::Nil }"),
        3 => ("Vec<String>", list(g), "Document::concat(v.iter().map(|s| Document::text(s.clone())).collect())"),
        4 => ("Box<String>", format!("Box::new(String::from({w:?}))"), "Document::text(v.to_string())"),
        5 => ("Leaf", format!("Leaf(String::from({w:?}))"), "Document::text(v.0.clone())"),
        _ => ("Doc<'static>", "Document::group(Document::SoftLineSpace)".into(), "v.clone()"),
    }
}
fn derive_case(g: &mut Gen, c: &mut Case) -> Item {
    let e = |a: &str, b: &str| (a.to_string(), b.to_string());
    let leaf = "#[derive(AsDocument)] struct Leaf(String);";
    let depth = g.range(0, 2);
    let fixed = Scope { exprs: vec![e("format!(\"{}\", 7)", "Document::text(\"7\")"), e("Document::HardLine", "Document::HardLine"), e("doc!(\"k\", line)", "Document::concat(vec![Document::text(\"k\"), Document::Line])")], lists: vec![] };
    match g.usize(8) {
        0 | 1 => {
            // one field: its document
            let (t, v, want) = field_type(g);
            let (generic, at, bound) = match g.usize(4) {
                0 => ("", t.to_string(), ""),
                1 => ("<T: AsDocument>", "T".to_string(), ""),
                2 => ("<T>", "T".to_string(), "where T: AsDocument"),
                _ => ("<'a, T: AsDocument>", "&'a T".to_string(), ""),
            };
            let v = if at.contains("'a T") { format!("&{v}") } else { v };
            let unref = if at.contains("'a T") { "" } else { "&" };
            let (def, make, get) = if g.bool() { (format!("struct S{generic}({at}) {bound};"), format!("S({v})"), "s.0") } else { (format!("struct S{generic} {bound} {{ one: {at} }}"), format!("S {{ one: {v} }}"), "s.one") };
            c.desc(format!("{def} {make}"));
            if !generic.is_empty() {
                c.nontrivial()
            }
            c.label("derive:one field");
            Item::run(format!("{leaf} #[derive(AsDocument)] {def} pub fn run() -> Out {{ let s = {make}; let v: &{t} = {unref}{get}; same_doc(s.as_document(), {want}) }}"))
        }
        2 | 3 => {
            // a struct with its own document
            let s = Scope {
                exprs: vec![
                    e("self.a.as_str()", "Document::text(s.a.clone())"),
                    e("_self.b.as_document()", "Document::concat(s.b.iter().map(|s| Document::text(s.clone())).collect())"),
                    e("self.a.clone()", "Document::text(s.a.clone())"),
                    e("&self.b", "Document::concat(s.b.iter().map(|s| Document::text(s.clone())).collect())"),
                    e("if _self.b.is_empty() { Document::text(\"-\") } else { Document::Line }", "if s.b.is_empty() { Document::text(\"-\") } else { Document::Line }"),
                    e("&self.leaf", "Document::text(s.leaf.0.clone())"),
                    e("self.c.to_string()", "Document::text(s.c.to_string())"),
                ],
                lists: vec![e("self.b.iter()", "s.b.clone()"), e("_self.b.iter().rev()", "s.b.iter().rev().cloned().collect::<Vec<_>>()"), e("self.b.clone()", "s.b.clone()")],
            };
            let (code, want) = doc_many(g, &s, depth, 1);
            let (a, l, n) = (words(g), list(g), g.usize(9));
            let other = if g.bool() { "#[allow(dead_code)] " } else { "" };
            let before = if g.chance(1, 5) { *g.pick(&["priority = 3, ", "skip, ", "rename(a = \"b\"), "]) } else { "" };
            c.desc(format!("#[oak({before}doc = {code})] struct with a = {a:?}, b = {l}, c = {n}"));
            c.nontrivial();
            c.label("derive:struct document");
            Item::run(format!(
                "{leaf} {JOINED} {other}#[derive(AsDocument)] #[oak({before}doc = {code})] struct S {{ a: String, b: Vec<String>, c: usize, leaf: Leaf }} pub fn run() -> Out {{ let s = S {{ a: String::from({a:?}), b: {l}, c: {n}, leaf: Leaf(String::from(\"leaf\")) }}; same_doc(s.as_document(), {want}) }}"
            ))
        }
        4 => {
            let def = *g.pick(&["struct S;", "struct S {}", "struct S { a: String, b: String }", "struct S(String, String);"]);
            let make = match def {
                "struct S;" => "S",
                "struct S {}" => "S {}",
                "struct S(String, String);" => "S(String::from(\"a\"), String::new())",
                _ => "S { a: String::from(\"a\"), b: String::new() }",
            };
            c.desc(def);
            c.label("derive:no single field");
            Item::run(format!("#[derive(AsDocument)] {def} pub fn run() -> Out {{ same_doc({make}.as_document(), Document::Nil) }}"))
        }
        _ => {
            // an enum
            let n = g.range(1, 5);
            let (mut def, mut checks, mut shape) = (String::new(), String::new(), Vec::new());
            for i in 0..n {
                let own = g.chance(1, 2);
                let kind = g.usize(6);
                let (t, v, w) = field_type(g);
                let (fields, make) = match kind {
                    0 => (String::new(), String::new()),
                    1 => (format!("({t})"), format!("({v})")),
                    2 => (format!(" {{ one: {t} }}"), format!(" {{ one: {v} }}")),
                    3 => (format!("({t}, usize)"), format!("({v}, 1)")),
                    4 => (format!(" {{ one: {t}, two: usize }}"), format!(" {{ one: {v}, two: 1 }}")),
                    _ => (" {}".to_string(), " {}".to_string()),
                };
                let one = kind == 1 || kind == 2;
                let (attr, want) = if own {
                    let s = if one { Scope { exprs: [fixed.exprs.clone(), vec![e("_self", w), e("_self.as_document()", w)]].concat(), lists: vec![] } } else { Scope { exprs: fixed.exprs.clone(), lists: vec![] } };
                    let (code, want) = doc_many(g, &s, depth, 1);
                    (format!("#[oak(doc = {code})] "), want)
                } else {
                    (String::new(), if one { w.to_string() } else { "Document::Nil".into() })
                };
                shape.push(format!("{attr}V{i}{fields}"));
                def += &format!("{attr}V{i}{fields}, ");
                let bind = if one { format!("let held: {t} = {v}; let v = &held; ") } else { String::new() };
                checks += &format!("{{ {bind}let s = E::V{i}{make}; same_doc(s.as_document(), {want})?; }} ");
            }
            c.desc(format!("enum {}", shape.join(", ")));
            if n > 1 {
                c.nontrivial()
            }
            c.label("derive:enum");
            Item::run(format!("{leaf} #[derive(AsDocument)] enum E {{ {def} }} pub fn run() -> Out {{ {checks} Ok(()) }}"))
        }
    }
}

// ---------------------------------------------------------------- define_rules!

fn rules_case(g: &mut Gen, c: &mut Case) -> Item {
    if g.chance(1, 12) {
        let p = *g.pick(&["", "0", "1", "7", "255", "0x10"]);
        let attr = match g.usize(4) {
            _ if p.is_empty() => *g.pick(&["", "#[oak(doc = \"a\", line)] "]),
            0 => "#[oak(other = 3, priority = @)] ",
            1 => "#[oak(priority = @, doc = \"a\", line)] ",
            _ => "#[oak(priority = @)] ",
        }
        .replace('@', p);
        let want = if p.is_empty() { "0" } else { p };
        let name = *g.pick(&["MyRule", "Other", "R_1"]);
        c.desc(format!("#[derive(FormatRule)] {attr}struct {name}"));
        c.label("derived rule");
        return Item::run(format!(
            "#[derive(FormatRule)] {attr}struct {name}<L: Language>(core::marker::PhantomData<L>); pub fn run() -> Out {{ let r: Box<dyn FormatRule<JsonLanguage>> = Box::new({name}(core::marker::PhantomData)); same(\"name\", r.name(), {name:?})?; same(\"priority\", r.priority(), {want})?; over_tree(&mut |t| match t {{ RedTree::Node(n) => same(\"node\", r.applies_to_node(&n), false), RedTree::Leaf(l) => same(\"token\", r.applies_to_token(&l), false) }}) }}"
        ));
    }
    const CONDS: &[&str] = &["true", "false", "ElementType::is_universal(&N.green.kind, UniversalElementRole::Container)", "N.offset > 5", "N.children().count() % 2 == 1", "N.offset == 0 || N.offset > 20", "!(N.offset < 3)", "{ let k = N.offset; k % 2 == 0 }"];
    const TCONDS: &[&str] = &["true", "false", "T.span.start > 7", "TokenType::is_universal(&T.kind, UniversalTokenRole::Punctuation)", "T.span.end - T.span.start == 1", "TokenType::is_ignored(&T.kind)"];
    const BODIES: &[&str] = &[
        "Ok(None)",
        "Ok(Some(doc!(\"x\", line)))",
        "Ok(Some(Document::text(S[N.offset..].to_string())))",
        "{ let d = F(N)?; Ok(Some(Document::group(d))) }",
        "Err(OakError::format_error(\"bad\"))",
        "{ if N.offset > 3 { return Ok(None); } Ok(Some(Document::Line)) }",
        "Ok(Some(Document::text(C.depth.to_string())))",
        "Ok(Some(Document::concat(vec![F(N)?, Document::text(C.config.max_width.to_string())])))",
    ];
    const TBODIES: &[&str] = &["Ok(None)", "Ok(Some(Document::text(&S[T.span.start..T.span.end])))", "{ let text = &S[T.span.start..T.span.end]; if text == \",\" { return Ok(Some(Document::SoftLine)); } Ok(None) }", "Ok(Some(Document::text(format!(\"{}@{}\", C.depth, T.span.start))))", "Err(OakError::format_error(\"no\"))"];
    let n = g.range(1, 4);
    let (mut def, mut nodes, mut tokens, mut facts, mut desc) = (String::new(), String::new(), String::new(), String::new(), Vec::new());
    for i in 0..n {
        let name = g.pick(&["indent", "Rule", "comma_spacing", "r1", "L2", "Node", "statement_newline", "_rule"]).to_string();
        let prio = *g.pick(&["0", "5", "10", "255", "1 + 2", "u8::MAX", "{ 3 }", "0x7f"]);
        facts += &format!("same(\"name\", rules[{i}].name(), {name:?})?; same(\"priority\", rules[{i}].priority(), {prio})?; ");
        let mut parts = vec![format!("priority: {prio}{}", if prio.contains(['+', ':', '{']) || g.bool() { "," } else { "" })];
        let comma = |g: &mut Gen, body: &str| if body.starts_with('{') && g.bool() { "" } else { "," };
        if g.chance(3, 4) {
            let (cond, body) = (*g.pick(CONDS), *g.pick(BODIES));
            let names = *g.pick(&[["node", "ctx", "source", "format_children"], ["n", "_ctx", "_source", "_f"], ["n", "c", "s", "f"], ["_node", "_context", "_source", "_format_children"], ["token", "priority", "name", "children"]]);
            let put = |t: &str| replace(t, &[("N", names[0]), ("C", names[1]), ("S", names[2]), ("F", names[3])]);
            let (cond, body) = (put(cond), put(body));
            parts.push(format!("node({}) if {cond} => {body}{}", names.join(", "), comma(g, &body)));
            nodes += &format!(
                "same(\"applies_to_node\", rules[{i}].applies_to_node(&node), {{ let {0} = &node; {cond} }})?; same(\"apply_node\", shown(rules[{i}].apply_node(&node, &cx, TEXT, &f)), shown((|| -> FormatResult<Option<Document<'static>>> {{ let {0} = &node; let {1} = &cx; let {2} = TEXT; let {3} = &f; {body} }})()))?; ",
                names[0], names[1], names[2], names[3]
            );
        } else {
            nodes += &format!("same(\"applies_to_node\", rules[{i}].applies_to_node(&node), false)?; same(\"apply_node\", shown(rules[{i}].apply_node(&node, &cx, TEXT, &f)), shown(Ok(None)))?; ");
        }
        if g.chance(3, 4) {
            let (cond, body) = (*g.pick(TCONDS), *g.pick(TBODIES));
            let names = *g.pick(&[["token", "ctx", "source"], ["t", "_ctx", "_source"], ["t", "c", "s"], ["_token", "_context", "_source"], ["node", "x", "text_of"]]);
            let put = |t: &str| replace(t, &[("T", names[0]), ("C", names[1]), ("S", names[2])]);
            let (cond, body) = (put(cond), put(body));
            parts.push(format!("token({}) if {cond} => {body}{}", names.join(", "), comma(g, &body)));
            tokens += &format!(
                "same(\"applies_to_token\", rules[{i}].applies_to_token(&leaf), {{ let {0} = &leaf; {cond} }})?; same(\"apply_token\", shown(rules[{i}].apply_token(&leaf, &cx, TEXT)), shown((|| -> FormatResult<Option<Document<'static>>> {{ let {0} = &leaf; let {1} = &cx; let {2} = TEXT; {body} }})()))?; ",
                names[0], names[1], names[2]
            );
        } else {
            tokens += &format!("same(\"applies_to_token\", rules[{i}].applies_to_token(&leaf), false)?; same(\"apply_token\", shown(rules[{i}].apply_token(&leaf, &cx, TEXT)), shown(Ok(None)))?; ");
        }
        // fields in any order
        let mut order: Vec<String> = Vec::new();
        while !parts.is_empty() {
            let k = g.usize(parts.len());
            order.push(parts.remove(k));
        }
        desc.push(format!("{name} {{ {} }}", order.join(" ")));
        def += &format!("{name} {{ {} }} ", order.join(" "));
    }
    c.desc(format!("define_rules! {{ {} }}", desc.join(" ")));
    if n > 1 {
        c.nontrivial()
    }
    c.label("define_rules");
    Item::run(format!(
        "fn rules<L: Language + 'static>() -> Vec<Box<dyn FormatRule<L>>> {{ define_rules! {{ {def} }} }} pub fn run() -> Out {{ let rules = rules::<JsonLanguage>(); same(\"rules\", rules.len(), {n})?; {facts} over_tree(&mut |t| {{ let mut cx = FormatContext::<JsonLanguage>::new(FormatConfig::default()); cx.depth = 3; let f = |n: &RedNode<JsonLanguage>| -> FormatResult<Document<'static>> {{ if n.offset == 7 {{ Err(OakError::format_error(\"child\")) }} else {{ Ok(Document::text(format!(\"<{{}}>\", n.offset))) }} }}; match t {{ RedTree::Node(node) => {{ {nodes} }} RedTree::Leaf(leaf) => {{ {tokens} }} }} Ok(()) }}) }}"
    ))
}
/// Replaces the one-letter placeholders that stand alone.
fn replace(t: &str, by: &[(&str, &str)]) -> String {
    let v: Vec<char> = t.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    for (i, &ch) in v.iter().enumerate() {
        let alone = word(ch) && (i == 0 || !word(v[i - 1])) && v.get(i + 1).is_none_or(|&c| !word(c));
        match by.iter().find(|b| alone && b.0.starts_with(ch)) {
            Some(b) => out += b.1,
            None => out.push(ch),
        }
    }
    out
}

// ---------------------------------------------------------------- what must not compile

fn reject_case(g: &mut Gen, c: &mut Case) -> Item {
    let k = g.pick(NAMES).to_string();
    let p = *g.pick(&["300", "256", "-1", "\"7\"", "1.5"]);
    let (what, code) = match g.usize(16) {
        0 => ("json key", format!("fn f() {{ let _ = json!({{ 1: {k:?} }}); }}")),
        1 => ("json colon", format!("fn f() {{ let _ = json!({{ {k} 1 }}); }}")),
        2 => ("json comma", format!("fn f() {{ let _ = json!({{ {k}: 1 {k}: 2 }}); }}")),
        3 => ("json value", format!("fn f() {{ let _ = json!({{ {k}: }}); }}")),
        4 => ("json rest", format!("fn f() {{ let _ = json!([{k:?}] {k}); }}")),
        5 => ("json empty", "fn f() { let _ = json!(); }".into()),
        6 => ("doc empty", format!("fn f() {{ let _ = doc!({}()); }}", g.pick(&["indent", "group", "join"]))),
        7 => ("doc join", format!("fn f() {{ let v = vec![{k:?}]; let _ = doc!(join(v)); }}")),
        8 => ("doc rest", format!("fn f() {{ let _ = doc!({k:?} {k:?}); }}")),
        9 => ("rule without priority", format!("fn f<L: Language + 'static>() -> Vec<Box<dyn FormatRule<L>>> {{ define_rules! {{ {k} {{ node(a, b, c, d) if true => Ok(None), }} }} }}")),
        10 => ("rule with another field", format!("fn f<L: Language + 'static>() -> Vec<Box<dyn FormatRule<L>>> {{ define_rules! {{ {k} {{ priority: 1, name: 2 }} }} }}")),
        11 => ("rule with too few arguments", format!("fn f<L: Language + 'static>() -> Vec<Box<dyn FormatRule<L>>> {{ define_rules! {{ {k} {{ priority: 1, {} }} }} }}", g.pick(&["node(a, b, c) if true => Ok(None)", "token(a, b) if true => Ok(None)", "node(a, b, c, d) => Ok(None)", "token(a, b, c) if true Ok(None)"]))),
        12 => ("derived priority", format!("#[derive(FormatRule)] #[oak(priority = {p})] struct R<L: Language>(core::marker::PhantomData<L>);")),
        13 => ("derived document", format!("#[derive(AsDocument)] #[oak(doc = {})] struct S {{ a: String, b: String }}", g.pick(&["indent()", "join(\"a\")", "group", "[\"a\""]).replace("[\"a\"", "group(\"a\" \"b\")"))),
        14 => ("derived document of a variant", format!("#[derive(AsDocument)] enum E {{ #[oak(doc = {})] A(String, String), B }}", g.pick(&["indent()", "join(\"a\")", "group(\"a\" \"b\")"]))),
        _ => ("test without", {
            let all = ["name: t", "language: JsonLanguage", "lexer: JsonLexer", "extension: \"json\"", "path: \"x\""];
            let skip = g.usize(5);
            let bad = g.chance(1, 3);
            let mut v: Vec<&str> = all.iter().enumerate().filter(|(i, _)| bad || *i != skip).map(|x| *x.1).collect();
            if bad {
                v.push(*g.pick(&["colour: 3", "timeout: \"x\"", "timeout: -1", "exclude: \"a\""]))
            }
            format!("{}! {{ {} }}", g.pick(&["test_lexer", "test_parser"]), v.join(", "))
        }),
    };
    c.desc(format!("{what}: {code}"));
    c.label(format!("rejects:{what}"));
    c.nontrivial();
    Item { code, files: vec![], expect: Expect::Error }
}

// ---------------------------------------------------------------- the test macros

fn tests_case(g: &mut Gen, c: &mut Case) -> Item {
    if g.chance(1, 2) {
        let n = g.usize(5);
        let (sig, body, good) = match g.usize(5) {
            0 => ("fn case()", format!("let n = {n}; assert_eq!(n + 1, {});", n + 1), true),
            1 => ("fn case()", format!("let n = {n}; assert_eq!(n + 1, {n}, \"as planned\");"), false),
            2 => ("pub fn case() -> Result<(), String>", format!("if {n} == {n} {{ return Ok(()); }} Err(\"never\".into())"), true),
            3 => ("fn case() -> Result<(), String>", format!("let v: u8 = \"{n}x\".parse().map_err(|_| \"no number\".to_string())?; assert!(v < 9); Ok(())"), false),
            _ => ("pub(crate) fn case()", format!("std::thread::sleep(std::time::Duration::from_millis({n}))"), true),
        };
        let endless = g.chance(1, 100);
        let (body, mut good) = if endless { (body.replace("let n = ", "std::thread::sleep(std::time::Duration::from_secs(14)); let n = "), good && !body.contains("let n = ")) } else { (body, good) };
        let mut attr = String::new();
        if g.chance(1, 4) && !sig.contains("Result") {
            attr = "#[should_panic] ".into();
            good = !good;
        }
        let ignored = g.chance(1, 8);
        if ignored {
            attr += "#[ignore] ";
        }
        c.desc(format!("#[oak_test] {attr}{sig} {{ {body} }}"));
        c.label(format!("oak_test:{}", if good { "passes" } else { "fails" }));
        if !good {
            c.nontrivial()
        }
        return Item { code: format!("#[oak_test] {attr}{sig} {{ {body} }}"), files: vec![], expect: if ignored { Expect::Ignored } else if good { Expect::Pass } else { Expect::Fails } };
    }
    let lexer = g.bool();
    let slow = g.chance(1, 12);
    let ext = *g.pick(&["json", "js", "conf"]);
    let mut files = vec![];
    let mut good = true;
    let n = g.range(1, 3);
    for i in 0..n {
        let e = if g.chance(3, 4) { ext } else { *g.pick(&["txt", "json", "js"]) };
        let text = if slow && i == 0 { "\"slow\"".to_string() } else { g.pick(&["1", "[1, 2]", "{\"a\": null}", "true", "", "[1,", "\"é\""]).to_string() };
        let name = format!("f{i}.{e}");
        let stored = format!("f{i}.{e}.{}.json", if lexer { "lexed" } else { "parsed" });
        match g.usize(3) {
            // the parser's runner stores what is missing and fails, the lexer's stores it and passes
            0 => good &= lexer || e != ext,
            1 => files.push((stored, compile::stored(lexer, &text, true))),
            _ => {
                files.push((stored, compile::stored(lexer, &text, false)));
                good &= e != ext;
            }
        }
        files.push((name, text));
    }
    let timeout = if g.bool() || slow { Some(if slow && g.bool() { 1 } else { 30 }) } else { None };
    let slow_fails = slow && timeout == Some(1) && files.iter().any(|f| f.1 == "\"slow\"" && f.0.ends_with(&format!(".{ext}")));
    let good = good && !slow_fails;
    let what = if slow { "Slow" } else { "Json" };
    let mut parts = vec!["name: case".to_string(), "language: JsonLanguage".into(), format!("{}: {what}{}", if g.bool() { "lexer" } else { "parser" }, if lexer { "Lexer" } else { "Parser" }), format!("extension: {ext:?}"), "path: \"@DIR@\"".into()];
    if let Some(t) = timeout {
        parts.push(format!("timeout: {t}"))
    }
    let mut order: Vec<String> = Vec::new();
    while !parts.is_empty() {
        let k = g.usize(parts.len());
        order.push(parts.remove(k));
    }
    let code = format!("{}! {{ {}{} }}", if lexer { "test_lexer" } else { "test_parser" }, order.join(if g.chance(3, 4) { ", " } else { " " }), if g.bool() { "," } else { "" });
    c.desc(format!("{code} over {files:?}"));
    c.label(format!("{}:{}{}", if lexer { "test_lexer" } else { "test_parser" }, if good { "passes" } else { "fails" }, if slow { " slow" } else { "" }));
    if !good {
        c.nontrivial()
    }
    Item { code, files, expect: if good { Expect::Pass } else { Expect::Fails } }
}

type Make = fn(&mut Gen, &mut Case) -> Item;
const FACETS: &[(&str, u64, u64, Make)] = &[("json", 1000, 20_000, json_case), ("doc", 1400, 20_000, doc_case), ("derive", 900, 10_000, derive_case), ("rules", 600, 8_000, rules_case), ("rejects", 400, 2_000, reject_case), ("tests", 320, 3_000, tests_case)];

fn main() {
    if std::env::var_os("VERIF_WORKER").is_some() {
        begin();
        let mut items = Vec::new();
        for (name, quick, thorough, make) in FACETS {
            items.extend(planned(name, *quick, *thorough).iter_mut().map(|g| make(g, &mut Case::default())));
        }
        compile::all(items);
    }
    kit::main(vec![Check {
        id: "C35",
        rule: "one case = a generated call of json! (json), of doc! (doc), a derived AsDocument (derive), a set of rules given to define_rules! or a derived FormatRule (rules), a malformed call (rejects), or a test written with oak_test, test_lexer! or test_parser! (tests), compiled and run; non-trivial: the call nests / has several parts / the test is to fail",
        assumptions: vec!["the compiler reports every error of an expansion at the line of the call", "values in json! and parts of doc! that begin with a literal are that literal alone", "names of the macro's own parameters are not used for another parameter"],
        facets: FACETS
            .iter()
            .map(|&(name, quick, thorough, make)| {
                Facet::new(name, quick, thorough, move |g: &mut Gen, c: &mut Case| {
                    let item = make(g, c);
                    compile::outcome(&item)
                })
            })
            .collect(),
    }])
}
