//! C34: the file-driven test runners of oak-testing against a model of directories and expectations.
use crate::docs::{E, T};
use kit::*;
use oak_core::builder::{BuildOutput, Builder, BuilderCache};
use oak_core::errors::{OakDiagnostics, OakErrorKind};
use oak_core::lexer::{LexOutput, Token};
use oak_core::parser::{ParseCache, ParseOutput};
use oak_core::source::{Source, TextEdit};
use oak_core::tree::{GreenLeaf, GreenNode, GreenTree};
use oak_core::{Language, Lexer, LexerCache, OakError, Parser};
use oak_testing::{building::BuilderTester, lexing::LexerTester, parsing::ParserTester};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock};
use std::time::Duration;

#[derive(Debug, Clone, Copy)]
pub struct Lab;
impl Language for Lab {
    const NAME: &'static str = "lab";
    type TokenType = T;
    type ElementType = E;
    type TypedRoot = Typed;
}
/// A typed root that cannot be written as JSON when `bad`.
#[derive(Debug, Clone)]
pub struct Typed {
    value: Value,
    bad: bool,
}
impl serde::Serialize for Typed {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.bad { Err(serde::ser::Error::custom("not serializable")) } else { self.value.serialize(s) }
    }
}

/// What the language answers for a text.
#[derive(Clone, Debug)]
struct Plan {
    tokens: Vec<(T, usize, usize)>,
    tree: N,
    typed: Typed,
    diagnostics: Vec<String>,
    error: Option<String>,
}
#[derive(Clone, Debug)]
enum N {
    L(T, u32),
    N(E, Vec<N>),
}
type Plans = Arc<Mutex<BTreeMap<String, Plan>>>;
#[derive(Clone)]
struct Stub(Plans, Duration);
impl Stub {
    fn plan<S: Source + ?Sized>(&self, text: &S) -> Plan {
        if !self.1.is_zero() {
            std::thread::sleep(self.1);
        }
        let t = text.get_text_in((0..text.length()).into()).to_string();
        match self.0.lock().unwrap().get(&t) {
            Some(p) => p.clone(),
            None => Plan { tokens: vec![], tree: N::N(E::Root, vec![]), typed: Typed { value: Value::Null, bad: false }, diagnostics: vec![format!("unexpected text {t:?}")], error: None },
        }
    }
}
fn errors(p: &Plan) -> Vec<OakError> {
    p.diagnostics.iter().map(OakError::custom_error).collect()
}
impl Lexer<Lab> for Stub {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, _: &[TextEdit], _: &'a mut impl LexerCache<Lab>) -> LexOutput<Lab> {
        let p = self.plan(text);
        let result = match &p.error {
            Some(e) => Err(OakError::custom_error(e)),
            None => Ok(triomphe::Arc::from_iter(p.tokens.iter().map(|&(kind, a, b)| Token { kind, span: (a..b).into() }).collect::<Vec<_>>())),
        };
        OakDiagnostics { result, diagnostics: errors(&p) }
    }
}
fn grow<'a>(n: &N, a: &'a oak_core::memory::arena::SyntaxArena) -> GreenTree<'a, Lab> {
    match n {
        N::L(t, l) => GreenTree::Leaf(GreenLeaf::new(*t, *l)),
        N::N(k, c) => {
            let v: Vec<_> = c.iter().map(|n| grow(n, a)).collect();
            GreenTree::Node(a.alloc(GreenNode::new(*k, a.alloc_slice_copy(&v))))
        }
    }
}
impl Parser<Lab> for Stub {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, _: &[TextEdit], cache: &'a mut impl ParseCache<Lab>) -> ParseOutput<'a, Lab> {
        let p = self.plan(text);
        let result = match &p.error {
            Some(e) => Err(OakError::custom_error(e)),
            None => match grow(&p.tree, (*cache).arena()) {
                GreenTree::Node(n) => Ok(n),
                _ => unreachable!(),
            },
        };
        OakDiagnostics { result, diagnostics: errors(&p) }
    }
}
impl Builder<Lab> for Stub {
    fn build<'a, S: Source + ?Sized>(&self, text: &S, _: &[TextEdit], _: &'a mut impl BuilderCache<Lab>) -> BuildOutput<Lab> {
        let p = self.plan(text);
        let result = match &p.error {
            Some(e) => Err(OakError::custom_error(e)),
            None => Ok(p.typed.clone()),
        };
        OakDiagnostics { result, diagnostics: errors(&p) }
    }
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Lex,
    Parse,
    Build,
}
fn ast(k: &E, c: &[N]) -> (Value, usize, usize) {
    let (mut children, mut count, mut total, mut leaves, mut leaf_len) = (vec![], 1, 0, 0, 0);
    for n in c {
        match n {
            N::L(_, l) => {
                leaves += 1;
                leaf_len += *l as usize;
                total += *l as usize;
            }
            N::N(k, c) => {
                let (v, n, t) = ast(k, c);
                children.push(v);
                count += n;
                total += t;
            }
        }
    }
    if leaves > 0 {
        count += 1;
        children.push(json!({"kind": format!("Leaves({leaves})"), "children": [], "text_length": leaf_len, "is_leaf": true}));
    }
    (json!({"kind": format!("{k:?}"), "children": children, "text_length": total, "is_leaf": false}), count, total)
}
fn actual(kind: Kind, text: &str, p: &Plan) -> Value {
    let mut errs: Vec<String> = errors(p).iter().map(|e| e.to_string()).collect();
    if let Some(e) = &p.error {
        errs.push(OakError::custom_error(e).to_string());
    }
    match kind {
        Kind::Lex => {
            let tokens: Vec<Value> = if p.error.is_some() {
                vec![]
            } else {
                p.tokens.iter().filter(|t| !matches!(t.0, T::Ws | T::Comment)).map(|(k, a, b)| json!({"kind": format!("{k:?}"), "text": text[*a..*b], "start": a, "end": b})).collect()
            };
            json!({"success": errs.is_empty(), "count": tokens.len(), "tokens": tokens, "errors": errs})
        }
        Kind::Parse => {
            let N::N(k, c) = &p.tree else { unreachable!() };
            let (v, n, _) = if p.error.is_some() { (json!({"kind": "Error", "children": [], "text_length": 0, "is_leaf": true}), 1, 0) } else { ast(k, c) };
            json!({"success": p.error.is_none(), "node_count": n, "ast_structure": v, "errors": errs})
        }
        Kind::Build => {
            let root = if p.error.is_some() || p.typed.bad { Value::Null } else { json!({"type_name": std::any::type_name::<Typed>(), "content": p.typed.value}) };
            json!({"success": p.error.is_none(), "typed_root": root, "errors": errs})
        }
    }
}
/// The fields of a result of this kind in a stored value, if it is one.
fn as_stored(kind: Kind, v: &Value) -> Option<Value> {
    let fields: &[&str] = match kind {
        Kind::Lex => &["success", "count", "tokens", "errors"],
        Kind::Parse => &["success", "node_count", "ast_structure", "errors"],
        Kind::Build => &["success", "typed_root", "errors"],
    };
    let mut out = serde_json::Map::new();
    for f in fields {
        match v.get(f) {
            Some(x) => out.insert(f.to_string(), x.clone()),
            None if *f == "typed_root" => out.insert(f.to_string(), Value::Null),
            None => return None,
        };
    }
    Some(Value::Object(out))
}
fn suffix(k: Kind) -> &'static str {
    match k {
        Kind::Lex => "lexed",
        Kind::Parse => "parsed",
        Kind::Build => "built",
    }
}
fn is_output(name: &str) -> bool {
    [".parsed.json", ".lexed.json", ".built.json", ".expected.json"].iter().any(|s| name.ends_with(s))
}
/// The extension of a file name, as paths have it.
fn ext(name: &str) -> Option<&str> {
    match name.rfind('.') {
        None | Some(0) => None,
        Some(i) => Some(&name[i + 1..]),
    }
}
fn stored(path: &str, k: Kind) -> String {
    format!("{path}.{}.json", suffix(k))
}
fn legacy(path: &str) -> String {
    format!("{}.expected.json", &path[..path.rfind('.').unwrap()])
}

// ---------------------------------------------------------------- generation

fn json_value(g: &mut Gen, depth: usize) -> Value {
    match g.weighted(&[2, 2, 2, 3, if depth > 0 { 2 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
        0 => Value::Null,
        1 => json!(g.bool()),
        2 => json!(g.usize(1000)),
        3 => json!(text::any(g, 8)),
        4 => Value::Array((0..g.usize(4)).map(|_| json_value(g, depth - 1)).collect()),
        _ => Value::Object((0..g.usize(4)).map(|i| (format!("{}{i}", g.pick(&["a", "é", "span"])), json_value(g, depth - 1))).collect()),
    }
}
const KINDS: &[T] = &[T::Name, T::Keyword, T::Literal, T::Punct, T::Ws, T::Comment, T::Bad, T::Plain, T::Eof];
fn tree(g: &mut Gen, depth: usize) -> N {
    let k = if g.chance(1, 6) { E::Tok(*g.pick(KINDS)) } else { E::N(g.usize(17) as u8) };
    let n = g.usize(4);
    N::N(k, (0..n).map(|_| if depth > 0 && g.chance(2, 5) { tree(g, depth - 1) } else { N::L(*g.pick(KINDS), g.usize(6) as u32) }).collect())
}
fn plan(g: &mut Gen, text: &str) -> Plan {
    let mut cuts: Vec<usize> = (0..g.usize(8)).map(|_| g.boundary(text)).collect();
    cuts.extend([0, text.len()]);
    cuts.sort();
    let mut tokens: Vec<(T, usize, usize)> = cuts.windows(2).map(|w| (*g.pick(KINDS), w[0], w[1])).collect();
    if g.chance(1, 6) {
        tokens.remove(g.usize(tokens.len()));
    }
    tokens.push((T::Eof, text.len(), text.len()));
    let N::N(_, c) = tree(g, 3) else { unreachable!() };
    Plan {
        tokens,
        tree: N::N(E::Root, c),
        typed: Typed { value: json_value(g, 2), bad: g.chance(1, 12) },
        diagnostics: (0..g.usize(6).saturating_sub(3)).map(|_| g.pick(&["bad", "worse é", "a\nb"]).to_string()).collect(),
        error: if g.chance(1, 8) { Some("no result".into()) } else { None },
    }
}
/// Something else of the same shape.
fn alter(g: &mut Gen, p: &mut Plan, text: &str) {
    match g.usize(8) {
        0 if !p.tokens.is_empty() => {
            let i = g.usize(p.tokens.len());
            p.tokens[i].0 = *g.pick(KINDS);
        }
        1 => {
            p.tokens.pop();
        }
        2 => {
            let i = g.usize(p.tokens.len().max(1));
            if i + 1 < p.tokens.len() {
                let at = p.tokens[i].1;
                p.tokens[i + 1].1 = at;
                p.tokens.remove(i);
            }
        }
        3 => p.diagnostics.push("bad".into()),
        4 => {
            p.diagnostics.pop();
        }
        5 => p.error = if p.error.is_some() { None } else { Some("no result".into()) },
        6 => {
            let N::N(_, c) = &mut p.tree else { unreachable!() };
            // down the first nodes
            let mut c = c;
            while g.bool() && c.iter().any(|n| matches!(n, N::N(..))) {
                let Some(N::N(_, d)) = c.iter_mut().find(|n| matches!(n, N::N(..))) else { unreachable!() };
                c = d;
            }
            match g.usize(3) {
                0 => c.push(N::L(T::Name, g.usize(3) as u32)),
                1 => {
                    c.pop();
                }
                _ => c.push(N::N(E::N(g.usize(17) as u8), vec![])),
            }
        }
        _ => *p = plan(g, text),
    }
    if g.bool() {
        p.typed.value = json_value(g, 2);
    }
}
/// One value somewhere inside replaced, or an element dropped or doubled.
fn disturb(g: &mut Gen, v: &mut Value) {
    match v {
        Value::Object(m) => {
            let keys: Vec<String> = m.keys().cloned().collect();
            if keys.is_empty() {
                m.insert("new".into(), json!(1));
                return;
            }
            let k = g.pick(&keys).clone();
            disturb(g, m.get_mut(&k).unwrap());
        }
        Value::Array(a) if !a.is_empty() => {
            let i = g.usize(a.len());
            match g.usize(4) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.push(x);
                }
                _ => disturb(g, &mut a[i]),
            }
        }
        Value::Array(_) => {}
        Value::String(s) => s.push('x'),
        Value::Number(n) => *v = json!(n.as_u64().unwrap_or(0) + 1),
        Value::Bool(b) => *b = !*b,
        Value::Null => {}
    }
}

struct World {
    dir: PathBuf,
    /// every file with its content
    files: BTreeMap<String, Vec<u8>>,
}
impl World {
    fn write(&mut self, name: &str, data: impl Into<Vec<u8>>) {
        let data = data.into();
        let p = self.dir.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, &data).unwrap();
        self.files.insert(name.into(), data);
    }
    fn remove(&mut self, name: &str) {
        if self.files.remove(name).is_some() {
            std::fs::remove_file(self.dir.join(name)).unwrap();
        }
    }
    fn on_disk(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(d: &Path, prefix: &str, out: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(d).unwrap() {
                let e = e.unwrap();
                let name = format!("{prefix}{}", e.file_name().to_str().unwrap());
                if e.file_type().unwrap().is_dir() { walk(&e.path(), &format!("{name}/"), out) } else { out.insert(name, std::fs::read(e.path()).unwrap()); }
            }
        }
        let mut out = BTreeMap::new();
        walk(&self.dir, "", &mut out);
        out
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
static NEXT: AtomicUsize = AtomicUsize::new(0);
static REGENERATE: RwLock<()> = RwLock::new(());

fn run(kind: Kind, dir: &Path, exts: &[&str], stub: &Stub, timeout: Option<Duration>) -> Result<Result<(), OakError>, Fail> {
    guarded("run-", || match kind {
        Kind::Lex => {
            let mut t = LexerTester::new(dir);
            for e in exts {
                t = t.with_extension(e);
            }
            if let Some(d) = timeout {
                t = t.with_timeout(d);
            }
            t.run_tests::<Lab, _>(stub)
        }
        Kind::Parse => {
            let mut t = ParserTester::new(dir);
            for e in exts {
                t = t.with_extension(e);
            }
            if let Some(d) = timeout {
                t = t.with_timeout(d);
            }
            t.run_tests::<Lab, _>(stub)
        }
        Kind::Build => {
            let mut t = BuilderTester::new(dir);
            for e in exts {
                t = t.with_extension(e);
            }
            if let Some(d) = timeout {
                t = t.with_timeout(d);
            }
            t.run_tests::<Lab, _>(stub)
        }
    })
}
const NAMES: &[&str] = &["a.toy", "b.toy", "c.lab", "c.d.toy", "é.lab", "a.lab", "sub/a.toy", "sub/deep/x.lab", "a b.toy", "j.json", "toy", ".toy", "u.TOY", "n.txt", "m.toy.json", "sub/q.parsed.json"];

fn histories(g: &mut Gen, c: &mut Case) -> Res {
    let mut w = World { dir: scratch().join(format!("runners{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed))), files: BTreeMap::new() };
    std::fs::create_dir_all(&w.dir).unwrap();
    let plans: Plans = Default::default();
    let stub = Stub(plans.clone(), Duration::ZERO);
    let exts: Vec<&str> = match g.usize(5) {
        0 => vec!["toy"],
        1 => vec!["toy", "lab"],
        2 => vec!["json", "toy"],
        3 => vec!["lab", "json", "TOY"],
        _ => vec!["toy", "lab", "toy"],
    };
    let mut log = format!("{exts:?}");
    let mut serial = 0;
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    let (mut rejected, mut accepted) = (false, false);
    let kinds = [Kind::Lex, Kind::Parse, Kind::Build];
    let main_kind = *g.pick(&kinds);
    for step in 0..g.range(5, 20) {
        let inputs: Vec<String> = w.files.keys().filter(|n| { let b = n.rsplit('/').next().unwrap(); ext(b).is_some_and(|e| exts.contains(&e)) && !is_output(b) }).cloned().collect();
        let kind = if g.chance(4, 5) { main_kind } else { *g.pick(&kinds) };
        let op = if step == 0 || texts.is_empty() { 0 } else { g.weighted(&[2, 8, 4, 5, 1, 1, 1, 1]) };
        match op {
            // a new file, or new text in one
            0 => {
                for _ in 0..g.range(1, 3) {
                    let name = *g.pick(NAMES);
                    // a former name stands for one file only
                    if name.contains('.') && w.files.contains_key(&legacy(name)) && !w.files.contains_key(name) {
                        continue;
                    }
                    let mut t = text::any(g, 20);
                    serial += 1;
                    t.push_str(&format!("#{serial}"));
                    plans.lock().unwrap().insert(t.clone(), plan(g, &t));
                    log.push_str(&format!("; write {name} {t:?}"));
                    w.write(name, t.clone());
                    if is_output(name.rsplit('/').next().unwrap()) { texts.remove(name) } else { texts.insert(name.to_string(), t) };
                }
                continue;
            }
            // the language answers something else
            2 => {
                let names: Vec<&String> = texts.keys().collect();
                let name = (*g.pick(&names)).clone();
                let t = texts[&name].clone();
                let mut p = plans.lock().unwrap();
                let p = p.get_mut(&t).unwrap();
                alter(g, p, &t);
                log.push_str(&format!("; {name} now {p:?}"));
                continue;
            }
            // the stored expectation is edited
            3 => {
                let have: Vec<String> = inputs.iter().filter(|n| w.files.contains_key(&stored(n, kind))).cloned().collect();
                if have.is_empty() {
                    continue;
                }
                let s = stored(g.pick::<String>(&have), kind);
                let Ok(mut v) = serde_json::from_slice::<Value>(&w.files[&s]) else { continue };
                let data = match g.usize(6) {
                    0 => w.files[&s][..g.usize(w.files[&s].len())].to_vec(),
                    1 => serde_json::to_vec(&v).unwrap(),
                    _ => {
                        disturb(g, &mut v);
                        serde_json::to_vec_pretty(&v).unwrap()
                    }
                };
                log.push_str(&format!("; edit {s} {:?}", String::from_utf8_lossy(&data)));
                w.write(&s, data);
                continue;
            }
            4 => {
                let all: Vec<String> = w.files.keys().cloned().collect();
                if all.is_empty() {
                    continue;
                }
                let n = g.pick(&all).clone();
                log.push_str(&format!("; remove {n}"));
                w.remove(&n);
                texts.remove(&n);
                continue;
            }
            // an expectation under its former name
            5 => {
                let name = match inputs.iter().find(|n| !w.files.contains_key(&stored(n, kind)) && inputs.iter().filter(|m| legacy(m) == legacy(n)).count() == 1) {
                    Some(n) => n.clone(),
                    None => continue,
                };
                let Some(t) = texts.get(&name) else { continue };
                let mut v = actual(kind, t, &plans.lock().unwrap()[t]);
                if g.bool() {
                    disturb(g, &mut v);
                }
                log.push_str(&format!("; legacy {} {v}", legacy(&name)));
                w.write(&legacy(&name), serde_json::to_vec(&v).unwrap());
                continue;
            }
            // not a text
            6 => {
                if g.chance(1, 3) {
                    let name = *g.pick(&["bin.toy", "a.toy"]);
                    if name.contains('.') && w.files.contains_key(&legacy(name)) && !w.files.contains_key(name) {
                        continue;
                    }
                    log.push_str(&format!("; binary {name}"));
                    w.write(name, b"\xff\xfe".to_vec());
                    texts.remove(name);
                }
                continue;
            }
            _ => {}
        }
        // a run
        let force = op == 7;
        log.push_str(&format!("; run {kind:?}{}", if force { " regenerating" } else { "" }));
        c.desc(log.clone());
        let r = if force {
            let _x = REGENERATE.write().unwrap_or_else(|e| e.into_inner());
            unsafe { std::env::set_var("REGENERATE_TESTS", "1") };
            let r = run(kind, &w.dir, &exts, &stub, None);
            unsafe { std::env::remove_var("REGENERATE_TESTS") };
            r?
        } else {
            let _x = REGENERATE.read().unwrap_or_else(|e| e.into_inner());
            run(kind, &w.dir, &exts, &stub, None)?
        };
        // per input: what may be there afterwards, and whether it is a failure
        let before = w.files.clone();
        let after = w.on_disk();
        let mut may_differ: BTreeSet<String> = BTreeSet::new();
        let mut bad: BTreeMap<String, (&str, Option<String>)> = BTreeMap::new();
        for n in &inputs {
            let s = stored(n, kind);
            let old = legacy(n);
            let Some(t) = texts.get(n) else {
                bad.insert(n.clone(), ("unreadable", None));
                continue;
            };
            let want = actual(kind, t, &plans.lock().unwrap()[t]);
            let given = before.get(&s).or(before.get(&old));
            let moved = !before.contains_key(&s) && before.contains_key(&old);
            match given {
                Some(v) if !force => match serde_json::from_slice::<Value>(v) {
                    Ok(v) if as_stored(kind, &v).as_ref() == Some(&want) => {}
                    Ok(v) if as_stored(kind, &v).is_none() => {
                        bad.insert(n.clone(), ("corrupt", None));
                    }
                    Ok(_) => {
                        bad.insert(n.clone(), ("mismatch", None));
                    }
                    Err(_) => {
                        bad.insert(n.clone(), ("corrupt", None));
                    }
                },
                _ => {
                    if kind == Kind::Parse && !force {
                        bad.insert(n.clone(), ("new", Some(s.clone())));
                    }
                    may_differ.insert(s.clone());
                    match after.get(&s) {
                        None => ensure!(r.is_err(), format!("{kind:?}/unwritten"), "the run passed, but {s} was not written"),
                        Some(now) if Some(now) == before.get(&s) && r.is_err() => {}
                        Some(now) => {
                            let v: Value = serde_json::from_slice(now).map_err(|e| Fail { sig: format!("{kind:?}/written"), msg: format!("{s} holds no JSON: {e}") })?;
                            if !(r.is_err() && moved) {
                                ensure_eq!(v, want, format!("{kind:?}/written"), "what was written to {s}");
                            }
                        }
                    }
                }
            }
            if moved {
                // under either name, or both gone to the new one
                may_differ.insert(old.clone());
                may_differ.insert(s.clone());
                ensure!(r.is_err() || (!after.contains_key(&old) && after.contains_key(&s)), format!("{kind:?}/legacy"), "the run passed, but {old} was not renamed to {s}");
                if !force && let Some(now) = after.get(&s) {
                    ensure!(Some(now) == before.get(&old), format!("{kind:?}/legacy"), "{s} is not what {old} was");
                }
            }
        }
        for n in before.keys().chain(after.keys()) {
            ensure!(may_differ.contains(n) || before.get(n) == after.get(n), format!("{kind:?}/touched"), "the run changed {n:?}: {:?} -> {:?}", before.get(n).map(|v| String::from_utf8_lossy(v)), after.get(n).map(|v| String::from_utf8_lossy(v)));
        }
        match &r {
            Ok(()) => {
                ensure!(bad.is_empty(), format!("{kind:?}/passed"), "the run passed in spite of {bad:?}");
                accepted |= !inputs.is_empty() && !force;
            }
            Err(e) => {
                ensure!(!bad.is_empty(), format!("{kind:?}/failed"), "the run failed with {e} though every output is the stored one");
                match e.kind() {
                    OakErrorKind::TestFailure { path, .. } => {
                        ensure!(bad.iter().any(|(n, b)| b.0 == "mismatch" && w.dir.join(n) == *path), format!("{kind:?}/blames"), "the run blames {path:?}, at fault: {bad:?}");
                        rejected = true;
                    }
                    OakErrorKind::TestRegenerated { path } => {
                        ensure!(bad.iter().any(|(_, b)| b.1.as_ref().is_some_and(|s| w.dir.join(s) == *path && after.contains_key(s))), format!("{kind:?}/new"), "the run says it wrote {path:?}, new: {bad:?}");
                    }
                    _ => ensure!(bad.values().any(|b| matches!(b.0, "corrupt" | "unreadable")) || bad.values().any(|b| b.0 == "mismatch"), format!("{kind:?}/error"), "the run failed with {e}, at fault: {bad:?}"),
                }
            }
        }
        c.label(format!("{kind:?}-{}", match &r { Ok(()) => "passed".to_string(), Err(e) => e.kind().key().to_string() }));
        w.files = after;
        for n in w.files.keys() {
            if is_output(n.rsplit('/').next().unwrap()) {
                texts.remove(n);
            }
        }
    }
    if rejected && accepted {
        c.nontrivial();
    }
    Ok(())
}

fn timeouts(g: &mut Gen, c: &mut Case) -> Res {
    let kind = *g.pick(&[Kind::Lex, Kind::Parse, Kind::Build]);
    let mut w = World { dir: scratch().join(format!("runners{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed))), files: BTreeMap::new() };
    let t = "x";
    let p = plan(g, t);
    w.write("a.toy", t);
    w.write("a.toy.lexed.json", serde_json::to_vec(&actual(Kind::Lex, t, &p)).unwrap());
    w.write("a.toy.parsed.json", serde_json::to_vec(&actual(Kind::Parse, t, &p)).unwrap());
    w.write("a.toy.built.json", serde_json::to_vec(&actual(Kind::Build, t, &p)).unwrap());
    let plans: Plans = Arc::new(Mutex::new([(t.to_string(), p)].into()));
    let slow = g.bool();
    c.desc(format!("{kind:?} slow={slow}"));
    let _x = REGENERATE.read().unwrap_or_else(|e| e.into_inner());
    if slow {
        c.nontrivial();
        // the machine may be slow, too: only a run that passes several times in a row passes
        for wait in [200, 600, 1500] {
            let stub = Stub(plans.clone(), Duration::from_millis(wait));
            let limit = Duration::from_millis(1 + g.below(20));
            if let Err(e) = run(kind, &w.dir, &["toy"], &stub, Some(limit))? {
                ensure!(!matches!(e.kind(), OakErrorKind::TestFailure { .. } | OakErrorKind::TestRegenerated { .. }), "timeout/kind", "a run that takes too long failed with {e}");
                return Ok(());
            }
        }
        return fail("timeout/passed", "runs with a limit of at most 21 ms passed though the language took 200, 600 and 1500 ms");
    }
    let stub = Stub(plans, Duration::from_millis(g.below(30)));
    let limit = if g.bool() { None } else { Some(Duration::from_secs(60 + g.below(1000))) };
    if let Err(e) = run(kind, &w.dir, &["toy"], &stub, limit)? {
        return fail("timeout/failed", format!("a run with time enough failed: {e}"));
    }
    Ok(())
}

fn helpers(g: &mut Gen, c: &mut Case) -> Res {
    let mut w = World { dir: scratch().join(format!("runners{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed))), files: BTreeMap::new() };
    std::fs::create_dir_all(&w.dir).unwrap();
    let t = text::any(g, 200);
    let name = *g.pick(&["a", "d/e/f.txt", "é/中.x"]);
    c.desc(format!("{name} {t:?}"));
    let p = w.dir.join(name);
    if !t.is_ascii() {
        c.nontrivial();
    }
    for missing in [oak_testing::source_from_path(&p).is_err(), oak_core::helpers::source_from_path(&p).is_err(), oak_testing::json_from_path(&p).is_err(), oak_testing::open_file(&p).is_err(), oak_core::helpers::open_file(&p).is_err()] {
        ensure!(missing, "missing", "a file that is not there was read");
    }
    use std::io::{Read, Write};
    let old = "o".repeat(300);
    for create in [oak_testing::create_file, oak_core::helpers::create_file] {
        {
            let f = create(&p);
            ensure!(f.is_ok(), "create", "{name} could not be made: {:?}", f.err());
            f.unwrap().write_all(old.as_bytes()).unwrap();
        }
        let mut f = create(&p).map_err(|e| Fail { sig: "create".into(), msg: format!("{name} could not be made again: {e}") })?;
        f.write_all(t.as_bytes()).unwrap();
        drop(f);
        ensure_eq!(std::fs::read_to_string(&p).unwrap(), t, "create", "text written to {name}");
    }
    for read in [oak_testing::source_from_path, oak_core::helpers::source_from_path] {
        let s = read(&p).map_err(|e| Fail { sig: "read".into(), msg: format!("{name} could not be read: {e}") })?;
        ensure_eq!(s.get_text_from(0), t.as_str(), "read", "text read from {name}");
    }
    for open in [oak_testing::open_file, oak_core::helpers::open_file] {
        let mut s = String::new();
        open(&p).map_err(|e| Fail { sig: "open".into(), msg: format!("{name} could not be opened: {e}") })?.read_to_string(&mut s).unwrap();
        ensure_eq!(s, t, "open", "text of {name}");
    }
    let v = json_value(g, 3);
    w.write("v.json", serde_json::to_vec(&v).unwrap());
    match oak_testing::json_from_path(&w.dir.join("v.json")) {
        Ok(r) => ensure_eq!(r, v, "json", "value read back"),
        Err(e) => return fail("json", format!("{v} could not be read: {e}")),
    }
    w.write("v.json", "{\"a\": ");
    ensure!(oak_testing::json_from_path(&w.dir.join("v.json")).is_err(), "json", "half a value was read");
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C34",
        rule: "one case = up to 13 writes, changes of the language's answers, edits of expectations and runs of a test runner over a scratch directory, every file compared with a model after each run (histories), one run with a limit (timeouts), or one file (helpers); non-trivial: one run passed and one was rejected for a difference / the language was too slow / the text is not ASCII",
        assumptions: vec!["the stored files hold the documented result types as JSON", "leaves of a node are stored as their number and length, as the parser runner does, so trees that differ in nothing else are the same to it", "in which order files are tested is not judged", "a machine that stalls for 0.2, 0.6 and 1.5 s in a row between two statements would raise a false alarm"],
        facets: vec![Facet::new("histories", 3_000, 300_000, histories), Facet::new("timeouts", 60, 1_500, timeouts), Facet::new("helpers", 2_000, 60_000, helpers)],
    }]
}
