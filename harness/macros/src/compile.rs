//! Compiles generated items in batches and remembers what became of each.
use kit::{Res, fail};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{LazyLock, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Expect {
    /// Compiles, and `run()` is Ok.
    Run,
    /// The call is an error of compilation.
    Error,
    /// A test that passes, fails, is ignored.
    Pass,
    Fails,
    Ignored,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Item {
    pub code: String,
    pub files: Vec<(String, String)>,
    pub expect: Expect,
}
impl Item {
    pub fn run(code: String) -> Item {
        Item { code, files: vec![], expect: Expect::Run }
    }
    fn key(&self) -> u64 {
        let mut h = std::hash::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
}
/// None: as expected; otherwise (signature, message).
type Outcome = Option<(String, String)>;
static DONE: LazyLock<Mutex<HashMap<u64, Outcome>>> = LazyLock::new(Default::default);

struct Tools {
    externs: Vec<String>,
    deps: PathBuf,
    dir: PathBuf,
}
static TOOLS: LazyLock<Tools> = LazyLock::new(|| {
    let here = env!("CARGO_MANIFEST_DIR");
    let out = Command::new("cargo").args(["build", "--offline", "--message-format=json", "--manifest-path", &format!("{here}/Cargo.toml")]).stderr(Stdio::null()).output().expect("cargo");
    let mut externs = Vec::new();
    let mut deps = PathBuf::new();
    for line in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
        let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
        if v["reason"] != "compiler-artifact" || !["oak_core", "oak_macros", "oak_pretty_print", "oak_testing", "oak_json"].contains(&name.as_str()) {
            continue;
        }
        let file = v["filenames"].as_array().unwrap().iter().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib") || f.ends_with(".so")).expect("artifact");
        let mut d = Path::new(file).parent().unwrap().to_path_buf();
        if !d.ends_with("deps") {
            d = d.join("deps")
        }
        deps = d;
        externs.push(format!("{name}={file}"));
    }
    assert_eq!(externs.len(), 5, "the crates under test are not built: {externs:?}");
    let dir = kit::scratch().join("macros");
    std::fs::create_dir_all(&dir).unwrap();
    Tools { externs, deps, dir }
});

/// What the runner stores for a text, or something else.
pub fn stored(lexer: bool, text: &str, right: bool) -> String {
    static MEMO: LazyLock<Mutex<HashMap<(bool, String), Value>>> = LazyLock::new(Default::default);
    let key = (lexer, text.to_string());
    let known = MEMO.lock().unwrap().get(&key).cloned();
    let mut v = known.unwrap_or_else(|| {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let dir = kit::scratch().join(format!("stored{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("t.json"), text).unwrap();
        let lang = Box::leak(Box::new(oak_json::JsonLanguage::default()));
        let file = if lexer {
            let _ = oak_testing::lexing::LexerTester::new(&dir).with_extension("json").run_tests::<oak_json::JsonLanguage, _>(&oak_json::lexer::JsonLexer::new(lang));
            "t.json.lexed.json"
        } else {
            let parser = Box::leak(Box::new(oak_json::parser::JsonParser::new(lang)));
            let _ = oak_testing::parsing::ParserTester::new(&dir).with_extension("json").run_tests::<oak_json::JsonLanguage, _>(parser);
            "t.json.parsed.json"
        };
        let v: Value = serde_json::from_str(&std::fs::read_to_string(dir.join(file)).unwrap_or_default()).unwrap_or(Value::Null);
        let _ = std::fs::remove_dir_all(&dir);
        MEMO.lock().unwrap().insert(key, v.clone());
        v
    });
    if !right {
        let field = if lexer { "count" } else { "node_count" };
        v[field] = (v[field].as_u64().unwrap_or(0) + 1).into();
    }
    v.to_string()
}

const PRELUDE: &str = include_str!("prelude.rs");

fn line_of(span: &Value) -> Option<usize> {
    if span["file_name"].as_str().is_some_and(|f| f.ends_with("cases.rs")) {
        return span["line_start"].as_u64().map(|l| l as usize);
    }
    let e = &span["expansion"];
    if e.is_object() { line_of(&e["span"]) } else { None }
}

/// Compiles and runs one batch of items of one kind.
fn batch(n: usize, items: &[Item]) -> Vec<Outcome> {
    let t = &*TOOLS;
    let dir = t.dir.join(format!("b{n}"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let test = matches!(items[0].expect, Expect::Pass | Expect::Fails | Expect::Ignored);
    let mut broken: BTreeMap<usize, String> = BTreeMap::new();
    let first = PRELUDE.lines().count() + 1;
    let built = loop {
        let mut s = String::from(PRELUDE);
        for (i, it) in items.iter().enumerate() {
            if broken.contains_key(&i) {
                s += "\n";
                continue;
            }
            assert!(!it.code.contains('\n'), "one line per case");
            let data = dir.join(format!("data{i}"));
            if !it.files.is_empty() {
                std::fs::create_dir_all(&data).unwrap();
                for (f, text) in &it.files {
                    std::fs::write(data.join(f), text).unwrap();
                }
            }
            s += &format!("mod c{i} {{ use super::*; {} }}\n", it.code.replace("@DIR@", &format!("data{i}")));
        }
        if !test {
            s += "fn main() { let from: usize = std::env::args().nth(1).unwrap().parse().unwrap(); std::panic::set_hook(Box::new(|_| ())); let all: &[(usize, fn() -> Out)] = &[";
            if items[0].expect == Expect::Run {
                for i in (0..items.len()).filter(|i| !broken.contains_key(i)) {
                    s += &format!("({i}, c{i}::run as fn() -> Out), ");
                }
            }
            s += "]; for (i, f) in all { if *i < from { continue } let r = match std::panic::catch_unwind(|| f()) { Ok(r) => r, Err(e) => Err(format!(\"panic: {}\", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }; println!(\"CASE {i} {:?}\", r); } }\n";
        }
        std::fs::write(dir.join("cases.rs"), &s).unwrap();
        let mut cmd = Command::new("rustc");
        cmd.current_dir(&dir).env("CARGO_MANIFEST_DIR", &dir).args(["--edition", "2024", "cases.rs", "-o", "cases", "--error-format=json", "-Awarnings", "-Copt-level=0", "-Cdebuginfo=0"]);
        cmd.args(["-L", &format!("dependency={}", t.deps.display())]);
        for e in &t.externs {
            cmd.args(["--extern", e]);
        }
        if test {
            cmd.arg("--test");
        }
        if items[0].expect == Expect::Error {
            cmd.arg("--emit=metadata");
        }
        let out = cmd.stdin(Stdio::null()).output().expect("rustc");
        if out.status.success() {
            break true;
        }
        let before = broken.len();
        let mut rest = String::new();
        for line in String::from_utf8_lossy(&out.stderr).lines() {
            let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
            if v["level"] != "error" {
                continue;
            }
            let msg = v["message"].as_str().unwrap_or("").to_string();
            let spans: Vec<&Value> = v["spans"].as_array().map(|a| a.iter().collect()).unwrap_or_default();
            let lines: HashSet<usize> = spans.iter().filter(|s| s["is_primary"] == true).chain(spans.iter()).filter_map(|s| line_of(s)).take(1).collect();
            for l in lines {
                if l >= first && l - first < items.len() {
                    broken.entry(l - first).or_insert(msg.clone());
                }
            }
            rest += &msg;
            rest.push('\n');
        }
        if broken.len() == before {
            if items.len() > 1 {
                // not to be told from the messages: one by one
                let _ = std::fs::remove_dir_all(&dir);
                return items.iter().map(|it| batch(n, std::slice::from_ref(it)).remove(0)).collect();
            }
            broken.insert(0, rest);
        }
        if broken.len() == items.len() {
            break false;
        }
    };
    let mut said: BTreeMap<usize, String> = BTreeMap::new();
    if built && items[0].expect != Expect::Error {
        if test {
            let out = Command::new("timeout").args(["120", "./cases", "--test-threads=8"]).current_dir(&dir).env_remove("REGENERATE_TESTS").stdin(Stdio::null()).stderr(Stdio::null()).output().expect("run");
            for l in String::from_utf8_lossy(&out.stdout).lines() {
                if let Some(r) = l.strip_prefix("test c") {
                    let i = r.split("::").next().and_then(|d| d.parse::<usize>().ok());
                    let how = r.rsplit("... ").next().unwrap_or("");
                    if let Some(i) = i {
                        said.insert(i, how.split_whitespace().next().unwrap_or("").to_string());
                    }
                }
            }
        } else {
            let mut from = 0;
            loop {
                let out = Command::new("timeout").args(["60", "./cases", &from.to_string()]).current_dir(&dir).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("run");
                for l in String::from_utf8_lossy(&out.stdout).lines() {
                    if let Some((i, r)) = l.strip_prefix("CASE ").and_then(|r| r.split_once(' ')) {
                        said.insert(i.parse().unwrap_or(usize::MAX), r.to_string());
                    }
                }
                // a case that ended the program
                match (from..items.len()).find(|i| !broken.contains_key(i) && !said.contains_key(i)) {
                    Some(i) => {
                        said.insert(i, format!("ended the program: {}", out.status));
                        from = i + 1;
                    }
                    None => break,
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    items
        .iter()
        .enumerate()
        .map(|(i, it)| match (it.expect, broken.get(&i)) {
            (Expect::Error, Some(_)) => None,
            (Expect::Error, None) => Some(("compiles".into(), "a malformed call compiles".into())),
            (_, Some(m)) => Some((format!("error: {}", m.lines().next().unwrap_or("").split('`').next().unwrap_or("").trim()), format!("the call does not compile: {m}"))),
            (Expect::Run, None) => match said.get(&i).map(|s| s.as_str()) {
                Some("Ok(())") => None,
                Some(s) => Some(("wrong".into(), s.to_string())),
                None => Some(("wrong".into(), "no answer".into())),
            },
            (e, None) => {
                let want = match e {
                    Expect::Pass => "ok",
                    Expect::Fails => "FAILED",
                    _ => "ignored",
                };
                let got = said.get(&i).map(|s| s.trim_end_matches(',')).unwrap_or("no such test");
                if got == want { None } else { Some((format!("test {got}"), format!("the test is {got}, not {want}"))) }
            }
        })
        .collect()
}

/// Compiles everything, in batches, on all cores.
pub fn all(items: Vec<Item>) {
    let mut seen = HashSet::new();
    let mut kinds: [Vec<Item>; 3] = Default::default();
    for it in items {
        if seen.insert(it.key()) {
            kinds[match it.expect {
                Expect::Run => 0,
                Expect::Error => 1,
                _ => 2,
            }]
            .push(it)
        }
    }
    let batches: Vec<Vec<Item>> = kinds.iter().flat_map(|v| v.chunks(100).map(|c| c.to_vec())).collect();
    if batches.is_empty() {
        return;
    }
    let _ = &*TOOLS;
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some(b) = batches.get(i) else { break };
                    let r = batch(i, b);
                    let mut done = DONE.lock().unwrap();
                    for (it, o) in b.iter().zip(r) {
                        done.insert(it.key(), o);
                    }
                }
            });
        }
    });
}

/// What became of the item; it is compiled alone if it was not before.
pub fn outcome(it: &Item) -> Res {
    let k = it.key();
    let known = DONE.lock().unwrap().get(&k).cloned();
    let o = match known {
        Some(o) => o,
        None => {
            static ONE: Mutex<()> = Mutex::new(());
            let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
            let o = batch(1_000_000, std::slice::from_ref(it)).remove(0);
            DONE.lock().unwrap().insert(k, o.clone());
            o
        }
    };
    match o {
        None => Ok(()),
        Some((sig, msg)) => fail(sig, msg),
    }
}
