//! Small property-based-testing kit: choice-sequence generators (every random decision goes
//! through `Gen`), integrated shrinking on the choice sequence, replay, known-finding matching,
//! coverage counters and evidence. A run is a pure function of the code and VERIF_SEED.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub mod text;

// ---------------------------------------------------------------- generator

/// Source of all choices. In generation mode values come from a seeded SplitMix64 stream and are
/// recorded; in replay mode they come from a recorded sequence (0 once exhausted).
pub struct Gen {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// Size hint 0..=100; grows over the cases of a facet.
    pub size: u64,
    /// Where every choice is written at once (a case that kills its process).
    log: Option<std::fs::File>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Gen {
    pub fn seeded(seed: u64, size: u64) -> Self {
        let mut s = seed;
        splitmix(&mut s);
        Gen { rng: s, replay: None, pos: 0, rec: Vec::new(), size, log: None }
    }
    pub fn replaying(choices: Vec<u64>, size: u64) -> Self {
        Gen { rng: 0, replay: Some(choices), pos: 0, rec: Vec::new(), size, log: None }
    }
    /// Uniform in 0..n (n >= 1). 0 is the simplest value.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => splitmix(&mut self.rng) % n,
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi.saturating_sub(lo) + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den (false is simplest).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Length up to max, scaled by the size hint, biased to small.
    pub fn len(&mut self, max: usize) -> usize {
        let cap = ((max as u64 * self.size.max(5)) / 100).max(1) as usize;
        let cap = cap.min(max);
        if self.chance(1, 4) { self.range(0, cap) } else { self.range(0, cap.min(8.max(cap / 4))) }
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut r = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if r < *w {
                return i;
            }
            r -= w;
        }
        ws.len() - 1
    }
    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
        let n = self.len(max);
        (0..n).map(|_| f(self)).collect()
    }
    /// A char boundary of s (byte offset).
    pub fn boundary(&mut self, s: &str) -> usize {
        let n = s.chars().count();
        let k = self.usize(n + 1);
        s.char_indices().nth(k).map(|(i, _)| i).unwrap_or(s.len())
    }
    /// An ordered pair of char boundaries.
    pub fn span(&mut self, s: &str) -> (usize, usize) {
        let a = self.boundary(s);
        let b = self.boundary(s);
        (a.min(b), a.max(b))
    }
}

// ---------------------------------------------------------------- case result

#[derive(Clone, Debug)]
pub struct Fail {
    /// Exact signature used to match known findings.
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::fail(format!("{}", $sig), format!($($arg)*)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => if a != b { return $crate::fail(format!("{}", $sig), format!("{}\n   left (code):  {:?}\n   right (oracle): {:?}", format!($($arg)*), a, b)); }
        }
    }};
}

/// What a case tells about itself.
#[derive(Default)]
pub struct Case {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub desc: String,
    pub evals: u64,
    known: Vec<(String, String)>,
    listed: Option<Arc<HashSet<String>>>,
}
impl Case {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn desc(&mut self, s: impl Into<String>) {
        self.desc = s.into();
    }
    /// Records a failure that may be a listed finding: continue (Ok) if it is, else fail.
    pub fn tolerate(&mut self, r: Res) -> Res {
        match r {
            Ok(()) => Ok(()),
            Err(f) => {
                if self.listed.as_ref().is_some_and(|l| l.contains(&f.sig)) {
                    self.known.push((f.sig, f.msg));
                    Ok(())
                } else {
                    Err(f)
                }
            }
        }
    }
    pub fn is_listed(&self, sig: &str) -> bool {
        self.listed.as_ref().is_some_and(|l| l.contains(sig))
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

fn normalize(msg: &str) -> String {
    let mut out = String::new();
    let mut in_num = false;
    for c in msg.lines().next().unwrap_or("").chars() {
        if c.is_ascii_digit() {
            if !in_num {
                out.push('#');
            }
            in_num = true;
        } else {
            in_num = false;
            out.push(c);
        }
        if out.chars().count() > 60 {
            break;
        }
    }
    // quoted payloads (slices of the input) are not part of the signature
    if let Some(i) = out.find('`') {
        out.truncate(i);
    }
    if let Some(i) = out.find(" (bytes") {
        out.truncate(i);
    }
    if let Some(i) = out.find("inside '") {
        out.truncate(i);
    }
    out.trim().to_string()
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if !quiet {
            default(info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.split("/repo/").last().unwrap_or(f);
                let f = if f.contains("/library/") { format!("std:{}", f.rsplit("/library/").next().unwrap()) } else { f.to_string() };
                f
            })
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs f, turning a panic into a Fail with signature "<prefix>panic@<file>: <message>".
pub fn guarded<T>(prefix: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let was = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            fail(format!("{}panic@{}: {}", prefix, loc, normalize(&msg)), format!("panicked at {}: {}", loc, msg))
        }
    }
}

// ---------------------------------------------------------------- facets and runner

pub type CaseFn = Box<dyn Fn(&mut Gen, &mut Case) -> Res + Send + Sync>;

pub struct Facet {
    pub name: String,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}
impl Facet {
    pub fn new(name: impl Into<String>, quick: u64, thorough: u64, run: impl Fn(&mut Gen, &mut Case) -> Res + Send + Sync + 'static) -> Self {
        Facet { name: name.into(), quick, thorough, run: Box::new(run) }
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub facets: Vec<Facet>,
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// known_findings.json: [{"property": "C01", "status": "known", "sig": "...", "what": "..."}]
fn load_known(id: &str) -> (Arc<HashSet<String>>, BTreeMap<String, String>) {
    let p = format!("{}/known_findings.json", verif_dir());
    let mut set = HashSet::new();
    let mut what = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(&p) {
        let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json is not valid JSON");
        for e in v.as_array().expect("known_findings.json: array expected") {
            if e["property"].as_str() == Some(id) && e["status"].as_str() == Some("known") {
                let sig = e["sig"].as_str().unwrap_or("").to_string();
                what.insert(sig.clone(), e["what"].as_str().unwrap_or("").to_string());
                set.insert(sig);
            }
        }
    }
    (Arc::new(set), what)
}

struct Slot {
    started: AtomicU64,
    facet: AtomicUsize,
    idx: AtomicU64,
}

fn run_case(f: &Facet, g: &mut Gen, listed: &Arc<HashSet<String>>) -> (Case, Res) {
    let mut c = Case { listed: Some(listed.clone()), evals: 1, ..Default::default() };
    let r = match guarded(&format!("{}/", f.name), || (f.run)(g, &mut c)) {
        Ok(r) => r.map_err(|e| Fail { sig: if e.sig.starts_with('!') { e.sig[1..].to_string() } else { format!("{}/{}", f.name, e.sig) }, msg: e.msg }),
        Err(e) => Err(e),
    };
    (c, r)
}

type Tried = Option<(Vec<u64>, Fail, String)>;

/// Shrinks in this process.
fn shrink(f: &Facet, choices: Vec<u64>, size: u64, sig: &str, listed: &Arc<HashSet<String>>) -> (Vec<u64>, Fail, String) {
    let run = |c: &[u64]| {
        let mut g = Gen::replaying(c.to_vec(), size);
        let (case, r) = run_case(f, &mut g, listed);
        (g.rec, case, r)
    };
    let found = shrink_with(choices.clone(), 4000, 40, |c| {
        let (mut rec, case, r) = run(c);
        match r {
            Err(e) if e.sig == sig => {
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some((rec, e, case.desc))
            }
            _ => None,
        }
    });
    found.unwrap_or_else(|| {
        // not reproducible from the recorded choices: report as is
        let (_, case, r) = run(&choices);
        let e = r.err().unwrap_or(Fail { sig: sig.into(), msg: "(not reproduced on replay)".into() });
        (choices, e, case.desc)
    })
}

fn shrink_with(choices: Vec<u64>, tries: u32, secs: u64, mut run: impl FnMut(&[u64]) -> Tried) -> Tried {
    let start = Instant::now();
    let budget = std::cell::Cell::new(tries);
    let mut try_it = |c: &[u64]| -> Tried {
        if budget.get() == 0 || start.elapsed().as_secs() > secs {
            return None;
        }
        budget.set(budget.get() - 1);
        run(c)
    };
    let mut best = try_it(&choices)?;
    let smaller = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    loop {
        let before = best.0.clone();
        // delete blocks
        let mut k = (best.0.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.0.len() {
                let mut c = best.0.clone();
                c.drain(i..i + k);
                match try_it(&c) {
                    Some(b) if smaller(&b.0, &best.0) => best = b,
                    _ => {
                        // deletion together with lowering a preceding length-like choice
                        let mut done = false;
                        if i > 0 && k <= 4 {
                            let mut c2 = best.0.clone();
                            c2.drain(i..i + k);
                            for back in 1..=3usize.min(i) {
                                if c2[i - back] > 0 {
                                    let mut c3 = c2.clone();
                                    c3[i - back] -= 1;
                                    if let Some(b) = try_it(&c3) {
                                        if smaller(&b.0, &best.0) {
                                            best = b;
                                            done = true;
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                        if !done {
                            i += if k > 1 { k / 2 } else { 1 };
                        }
                    }
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.0.len() {
            let v = best.0[i];
            if v > 0 {
                for cand in [0, v / 2, v - 1] {
                    if cand < best.0.get(i).copied().unwrap_or(0) {
                        let mut c = best.0.clone();
                        c[i] = cand;
                        if let Some(b) = try_it(&c) {
                            if smaller(&b.0, &best.0) {
                                best = b;
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best.0 == before || budget.get() == 0 || start.elapsed().as_secs() > secs {
            break;
        }
    }
    Some(best)
}

/// Runs one case on a thread of its own, watched.
fn alone(f: &Facet, g: &mut Gen, listed: &Arc<HashSet<String>>) -> (Case, Res) {
    let secs: u64 = std::env::var("VERIF_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(45);
    let slots: Arc<Vec<Slot>> = Arc::new(vec![Slot { started: AtomicU64::new(1), facet: AtomicUsize::new(0), idx: AtomicU64::new(0) }]);
    watchdog(slots, Arc::new(AtomicBool::new(false)), Instant::now(), secs * 1000, 3 << 30);
    std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || run_case(f, g, listed)).unwrap().join().expect("case thread"))
}

struct Outcome {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    known: BTreeMap<String, (u64, String)>,
    /// (facet, idx, choices, size, fail)
    fails: Vec<(usize, u64, Vec<u64>, u64, Fail)>,
    /// failures per signature (only the first ones of each are kept in `fails`)
    seen: BTreeMap<String, u64>,
}

fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…(+{} bytes)", &s[..e], s.len() - e)
}

/// The generators of every case a facet will run in this process, for work that is done once for
/// all of them (compiling generated programs); none when a single case is replayed.
pub fn planned(facet: &str, quick: u64, thorough: u64) -> Vec<Gen> {
    let args: Vec<String> = std::env::args().collect();
    if args.iter().any(|a| a == "--replay" || a == "--case") {
        return Vec::new();
    }
    if let Some(p) = args.iter().position(|a| a == "--facet") {
        if !facet.contains(args[p + 1].as_str()) {
            return Vec::new();
        }
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { thorough } else { quick };
    let n = ((n as f64) * scale).ceil() as u64;
    (0..n).map(|i| case_gen(seed, facet, i, n)).collect()
}

fn case_gen(seed: u64, facet: &str, idx: u64, n: u64) -> Gen {
    let cs = seed ^ hash_str(facet).rotate_left(17) ^ idx.wrapping_mul(0xD1342543DE82EF95).rotate_left(31);
    Gen::seeded(cs, 5 + (idx * 95) / n.max(1))
}

fn resident_bytes() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

/// Exit codes of the worker process that stand for a case which did not end by itself.
const STUCK: i32 = 70;
const BLOATED: i32 = 71;
const SLOT: usize = 64;

/// Runs the worker in a child process, so that a case which kills it (stack overflow, abort),
/// never returns or fills the memory is found, confirmed alone, shrunk and reported too.
pub fn main(checks: Vec<Check>) {
    if std::env::var_os("VERIF_WORKER").is_some() {
        return worker(checks);
    }
    let args: Vec<String> = std::env::args().collect();
    let exe = std::env::current_exe().expect("current_exe");
    let tmp = std::env::temp_dir().join(format!("verif-{}-{}", std::process::id(), args.get(1).cloned().unwrap_or_default().replace('/', "_")));
    let _ = std::fs::create_dir_all(&tmp);
    let scratch = tmp.join("scratch");
    let _ = std::fs::create_dir_all(&scratch);
    unsafe { std::env::set_var("VERIF_SCRATCH", &scratch) };
    let slots = tmp.join("slots");
    let status = std::process::Command::new(&exe).args(&args[1..]).env("VERIF_WORKER", "1").env("VERIF_SLOTS", &slots).status().expect("worker");
    let code = status.code();
    let done = |c: i32| -> ! {
        let _ = std::fs::remove_dir_all(&tmp);
        std::process::exit(c)
    };
    match code {
        Some(STUCK) | Some(BLOATED) | None => {}
        Some(c) => done(c),
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let replay_arg = args.iter().position(|a| a == "--replay").map(|p| args[p + 1].clone());
    if let Some(f) = replay_arg {
        println!("replay: the case does not end by itself ({status})");
        println!("VIOLATION property={id} replay={f}");
        done(1);
    }
    eprintln!("the worker did not end by itself ({status}); looking for the case");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let bytes = std::fs::read(&slots).unwrap_or_default();
    // candidates run alone, at the same time
    let mut kids = Vec::new();
    for (k, rec) in bytes.chunks(SLOT).enumerate() {
        let rec = String::from_utf8_lossy(rec).to_string();
        let v: Vec<u64> = rec.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if v.len() < 3 {
            continue;
        }
        let log = tmp.join(format!("log{k}"));
        let child = std::process::Command::new(&exe).args([id.as_str(), "--case", &v[0].to_string(), &v[1].to_string(), &v[2].to_string()]).env("VERIF_WORKER", "1").env("VERIF_CHOICES", &log).stderr(std::process::Stdio::null()).spawn();
        if let Ok(c) = child {
            kids.push((v, log, c));
        }
    }
    let mut guilty = None;
    for (v, log, mut c) in kids {
        let st = c.wait().expect("wait");
        let how = match st.code() {
            Some(STUCK) => "does not end",
            Some(BLOATED) => "fills the memory",
            None => "kills the process",
            _ => continue,
        };
        if guilty.is_none() {
            guilty = Some((v, log, how));
        }
    }
    let Some((v, log, how)) = guilty else {
        eprintln!("INCONCLUSIVE property={id}: the worker ended with {status}, and no case does so alone");
        done(3);
    };
    let check = checks.into_iter().find(|c| c.id == id).expect("check");
    let f = &check.facets[v[0] as usize];
    let choices: Vec<u64> = std::fs::read(&log).unwrap_or_default().chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
    let size = 5 + (v[1] * 95) / v[2].max(1);
    let dir = std::env::var("VERIF_REPLAY_DIR").unwrap_or_else(|_| format!("{}/replays/{}", verif_dir(), id));
    let _ = std::fs::create_dir_all(&dir);
    let sig = format!("{}/{}", f.name, how);
    let path = format!("{}/{:016x}.json", dir, hash_str(&sig));
    let write = |p: &str, c: &[u64]| {
        let v = serde_json::json!({"property": id, "facet": f.name, "sig": sig, "seed": seed, "case": v[1], "size": size, "choices": c, "desc": "", "message": how});
        let _ = std::fs::write(p, serde_json::to_string_pretty(&v).unwrap());
    };
    let trial = tmp.join("trial.json").to_string_lossy().to_string();
    let secs = if how == "does not end" { 5 } else { 30 };
    let found = shrink_with(choices.clone(), 200, 60, |c| {
        write(&trial, c);
        let st = std::process::Command::new(&exe).args([id.as_str(), "--replay", &trial]).env("VERIF_WORKER", "1").env("VERIF_CASE_SECS", secs.to_string()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().ok()?;
        match st.code() {
            Some(STUCK) | Some(BLOATED) | None => Some((c.to_vec(), Fail { sig: sig.clone(), msg: String::new() }, String::new())),
            _ => None,
        }
    });
    write(&path, &found.map(|f| f.0).unwrap_or(choices));
    println!("---- {sig}\n  one case {how} (worker: {status})");
    println!("VIOLATION property={id} replay={path}");
    done(1)
}

fn watchdog(slots: Arc<Vec<Slot>>, stop: Arc<AtomicBool>, t0: Instant, limit: u64, memory: u64) {
    std::thread::spawn(move || {
        while !stop.load(Ordering::Relaxed) {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let now = t0.elapsed().as_millis() as u64 + 1;
            for s in slots.iter() {
                let st = s.started.load(Ordering::Relaxed);
                if st != 0 && now > st + limit {
                    std::process::exit(STUCK);
                }
            }
            if resident_bytes() > memory {
                std::process::exit(BLOATED);
            }
        }
    });
}

/// The code under test may print; what it prints goes nowhere, what the check says to the real stdout.
static STDOUT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
/// Begins the worker early, for a check that does work before its cases.
pub fn begin() {
    START.get_or_init(Instant::now);
    quiet_stdout();
}
fn quiet_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    if STDOUT.get().is_some() {
        return;
    }
    if let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        unsafe {
            let saved = dup(1);
            if saved >= 0 {
                let _ = STDOUT.set(std::fs::File::from_raw_fd(saved));
                dup2(null.as_raw_fd(), 1);
                if std::env::var_os("VERIF_STDERR").is_none() {
                    dup2(null.as_raw_fd(), 2);
                }
            }
        }
    }
}
fn say_line(s: String) {
    use std::io::Write;
    match STDOUT.get() {
        Some(mut f) => {
            let _ = f.write_all((s + "\n").as_bytes());
        }
        None => println!("{s}"),
    }
}
macro_rules! say {
    ($($a:tt)*) => { say_line(format!($($a)*)) };
}

/// A directory for what the cases write, removed after the run.
pub fn scratch() -> std::path::PathBuf {
    std::env::var_os("VERIF_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(std::env::temp_dir)
}

fn worker(checks: Vec<Check>) {
    install_hook();
    quiet_stdout();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(check) = checks.into_iter().find(|c| c.id == id) else {
        say!("unknown check {id}");
        std::process::exit(2);
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (listed, what) = load_known(check.id);

    // --replay FILE : run one recorded case only
    if let Some(p) = args.iter().position(|a| a == "--replay") {
        let file = &args[p + 1];
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
        let facet = v["facet"].as_str().unwrap();
        let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let size = v["size"].as_u64().unwrap_or(50);
        let f = check.facets.iter().find(|f| f.name == facet).expect("facet");
        let mut g = Gen::replaying(choices, size);
        let (c, r) = alone(f, &mut g, &listed);
        say!("case: {}", c.desc);
        match r {
            Ok(()) => say!("replay: property held"),
            Err(e) => {
                say!("sig: {}\n{}", e.sig, e.msg);
                say!("VIOLATION property={} replay={}", check.id, file);
                std::process::exit(1);
            }
        }
        return;
    }
    // --case FACET IDX N : run one generated case only, logging its choices
    if let Some(p) = args.iter().position(|a| a == "--case") {
        let v: Vec<u64> = args[p + 1..p + 4].iter().map(|x| x.parse().unwrap()).collect();
        let f = &check.facets[v[0] as usize];
        let mut g = case_gen(seed, &f.name, v[1], v[2]);
        g.log = std::env::var_os("VERIF_CHOICES").and_then(|p| std::fs::File::create(p).ok());
        let (_, r) = alone(f, &mut g, &listed);
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    let only = args.iter().position(|a| a == "--facet").map(|p| args[p + 1].clone());
    let survey = args.iter().any(|a| a == "--survey");
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);

    let t0 = *START.get_or_init(Instant::now);
    // work list: chunks of (facet, first, last)
    let mut work: Vec<(usize, u64, u64, u64)> = Vec::new();
    for (fi, f) in check.facets.iter().enumerate() {
        if let Some(o) = &only {
            if !f.name.contains(o.as_str()) {
                continue;
            }
        }
        let n = if tier == "thorough" { f.thorough } else { f.quick };
        let n = ((n as f64) * scale).ceil() as u64;
        let step = (n / 64).clamp(1, 200);
        let mut a = 0;
        while a < n {
            let b = (a + step).min(n);
            work.push((fi, a, b, n));
            a = b;
        }
    }
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> = Arc::new((0..nthreads).map(|_| Slot { started: AtomicU64::new(0), facet: AtomicUsize::new(0), idx: AtomicU64::new(0) }).collect());
    let check = Arc::new(check);
    let work = Arc::new(work);
    let total: Arc<Mutex<Outcome>> = Arc::new(Mutex::new(Outcome { evals: 0, nontrivial: HashSet::new(), labels: BTreeMap::new(), samples: Vec::new(), known: BTreeMap::new(), fails: Vec::new(), seen: BTreeMap::new() }));

    // a stuck case or one that fills the memory ends the worker; the parent process looks into it
    watchdog(slots.clone(), stop.clone(), t0, if tier == "thorough" { 180_000 } else { 60_000 }, 14 << 30);
    let slot_file = Arc::new(std::env::var_os("VERIF_SLOTS").and_then(|p| std::fs::File::create(p).ok()));

    let mut handles = Vec::new();
    for t in 0..nthreads {
        let (next, work, check, total, slots, listed, slot_file) = (next.clone(), work.clone(), check.clone(), total.clone(), slots.clone(), listed.clone(), slot_file.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut o = Outcome { evals: 0, nontrivial: HashSet::new(), labels: BTreeMap::new(), samples: Vec::new(), known: BTreeMap::new(), fails: Vec::new(), seen: BTreeMap::new() };
                    loop {
                        let w = next.fetch_add(1, Ordering::SeqCst);
                        if w >= work.len() {
                            break;
                        }
                        let (fi, a, b, n) = work[w];
                        let f = &check.facets[fi];
                        for idx in a..b {
                            let mut g = case_gen(seed, &f.name, idx, n);
                            let size = g.size;
                            if let Some(file) = slot_file.as_ref() {
                                use std::os::unix::fs::FileExt;
                                let rec = format!("{:<width$}", format!("{fi} {idx} {n}"), width = SLOT);
                                let _ = file.write_at(rec.as_bytes(), (t * SLOT) as u64);
                            }
                            slots[t].facet.store(fi, Ordering::Relaxed);
                            slots[t].idx.store(idx, Ordering::Relaxed);
                            slots[t].started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let (case, r) = run_case(f, &mut g, &listed);
                            slots[t].started.store(0, Ordering::Relaxed);
                            o.evals += case.evals;
                            *o.labels.entry(format!("facet:{}", f.name)).or_insert(0) += 1;
                            for l in &case.labels {
                                *o.labels.entry(l.clone()).or_insert(0) += 1;
                            }
                            if case.nontrivial {
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                f.name.hash(&mut h);
                                g.rec.hash(&mut h);
                                o.nontrivial.insert(h.finish());
                                if idx == n / 2 || idx == n - 1 {
                                    o.samples.push(((fi as u64) << 32 | idx, format!("[{}] {}", f.name, truncate(&case.desc, 400))));
                                }
                            }
                            for (s, m) in case.known {
                                let e = o.known.entry(s).or_insert((0, truncate(&m, 600)));
                                e.0 += 1;
                            }
                            if let Err(e) = r {
                                if listed.contains(&e.sig) {
                                    let k = o.known.entry(e.sig).or_insert((0, truncate(&e.msg, 600)));
                                    k.0 += 1;
                                } else {
                                    let n = o.seen.entry(e.sig.clone()).or_insert(0);
                                    *n += 1;
                                    if *n <= 100 {
                                        o.fails.push((fi, idx, g.rec, size, e));
                                    }
                                }
                            }
                        }
                    }
                    let mut tot = total.lock().unwrap();
                    tot.evals += o.evals;
                    tot.nontrivial.extend(o.nontrivial);
                    for (k, v) in o.labels {
                        *tot.labels.entry(k).or_insert(0) += v;
                    }
                    tot.samples.extend(o.samples);
                    for (k, v) in o.known {
                        let e = tot.known.entry(k).or_insert((0, v.1));
                        e.0 += v.0;
                    }
                    tot.fails.extend(o.fails);
                    for (k, v) in o.seen {
                        *tot.seen.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap(),
        );
    }
    let mut crashed = false;
    for h in handles {
        crashed |= h.join().is_err();
    }
    stop.store(true, Ordering::Relaxed);
    if crashed {
        say!("INCONCLUSIVE property={} a worker thread died outside a case", check.id);
        std::process::exit(3);
    }
    let mut tot = Arc::try_unwrap(total).ok().unwrap().into_inner().unwrap();
    tot.samples.sort();
    tot.fails.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));

    // group failures by signature; one shrunk replay per signature
    let mut groups: Vec<(String, u64, (usize, u64, Vec<u64>, u64, Fail))> = Vec::new();
    for f in &tot.fails {
        match groups.iter_mut().find(|g| g.0 == f.4.sig) {
            Some(g) => {
                // prefer the shortest witness
                if f.2.len() < g.2.2.len() {
                    g.2 = f.clone();
                }
            }
            None => groups.push((f.4.sig.clone(), tot.seen.get(&f.4.sig).copied().unwrap_or(1), f.clone())),
        }
    }
    // --sigs FILE : write every signature with one unshrunk witness, report nothing
    if let Some(p) = args.iter().position(|a| a == "--sigs") {
        let mut out = Vec::new();
        for (sig, n, (fi, idx, choices, size, e)) in &groups {
            let f = &check.facets[*fi];
            let desc = if e.msg.contains("budget") { String::new() } else { run_case(f, &mut Gen::replaying(choices.clone(), *size), &listed).0.desc };
            out.push(serde_json::json!({"sig": sig, "seen": n, "case": idx, "facet": f.name, "desc": truncate(&desc, 700), "msg": truncate(&e.msg, 600)}));
        }
        std::fs::write(&args[p + 1], serde_json::to_string_pretty(&out).unwrap()).unwrap();
        say!("{} signatures={} evaluations={}", check.id, out.len(), tot.evals);
        return;
    }
    let max_report = if survey { 500 } else { 8 };
    let dir = std::env::var("VERIF_REPLAY_DIR").unwrap_or_else(|_| format!("{}/replays/{}", verif_dir(), check.id));
    let handle = {
        let check = check.clone();
        let groups = groups.clone();
        let listed = listed.clone();
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                let mut out = Vec::new();
                for (sig, n, (fi, idx, choices, size, fail0)) in groups.iter().take(max_report) {
                    let f = &check.facets[*fi];
                    let (c, e, desc) = shrink(f, choices.clone(), *size, sig, &listed);
                    let e = if e.sig == *sig { e } else { fail0.clone() };
                    let _ = std::fs::create_dir_all(&dir);
                    let path = format!("{}/{:016x}.json", dir, hash_str(sig));
                    let v = serde_json::json!({"property": check.id, "facet": f.name, "sig": sig, "seed": seed, "case": idx, "size": size, "choices": c, "desc": desc, "message": e.msg, "seen": n});
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
                    out.push((sig.clone(), *n, path, desc, e));
                }
                out
            })
            .unwrap()
    };
    let reported = handle.join().unwrap_or_default();

    let known_list: Vec<serde_json::Value> = tot.known.iter().map(|(k, v)| serde_json::json!({"sig": k, "seen": v.0})).collect();
    let mut samples: Vec<String> = tot.samples.iter().map(|s| s.1.clone()).collect();
    samples.truncate(60);
    let ev = serde_json::json!({
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.evals,
            "distinct_nontrivial": tot.nontrivial.len(),
            "rule": check.rule,
            "samples": samples,
            "classes": tot.labels,
            "known_findings_hit": known_list,
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": groups.len(),
    });
    if only.is_none() {
        let evdir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&evdir);
        std::fs::write(format!("{}/{}.json", evdir, check.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }

    for (sig, w) in &what {
        let seen = tot.known.get(sig).map(|x| x.0).unwrap_or(0);
        say!("KNOWN-FINDING: property={} {} [{}] (seen {} times in this run)", check.id, w, sig, seen);
    }
    say!("{} {} seed={} evaluations={} nontrivial={} wall={:.1}s failures={} signatures", check.id, tier, seed, tot.evals, tot.nontrivial.len(), t0.elapsed().as_secs_f64(), groups.len());
    if survey {
        for (k, v) in &tot.labels {
            say!("  {v:>8} {k}");
        }
    }
    if !groups.is_empty() {
        for (sig, n, path, desc, e) in &reported {
            say!("---- {} (x{})\n  case: {}\n  {}", sig, n, truncate(desc, 700), truncate(&e.msg, 900));
            say!("VIOLATION property={} replay={}", check.id, path);
        }
        std::process::exit(1);
    }
}
