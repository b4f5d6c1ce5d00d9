//! C18, C19: virtual file systems against plain maps; the disk watcher against what was done.
use kit::*;
use oak_core::source::{Source, SourceId};
use oak_vfs::{DiskVfs, DiskWatcher, FileType, LineMap, MemoryVfs, Vfs, VfsEvent, VfsWatcher, WritableVfs};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant, SystemTime};

fn now() -> u64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs()
}
const URIS: &[&str] = &["a", "b", "a/b", "A", "", "é", "file:///x.toy", "file:///x%20y.toy", "中/文", "a ", "b.rs"];

struct Model {
    files: BTreeMap<String, (String, u64, u64, SourceId)>,
    /// ids ever seen
    given: HashMap<SourceId, String>,
}
fn same<V: Vfs>(v: &V, m: &Model, uri: &str) -> Res {
    match m.files.get(uri) {
        Some((text, t0, t1, id)) => {
            let s = v.get_source(uri);
            ensure!(s.is_some(), "source", "{uri:?} was written but has no source");
            let s = s.unwrap();
            ensure_eq!(s.get_text_from(0), text.as_str(), "text", "text of {uri:?}");
            ensure_eq!(s.length(), text.len(), "text", "length of {uri:?}");
            ensure_eq!(s.source_id(), Some(*id), "id", "id of the source of {uri:?}");
            ensure_eq!(v.get_id(uri), Some(*id), "id", "id of {uri:?}");
            ensure_eq!(v.get_uri(*id).as_deref(), Some(uri), "uri", "uri of id {id}");
            ensure!(v.exists(uri) && v.is_file(uri) && !v.is_dir(uri), "exists", "{uri:?} exists and is a file");
            let d = v.metadata(uri);
            ensure!(d.is_some(), "metadata", "{uri:?} has no metadata");
            let d = d.unwrap();
            ensure_eq!((d.file_type, d.len), (FileType::File, text.len() as u64), "metadata", "metadata of {uri:?}");
            ensure!(d.modified.is_some_and(|t| *t0 <= t && t <= *t1), "modified", "{uri:?} was written between {t0} and {t1} (seconds), not at {:?}", d.modified);
            ensure!(v.line_map(uri).is_some_and(|l| l.line_count() == text.matches('\n').count() + 1), "lines", "line map of {uri:?}");
        }
        None => {
            ensure!(v.get_source(uri).is_none() && v.get_id(uri).is_none() && !v.exists(uri) && v.metadata(uri).is_none() && !v.is_file(uri) && !v.is_dir(uri) && v.line_map(uri).is_none(), "absent", "{uri:?} is not there, but something answers for it");
        }
    }
    Ok(())
}
fn memory(g: &mut Gen, c: &mut Case) -> Res {
    let mut v = vec![MemoryVfs::new()];
    let mut m = Model { files: BTreeMap::new(), given: HashMap::new() };
    let mut kept: Vec<(oak_core::source::SourceText, String)> = Vec::new();
    let mut log = String::new();
    let (mut rewritten, mut removed) = (false, false);
    for _ in 0..g.range(1, 25) {
        let i = g.usize(v.len());
        let uri = g.pick(URIS).to_string();
        match g.weighted(&[8, 4, 1, 2]) {
            0 => {
                let t = text::any(g, 30);
                let t0 = now();
                log.push_str(&format!("; write {i} {uri:?} {t:?}"));
                if g.bool() { v[i].write_file(&uri, t.as_str()) } else { WritableVfs::write_file(&v[i], &uri, t.as_str().into()) }
                let t1 = now();
                let id = v[i].get_id(&uri);
                ensure!(id.is_some(), "id", "no id for {uri:?} after it was written");
                let id = id.unwrap();
                match m.files.get(&uri) {
                    Some(old) => {
                        ensure_eq!(id, old.3, "id-stable", "id of {uri:?} after it was written again");
                        rewritten = true
                    }
                    None => {
                        let before = m.given.insert(id, uri.clone());
                        ensure!(before.as_ref().is_none_or(|u| *u == uri), "id-reused", "{uri:?} was given id {id}, which stands for {before:?}");
                    }
                }
                m.files.insert(uri, (t, t0, t1, id));
            }
            1 => {
                log.push_str(&format!("; remove {i} {uri:?}"));
                if g.bool() { v[i].remove_file(&uri) } else { WritableVfs::remove_file(&v[i], &uri) }
                removed |= m.files.remove(&uri).is_some();
            }
            2 => {
                let x = v[i].clone();
                v.push(x);
                log.push_str(&format!("; clone {i}"))
            }
            _ => {
                if let (Some(s), Some(f)) = (v[i].get_source(&uri), m.files.get(&uri)) {
                    kept.push((s, f.0.clone()))
                }
            }
        }
        c.desc(log.clone());
        let j = g.usize(v.len());
        for u in URIS {
            same(&v[j], &m, u)?
        }
        let mut listed: Vec<String> = v[j].read_dir("").unwrap_or_default().iter().map(|u| u.to_string()).collect();
        listed.sort();
        ensure_eq!(listed, m.files.keys().cloned().collect::<Vec<_>>(), "list", "the files that are there");
        for (id, u) in &m.given {
            let now = v[j].get_uri(*id);
            let live = m.files.get(u).is_some_and(|f| f.3 == *id);
            ensure_eq!(now.as_deref(), live.then_some(u.as_str()), "stale-id", "uri of id {id}, given to {u:?}");
        }
    }
    for (s, t) in &kept {
        ensure_eq!(s.get_text_from(0), t.as_str(), "snapshot", "a source taken earlier")
    }
    if rewritten && removed {
        c.nontrivial()
    }
    Ok(())
}
fn threads(g: &mut Gen, c: &mut Case) -> Res {
    let v = MemoryVfs::new();
    let n = g.range(2, 6);
    let uris = ["p", "q", "r"];
    let plans: Vec<Vec<(usize, usize)>> = (0..n).map(|_| (0..g.range(3, 30)).map(|_| (g.usize(3), g.usize(3))).collect()).collect();
    c.desc(format!("{plans:?} (0 write, 1 remove, 2 read)"));
    c.nontrivial();
    let start = Arc::new(std::sync::Barrier::new(n));
    let handles: Vec<_> = plans
        .into_iter()
        .enumerate()
        .map(|(t, plan)| {
            let (v, start) = (v.clone(), start.clone());
            std::thread::spawn(move || -> Res {
                start.wait();
                for (k, (op, u)) in plan.into_iter().enumerate() {
                    let uri = uris[u];
                    match op {
                        0 => v.write_file(uri, format!("{uri} {t} {k}\n").repeat(1 + k)),
                        1 => v.remove_file(uri),
                        _ => {
                            if let Some(s) = v.get_source(uri) {
                                let x = s.get_text_from(0).into_owned();
                                let mut l: Vec<&str> = x.lines().collect();
                                let n = l.len();
                                l.dedup();
                                ensure!(l.len() == 1 && l[0].starts_with(&format!("{uri} ")) && l[0].ends_with(&format!(" {}", n - 1)), "torn", "the text of {uri:?} is none that was written: {x:?}");
                            }
                            if let Some(id) = v.get_id(uri) {
                                let back = v.get_uri(id);
                                ensure!(back.is_none() || back.as_deref() == Some(uri), "mixed", "id {id} of {uri:?} stands for {back:?}");
                            }
                        }
                    }
                }
                Ok(())
            })
        })
        .collect();
    for h in handles {
        match h.join() {
            Ok(r) => r?,
            Err(_) => return fail("panic", "a thread panicked"),
        }
    }
    let mut ids = BTreeSet::new();
    let mut listed: Vec<String> = v.read_dir("").unwrap_or_default().iter().map(|u| u.to_string()).collect();
    listed.sort();
    for u in uris {
        let there = v.exists(u);
        ensure_eq!(listed.iter().filter(|x| *x == u).count(), there as usize, "list", "{u:?} in the list of files");
        ensure_eq!(v.get_id(u).is_some(), there, "id", "{u:?} has an id");
        if let Some(id) = v.get_id(u) {
            ensure!(ids.insert(id), "shared-id", "two files have id {id}");
            ensure_eq!(v.get_uri(id).as_deref(), Some(u), "uri", "uri of {id}");
            ensure_eq!(v.get_source(u).and_then(|s| s.source_id()), Some(id), "id", "id of the source of {u:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- disk

#[derive(Debug, Clone)]
enum Node {
    File(Vec<u8>, u64, u64),
    Dir,
    Socket,
    /// Links to a file and a directory beside the root, and to nothing.
    ToFile,
    ToDir,
    Dangling,
}
type Tree = BTreeMap<Vec<String>, Node>;
fn put(t: &mut Tree, at: &[String], data: Vec<u8>, t0: u64, t1: u64) {
    if at.is_empty() || (1..at.len()).any(|k| matches!(t.get(&at[..k]), Some(Node::File(..) | Node::Socket))) || matches!(t.get(at), Some(Node::Dir | Node::Socket | Node::ToDir)) {
        return;
    }
    for k in 1..at.len() {
        t.insert(at[..k].to_vec(), Node::Dir);
    }
    t.insert(at.to_vec(), Node::File(data, t0, t1));
}
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
static SERIAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn fresh() -> (Dir, String) {
    static CWD: std::sync::Once = std::sync::Once::new();
    CWD.call_once(|| std::env::set_current_dir(scratch()).unwrap());
    let name = format!("d{}-{}", std::process::id(), SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    let d = scratch().join(&name);
    std::fs::create_dir_all(&d).unwrap();
    (Dir(d), name)
}
fn disk(g: &mut Gen, c: &mut Case) -> Res {
    let (dir, name) = fresh();
    let root = dir.0.join("root");
    let relative = g.bool();
    let made = g.chance(3, 4);
    let mut t: Tree = BTreeMap::new();
    if made {
        std::fs::create_dir(&root).unwrap();
    }
    let mut there = made;
    let v = DiskVfs::new(if relative { Path::new(&name).join("root") } else { root.clone() });
    let mut log = format!("{} root{}", if relative { "relative" } else { "absolute" }, if made { "" } else { ", not there yet" });
    let names = ["a", "b", "c.txt", "é 中", "a.d"];
    let mut ids: HashMap<SourceId, String> = HashMap::new();
    let (mut nested, mut removed) = (false, false);
    let outside = dir.0.join("outside.txt");
    std::fs::write(&outside, "o").unwrap();
    std::fs::create_dir(dir.0.join("outdir")).unwrap();
    std::fs::write(dir.0.join("outdir/f"), "f").unwrap();
    let mut ext = Node::File(b"o".to_vec(), now().saturating_sub(1), now());
    let is_link = |n: Option<&Node>| matches!(n, Some(Node::ToFile | Node::ToDir | Node::Dangling));
    let behind = |t: &Tree, at: &[String]| (1..at.len()).any(|k| is_link(t.get(&at[..k])));
    for _ in 0..g.range(1, 16) {
        let mut at: Vec<String> = (0..g.range(1, 3)).map(|_| g.pick(&names).to_string()).collect();
        if !t.is_empty() && g.chance(1, 3) {
            let known: Vec<&Vec<String>> = t.keys().collect();
            at = g.pick(&known).to_vec()
        }
        if behind(&t, &at) {
            continue;
        }
        let path = at.iter().fold(root.clone(), |p, n| p.join(n));
        let uri = match g.usize(5) {
            0 => path.to_str().unwrap().to_string(),
            1 => format!("./{}", at.join("/")),
            _ => at.join("/"),
        };
        let shown = uri.replace(dir.0.to_str().unwrap(), "…");
        match g.weighted(&[6, 3, 2, 1, 1, 1, 1]) {
            // would make the target of the link
            0 | 2 if matches!(t.get(&at), Some(Node::Dangling)) => {}
            0 => {
                let s = text::any(g, 20);
                log.push_str(&format!("; write {shown:?} {s:?}"));
                let t0 = now();
                v.write_file(&uri, s.as_str().into());
                if matches!(t.get(&at), Some(Node::ToFile)) {
                    ext = Node::File(s.into_bytes(), t0.saturating_sub(1), now());
                } else {
                    put(&mut t, &at, s.into_bytes(), t0.saturating_sub(1), now());
                }
                nested |= at.len() > 1;
                there = true;
            }
            1 => {
                log.push_str(&format!("; remove {shown:?}"));
                v.remove_file(&uri);
                if is_link(t.get(&at)) || matches!(t.get(&at), Some(Node::File(..) | Node::Socket)) {
                    t.remove(&at);
                    removed = true
                }
            }
            2 if there => {
                // another program writes
                let s = if g.bool() { vec![b'x', 0xff, 0xc3] } else { text::any(g, 10).into_bytes() };
                log.push_str(&format!("; outside {shown:?} {s:?}"));
                let t0 = now();
                let _ = std::fs::create_dir_all(path.parent().unwrap());
                let _ = std::fs::write(&path, &s);
                if matches!(t.get(&at), Some(Node::ToFile)) {
                    ext = Node::File(s, t0.saturating_sub(1), now());
                } else {
                    put(&mut t, &at, s, t0.saturating_sub(1), now());
                }
            }
            3 if there => {
                log.push_str(&format!("; mkdir {shown:?}"));
                if std::fs::create_dir(&path).is_ok() {
                    t.insert(at.clone(), Node::Dir);
                }
            }
            4 if there => {
                log.push_str(&format!("; rmdir {shown:?}"));
                if matches!(t.get(&at), Some(Node::Dir)) {
                    std::fs::remove_dir_all(&path).unwrap();
                    t.retain(|k, _| !k.starts_with(&at));
                }
            }
            5 if there && !t.contains_key(&at) => {
                if std::os::unix::net::UnixListener::bind(&path).is_ok() {
                    log.push_str(&format!("; socket {shown:?}"));
                    t.insert(at.clone(), Node::Socket);
                }
            }
            6 if there && !t.contains_key(&at) => {
                let (target, node) = match g.usize(3) {
                    0 => (outside.clone(), Node::ToFile),
                    1 => (dir.0.join("outdir"), Node::ToDir),
                    _ => (dir.0.join("nothing"), Node::Dangling),
                };
                if std::os::unix::fs::symlink(target, &path).is_ok() {
                    log.push_str(&format!("; link {shown:?} {node:?}"));
                    t.insert(at.clone(), node);
                }
            }
            _ => {}
        }
        c.desc(log.clone());
        // the touched path, and another one
        let other: Vec<String> = (0..g.range(1, 3)).map(|_| g.pick(&names).to_string()).collect();
        let other_uri = other.join("/");
        for (at, uri) in [(&at, &uri), (&other, &other_uri)] {
            if behind(&t, at) {
                continue;
            }
            let node = match t.get(at) {
                Some(Node::ToFile) => Some(&ext),
                Some(Node::ToDir) => Some(&Node::Dir),
                Some(Node::Dangling) => None,
                n => n,
            };
            let shown = uri.replace(dir.0.to_str().unwrap(), "…");
            let s = v.get_source(uri);
            let text = match node {
                Some(Node::File(b, ..)) => std::str::from_utf8(b).ok(),
                _ => None,
            };
            ensure_eq!(s.as_ref().map(|s| s.get_text_from(0).into_owned()).as_deref(), text, "text", "text of {shown:?}");
            ensure_eq!(v.line_map(uri).map(|l| l.line_count()), text.map(|t| t.matches('\n').count() + 1), "lines", "line map of {shown:?}");
            if let Some(s) = &s {
                let id = v.get_id(uri);
                ensure!(id.is_some() && s.source_id() == id, "id", "the source of {shown:?} has id {:?}, get_id is {id:?}", s.source_id());
                ensure_eq!(v.get_uri(id.unwrap()).as_deref(), Some(uri.as_str()), "uri", "uri of the id of {shown:?}");
                let before = ids.insert(id.unwrap(), uri.clone());
                ensure!(before.as_ref().is_none_or(|b| b == uri), "id-reused", "{before:?} and {shown:?} have one id");
            }
            ensure_eq!(v.exists(uri), node.is_some(), "exists", "{shown:?} exists");
            ensure_eq!(v.is_file(uri), matches!(node, Some(Node::File(..))), "is_file", "{shown:?} is a file");
            ensure_eq!(v.is_dir(uri), matches!(node, Some(Node::Dir)), "is_dir", "{shown:?} is a directory");
            let meta = v.metadata(uri);
            match (node, &meta) {
                (None, None) => {}
                (Some(Node::Dir), Some(d)) => ensure_eq!(d.file_type, FileType::Directory, "metadata", "type of {shown:?}"),
                (Some(Node::Socket), Some(d)) => ensure_eq!(d.file_type, FileType::Other, "metadata", "type of {shown:?}"),
                (Some(Node::File(b, t0, t1)), Some(d)) => {
                    ensure_eq!((d.file_type, d.len), (FileType::File, b.len() as u64), "metadata", "metadata of {shown:?}");
                    ensure!(d.modified.is_some_and(|t| *t0 <= t && t <= *t1), "modified", "{shown:?} was written between {t0} and {t1}, not at {:?}", d.modified);
                }
                _ => return fail("metadata", format!("{shown:?} is {node:?}, its metadata {meta:?}")),
            }
        }
        // a directory and what is in it
        let d: Vec<String> = if g.bool() { vec![] } else { at[..at.len() - 1].to_vec() };
        let duri = if d.is_empty() { "".to_string() } else { d.join("/") };
        let is = if d.is_empty() { there } else { matches!(t.get(&d), Some(Node::Dir)) };
        let listed = v.read_dir(&duri);
        ensure_eq!(listed.is_some(), is, "read_dir", "{duri:?} can be listed");
        if let Some(l) = listed {
            let mut got: Vec<String> = l.iter().map(|e| Path::new(&**e).file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default()).collect();
            got.sort();
            let mut want: Vec<String> = t.keys().filter(|k| k.len() == d.len() + 1 && k.starts_with(&d)).map(|k| k.last().unwrap().clone()).collect();
            want.sort();
            ensure_eq!(got, want, "read_dir", "entries of {duri:?}");
            for e in &l {
                let mut k = d.clone();
                k.push(Path::new(&**e).file_name().unwrap().to_string_lossy().into_owned());
                ensure!(v.exists(e) || matches!(t.get(&k), Some(Node::Dangling)), "entry", "the entry {e:?} of {duri:?} does not exist");
                if let Some(Node::File(b, ..)) = t.get(&k) {
                    ensure_eq!(v.get_source(e).map(|s| s.get_text_from(0).into_owned()).as_deref(), std::str::from_utf8(b).ok(), "entry", "text of the entry {e:?} of {duri:?}");
                }
            }
        }
    }
    if nested && removed {
        c.nontrivial()
    }
    Ok(())
}

// ---------------------------------------------------------------- watcher

#[derive(Default)]
struct Seen(Mutex<Vec<(char, String)>>);
impl Seen {
    fn has(&self, k: char, p: &Path) -> bool {
        self.0.lock().unwrap().iter().any(|(c, u)| *c == k && Path::new(u) == p)
    }
    /// the kinds of events of a path, in order; the system may join equal neighbours
    fn of(&self, p: &Path) -> String {
        let mut v: Vec<char> = self.0.lock().unwrap().iter().filter(|(c, u)| *c != '-' && Path::new(u) == p).map(|x| x.0).collect();
        v.dedup();
        v.into_iter().collect()
    }
    fn mentions(&self, p: &Path) -> bool {
        self.0.lock().unwrap().iter().any(|(_, u)| Path::new(u) == p)
    }
}
fn wait(f: impl Fn() -> bool, secs: u64) -> bool {
    let t = Instant::now();
    while !f() {
        if t.elapsed() > Duration::from_secs(secs) {
            return false;
        }
        std::thread::sleep(Duration::from_micros(300));
    }
    true
}
/// A watcher of the library itself, to know that the system reports an event.
struct Control {
    _w: notify::RecommendedWatcher,
    seen: Arc<Seen>,
}
fn control(dir: &Path) -> Option<Control> {
    use notify::Watcher;
    let seen = Arc::new(Seen::default());
    let s = seen.clone();
    let mut w = notify::recommended_watcher(move |r: notify::Result<notify::Event>| {
        if let Ok(e) = r {
            let k = if e.kind.is_modify() { 'm' } else if e.kind.is_create() { 'c' } else if e.kind.is_remove() { 'r' } else { '-' };
            for p in e.paths {
                s.0.lock().unwrap().push((k, p.to_string_lossy().into_owned()))
            }
        }
    })
    .ok()?;
    w.watch(dir, notify::RecursiveMode::Recursive).ok()?;
    Some(Control { _w: w, seen })
}
fn watcher(g: &mut Gen, c: &mut Case) -> Res {
    let (dir, _) = fresh();
    let dirs: Vec<PathBuf> = (0..3).map(|i| dir.0.join(format!("w{i}"))).collect();
    for d in &dirs {
        std::fs::create_dir_all(d.join("sub")).unwrap();
    }
    let Some(ctl) = control(&dir.0) else {
        c.label("no file notifications here");
        return Ok(());
    };
    let seen = Arc::new(Seen::default());
    let s = seen.clone();
    let Ok(mut w) = DiskWatcher::new(move |e| {
        let x = match e {
            VfsEvent::Changed(u) => ('m', u),
            VfsEvent::Created(u) => ('c', u),
            VfsEvent::Removed(u) => ('r', u),
        };
        s.0.lock().unwrap().push(x)
    }) else {
        c.label("no file notifications here");
        return Ok(());
    };
    let uri = |i: usize| dirs[i].to_str().unwrap().to_string();
    let mut on = [false; 3];
    let mut log = String::new();
    let mut stops = false;
    for step in 0..g.range(2, 10) {
        let i = g.usize(3);
        match g.weighted(&[5, 2, 2, 6]) {
            0 => {
                log.push_str(&format!("; watch {i}"));
                c.desc(log.clone());
                let r = w.watch(&uri(i));
                ensure!(r.is_ok(), "watch", "watching an existing directory: {r:?}");
                on[i] = true
            }
            1 => {
                log.push_str(&format!("; unwatch {i}"));
                c.desc(log.clone());
                let r = w.unwatch(&uri(i));
                ensure_eq!(r.is_ok(), on[i], "unwatch", "whether directory {i} was watched");
                on[i] = false
            }
            2 => {
                log.push_str("; unwatch all");
                c.desc(log.clone());
                let r = w.unwatch_all();
                ensure!(r.is_ok(), "unwatch_all", "unwatch_all: {r:?}");
                stops |= on.iter().any(|o| *o);
                on = [false; 3];
                if g.bool() {
                    ensure!(w.unwatch(&uri(i)).is_err(), "still-watched", "directory {i} is still watched after unwatch_all");
                }
            }
            _ => {
                let p = if g.bool() { dirs[i].join("sub") } else { dirs[i].clone() }.join(format!("f{step}"));
                log.push_str(&format!("; create, write and remove {}", p.strip_prefix(&dir.0).unwrap().display()));
                c.desc(log.clone());
                drop(std::fs::File::create(&p).unwrap());
                std::fs::write(&p, "x").unwrap();
                std::fs::remove_file(&p).unwrap();
                for k in ['c', 'm', 'r'] {
                    if !wait(|| ctl.seen.has(k, &p), 5) {
                        c.label("no notification from the system");
                        return Ok(());
                    }
                    if on[i] {
                        let ok = wait(|| seen.has(k, &p), 10);
                        ensure!(ok, "no-event", "directory {i} is watched, but no event '{k}' came for {}; events {:?}", p.display(), seen.0.lock().unwrap());
                    }
                }
                if on[i] {
                    // taken in this order the control can only be ahead or behind by what is still on its way
                    let (got, want) = (seen.of(&p), ctl.seen.of(&p));
                    ensure!(want.starts_with(&got) || got.starts_with(&want), "kinds", "the events of {} are {got:?} in order, the system reports {want:?}", p.display());
                } else {
                    ensure!(!seen.mentions(&p), "unwatched-event", "directory {i} is not watched, but an event came for {}", p.display());
                }
            }
        }
    }
    if stops {
        c.nontrivial()
    }
    ensure!(w.watch(dir.0.join("absent").to_str().unwrap()).is_err(), "watch-absent", "watching what does not exist");
    Ok(())
}

pub fn all() -> Vec<Check> {
    let _: fn(&oak_core::source::SourceText) -> LineMap = |s| LineMap::from_source(s);
    vec![
        Check {
            id: "C18",
            rule: "one case = up to 25 writes, removals, clones and reads of a memory file system, everything observable compared after each (histories), or plans for 2..6 threads (threads); non-trivial: a file was written again and one removed / every threads case",
            assumptions: vec!["read_dir lists all files whatever directory is named, as it says", "the clock does not go backwards during a case", "which interleavings the threads facet meets is up to the scheduler"],
            facets: vec![Facet::new("histories", 60_000, 2_000_000, memory), Facet::new("threads", 6_000, 100_000, threads)],
        },
        Check {
            id: "C19",
            rule: "one case = up to 16 operations on a scratch directory through DiskVfs and by others, compared with a model tree (tree), or a history of a watcher over three directories (watcher), or up to five threads that read the same files through one DiskVfs at the same time (threads); non-trivial: a nested file was written and one removed / all watches were ended while some were on / at least three threads",
            assumptions: vec!["file times may be a second behind the clock", "a watcher must report an event within ten seconds once the system reported it to a watcher of the check's own", "which interleavings the threads facet meets is up to the scheduler"],
            facets: vec![Facet::new("tree", 12_000, 400_000, disk), Facet::new("threads", 1_500, 60_000, disk_threads), Facet::new("watcher", 300, 6_000, watcher)],
        },
    ]
}

/// Threads that use one DiskVfs together: a file has one number for all of them, and every number one file.
fn disk_threads(g: &mut Gen, c: &mut Case) -> Res {
    let (dir, _) = fresh();
    let root = dir.0.clone();
    let names: Vec<String> = (0..g.range(2, 40)).map(|i| format!("f{i}")).collect();
    for n in &names {
        if let Err(e) = std::fs::write(root.join(n), format!("text of {n}")) {
            return fail("setup", e.to_string());
        }
    }
    let n = g.range(2, 5);
    // mostly the same way through the files, so that they meet at new ones
    let same = g.chance(3, 4);
    let mut plans: Vec<Vec<usize>> = vec![];
    for _ in 0..n {
        let p = if same && !plans.is_empty() { plans[0].clone() } else { (0..names.len()).map(|_| g.usize(names.len())).collect() };
        plans.push(p)
    }
    c.desc(format!("{plans:?}"));
    if n > 2 {
        c.nontrivial()
    }
    let v = Arc::new(DiskVfs::new(root.clone()));
    let (names, start) = (Arc::new(names), Arc::new(std::sync::Barrier::new(n)));
    let handles: Vec<_> = plans
        .into_iter()
        .map(|plan| {
            let (v, names, start) = (v.clone(), names.clone(), start.clone());
            std::thread::spawn(move || -> Result<Vec<(usize, u32)>, Fail> {
                start.wait();
                let mut got = vec![];
                for f in plan {
                    let s = v.get_source(&names[f]);
                    ensure!(s.is_some(), "read", "{} cannot be read", names[f]);
                    let s = s.unwrap();
                    ensure_eq!(&*s.get_text_from(0), format!("text of {}", names[f]), "read", "the text of {}", names[f]);
                    let id = s.source_id();
                    ensure!(id.is_some(), "id", "the source of {} has no id", names[f]);
                    let id = id.unwrap();
                    ensure_eq!(v.get_uri(id).as_deref(), Some(names[f].as_str()), "uri", "the file of id {id}");
                    ensure_eq!(v.get_id(&names[f]), Some(id), "id", "the id of {}", names[f]);
                    got.push((f, id))
                }
                Ok(got)
            })
        })
        .collect();
    let mut ids: BTreeMap<usize, u32> = BTreeMap::new();
    let mut all = vec![];
    for h in handles {
        match h.join() {
            Ok(r) => all.extend(r?),
            Err(_) => return fail("panic", "a thread panicked"),
        }
    }
    for (f, id) in all {
        let first = *ids.entry(f).or_insert(id);
        ensure_eq!(first, id, "two-ids", "ids of {}", names[f]);
    }
    let distinct: BTreeSet<u32> = ids.values().copied().collect();
    ensure_eq!(distinct.len(), ids.len(), "same-id", "ids {ids:?}");
    Ok(())
}
