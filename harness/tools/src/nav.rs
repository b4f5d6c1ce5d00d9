//! C21-C24: symbols, references, the symbol table, resolution, workspace folders, and what a language service answers by default.
use crate::docs::{self, D, E, T, Toy};
use kit::*;
use oak_core::memory::arena::SyntaxArena;
use oak_core::source::SourceText;
use oak_core::tree::{GreenNode, RedNode};
use oak_core::{Range, UniversalElementRole as ER};
use oak_lsp::service::LanguageService;
use oak_lsp::types::{InitializeParams, StructureItem, SymbolKind, WorkspaceFolder, WorkspaceSymbol};
use oak_lsp::workspace::WorkspaceManager;
use oak_navigation::SimpleReferenceFinder;
use oak_resolver::{GlobalSymbolTable, ModuleResolver, StandardResolver};
use oak_symbols::{SymbolInformation, SymbolProvider, UniversalSymbolProvider};
use oak_vfs::{DiskVfs, MemoryVfs, WritableVfs};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

pub type Sym = (String, ER, String, (usize, usize), Option<String>);
pub fn sym(s: &SymbolInformation) -> Sym {
    (s.name.clone(), s.role, s.uri.to_string(), (s.range.start, s.range.end), s.container_name.clone())
}
fn same_file(a: &Path, b: &Path) -> bool {
    match (a.canonicalize(), b.canonicalize()) {
        (Ok(a), Ok(b)) => a == b,
        _ => false,
    }
}
pub struct Scratch(pub PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
static N: AtomicU64 = AtomicU64::new(0);
pub fn scratch(name: &str) -> Scratch {
    let p = kit::scratch().join(format!("{name}{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&p).unwrap();
    Scratch(p)
}

// ---------------------------------------------------------------- symbols of a tree

pub fn walk(d: &D, at: usize, container: Option<String>, uri: &str, out: &mut Vec<Sym>) {
    let D::N(k, kids) = d else { return };
    let mut inside = container.clone();
    if *k == E::N(1) {
        let name = kids.iter().find_map(|c| if let D::L(T::Name, s) = c { Some(s.clone()) } else { None }).unwrap_or_else(|| format!("<{k:?}>"));
        out.push((name.clone(), ER::Definition, uri.to_string(), (at, at + d.len()), container));
        inside = Some(name);
    }
    let mut at = at;
    for kid in kids {
        walk(kid, at, inside.clone(), uri, out);
        at += kid.len();
    }
}
fn symbols(g: &mut Gen, c: &mut Case) -> Res {
    let d = if g.bool() { docs::any_document(g) } else { docs::document(g, &[1, 1, 1, 3, 0, 4]) };
    let t = docs::text(&d);
    let uri = *g.pick(&["file:///a.toy", "", "é"]);
    let (src, how) = crate::linemap::source_of(g, &t);
    c.label(how);
    c.desc(format!("{how} {d:?}"));
    let a = SyntaxArena::default();
    let root = RedNode::new(docs::build(&d, &a), 0);
    let mut want = Vec::new();
    walk(&d, 0, None, uri, &mut want);
    if want.iter().any(|s| s.4.is_some()) {
        c.nontrivial()
    }
    let got: Vec<Sym> = SymbolProvider::<Toy>::document_symbols(&UniversalSymbolProvider::new(), uri, &root, &*src).iter().map(sym).collect();
    ensure_eq!(got, want, "symbols", "symbols of the document");
    Ok(())
}
fn references(g: &mut Gen, c: &mut Case) -> Res {
    let d = docs::any_document(g);
    let t = docs::text(&d);
    c.desc(format!("{d:?}"));
    let a = SyntaxArena::default();
    let root: RedNode<Toy> = RedNode::new(docs::build(&d, &a), 0);
    let mut leaves = Vec::new();
    d.leaves(&mut 0, &mut leaves);
    let mut names: Vec<&str> = docs::NAMES.to_vec();
    names.extend(["", "absent", "1", "+"]);
    for name in names {
        let want: Vec<(String, usize, usize)> = leaves.iter().filter(|l| l.0 == T::Name && l.1 == name).map(|l| ("u".to_string(), l.2, l.3)).collect();
        if want.len() > 1 && !name.is_empty() {
            c.nontrivial()
        }
        let got: Vec<(String, usize, usize)> = SimpleReferenceFinder::find(&root, name, &t, "u").into_iter().map(|l| (l.uri.to_string(), l.range.start, l.range.end)).collect();
        ensure_eq!(got, want, "references", "references of {name:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- the symbol table

const URIS: &[&str] = &["file:///a", "file:///b", "file:///c", ""];
fn gen_sym(g: &mut Gen, uri: &str, tag: usize) -> SymbolInformation {
    let names = ["a", "b", "ab", "main", "é", "a::b", ""];
    let container = if g.bool() { Some(g.pick(&["a", "b", "m"]).to_string()) } else { None };
    let role = *g.pick(&[ER::Definition, ER::Binding, ER::Typing]);
    // the uri inside may be written differently from the one it is filed under
    let own = if g.chance(1, 6) { format!("{uri}#x") } else { uri.to_string() };
    SymbolInformation { name: g.pick(&names).to_string(), role, uri: own.into(), range: Range { start: tag, end: tag + g.usize(4) }, container_name: container }
}
fn fqn(s: &Sym) -> String {
    match &s.4 {
        Some(c) => format!("{c}::{}", s.0),
        None => s.0.clone(),
    }
}
fn table(g: &mut Gen, c: &mut Case) -> Res {
    let t = GlobalSymbolTable::new();
    // in the order they were added
    let mut m: Vec<(String, Sym)> = Vec::new();
    let mut log = String::new();
    let mut tag = 0;
    for _ in 0..g.range(1, 15) {
        let uri = *g.pick(URIS);
        let new: Vec<SymbolInformation> = (0..g.usize(5))
            .map(|_| {
                tag += 10;
                gen_sym(g, uri, tag)
            })
            .collect();
        log.push_str(&format!("; update {uri:?} {:?}", new.iter().map(|s| (fqn(&sym(s)), s.range.start)).collect::<Vec<_>>()));
        c.desc(log.clone());
        m.retain(|(u, _)| u != uri);
        m.extend(new.iter().map(|s| (uri.to_string(), sym(s))));
        t.update_file_symbols(uri.to_string(), new);
        for u in URIS.iter().chain(&["absent"]) {
            let got: Vec<Sym> = t.query_file(u).iter().map(sym).collect();
            let want: Vec<Sym> = m.iter().filter(|(f, _)| f == u).map(|(_, s)| s.clone()).collect();
            ensure_eq!(got, want, "file", "symbols of the file {u:?}");
        }
        let mut fs: Vec<String> = m.iter().map(|(_, s)| fqn(s)).collect();
        fs.sort();
        if fs.windows(2).any(|w| w[0] == w[1]) {
            c.nontrivial()
        }
        fs.extend(["absent", "a", "a::b", "", "m::a"].map(str::to_string));
        fs.dedup();
        for f in &fs {
            let got = t.lookup(f).map(|s| sym(&s));
            let want = m.iter().rev().find(|(_, s)| fqn(s) == *f).map(|(_, s)| s.clone());
            ensure_eq!(got, want, "lookup", "the symbol {f:?}");
        }
        for q in ["", "a", "::", "main", "b", "é", "zz"] {
            let mut got: Vec<Sym> = t.query(q).iter().map(sym).collect();
            let mut want: Vec<Sym> = m.iter().filter(|(_, s)| fqn(s).contains(q)).map(|(_, s)| s.clone()).collect();
            let key = |s: &Sym| (s.3, s.0.clone());
            got.sort_by_key(key);
            want.sort_by_key(key);
            ensure_eq!(got, want, "query", "symbols matching {q:?}");
        }
    }
    Ok(())
}
fn table_threads(g: &mut Gen, c: &mut Case) -> Res {
    let n = g.range(2, 5);
    let mut tag = 0;
    let plans: Vec<Vec<(String, Vec<SymbolInformation>)>> = (0..n)
        .map(|i| {
            (0..g.range(5, 30))
                .map(|_| {
                    let uri = if g.chance(1, 3) { format!("own{i}") } else { g.pick(URIS).to_string() };
                    let v = (0..g.usize(4))
                        .map(|_| {
                            tag += 10;
                            gen_sym(g, &uri, tag)
                        })
                        .collect();
                    (uri, v)
                })
                .collect()
        })
        .collect();
    c.nontrivial();
    c.desc(format!("{n} threads update {:?}", plans.iter().map(|p| p.iter().map(|(u, v)| (u.as_str(), v.iter().map(|s| fqn(&sym(s))).collect::<Vec<_>>())).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let t = GlobalSymbolTable::new();
    let go = std::sync::Barrier::new(n);
    std::thread::scope(|s| {
        for p in &plans {
            let (t, go) = (&t, &go);
            s.spawn(move || {
                go.wait();
                for (u, v) in p {
                    t.update_file_symbols(u.clone(), v.clone());
                    t.lookup("a");
                    t.query("b");
                }
            });
        }
    });
    let mut uris: Vec<String> = plans.iter().flatten().map(|(u, _)| u.clone()).collect();
    uris.sort();
    uris.dedup();
    let mut all = Vec::new();
    for u in &uris {
        let got: Vec<Sym> = t.query_file(u).iter().map(sym).collect();
        // what a file holds is one of its last updates
        let last: Vec<Vec<Sym>> = plans.iter().filter_map(|p| p.iter().rev().find(|(f, _)| f == u)).map(|(_, v)| v.iter().map(sym).collect()).collect();
        ensure!(last.contains(&got), "lost", "the file {u:?} holds {got:?}, which is no thread's last update of it");
        all.extend(got);
    }
    let key = |s: &Sym| (s.3, s.0.clone());
    all.sort_by_key(key);
    let mut got: Vec<Sym> = t.query("").iter().map(sym).collect();
    got.sort_by_key(key);
    ensure_eq!(got, all, "stale", "all symbols after the threads ended, against those of the files");
    for s in &all {
        let f = fqn(s);
        let l = t.lookup(&f).map(|s| sym(&s));
        ensure!(l.as_ref().is_some_and(|l| fqn(l) == f && all.contains(l)), "stale-lookup", "{f:?} is defined, lookup gives {l:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- resolver and workspace

fn file_uri(p: &Path) -> String {
    url::Url::from_file_path(p).unwrap().to_string()
}
const DIRS: &[&str] = &["", "src", "src/in", "lib", "lib é", "lib/src"];
const FILES: &[&str] = &["a.toy", "b c.toy", "é.toy", "a%20b", "m#1", "q?x", "src"];
fn resolver(g: &mut Gen, c: &mut Case) -> Res {
    let s = scratch("res");
    for d in DIRS {
        if d.is_empty() || g.chance(2, 3) {
            let _ = std::fs::create_dir_all(s.0.join(d));
            for f in FILES {
                if g.chance(1, 3) {
                    let p = s.0.join(d).join(f);
                    if !p.exists() {
                        let _ = std::fs::write(p, "x");
                    }
                }
            }
        }
    }
    let mut roots: Vec<PathBuf> = (0..g.usize(4)).map(|_| s.0.join(*g.pick(DIRS))).collect();
    let r = StandardResolver::new(roots.clone());
    let mut log = String::new();
    let mut picked = (false, false);
    for _ in 0..g.range(1, 12) {
        if g.chance(1, 8) {
            roots = (0..g.usize(4)).map(|_| s.0.join(*g.pick(DIRS))).collect();
            r.set_root_dirs(roots.clone());
            log.push_str("; roots set");
        }
        let base_dir = s.0.join(*g.pick(DIRS));
        let (base, base_dir) = match g.weighted(&[8, 1, 1]) {
            0 => (file_uri(&base_dir.join("base.toy")), Some(base_dir)),
            1 => ("untitled:Untitled-1".to_string(), None),
            _ => ("no uri".to_string(), None),
        };
        let mut import = String::new();
        if g.chance(1, 10) {
            import = s.0.to_str().unwrap().to_string() + "/";
        }
        for _ in 0..g.usize(3) {
            import.push_str(*g.pick(&["../", "./", "src/", "lib/", "in/", "lib é/"]));
        }
        import.push_str(*g.pick(FILES));
        let want = base_dir.iter().chain(&roots).map(|d| d.join(&import)).find(|p| p.exists());
        let got = r.resolve(&base, &import);
        let short = |t: &str| t.replace(s.0.to_str().unwrap(), "…");
        log.push_str(&format!("; {import:?} from {:?} with roots {:?}", short(&base), roots.iter().map(|r| short(r.to_str().unwrap())).collect::<Vec<_>>()));
        c.desc(short(&log));
        match (&want, &got) {
            (None, None) => {}
            (Some(w), Some(u)) => {
                let p = url::Url::parse(u).ok().and_then(|u| u.to_file_path().ok());
                ensure!(p.as_ref().is_some_and(|p| same_file(p, w)), "resolve", "{import:?} resolves to {}, not {}", short(u), short(w.to_str().unwrap()));
                if base_dir.as_ref().is_some_and(|b| same_file(&b.join(&import), w)) { picked.0 = true } else { picked.1 = true }
            }
            _ => return fail("resolve", format!("{import:?} resolves to {got:?}, expected {want:?}")),
        }
    }
    if picked == (true, true) {
        c.nontrivial()
    }
    Ok(())
}
const FOLDERS: &[&str] = &["/", "/w", "/w/a", "/w/a b", "/w/é", "/w/a/b", "/wa", "/w/ab"];
fn folders(g: &mut Gen, c: &mut Case) -> Res {
    let w = WorkspaceManager::new();
    let mut m: BTreeMap<String, PathBuf> = BTreeMap::new();
    let mut log = String::new();
    let uri = |g: &mut Gen| -> (String, Option<PathBuf>) {
        match g.weighted(&[8, 1, 1, 1]) {
            0 => {
                let p = *g.pick(FOLDERS);
                (file_uri(Path::new(p)), Some(PathBuf::from(p)))
            }
            1 => {
                let p = *g.pick(FOLDERS);
                (url::Url::from_directory_path(p).unwrap().to_string(), Some(PathBuf::from(p)))
            }
            2 => ("https://w/a".into(), None),
            _ => (g.pick(&["", "/w", "w"]).to_string(), None),
        }
    };
    for _ in 0..g.range(1, 15) {
        match g.weighted(&[1, 5, 2, 6]) {
            0 => {
                let root = if g.bool() { Some(uri(g)) } else { None };
                let more: Vec<_> = (0..g.usize(3)).map(|_| uri(g)).collect();
                log.push_str(&format!("; initialize {root:?} {more:?}"));
                w.initialize(&InitializeParams { root_uri: root.as_ref().map(|r| r.0.clone()), workspace_folders: more.iter().map(|(u, _)| WorkspaceFolder { uri: u.clone(), name: "n".into() }).collect() });
                for (u, p) in root.into_iter().chain(more) {
                    if let Some(p) = p {
                        m.insert(u, p);
                    }
                }
            }
            1 => {
                let (u, p) = uri(g);
                log.push_str(&format!("; add {u:?}"));
                w.add_folder(u.clone(), "n".into());
                if let Some(p) = p {
                    m.insert(u, p);
                }
            }
            2 => {
                let u = if g.bool() && !m.is_empty() { m.keys().nth(g.usize(m.len())).unwrap().clone() } else { uri(g).0 };
                log.push_str(&format!("; remove {u:?}"));
                w.remove_folder(&u);
                m.remove(&u);
            }
            _ => {
                let p = PathBuf::from(*g.pick(FOLDERS)).join(*g.pick(&["f.toy", "a/f", "x y", "é/f", "."]));
                let u = file_uri(&p);
                log.push_str(&format!("; where is {u:?}"));
                c.desc(log.clone());
                let best = m.values().filter(|d| p.starts_with(d)).map(|d| d.components().count()).max();
                if m.values().filter(|d| p.starts_with(d)).count() > 1 {
                    c.nontrivial()
                }
                let got = w.find_root(&u);
                ensure_eq!(got.is_some(), best.is_some(), "find_root", "whether {u:?} is in a folder");
                if let Some(f) = &got {
                    let d = m.get(f);
                    ensure!(d.is_some_and(|d| p.starts_with(d) && Some(d.components().count()) == best), "find_root", "{u:?} is in the folder {f:?}, not in the innermost of {:?}", m.keys());
                }
                ensure_eq!(w.is_within_workspace(&u), best.is_some(), "within", "whether {u:?} is within the workspace");
                ensure_eq!(w.get_path(&u).as_deref(), Some(p.as_path()), "get_path", "path of {u:?}");
                ensure_eq!(w.path_to_uri(p.clone()), Some(u.clone()), "path_to_uri", "uri of {p:?}");
            }
        }
        c.desc(log.clone());
        let mut got = w.list_folders();
        got.sort();
        ensure_eq!(got.iter().map(|(u, p)| (u.clone(), p.components().count())).collect::<Vec<_>>(), m.iter().map(|(u, p)| (u.clone(), p.components().count())).collect::<Vec<_>>(), "folders", "workspace folders");
        for (u, p) in &got {
            ensure!(*p == m[u], "folders", "folder {u:?} is {p:?}");
        }
    }
    for bad in ["https://w/a", "", "w"] {
        ensure!(w.get_path(bad).is_none() && w.find_root(bad).is_none(), "bad", "{bad:?} has no path");
    }
    ensure!(w.path_to_uri("relative/x".into()).is_none(), "relative", "a relative path has no uri");
    Ok(())
}

// ---------------------------------------------------------------- the default language service

pub struct Svc<V: WritableVfs> {
    pub vfs: V,
    pub ws: WorkspaceManager,
    pub roots: HashMap<String, &'static GreenNode<'static, Toy>>,
}
impl<V: WritableVfs + Send + Sync> LanguageService for Svc<V> {
    type Lang = Toy;
    type Vfs = V;
    fn vfs(&self) -> &V {
        &self.vfs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.ws
    }
    fn get_root(&self, uri: &str) -> impl Future<Output = Option<RedNode<'_, Toy>>> + Send + '_ {
        let r = self.roots.get(uri).map(|g| RedNode::new(*g, 0));
        async move { r }
    }
}
/// The caller keeps the arena until the service is gone.
pub fn root_of(d: &D, a: &SyntaxArena) -> &'static GreenNode<'static, Toy> {
    let n = docs::build(d, a);
    unsafe { std::mem::transmute::<&GreenNode<'_, Toy>, &'static GreenNode<'static, Toy>>(n) }
}
fn run<F: Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}
pub fn kind_of(r: ER) -> SymbolKind {
    match r {
        ER::Root => SymbolKind::File,
        ER::Container => SymbolKind::Module,
        ER::Definition | ER::Statement | ER::Call => SymbolKind::Function,
        ER::Binding | ER::Reference | ER::Expression => SymbolKind::Variable,
        ER::Typing => SymbolKind::Class,
        ER::Metadata | ER::Attribute => SymbolKind::Property,
        ER::Documentation => SymbolKind::String,
        ER::Value => SymbolKind::Constant,
        ER::Error => SymbolKind::Null,
        _ => SymbolKind::Function,
    }
}
fn check_item(i: &StructureItem, s: &Sym) -> Res {
    let got = (i.name.clone(), i.role, i.kind, (i.range.start, i.range.end), (i.selection_range.start, i.selection_range.end), i.deprecated, i.children.len(), i.detail.clone());
    ensure_eq!(got, (s.0.clone(), s.1, kind_of(s.1), s.3, s.3, false, 0, None), "item", "structure item of {s:?}");
    Ok(())
}
fn check_ws(i: &WorkspaceSymbol, s: &Sym) -> Res {
    let got = (i.name.clone(), i.kind, i.location.uri.to_string(), (i.location.range.start, i.location.range.end), i.container_name.clone());
    ensure_eq!(got, (s.0.clone(), kind_of(s.1), s.2.clone(), s.3, s.4.clone()), "workspace-item", "workspace symbol of {s:?}");
    Ok(())
}
fn path_to(d: &D, at: usize, off: usize, out: &mut Vec<(D, usize)>) {
    out.push((d.clone(), at));
    if let D::N(_, kids) = d {
        let mut at = at;
        for k in kids {
            if off < at + k.len() {
                path_to(k, at, off, out);
                return;
            }
            at += k.len();
        }
    }
}
/// Most references are one name, of a kind that other documents define; most definitions start with theirs.
fn named(g: &mut Gen, d: &mut D) {
    const QUALIFIED: &[&str] = &["a::b", "foo::foo", "b::foo", "foo::a", "中文::é", "main::x1", "foo::bar", "bar"];
    let D::N(k, kids) = d else { return };
    if *k == E::N(4) && g.chance(3, 4) {
        *kids = vec![D::L(T::Name, if g.chance(1, 3) { g.pick(QUALIFIED) } else { g.pick(docs::NAMES) }.to_string())];
        return;
    }
    if *k == E::N(1) && g.chance(1, 2) {
        kids.insert(0, D::L(T::Name, g.pick(docs::NAMES).to_string()))
    }
    kids.iter_mut().for_each(|d| named(g, d))
}
fn service(g: &mut Gen, c: &mut Case) -> Res {
    let arena = SyntaxArena::default();
    let mut svc = Svc { vfs: MemoryVfs::new(), ws: WorkspaceManager::new(), roots: HashMap::new() };
    let s = if g.chance(1, 4) {
        let s = scratch("svc");
        std::fs::write(s.0.join("foo"), "x").unwrap();
        s
    } else {
        Scratch(kit::scratch().join("svc-without-files"))
    };
    let uris: Vec<String> = (0..3).map(|i| file_uri(&s.0.join(format!("f{i}.toy")))).collect();
    let mut m: BTreeMap<usize, (D, Vec<Sym>)> = BTreeMap::new();
    let mut order: Vec<Sym> = Vec::new();
    let mut log = String::new();
    for (i, u) in uris.iter().enumerate() {
        if g.chance(1, 4) {
            continue;
        }
        let mut d = docs::document(g, &[1, 1, 3, 2, 4, 4, 0]);
        if g.chance(4, 5) {
            named(g, &mut d)
        }
        let t = docs::text(&d);
        log.push_str(&format!("; f{i} {d:?}"));
        svc.vfs.write_file(u, t.as_str());
        svc.roots.insert(u.clone(), root_of(&d, &arena));
        let mut want = Vec::new();
        walk(&d, 0, None, u, &mut want);
        if g.chance(3, 4) {
            let src = SourceText::new(t.clone());
            let root = RedNode::new(svc.roots[u], 0);
            svc.ws.symbols.update_file_symbols(u.clone(), SymbolProvider::<Toy>::document_symbols(&UniversalSymbolProvider, u, &root, &src));
            order.extend(want.iter().cloned());
            log.push_str(" indexed");
        }
        m.insert(i, (d, want));
    }
    c.desc(log.clone());
    for (i, u) in uris.iter().enumerate() {
        let items = run(svc.document_symbols(u));
        let want = m.get(&i).map(|x| x.1.clone()).unwrap_or_default();
        ensure_eq!(items.len(), want.len(), "document_symbols", "number of symbols of f{i}");
        for (a, b) in items.iter().zip(&want) {
            check_item(a, b)?;
        }
        let len = run(svc.with_root(u, |r| r.green.text_len()));
        ensure_eq!(len.map(|l| l as usize), m.get(&i).map(|x| x.0.len()), "with_root", "length of the root of f{i}");
        // definitions
        let Some((d, _)) = m.get(&i) else {
            ensure!(run(svc.definition(u, Range { start: 0, end: 0 })).is_empty(), "definition", "a definition in a file that is not there");
            continue;
        };
        for off in 0..=d.len() {
            let mut path = Vec::new();
            if off < d.len() {
                path_to(d, 0, off, &mut path)
            }
            let refs: Vec<&(D, usize)> = path.iter().filter(|(d, _)| matches!(d, D::N(E::N(4), _))).collect();
            let got: Vec<(String, usize, usize)> = run(svc.definition(u, Range { start: off, end: off })).into_iter().map(|l| (l.uri.to_string(), l.range.start, l.range.end)).collect();
            if path.len() > 1 && matches!(path[1].0, D::L(..)) {
                ensure_eq!(got, vec![(u.clone(), path[1].1, path[1].1 + path[1].0.len())], "definition-leaf", "definition at {off} in f{i}");
            } else if refs.is_empty() {
                ensure!(got.is_empty(), "definition-none", "no reference at {off} in f{i}, but {got:?}");
            } else {
                // references within references: either may be meant
                let mut ok = Vec::new();
                for (r, _) in &refs {
                    let name = docs::text(r);
                    let here = Path::new(&s.0).join(&name);
                    ok.push(match order.iter().rev().find(|x| fqn(x) == name) {
                        Some(x) => vec![(x.2.clone(), x.3.0, x.3.1)],
                        None if here.exists() => got.first().filter(|l| url::Url::parse(&l.0).ok().and_then(|u| u.to_file_path().ok()).is_some_and(|p| same_file(&p, &here)) && l.1 == 0 && l.2 == 0).cloned().into_iter().collect(),
                        None => vec![],
                    });
                    if !ok.last().unwrap().is_empty() {
                        c.nontrivial()
                    }
                }
                ensure!(ok.contains(&got), "definition", "definition at {off} in f{i} is {got:?}, expected {ok:?}");
            }
        }
    }
    for q in ["", "a", "foo", "::"] {
        let mut got = run(svc.workspace_symbols(q.to_string()));
        let mut want: Vec<Sym> = order.iter().filter(|s| fqn(s).contains(q)).cloned().collect();
        ensure_eq!(got.len(), want.len(), "workspace_symbols", "number of symbols matching {q:?}");
        got.sort_by_key(|s| (s.location.uri.to_string(), s.location.range.start, s.location.range.end, s.name.clone(), s.container_name.clone()));
        want.sort_by_key(|s| (s.2.clone(), s.3.0, s.3.1, s.0.clone(), s.4.clone()));
        for (a, b) in got.iter().zip(&want) {
            check_ws(a, b)?;
        }
    }
    let order: Vec<usize> = (0..g.usize(6)).map(|_| g.usize(3)).collect();
    let got = run(svc.with_roots(order.iter().map(|i| uris[*i].clone()).collect(), |r| r.green.text_len() as usize));
    let want: Vec<usize> = order.iter().filter_map(|i| m.get(i)).map(|x| x.0.len()).collect();
    ensure_eq!(got, want, "with_roots", "lengths of the roots of {order:?}");
    drop(svc);
    Ok(())
}
fn files(g: &mut Gen, c: &mut Case) -> Res {
    let s = scratch("ls");
    let mut want: Vec<PathBuf> = Vec::new();
    let mut dirs = vec![s.0.clone()];
    for i in 0..g.range(0, 14) {
        let parent = g.pick(&dirs).clone();
        let p = parent.join(format!("{}{i}", g.pick(&["a", "b c", "é", ".h"])));
        if g.chance(1, 3) {
            std::fs::create_dir(&p).unwrap();
            dirs.push(p);
        } else {
            std::fs::write(&p, "x").unwrap();
            want.push(p);
        }
    }
    if dirs.len() > 2 && want.len() > 2 {
        c.nontrivial()
    }
    c.desc(format!("{:?} {:?}", dirs.iter().map(|d| d.strip_prefix(&s.0).unwrap()).collect::<Vec<_>>(), want.iter().map(|d| d.strip_prefix(&s.0).unwrap()).collect::<Vec<_>>()));
    let svc = Svc { vfs: DiskVfs::new(s.0.clone()), ws: WorkspaceManager::new(), roots: HashMap::new() };
    let at = g.pick(&dirs).clone();
    let at = if !want.is_empty() && g.chance(1, 8) { g.pick(&want).clone() } else { at };
    want.retain(|p| p.starts_with(&at));
    let uri = at.to_str().unwrap().to_string();
    let mut got: Vec<PathBuf> = run(svc.list_all_files(&uri)).iter().map(|u| url::Url::parse(u).ok().and_then(|u| u.to_file_path().ok()).unwrap_or_else(|| PathBuf::from(u))).collect();
    got.sort();
    want.sort();
    ensure_eq!(got, want, "files", "all files under {:?}", at.strip_prefix(&s.0).unwrap());
    // in memory there are no directories: a file is its own only file
    let svc = Svc { vfs: MemoryVfs::new(), ws: WorkspaceManager::new(), roots: HashMap::new() };
    svc.vfs.write_file("m", "x");
    ensure_eq!(run(svc.list_all_files("m")), vec!["m".to_string()], "files", "a file in memory");
    ensure!(run(svc.list_all_files("n")).is_empty(), "files", "what is not there");
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![
        Check {
            id: "C21",
            rule: "one case = a generated tree with roles and names; non-trivial: a definition lies in another (symbols) / a name occurs twice (references)",
            assumptions: vec!["the name of a definition is the first name token directly in it"],
            facets: vec![Facet::new("symbols", 180_000, 2_000_000, symbols), Facet::new("references", 160_000, 1_000_000, references)],
        },
        Check {
            id: "C22",
            rule: "one case = up to 15 updates of four files, all queries after each (histories), or plans for 2..5 threads (threads); non-trivial: two symbols had the same qualified name / every threads case",
            assumptions: vec!["of several symbols with one name lookup gives the one added last", "which interleavings the threads facet meets is up to the scheduler"],
            facets: vec![Facet::new("histories", 60_000, 2_000_000, table), Facet::new("threads", 4_000, 150_000, table_threads)],
        },
        Check {
            id: "C23",
            rule: "one case = up to 12 imports resolved in a scratch directory tree (resolve), or a history of up to 15 folder operations and questions (folders); non-trivial: one import was found next to its file and one under a root / a file lay in two folders",
            assumptions: vec!["Unix paths"],
            facets: vec![Facet::new("resolve", 6_000, 200_000, resolver), Facet::new("folders", 60_000, 2_000_000, folders)],
        },
        Check {
            id: "C24",
            rule: "one case = up to three documents, some indexed, every question at every offset (service), or a directory tree (files); non-trivial: a reference was found / over two directories and files",
            assumptions: vec!["of references within references either may be meant"],
            facets: vec![Facet::new("service", 16_000, 250_000, service), Facet::new("files", 6_000, 200_000, files)],
        },
    ]
}
