//! C11: green and red trees, traversals and parse generations, against a tree of plain values.
use crate::toy::{E, T, Toy};
use kit::*;
use oak_core::memory::arena::SyntaxArena;
use oak_core::parser::{ParseCache, ParseSession, deep_clone_node};
use oak_core::source::SourceText;
use oak_core::tree::{Cursor, GreenLeaf, GreenNode, GreenTree, RedLeaf, RedNode, RedTree};
use oak_core::visitor::{PreOrder, Visitor};
use std::hash::{DefaultHasher, Hash, Hasher};

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    L(T, u32),
    N(E, Vec<M>),
}
impl M {
    pub fn len(&self) -> usize {
        match self {
            M::L(_, n) => *n as usize,
            M::N(_, c) => c.iter().map(M::len).sum(),
        }
    }
}

fn tree(g: &mut Gen, depth: usize, budget: &mut usize) -> M {
    let kind = *g.pick(&[E::A, E::B, E::C, E::Lit, E::Paren]);
    let wide = g.chance(1, 12);
    let n = if wide && *budget > 100 { 300 } else if wide { g.range(8, 40) } else { g.usize(5) };
    let mut v = Vec::new();
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        if depth > 0 && g.chance(2, 5) {
            v.push(tree(g, depth - 1, budget))
        } else {
            let len = match g.usize(240) { 0..40 => 0, 40..79 => g.usize(40), 79 => *g.pick(&[255, 256, 4096, 65_535, 65_536, 70_001]), _ => g.range(1, 4) };
            v.push(M::L(*g.pick(&T::ALL), len as u32))
        }
    }
    M::N(kind, v)
}
fn any_tree(g: &mut Gen) -> M {
    let d = if g.chance(1, 10) { 25 } else { g.usize(5) };
    let mut n = if g.chance(1, 150) { 400 } else { g.range(1, 60) };
    tree(g, d, &mut n)
}

pub fn green<'a>(m: &[M], a: &'a SyntaxArena) -> &'a [GreenTree<'a, Toy>] {
    let v: Vec<GreenTree<'a, Toy>> = m
        .iter()
        .map(|c| match c {
            M::L(k, n) => GreenTree::Leaf(GreenLeaf::new(*k, *n)),
            M::N(k, c) => GreenTree::Node(node(*k, c, a)),
        })
        .collect();
    a.alloc_slice_copy(&v)
}
pub fn node<'a>(k: E, c: &[M], a: &'a SyntaxArena) -> &'a GreenNode<'a, Toy> {
    a.alloc(GreenNode::new(k, green(c, a)))
}
pub fn build<'a>(m: &M, a: &'a SyntaxArena) -> &'a GreenNode<'a, Toy> {
    match m {
        M::N(k, c) => node(*k, c, a),
        M::L(..) => unreachable!(),
    }
}
pub fn back(n: &GreenNode<'_, Toy>) -> M {
    M::N(n.kind(), n.children().iter().map(|c| match c {
        GreenTree::Node(n) => back(n),
        GreenTree::Leaf(l) => M::L(l.kind(), l.length()),
    }).collect())
}

/// One element in document order.
#[derive(Clone, Debug)]
struct Flat {
    kind: E,
    leaf: bool,
    start: usize,
    end: usize,
    parent: Option<usize>,
    kids: Vec<usize>,
}
fn flatten(m: &M, at: usize, parent: Option<usize>, out: &mut Vec<Flat>) {
    let me = out.len();
    out.push(Flat { kind: match m { M::L(k, _) => E::Tok(*k), M::N(k, _) => *k }, leaf: matches!(m, M::L(..)), start: at, end: at + m.len(), parent, kids: vec![] });
    if let M::N(_, c) = m {
        let mut p = at;
        for x in c {
            let k = out.len();
            out[me].kids.push(k);
            flatten(x, p, Some(me), out);
            p += x.len();
        }
    }
}
fn same(r: &RedTree<'_, Toy>, f: &Flat, what: &str) -> Res {
    ensure_eq!((r.span().start, r.span().end), (f.start, f.end), "span", "{what}: span of {f:?}");
    ensure_eq!(r.kind::<E>(), f.kind, "kind", "{what}: kind of {f:?}");
    ensure_eq!(r.as_leaf().is_some(), f.leaf, "sort", "{what}: leaf or node {f:?}");
    ensure_eq!(r.as_node().is_none(), f.leaf, "sort", "{what}: leaf or node {f:?}");
    Ok(())
}
fn check_red(r: RedTree<'_, Toy>, all: &[Flat], i: usize) -> Res {
    let f = &all[i];
    same(&r, f, "children")?;
    let kids: Vec<_> = r.children().collect();
    ensure_eq!(kids.len(), f.kids.len(), "children", "number of children of {f:?}");
    if let Some(n) = r.as_node() {
        ensure_eq!(n.green().children_count(), f.kids.len(), "children", "children_count");
        ensure_eq!(n.green().has_children(), !f.kids.is_empty(), "children", "has_children");
        ensure!(n.green().child_at(f.kids.len()).is_none(), "children", "a child past the last");
        ensure_eq!(n.green().text_len() as usize, f.end - f.start, "length", "text_len of {f:?}");
        ensure_eq!(n.element_type(), f.kind, "kind", "element_type of {f:?}");
        for (j, &k) in f.kids.iter().enumerate() {
            same(&n.child_at(j), &all[k], "child_at")?;
            ensure!(n.child_at(j) == kids[j], "child_at", "child_at({j}) is not the child the iteration gives");
            let gc = n.green().child_at(j).unwrap();
            ensure_eq!(gc.len() as usize, all[k].end - all[k].start, "length", "len of green child");
            ensure_eq!((gc.is_leaf(), gc.is_node(), gc.as_leaf().is_some(), gc.as_node().is_some()), (all[k].leaf, !all[k].leaf, all[k].leaf, !all[k].leaf), "sort", "green child");
        }
    }
    for (k, &j) in kids.into_iter().zip(&f.kids) {
        check_red(k, all, j)?;
    }
    Ok(())
}

/// Records what a visitor is called with, walking on from every node.
struct Rec(Vec<(E, usize, usize)>);
impl<'a> Visitor<'a, Toy> for Rec {
    fn visit_node(&mut self, n: RedNode<'a, Toy>) {
        self.0.push((n.element_type(), n.span().start, n.span().end));
        self.walk_node(n)
    }
    fn visit_token(&mut self, t: RedLeaf<Toy>) {
        self.0.push((E::Tok(t.kind), t.span.start, t.span.end))
    }
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn mutate(g: &mut Gen, m: &mut M) {
    let M::N(k, c) = m else { return };
    if !c.is_empty() && g.chance(2, 3) {
        let i = g.usize(c.len());
        match &mut c[i] {
            M::L(k, n) => match g.usize(3) { 0 => *n += 1, 1 => *k = *g.pick(&T::ALL), _ => { c.remove(i); } },
            _ => mutate(g, &mut c[i]),
        }
    } else if g.bool() {
        *k = *g.pick(&[E::A, E::B, E::C]);
    } else {
        c.push(M::L(T::Num, 0));
    }
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C11",
        rule: "one case = a generated tree (nodes up to 25 deep, up to 40 children, empty nodes, leaves of length 0) queried at every element and at many offsets, or a walk of up to 80 cursor moves, or a history of parse generations; non-trivial: the tree has nested nodes / the walk moved at least 5 times / the history has at least 2 generations",
        assumptions: vec!["text lengths fit in u32", "an arena outlives the tree in it"],
        facets: vec![
            Facet::new("red", 180_000, 2_000_000, |g, c| {
                let m = any_tree(g);
                let base = if g.bool() { 0 } else { g.usize(1000) };
                c.desc(format!("at {base}: {m:?}"));
                let mut all = vec![];
                flatten(&m, base, None, &mut all);
                if all.iter().any(|f| f.parent.is_some() && !f.leaf && !f.kids.is_empty()) {
                    c.nontrivial();
                }
                let a = SyntaxArena::default();
                let n = build(&m, &a);
                ensure_eq!(back(n), m, "green", "reading the green tree back");
                let root = RedNode::new(n, base);
                check_red(RedTree::Node(root), &all, 0)?;
                // traversals
                let pre: Vec<_> = PreOrder::new(RedTree::Node(root)).map(|r| (r.kind::<E>(), r.span().start, r.span().end)).collect();
                let want: Vec<_> = all.iter().map(|f| (f.kind, f.start, f.end)).collect();
                ensure_eq!(pre, want, "preorder", "PreOrder");
                let mut rec = Rec(vec![]);
                rec.visit_node(root);
                ensure_eq!(rec.0, want, "visitor", "Visitor");
                // offsets
                let end = base + m.len();
                let offs: Vec<usize> = if m.len() < 80 { (base.saturating_sub(2)..end + 3).collect() } else { (0..60).map(|_| base.saturating_sub(2) + g.usize(m.len() + 4)).collect() };
                for o in offs {
                    let inside = |f: &&Flat| f.start <= o && o < f.end;
                    let want = all.iter().filter(|f| f.leaf).find(inside).map(|f| (f.kind, f.start, f.end));
                    let leaf = root.leaf_at_offset(o).map(|l| (E::Tok(l.kind), l.span.start, l.span.end));
                    ensure_eq!(leaf, want, "leaf_at_offset", "leaf_at_offset({o})");
                    let i = g.usize(all.len());
                    let target = if g.bool() { 0 } else { i };
                    if !all[target].leaf {
                        // go down to that node
                        let mut path = vec![target];
                        while let Some(p) = all[*path.last().unwrap()].parent {
                            path.push(p)
                        }
                        let mut at = root;
                        for w in path.iter().rev().collect::<Vec<_>>().windows(2) {
                            let j = all[*w[0]].kids.iter().position(|k| k == w[1]).unwrap();
                            at = at.child_at(j).as_node().unwrap();
                        }
                        let want = all[target].kids.iter().position(|&k| inside(&&all[k]));
                        ensure_eq!(at.child_index_at_offset(o), want, "child_index_at_offset", "child_index_at_offset({o}) of {:?}", all[target]);
                        let got = at.child_at_offset(o);
                        ensure_eq!(got.is_some(), want.is_some(), "child_at_offset", "child_at_offset({o})");
                        if let Some(r) = got {
                            same(&r, &all[all[target].kids[want.unwrap()]], "child_at_offset")?;
                        }
                    }
                }
                // text
                let text: String = (0..end).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                let src = SourceText::new(text.clone());
                let f = &all[g.usize(all.len())];
                for r in PreOrder::new(RedTree::Node(root)) {
                    if r.span().start == f.start && r.span().end == f.end {
                        ensure_eq!(r.text(&src), text[f.start..f.end], "text", "text of {f:?}");
                    }
                }
                Ok(())
            }),
            Facet::new("clone-eq", 240_000, 2_000_000, |g, c| {
                let m = any_tree(g);
                let mut other = m.clone();
                if g.chance(2, 3) {
                    mutate(g, &mut other);
                }
                c.desc(format!("{m:?} and {other:?}"));
                if m != other {
                    c.nontrivial();
                }
                let (keep, b) = (SyntaxArena::default(), SyntaxArena::default());
                let a = SyntaxArena::default();
                let (x, y) = (build(&m, &a), build(&other, &b));
                let z = build(&m, &b);
                ensure_eq!(x == y, m == other, "eq", "equality of green nodes");
                ensure!(x == z && hash(x) == hash(z), "eq", "equal trees in different arenas differ or hash differently");
                ensure_eq!(RedNode::new(x, 3) == RedNode::new(y, 3), m == other, "eq", "equality of red nodes");
                ensure!(RedNode::new(x, 3) != RedNode::new(z, 4), "eq", "red nodes at different offsets are equal");
                let copy = deep_clone_node(x, &keep);
                ensure!(copy == x, "clone", "a deep clone differs");
                drop(a);
                // the memory of the first tree is free to be reused now
                let junk = SyntaxArena::default();
                for _ in 0..200 {
                    junk.alloc_slice_copy(&[u64::MAX; 32]);
                }
                ensure_eq!(back(copy), m, "clone", "a deep clone after the original is gone");
                Ok(())
            }),
            Facet::new("cursor", 120_000, 2_000_000, |g, c| {
                let m = any_tree(g);
                let mut all = vec![];
                flatten(&m, 0, None, &mut all);
                let a = SyntaxArena::default();
                let mut cur = Cursor::new(build(&m, &a));
                let mut at = 0usize;
                let mut log = String::new();
                let mut moved = 0;
                let next_sibling = |i: usize| all[i].parent.and_then(|p| { let k = &all[p].kids; let j = k.iter().position(|x| *x == i).unwrap(); k.get(j + 1).copied() });
                let after = |mut i: usize| loop {
                    if let Some(s) = next_sibling(i) {
                        return Some(s);
                    }
                    match all[i].parent { Some(p) => i = p, None => return None }
                };
                let only_steps = g.chance(1, 4);
                for _ in 0..g.range(1, 80) {
                    let k = if only_steps { 3 } else { g.usize(6) };
                    // the steps that find nothing end up at the root
                    let (ok, want, stay) = match k {
                        0 => (cur.step_into(), all[at].kids.first().copied(), at),
                        1 => (cur.step_over(), next_sibling(at), at),
                        2 => (cur.step_out(), all[at].parent, at),
                        3 => (cur.step(), all[at].kids.first().copied().or_else(|| after(at)), 0),
                        4 => (cur.step_next(), after(at), 0),
                        _ => { let d = cur.clone(); cur = d; (false, None, at) }
                    };
                    log.push_str(["into ", "over ", "out ", "step ", "next ", "clone "][k]);
                    c.desc(format!("{m:?}: {log}"));
                    ensure_eq!(ok, want.is_some(), "moved", "{log}");
                    at = want.unwrap_or(stay);
                    moved += want.is_some() as usize;
                    if k == 3 && want.is_none() && only_steps { break }
                    let f = &all[at];
                    ensure_eq!((cur.offset(), cur.end_offset(), cur.len()), (f.start, f.end, f.end - f.start), "cursor", "{log}: position");
                    ensure_eq!(cur.current().is_leaf(), f.leaf, "cursor", "{log}: current");
                    ensure_eq!(cur.as_node().map(|n| (n.kind(), n.children_count())), (!f.leaf).then(|| (f.kind, f.kids.len())), "cursor", "{log}: as_node");
                    if let Some(l) = cur.current().as_leaf() {
                        ensure_eq!(E::Tok(l.kind), f.kind, "cursor", "{log}: kind");
                    }
                }
                if moved >= 5 {
                    c.nontrivial();
                }
                Ok(())
            }),
            Facet::new("generations", 100_000, 500_000, |g, c| {
                let mut s: ParseSession<Toy> = if g.bool() { ParseSession::default() } else { ParseSession::new(g.usize(40)) };
                // the tree of this generation and the one of the generation before
                let (mut now, mut old): (Option<M>, Option<M>) = (None, None);
                let mut log = String::new();
                let mut gens = 0;
                for _ in 0..g.range(2, 14) {
                    match g.usize(3) {
                        0 => {
                            s.prepare_generation();
                            log.push_str(" prepare");
                            gens += 1;
                            old = now.take();
                            let got = s.old_tree().map(back);
                            ensure_eq!(got, old, "old_tree", "{log}: old_tree");
                            ensure!(s.lex_output().is_none(), "lex", "{log}: tokens of an earlier generation");
                        }
                        1 => {
                            let m = any_tree(g);
                            log.push_str(&format!(" commit({} elements)", m.len()));
                            let n: &GreenNode<'_, Toy> = build(&m, unsafe { &*(s.arena() as *const SyntaxArena) });
                            s.commit_generation(n);
                            now = Some(m);
                            ensure_eq!(s.last_root().map(back), now, "last_root", "{log}: last_root");
                        }
                        _ => {
                            // a parse that fails leaves its nodes behind and commits nothing
                            let m = any_tree(g);
                            log.push_str(" build");
                            build(&m, unsafe { &*(s.arena() as *const SyntaxArena) });
                            let want = now.clone().or(old.clone());
                            ensure_eq!(s.last_root().map(back), want, "last_root", "{log}: last_root");
                        }
                    }
                    c.desc(log.clone());
                }
                if gens >= 2 {
                    c.nontrivial();
                }
                Ok(())
            }),
        ],
    }]
}
