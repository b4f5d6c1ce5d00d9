//! C31-C33: layouts of graphs and trees, their renderings, graph queries and geometry.
use crate::diag::{H, markup, unescape};
use crate::docs;
use kit::*;
use oak_core::memory::arena::SyntaxArena;
use oak_core::tree::{GreenTree, RedNode, RedTree};
use oak_visualize::layout::{Edge, ForceDirectedLayout, HierarchicalLayout, LayoutDirection};
use oak_visualize::tree::{TreeLayout, TreeLayoutAlgorithm, TreeLayoutConfig, TreeNode};
use oak_visualize::*;
use std::result::Result;
use std::collections::{BTreeMap, HashMap, HashSet};

const LABELS: &[&str] = &["a", "main", "<b>", "\"q\"", "a & b", "é😀", "", "fn f() -> T", "</text>", "it's", "&amp;", "x\ny"];
const TYPES: &[&str] = &["default", "function", "struct", "module", "enum", "variable", "é", ""];
fn type_of(s: &str) -> NodeType {
    match s {
        "function" => NodeType::Function,
        "struct" => NodeType::Struct,
        "module" => NodeType::Module,
        _ => NodeType::Default,
    }
}
fn size(g: &mut Gen) -> Size {
    Size::new(*g.pick(&[1.0, 10.0, 20.0, 55.5, 100.0, 300.0]), *g.pick(&[1.0, 10.0, 40.0, 77.25]))
}
fn near(a: f64, b: f64) -> bool {
    a == b || a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs()))
}
fn ids(g: &mut Gen, max: usize) -> Vec<String> {
    let n = if g.bool() { g.range(max / 2, max) } else { g.len(max) };
    let mut v: Vec<String> = Vec::new();
    for i in 0..n {
        let s = if g.chance(1, 3) { g.pick(LABELS).to_string() } else { format!("n{i}") };
        if !v.contains(&s) {
            v.push(s)
        }
    }
    v
}
/// edges between the ids: a forest, an acyclic graph or anything; some to nodes there are not
fn pairs(g: &mut Gen, ids: &[String], unknown: bool) -> Vec<(String, String)> {
    let n = ids.len();
    let mut v = Vec::new();
    if n == 0 {
        return v;
    }
    match g.below(4) {
        0 => {
            for i in 1..n {
                if g.chance(4, 5) {
                    v.push((ids[g.usize(i)].clone(), ids[i].clone()))
                }
            }
        }
        1 => {
            let m = g.usize(2 * n);
            for _ in 0..m {
                let (a, b) = (g.usize(n), g.usize(n));
                if a != b {
                    v.push((ids[a.min(b)].clone(), ids[a.max(b)].clone()))
                }
            }
        }
        _ => {
            let m = g.usize(2 * n);
            for _ in 0..m {
                let (a, b) = (g.usize(n), g.usize(n));
                v.push((ids[a].clone(), ids[b].clone()))
            }
        }
    }
    // in any order
    for i in (1..v.len()).rev() {
        let j = g.usize(i + 1);
        v.swap(i, j)
    }
    if unknown && g.chance(1, 4) {
        let i = g.usize(v.len() + 1);
        let x = ids[g.usize(n)].clone();
        v.insert(i, if g.bool() { (x, "nowhere".into()) } else { ("nowhere".into(), x) })
    }
    v
}
/// Whether the edges between known nodes have a directed cycle (loops on one node included)
fn cyclic(ids: &[String], edges: &[(String, String)]) -> bool {
    let known: HashSet<&String> = ids.iter().collect();
    let mut left: Vec<&(String, String)> = edges.iter().filter(|e| known.contains(&e.0) && known.contains(&e.1)).collect();
    loop {
        let n = left.len();
        let targets: HashSet<&String> = left.iter().map(|e| &e.1).collect();
        left.retain(|e| targets.contains(&e.0));
        if left.is_empty() {
            return false;
        }
        if left.len() == n {
            return true;
        }
    }
}
struct Want {
    label: String,
    size: Size,
    kind: NodeType,
}
fn overlap(a: &Rect, b: &Rect) -> bool {
    a.min_x() + 1e-6 < b.max_x() && b.min_x() + 1e-6 < a.max_x() && a.min_y() + 1e-6 < b.max_y() && b.min_y() + 1e-6 < a.max_y()
}
/// What every layout has to be
fn sound(l: &Layout, nodes: &BTreeMap<String, Want>, edges: &[(String, String, Option<String>)]) -> Res {
    let mut got: Vec<&String> = l.nodes.keys().collect();
    got.sort();
    ensure_eq!(got, nodes.keys().collect::<Vec<_>>(), "nodes", "the nodes of the layout");
    let (mut x0, mut y0, mut x1, mut y1) = (f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY);
    for (id, w) in nodes {
        let p = &l.nodes[id];
        ensure_eq!((&p.id, &p.label), (id, &w.label), "label", "label of {id:?}");
        ensure_eq!(p.node_type, w.kind, "type", "type of {id:?}");
        ensure!(p.rect.origin.x.is_finite() && p.rect.origin.y.is_finite(), "finite", "{id:?} is at {:?}", p.rect);
        ensure_eq!(p.rect.size, w.size, "size", "size of {id:?}");
        x0 = x0.min(p.rect.min_x());
        y0 = y0.min(p.rect.min_y());
        x1 = x1.max(p.rect.max_x());
        y1 = y1.max(p.rect.max_y());
    }
    if !nodes.is_empty() {
        let b = &l.bounds;
        ensure!(near(b.min_x(), x0) && near(b.min_y(), y0) && near(b.max_x(), x1) && near(b.max_y(), y1), "bounds", "bounds {b:?} of nodes from {x0},{y0} to {x1},{y1}");
    }
    let want: Vec<(&str, &str, Option<&str>)> = edges.iter().filter(|e| nodes.contains_key(&e.0) && nodes.contains_key(&e.1)).map(|e| (e.0.as_str(), e.1.as_str(), e.2.as_deref())).collect();
    let got: Vec<(&str, &str, Option<&str>)> = l.edges.iter().map(|e| (e.from.as_str(), e.to.as_str(), e.label.as_deref())).collect();
    let sorted = |mut v: Vec<(String, String, Option<String>)>| {
        v.sort();
        v
    };
    let own = |v: Vec<(&str, &str, Option<&str>)>| v.into_iter().map(|e| (e.0.to_string(), e.1.to_string(), e.2.map(str::to_string))).collect::<Vec<_>>();
    ensure_eq!(sorted(own(got)), sorted(own(want)), "edges", "the edges of the layout");
    for e in &l.edges {
        let (a, b) = (l.nodes[&e.from].rect, l.nodes[&e.to].rect);
        ensure!(e.points.len() >= 2, "points", "the edge {:?} -> {:?} has no line: {:?}", e.from, e.to, e.points);
        ensure!(a.contains_point(e.points[0]) && b.contains_point(*e.points.last().unwrap()), "points", "the edge {:?} -> {:?} goes from {:?} to {:?}, its nodes are at {a:?} and {b:?}", e.from, e.to, e.points[0], e.points.last());
    }
    Ok(())
}
fn graph_of(g: &mut Gen, ids: &[String], edges: &[(String, String)], directed: bool, sized: bool) -> (Graph, BTreeMap<String, Want>, Vec<(String, String, Option<String>)>) {
    let cfg = GraphLayoutConfig::default();
    let mut gr = Graph::new(directed);
    let mut want = BTreeMap::new();
    for id in ids {
        let (label, t) = (*g.pick(LABELS), *g.pick(TYPES));
        let mut n = GraphNode::new(id.clone(), label.into()).with_type(t.into());
        let mut s = Size::new(cfg.node_width, cfg.node_height);
        if sized && g.chance(1, 3) {
            s = size(g);
            n = n.with_size(s)
        }
        if g.chance(1, 4) {
            n = n.with_attribute("k".into(), "v".into()).with_weight(2.0)
        }
        gr.add_node(n);
        want.insert(id.clone(), Want { label: label.into(), size: s, kind: type_of(t) });
    }
    let mut es = Vec::new();
    for (a, b) in edges {
        let mut e = GraphEdge::new(a.clone(), b.clone());
        let label = g.chance(1, 3).then(|| g.pick(LABELS).to_string());
        if let Some(l) = &label {
            e = e.with_label(l.clone())
        }
        gr.add_edge(e);
        es.push((a.clone(), b.clone(), label))
    }
    (gr, want, es)
}
fn graphs(g: &mut Gen, c: &mut Case) -> Res {
    let ids = ids(g, 12);
    let edges = pairs(g, &ids, true);
    let sized = g.bool();
    let (directed, alg) = (g.bool(), *g.pick(&[GraphLayoutAlgorithm::ForceDirected, GraphLayoutAlgorithm::Circular, GraphLayoutAlgorithm::Hierarchical, GraphLayoutAlgorithm::Grid, GraphLayoutAlgorithm::Organic]));
    let (gr, want, es) = graph_of(g, &ids, &edges, directed, sized);
    c.desc(format!("{alg:?} {ids:?} {es:?} sizes {:?}", want.values().map(|w| (w.size.width, w.size.height)).collect::<Vec<_>>()));
    if ids.len() > 3 && es.len() > 3 {
        c.nontrivial()
    }
    let cfg = GraphLayoutConfig::default();
    let l = match GraphLayout::new().with_algorithm(alg).with_iterations(g.range(0, 120)).layout_graph(&gr) {
        Ok(l) => l,
        Err(e) => return fail("layout", format!("{alg:?}: {e}")),
    };
    sound(&l, &want, &es)?;
    let center = |id: &String| l.nodes[id].rect.center();
    let fit = want.values().all(|w| w.size.width <= cfg.node_width && w.size.height <= cfg.node_height);
    match alg {
        GraphLayoutAlgorithm::Circular => {
            let mut angles = Vec::new();
            for id in &ids {
                let p = center(id);
                ensure!(near(p.distance_to(&Point::origin()), cfg.circle_radius), "circle", "{id:?} is {} from the middle", p.distance_to(&Point::origin()));
                angles.push(p.y.atan2(p.x).rem_euclid(std::f64::consts::TAU))
            }
            angles.sort_by(f64::total_cmp);
            for (i, a) in angles.iter().enumerate() {
                let next = if i + 1 < angles.len() { angles[i + 1] } else { angles[0] + std::f64::consts::TAU };
                let step = std::f64::consts::TAU / angles.len() as f64;
                ensure!((next - a - step).abs() < 1e-6 || (next - a - step).abs() > std::f64::consts::TAU - 1e-6, "circle", "angles {angles:?}");
            }
        }
        GraphLayoutAlgorithm::Grid if fit => apart(&l, |_, _| true)?,
        GraphLayoutAlgorithm::Hierarchical => {
            if !cyclic(&ids, &edges) {
                for (a, b) in edges.iter().filter(|e| want.contains_key(&e.0) && want.contains_key(&e.1)) {
                    ensure!(l.nodes[a].rect.y() < l.nodes[b].rect.y(), "layers", "{a:?} -> {b:?} does not go down: {} to {}", l.nodes[a].rect.y(), l.nodes[b].rect.y());
                }
            }
            if fit {
                apart(&l, |_, _| true)?
            }
            if !sized {
                let mut layers: BTreeMap<i64, (f64, f64)> = BTreeMap::new();
                for n in l.nodes.values() {
                    let e = layers.entry(n.rect.y().round() as i64).or_insert((f64::INFINITY, f64::NEG_INFINITY));
                    *e = (e.0.min(n.rect.min_x()), e.1.max(n.rect.max_x()));
                }
                for (y, (a, b)) in layers {
                    ensure!(((a + b) / 2.0).abs() <= cfg.node_spacing, "layers-center", "the layer at {y} goes from {a} to {b}");
                }
            }
        }
        _ => {}
    }
    Ok(())
}
/// One step of the spring model, from where the nodes were and are: springs along edges (by weight),
/// repulsion between all, damped, and no faster than allowed.
struct Springs {
    spring: f64,
    repulsion: f64,
    damping: f64,
    ideal: f64,
    fastest: f64,
}
impl Springs {
    /// `None` when two nodes are so close that their direction says little
    fn step(&self, before: &BTreeMap<String, Point>, now: &BTreeMap<String, Point>, edges: &[(String, String, f64)]) -> Option<BTreeMap<String, Point>> {
        let mut force: BTreeMap<&String, Point> = now.keys().map(|k| (k, Point::new(0.0, 0.0))).collect();
        let mut push = |a: &String, b: &String, f: f64| {
            let (p, q) = (now[a], now[b]);
            let d = ((p.x - q.x).powi(2) + (p.y - q.y).powi(2)).sqrt();
            let (x, y) = ((q.x - p.x) / d * f, (q.y - p.y) / d * f);
            let e = force.get_mut(b).unwrap();
            *e = Point::new(e.x + x, e.y + y);
            let e = force.get_mut(a).unwrap();
            *e = Point::new(e.x - x, e.y - y);
        };
        let far = |a: &String, b: &String| ((now[a].x - now[b].x).powi(2) + (now[a].y - now[b].y).powi(2)).sqrt();
        let ids: Vec<&String> = now.keys().collect();
        for (i, a) in ids.iter().enumerate() {
            for b in &ids[..i] {
                let d = far(a, b);
                if d < 2.0 {
                    return None;
                }
                push(a, b, self.repulsion / (d * d))
            }
        }
        for (a, b, w) in edges {
            if a != b && now.contains_key(a) && now.contains_key(b) {
                push(a, b, -self.spring * (far(a, b) - self.ideal) * w)
            }
        }
        Some(
            now.iter()
                .map(|(id, p)| {
                    let (f, q) = (force[id], before[id]);
                    let (x, y) = ((p.x - q.x) * self.damping + f.x, (p.y - q.y) * self.damping + f.y);
                    let v = (x * x + y * y).sqrt();
                    let k = if v > self.fastest { self.fastest / v } else { 1.0 };
                    (id.clone(), Point::new(p.x + x * k, p.y + y * k))
                })
                .collect(),
        )
    }
}
fn forces(g: &mut Gen, c: &mut Case) -> Res {
    let ids = ids(g, 7);
    let edges = pairs(g, &ids, true);
    let s = Springs { spring: *g.pick(&[0.1, 0.02, 0.0, 0.3]), repulsion: *g.pick(&[1000.0, 0.0, 5000.0]), damping: *g.pick(&[0.9, 0.5]), ideal: *g.pick(&[100.0, 30.0, 260.0]), fastest: *g.pick(&[10.0, 3.0, 1e9]) };
    let k = *g.pick(&[0, 1, 2, 5, 20, 60]);
    let engine = g.bool();
    let s = if engine { Springs { damping: 0.9, fastest: f64::INFINITY, ..s } } else { s };
    let w: Vec<(String, String, f64)> = edges.iter().map(|e| (e.0.clone(), e.1.clone(), if engine { 1.0 } else { *g.pick(&[1.0, 2.0, 0.5]) })).collect();
    let organic = !engine && g.chance(1, 3);
    c.desc(format!("{} {ids:?} {w:?}, springs {} to {}, repulsion {}, damping {}, speed {}, {k} steps", if engine { "engine" } else if organic { "organic" } else { "graph" }, s.spring, s.ideal, s.repulsion, s.damping, s.fastest));
    if ids.len() > 2 && edges.len() > 1 {
        c.nontrivial()
    }
    // organic: looser springs and stronger repulsion
    let s = if organic { Springs { damping: 0.95, ..s } } else { s };
    let mut gr = Graph::new(g.bool());
    let mut nodes = Vec::new();
    for id in &ids {
        gr.add_node(GraphNode::new(id.clone(), id.clone()));
        nodes.push(LayoutNode::new(id.clone(), id.clone()))
    }
    let mut le = Vec::new();
    for (a, b, w) in &w {
        gr.add_edge(GraphEdge::new(a.clone(), b.clone()).with_weight(*w));
        le.push(LayoutEdge::new(a.clone(), b.clone()))
    }
    let (loose, strong) = if organic { (2.0, 1.0 / 1.5) } else { (1.0, 1.0) };
    let cfg = GraphLayoutConfig { spring_strength: s.spring * loose, repulsion_strength: s.repulsion * strong, damping: s.damping, ideal_edge_length: s.ideal, max_velocity: s.fastest, ..GraphLayoutConfig::default() };
    let style = g.usize(2);
    let run = |gr: &Graph, nodes: &[LayoutNode], n: usize| -> Result<BTreeMap<String, Point>, Fail> {
        let l = if engine {
            ForceDirectedLayout::new().with_iterations(n).with_spring_strength(s.spring).with_repulsion_strength(s.repulsion).layout(nodes, &le, &LayoutConfig { horizontal_spacing: s.ideal, ..LayoutConfig::default() })
        } else {
            let alg = if organic { GraphLayoutAlgorithm::Organic } else { GraphLayoutAlgorithm::ForceDirected };
            let cfg = GraphLayoutConfig { iterations: n, ..cfg.clone() };
            if style == 0 { GraphLayout::new().with_algorithm(alg).with_config(cfg).layout_graph(gr) } else { GraphLayout::new().with_config(GraphLayoutConfig { spring_strength: 7.0, repulsion_strength: 7.0, iterations: 7, ..cfg.clone() }).with_attraction(cfg.spring_strength).with_repulsion(cfg.repulsion_strength).with_iterations(n).with_algorithm(alg).layout_graph(gr) }
        };
        match l {
            Ok(l) => Ok(l.nodes.iter().map(|(k, n)| (k.clone(), n.rect.center())).collect()),
            Err(e) => fail("layout", e.to_string()),
        }
    };
    let now = run(&gr, &nodes, k)?;
    let before = if k == 0 { now.clone() } else { run(&gr, &nodes, k - 1)? };
    let next = run(&gr, &nodes, k + 1)?;
    let most = next.values().chain(now.values()).fold(1.0f64, |m, p| m.max(p.x.abs()).max(p.y.abs()));
    if most > 1e6 {
        return Ok(());
    }
    if let Some(want) = s.step(&before, &now, &w) {
        for id in &ids {
            let (a, b) = (next[id], want[id]);
            ensure!((a.x - b.x).abs() < 1e-5 * most && (a.y - b.y).abs() < 1e-5 * most, if organic { "organic" } else { "forces" }, "{id:?} goes from {:?} to {a:?}, by springs and repulsion to {b:?}", now[id]);
        }
    }
    // sizes play no part
    for id in &ids {
        gr.nodes.get_mut(id).unwrap().size = Some(size(g));
    }
    for n in &mut nodes {
        n.size = size(g)
    }
    let sized = run(&gr, &nodes, k)?;
    for id in &ids {
        ensure!(near(sized[id].x, now[id].x) && near(sized[id].y, now[id].y), "sizes", "{id:?} is at {:?} with another size, else at {:?}", sized[id], now[id]);
    }
    Ok(())
}
fn apart(l: &Layout, which: impl Fn(&str, &str) -> bool) -> Res {
    let v: Vec<(&String, &Rect)> = l.nodes.iter().map(|(k, n)| (k, &n.rect)).collect();
    for (i, a) in v.iter().enumerate() {
        for b in &v[..i] {
            if which(a.0, b.0) && overlap(a.1, b.1) {
                let (x, y) = if a.0 < b.0 { (a, b) } else { (b, a) };
                return fail("overlap", format!("{:?} at {:?} and {:?} at {:?}", x.0, x.1, y.0, y.1));
            }
        }
    }
    Ok(())
}

fn tree(g: &mut Gen, next: &mut usize, depth: usize, sized: bool) -> TreeNode {
    let id = if g.chance(1, 5) { format!("<{next}> & \"é\"") } else { format!("n{next}") };
    *next += 1;
    let mut n = TreeNode::new(id, g.pick(LABELS).to_string(), g.pick(TYPES).to_string());
    if sized && g.chance(1, 3) {
        n = n.with_size(size(g))
    }
    if depth > 0 {
        let k = if *next > 40 { 0 } else { g.usize(4) };
        for _ in 0..k {
            let c = tree(g, next, depth - 1, sized);
            if c.id.len() % 2 == 0 { n = n.with_child(c) } else { n.children.push(c) }
        }
    }
    n
}
fn flat<'t>(n: &'t TreeNode, level: usize, parent: Option<&'t str>, out: &mut Vec<(&'t TreeNode, usize, Option<&'t str>)>) {
    out.push((n, level, parent));
    for c in &n.children {
        flat(c, level + 1, Some(&n.id), out)
    }
}
fn trees(g: &mut Gen, c: &mut Case) -> Res {
    let sized = g.bool();
    let d = g.usize(6);
    let t = tree(g, &mut 0, d, sized);
    let alg = *g.pick(&[TreeLayoutAlgorithm::Layered, TreeLayoutAlgorithm::Radial, TreeLayoutAlgorithm::Compact, TreeLayoutAlgorithm::Balloon]);
    let cfg = if g.bool() { TreeLayoutConfig::default() } else { TreeLayoutConfig { node_width: *g.pick(&[20.0, 64.0]), node_height: 16.0, level_distance: *g.pick(&[80.0, 120.0]), sibling_distance: *g.pick(&[0.0, 4.0, 30.0]), subtree_distance: 10.0 } };
    let mut v = Vec::new();
    flat(&t, 0, None, &mut v);
    c.desc(format!("{alg:?} {cfg:?} {t:?}"));
    if v.len() > 5 {
        c.nontrivial()
    }
    let want: BTreeMap<String, Want> = v.iter().map(|(n, _, _)| (n.id.clone(), Want { label: n.label.clone(), size: n.size.unwrap_or(Size::new(cfg.node_width, cfg.node_height)), kind: type_of(&n.node_type) })).collect();
    let edges: Vec<(String, String, Option<String>)> = v.iter().filter_map(|(n, _, p)| p.map(|p| (p.to_string(), n.id.clone(), None))).collect();
    let l = match TreeLayout::new().with_algorithm(alg).with_config(cfg.clone()).layout_tree(&t) {
        Ok(l) => l,
        Err(e) => return fail("layout", format!("{alg:?}: {e}")),
    };
    sound(&l, &want, &edges)?;
    let level: HashMap<&str, usize> = v.iter().map(|(n, k, _)| (n.id.as_str(), *k)).collect();
    match alg {
        TreeLayoutAlgorithm::Layered | TreeLayoutAlgorithm::Compact => {
            let name = if alg == TreeLayoutAlgorithm::Layered { "layered" } else { "compact" };
            let mut last: HashMap<usize, (f64, &str)> = HashMap::new();
            let mut first: HashMap<usize, f64> = HashMap::new();
            for (n, k, _) in &v {
                let r = &l.nodes[&n.id].rect;
                ensure!(near(r.y(), *k as f64 * cfg.level_distance), format!("{name}-level"), "{:?} of level {k} is at {r:?}", n.id);
                // left to right in the order of the children
                if let Some((x, before)) = last.get(k) {
                    ensure!(r.min_x() >= x - 1e-6, format!("{name}-overlap"), "{:?} at {r:?} reaches into {before:?}, which ends at {x}", n.id);
                }
                last.insert(*k, (r.max_x(), &n.id));
                first.entry(*k).or_insert(r.min_x());
            }
            if alg == TreeLayoutAlgorithm::Layered {
                let root = l.nodes[&t.id].rect.center().x;
                for (k, a) in &first {
                    let middle = (a + last[k].0) / 2.0;
                    ensure!((middle - root).abs() <= cfg.sibling_distance + 1e-6, "layered-center", "the middle of level {k} is {middle}, the root's {root}");
                }
            }
            if alg == TreeLayoutAlgorithm::Compact {
                for (n, _, _) in v.iter().filter(|x| !x.0.children.is_empty()) {
                    // a parent is above its children
                    let (mut a, mut b) = (f64::INFINITY, f64::NEG_INFINITY);
                    for c in &n.children {
                        a = a.min(l.nodes[&c.id].rect.min_x());
                        b = b.max(l.nodes[&c.id].rect.max_x());
                    }
                    let r = &l.nodes[&n.id].rect;
                    ensure!(r.center().x >= a - 1e-6 && r.center().x <= b + 1e-6, "compact-center", "{:?} at {r:?} is not above its children, {a} to {b}", n.id);
                }
            }
        }
        TreeLayoutAlgorithm::Radial | TreeLayoutAlgorithm::Balloon => {
            let p = l.nodes[&t.id].rect.center();
            ensure!(near(p.x, 0.0) && near(p.y, 0.0), "radial-root", "the root is at {p:?}");
            // the children of the root are all around it
            let mut at: Vec<f64> = t.children.iter().map(|c| l.nodes[&c.id].rect.center()).map(|q| q.y.atan2(q.x)).collect();
            at.sort_by(f64::total_cmp);
            let step = std::f64::consts::TAU / at.len().max(1) as f64;
            ensure!(at.windows(2).all(|w| (w[1] - w[0] - step).abs() < 1e-6), "radial-around", "{} children of the root in directions {at:?}", at.len());
            for (n, _, _) in &v {
                let p = l.nodes[&n.id].rect.center();
                let ds: Vec<f64> = n.children.iter().map(|c| l.nodes[&c.id].rect.center().distance_to(&p)).collect();
                ensure!(ds.iter().all(|d| near(*d, ds[0]) && *d > 0.0), "radial-circle", "the children of {:?} are {ds:?} away from it", n.id);
                for (i, a) in n.children.iter().enumerate() {
                    for b in &n.children[..i] {
                        let d = l.nodes[&a.id].rect.center().distance_to(&l.nodes[&b.id].rect.center());
                        ensure!(d > 1e-9, "radial-apart", "{:?} and {:?} are in one place", a.id, b.id);
                    }
                }
            }
        }
    }
    let _ = level;
    Ok(())
}
fn engines(g: &mut Gen, c: &mut Case) -> Res {
    let ids = ids(g, 14);
    let edges = pairs(g, &ids, true);
    let mut want = BTreeMap::new();
    let kinds = [NodeType::Default, NodeType::Function, NodeType::Struct, NodeType::Enum, NodeType::Variable, NodeType::Constant, NodeType::Module];
    let nodes: Vec<LayoutNode> = ids
        .iter()
        .map(|id| {
            let (label, k, s) = (*g.pick(LABELS), *g.pick(&kinds), if g.bool() { Size::default() } else { size(g) });
            want.insert(id.clone(), Want { label: label.into(), size: s, kind: k });
            LayoutNode::new(id.clone(), label.into()).with_size(s).with_type(k)
        })
        .collect();
    let es: Vec<(String, String, Option<String>)> = edges.iter().map(|e| (e.0.clone(), e.1.clone(), g.chance(1, 3).then(|| g.pick(LABELS).to_string()))).collect();
    let le: Vec<LayoutEdge> = es
        .iter()
        .map(|e| {
            let mut x = LayoutEdge::new(e.0.clone(), e.1.clone()).with_type(EdgeType::Call);
            if let Some(l) = &e.2 {
                x = x.with_label(l.clone())
            }
            x
        })
        .collect();
    let cfg = LayoutConfig { margin: *g.pick(&[20.0, 0.0]), ..LayoutConfig::default() };
    let dir = *g.pick(&[LayoutDirection::TopDown, LayoutDirection::BottomUp, LayoutDirection::LeftRight, LayoutDirection::RightLeft]);
    let force = g.chance(1, 3);
    c.desc(format!("{} {ids:?} {es:?} sizes {:?}", if force { "force".to_string() } else { format!("{dir:?}") }, want.values().map(|w| (w.size.width, w.size.height)).collect::<Vec<_>>()));
    if ids.len() > 3 && es.len() > 3 {
        c.nontrivial()
    }
    let l = if force { ForceDirectedLayout::new().with_iterations(g.range(0, 120)).layout(&nodes, &le, &cfg) } else { HierarchicalLayout::new(dir).layout(&nodes, &le, &cfg) };
    let l = match l {
        Ok(l) => l,
        Err(e) => return fail("layout", e.to_string()),
    };
    sound(&l, &want, &es)?;
    if !force {
        for (id, n) in &l.nodes {
            ensure!(n.rect.min_x() >= cfg.margin - 1e-6 && n.rect.min_y() >= cfg.margin - 1e-6, "margin", "{id:?} at {:?}, the margin is {}", n.rect, cfg.margin);
        }
        // bottom up is top down seen from below, and so on
        let other = match dir {
            LayoutDirection::TopDown => LayoutDirection::BottomUp,
            LayoutDirection::BottomUp => LayoutDirection::TopDown,
            LayoutDirection::LeftRight => LayoutDirection::RightLeft,
            LayoutDirection::RightLeft => LayoutDirection::LeftRight,
        };
        let m = match HierarchicalLayout::new(other).layout(&nodes, &le, &cfg) {
            Ok(l) => l,
            Err(e) => return fail("layout", e.to_string()),
        };
        let down = matches!(dir, LayoutDirection::TopDown | LayoutDirection::BottomUp);
        let sums: Vec<(f64, f64)> = ids.iter().map(|id| (l.nodes[id].rect, m.nodes[id].rect)).map(|(a, b)| if down { (a.min_y() + b.max_y(), a.x() - b.x()) } else { (a.min_x() + b.max_x(), a.y() - b.y()) }).collect();
        ensure!(sums.iter().all(|s| near(s.0, sums[0].0) && near(s.1, 0.0)), "mirror", "{dir:?} and {other:?} are no mirror images: {sums:?}");
    }
    if !force && !cyclic(&ids, &edges) {
        for (a, b) in edges.iter().filter(|e| want.contains_key(&e.0) && want.contains_key(&e.1)) {
            let (p, q) = (l.nodes[a].rect, l.nodes[b].rect);
            let ok = match dir {
                LayoutDirection::TopDown => p.max_y() <= q.min_y() + 1e-6,
                LayoutDirection::BottomUp => q.max_y() <= p.min_y() + 1e-6,
                LayoutDirection::LeftRight => p.max_x() <= q.min_x() + 1e-6,
                LayoutDirection::RightLeft => q.max_x() <= p.min_x() + 1e-6,
            };
            ensure!(ok, "direction", "{dir:?}: {a:?} at {p:?} and its child {b:?} at {q:?}");
        }
        apart(&l, |_, _| true)?
    }
    Ok(())
}

// C32
fn attr(a: &str, k: &str) -> Result<String, Fail> {
    let mut rest = a;
    while let Some(i) = rest.find("=\"") {
        let name = rest[..i].trim();
        let v = &rest[i + 2..];
        let e = v.find('"').unwrap();
        if name == k {
            return unescape(&v[..e]);
        }
        rest = &v[e + 1..]
    }
    fail("attribute", format!("no {k:?} in {a:?}"))
}
fn num(a: &str, k: &str) -> Result<f64, Fail> {
    let s = attr(a, k)?;
    s.parse().or_else(|_| fail("attribute", format!("{k}={s:?} is no number")))
}
fn el<'h>(h: &'h H) -> (&'h str, &'h str, &'h [H]) {
    match h {
        H::El(n, a, c) => (n, a, c),
        H::Text(_) => ("", "", &[]),
    }
}
fn kids(h: &[H]) -> Vec<&H> {
    h.iter().filter(|h| !matches!(h, H::Text(t) if t.trim().is_empty())).collect()
}
fn word(g: &mut Gen) -> String {
    g.pick(&["#fff", "red", "rgba(0, 0, 0, 0.1)", "a\"b", "<&>", "url('x')", "é"]).to_string()
}
fn element_style(g: &mut Gen) -> ElementStyle {
    let mut s = ElementStyle::new();
    if g.bool() {
        s = s.with_fill(word(g))
    }
    if g.bool() {
        s = s.with_stroke(word(g), *g.pick(&[0.5, 3.0]))
    }
    if g.bool() {
        s = s.with_text(word(g), *g.pick(&[7.0, 14.5]))
    }
    // each by itself
    if g.chance(1, 4) {
        s.stroke_width = if g.bool() { Some(4.5) } else { None };
    }
    if g.chance(1, 4) {
        s.stroke_color = if g.bool() { Some(word(g)) } else { None };
    }
    if g.chance(1, 4) {
        s.text_size = if g.bool() { Some(9.5) } else { None };
    }
    if g.chance(1, 4) {
        s.text_color = if g.bool() { Some(word(g)) } else { None };
    }
    if g.chance(1, 3) {
        s = s.with_opacity(0.25)
    }
    if g.chance(1, 3) {
        s = s.with_class(g.pick(&["hot", "a b", "x\"y"]).to_string())
    }
    if g.chance(1, 3) {
        s = s.with_attribute("data-x".into(), g.pick(LABELS).to_string())
    }
    s
}
fn render(g: &mut Gen, c: &mut Case) -> Res {
    let ids: Vec<String> = ids(g, 8).into_iter().collect();
    let mut l = Layout::new();
    let coord = |g: &mut Gen| *g.pick(&[0.0, 1.5, -20.0, 333.25, 1e3, -0.125, 40.0]);
    for id in &ids {
        let r = Rect::new(Point::new(coord(g), coord(g)), size(g));
        if g.chance(1, 4) { l.add_node(id.clone(), r) } else { l.add_node_with_metadata(id.clone(), g.pick(LABELS).to_string(), r, NodeType::Struct) }
    }
    for (a, b) in pairs(g, &ids, false) {
        let n = if g.chance(1, 6) { g.usize(2) } else { g.range(2, 4) };
        let mut e = Edge::new(a, b).with_points((0..n).map(|_| Point::new(coord(g), coord(g))).collect());
        if g.bool() {
            e = e.with_label(g.pick(LABELS).to_string())
        }
        l.add_edge(e)
    }
    let cfg = if g.bool() {
        RenderConfig::default()
    } else if g.chance(1, 4) {
        g.pick(&[VisualizationTheme::light(), VisualizationTheme::dark(), VisualizationTheme::one_light(), VisualizationTheme::one_dark_pro(), VisualizationTheme::github()]).to_render_config()
    } else {
        RenderConfig {
            background_color: word(g),
            node_fill_color: word(g),
            node_stroke_color: word(g),
            node_stroke_width: 1.25,
            edge_color: word(g),
            edge_width: 2.5,
            text_color: word(g),
            text_size: 11.0,
            font_family: g.pick(&["Arial", "\"A B\", serif", "a<b"]).to_string(),
            padding: *g.pick(&[0.0, 20.0, 7.5]),
            show_labels: g.bool(),
            show_arrows: g.bool(),
            arrow_size: 6.0,
            ..RenderConfig::default()
        }
    };
    let mut r = SvgRenderer::new().with_config(cfg.clone());
    let (mut ns, mut es) = (HashMap::new(), HashMap::new());
    let styled = g.bool();
    if styled {
        for id in &ids {
            if g.bool() {
                let s = element_style(g);
                r.set_node_style(id.clone(), s.clone());
                ns.insert(id.clone(), s);
            }
        }
        for e in &l.edges {
            if g.bool() {
                let s = element_style(g);
                r.set_edge_style(format!("{}_{}", e.from, e.to), s.clone());
                es.insert((e.from.clone(), e.to.clone()), s);
            }
        }
    }
    c.desc(format!("{:?} {cfg:?} {ns:?} {es:?}", { let mut v: Vec<String> = l.nodes.values().map(|n| format!("{n:?}")).collect(); v.sort(); (v, &l.edges) }));
    if l.edges.len() > 1 && l.nodes.len() > 2 {
        c.nontrivial()
    }
    let svg = match r.render_layout(&l) {
        Ok(s) => s,
        Err(e) => return fail("render", e.to_string()),
    };
    let H::El(_, _, top) = markup(&svg)? else { unreachable!() };
    let top = kids(&top);
    ensure_eq!(top.len(), 1, "svg", "elements at the top");
    let (n, a, body) = el(top[0]);
    ensure_eq!(n, "svg", "svg", "the top element");
    let bounds = if ids.is_empty() { Rect::from_xywh(0.0, 0.0, cfg.canvas_width, cfg.canvas_height) } else { l.bounds };
    ensure!(near(num(a, "width")?, bounds.width() + 2.0 * cfg.padding) && near(num(a, "height")?, bounds.height() + 2.0 * cfg.padding), "canvas", "the canvas {a} for {bounds:?}");
    let body = kids(body);
    let groups: Vec<&&H> = body.iter().filter(|h| el(h).0 == "g").collect();
    ensure_eq!(groups.len(), 1, "svg", "groups");
    let back = body.iter().find(|h| el(h).0 == "rect");
    ensure!(back.is_some(), "svg", "no background");
    ensure_eq!(attr(el(back.unwrap()).1, "fill")?, cfg.background_color.clone(), "svg", "background");
    let arrows = svg.contains("id=\"arrowhead\"");
    ensure_eq!(arrows, cfg.show_arrows, "arrows", "an arrow head");
    let (_, ga, inner) = el(groups[0]);
    let tr = attr(ga, "transform")?;
    let Some((x, y)) = tr.strip_prefix("translate(").and_then(|t| t.strip_suffix(')')).and_then(|t| t.split_once(',')) else { return fail("canvas", tr) };
    ensure!(x.trim().parse().is_ok_and(|x: f64| near(x, cfg.padding - bounds.x())) && y.trim().parse().is_ok_and(|y: f64| near(y, cfg.padding - bounds.y())), "canvas", "{tr} for {bounds:?} and padding {}", cfg.padding);
    // edges first, in order, then the nodes in any order
    let mut it = kids(inner).into_iter().peekable();
    let extra = |s: Option<&ElementStyle>, base: &str, a: &str| -> Res {
        let class = attr(a, "class")?;
        let mut cs: Vec<&str> = class.split_whitespace().collect();
        ensure!(cs.first() == Some(&base), "class", "class {class:?}");
        cs.remove(0);
        ensure_eq!(cs.join(" "), s.and_then(|s| s.class_name.clone()).unwrap_or_default(), "class", "the class of an element");
        if let Some(s) = s {
            if let Some(o) = s.opacity {
                ensure!(near(num(a, "opacity")?, o), "opacity", "{a}");
            }
            for (k, v) in &s.attributes {
                ensure_eq!(&attr(a, k)?, v, "attribute", "{k}");
            }
        }
        Ok(())
    };
    let label = |h: Option<&H>, what: &str, text: &str, s: Option<&ElementStyle>, size: f64| -> Result<(f64, f64), Fail> {
        let Some(h) = h else { return fail("label", format!("no label on {what}")) };
        let (n, a, _) = el(h);
        ensure_eq!(n, "text", "label", "{what}");
        let mut t = String::new();
        h.text(&mut t);
        ensure_eq!(t, text.to_string(), "label", "the label of {what}");
        ensure_eq!(attr(a, "fill")?, s.and_then(|s| s.text_color.clone()).unwrap_or(cfg.text_color.clone()), "label", "colour of the label of {what}");
        ensure!(near(num(a, "font-size")?, s.and_then(|s| s.text_size).unwrap_or(size)), "label", "size of the label of {what}: {a}");
        ensure_eq!(attr(a, "font-family")?, cfg.font_family.clone(), "label", "font of {what}");
        Ok((num(a, "x")?, num(a, "y")?))
    };
    for e in l.edges.iter().filter(|e| e.points.len() >= 2) {
        let what = format!("{:?} -> {:?}", e.from, e.to);
        let s = es.get(&(e.from.clone(), e.to.clone()));
        let Some(h) = it.next() else { return fail("edge", format!("no edge {what}")) };
        let (n, a, _) = el(h);
        ensure_eq!(n, "path", "edge", "{what}");
        let d = attr(a, "d")?;
        let nums: Vec<f64> = d.split(|c: char| c.is_whitespace() || c == ',' || c == 'M' || c == 'L').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(f64::NAN)).collect();
        let want: Vec<f64> = e.points.iter().flat_map(|p| [p.x, p.y]).collect();
        ensure!(nums.len() == want.len() && nums.iter().zip(&want).all(|(a, b)| near(*a, *b)), "edge", "{what} is {d:?}, not through {want:?}");
        ensure_eq!(attr(a, "stroke")?, s.and_then(|s| s.stroke_color.clone()).unwrap_or(cfg.edge_color.clone()), "edge", "colour of {what}");
        ensure!(near(num(a, "stroke-width")?, s.and_then(|s| s.stroke_width).unwrap_or(cfg.edge_width)), "edge", "width of {what}");
        ensure_eq!(attr(a, "marker-end").is_ok(), cfg.show_arrows, "arrows", "arrow of {what}");
        extra(s, "edge", a)?;
        if let Some(t) = &e.label {
            let (x, y) = label(it.next(), &what, t, s, cfg.text_size * 0.8)?;
            let (p, q) = (e.points[0], *e.points.last().unwrap());
            ensure!(near(x, (p.x + q.x) / 2.0) && (y - (p.y + q.y) / 2.0).abs() <= 2.0 * cfg.text_size, "label", "the label of {what} from {p:?} to {q:?} is at {x},{y}");
        }
    }
    let mut left: Vec<&String> = ids.iter().collect();
    while let Some(h) = it.next() {
        let (n, a, _) = el(h);
        ensure_eq!(n, "rect", "node", "an element for a node");
        let r = Rect::from_xywh(num(a, "x")?, num(a, "y")?, num(a, "width")?, num(a, "height")?);
        let text = if cfg.show_labels { Some(it.next()) } else { None };
        // the node it shows: rectangle, label and style
        let mut why = None;
        let hit = left.iter().position(|id| {
            let n = &l.nodes[*id];
            let s = ns.get(*id);
            if n.rect != r {
                return false;
            }
            let ok = (|| -> Res {
                ensure_eq!(attr(a, "fill")?, s.and_then(|s| s.fill_color.clone()).unwrap_or(cfg.node_fill_color.clone()), "node", "fill of {id:?}");
                ensure_eq!(attr(a, "stroke")?, s.and_then(|s| s.stroke_color.clone()).unwrap_or(cfg.node_stroke_color.clone()), "node", "stroke of {id:?}");
                ensure!(near(num(a, "stroke-width")?, s.and_then(|s| s.stroke_width).unwrap_or(cfg.node_stroke_width)), "node", "stroke width of {id:?}");
                extra(s, "node", a)?;
                if let Some(t) = text {
                    let (x, y) = label(t, id, &n.label, s, cfg.text_size)?;
                    ensure!(near(x, r.center().x) && near(y, r.center().y), "label", "the label of {id:?} is at {x},{y}");
                }
                Ok(())
            })();
            match ok {
                Ok(()) => true,
                Err(e) => {
                    why = Some(e);
                    false
                }
            }
        });
        match (hit, why) {
            (Some(i), _) => {
                left.remove(i);
            }
            (None, Some(e)) => return Err(e),
            (None, None) => return fail("node", format!("a rectangle {r:?} of no node")),
        }
    }
    ensure!(left.is_empty(), "node", "nodes not shown: {left:?}");
    // exports
    let plain = |f| LayoutExporter::new(f).with_config(cfg.clone()).export(&l);
    let (Ok(svg), Ok(html), Ok(json)) = (plain(ExportFormat::Svg), plain(ExportFormat::Html), plain(ExportFormat::Json)) else { return fail("export", "an export fails") };
    let H::El(_, _, top) = markup(&html)? else { unreachable!() };
    ensure!(kids(&top).iter().any(|h| el(h).0 == "html"), "html", "no html element");
    let lines = |s: &str| {
        // nodes come in any order
        let mut v: Vec<String> = s.lines().map(|l| l.trim().to_string()).collect();
        v.sort();
        v
    };
    let (have, want) = (lines(&html), lines(&svg));
    ensure!(want.iter().all(|l| have.contains(l)), "html", "the page lacks parts of the image");
    markup(&svg)?;
    let v: serde_json::Value = match serde_json::from_str(&json) {
        Ok(v) => v,
        Err(e) => return fail("json", e.to_string()),
    };
    let mut nodes = serde_json::Map::new();
    for (id, n) in &l.nodes {
        nodes.insert(id.clone(), serde_json::json!({"x": n.rect.x(), "y": n.rect.y(), "width": n.rect.width(), "height": n.rect.height()}));
    }
    for (id, n) in &nodes {
        for (k, x) in n.as_object().unwrap() {
            ensure_eq!(&v["nodes"][id][k], x, "json", "{k} of {id:?}");
        }
    }
    ensure_eq!(v["nodes"].as_object().map(|o| o.len()), Some(nodes.len()), "json", "nodes");
    ensure_eq!(v["edges"].as_array().map(|o| o.len()), Some(l.edges.len()), "json", "edges");
    for (e, j) in l.edges.iter().zip(v["edges"].as_array().unwrap()) {
        let pts: Vec<serde_json::Value> = e.points.iter().map(|p| serde_json::json!({"x": p.x, "y": p.y})).collect();
        ensure_eq!((&j["from"], &j["to"], &j["label"], &j["points"]), (&e.from.clone().into(), &e.to.clone().into(), &serde_json::json!(e.label), &serde_json::json!(pts)), "json", "an edge");
    }
    Ok(())
}
/// Whole way: trees of a language, graphs and plain trees are drawn with all labels.
fn drawn(g: &mut Gen, c: &mut Case) -> Res {
    let (svg, mut want, edges): (oak_visualize::Result<String>, Vec<String>, usize) = match g.below(3) {
        0 => {
            let t = tree(g, &mut 0, 4, true);
            let mut v = Vec::new();
            flat(&t, 0, None, &mut v);
            c.desc(format!("{t:?}"));
            (to_svg(&t), v.iter().map(|x| x.0.label.clone()).collect(), v.len() - 1)
        }
        1 => {
            let ids = ids(g, 8);
            let edges = pairs(g, &ids, true);
            let (gr, want, es) = graph_of(g, &ids, &edges, true, true);
            c.desc(format!("{ids:?} {es:?}"));
            let shown: Vec<&(String, String, Option<String>)> = es.iter().filter(|e| want.contains_key(&e.0) && want.contains_key(&e.1)).collect();
            let labels: Vec<String> = want.values().map(|w| w.label.clone()).chain(shown.iter().filter_map(|e| e.2.clone())).collect();
            (to_svg(&gr), labels, shown.len())
        }
        _ => {
            let d = docs::any_document(g);
            let a = SyntaxArena::default();
            let root = docs::build(&d, &a);
            c.desc(format!("{d:?}"));
            let mut v = Vec::new();
            kinds(&d, &mut v);
            let n = v.len() - 1;
            let (green, red) = (GreenTree::<docs::Toy>::Node(root), RedTree::<docs::Toy>::Node(RedNode::new(root, 0)));
            for t in [TreeNode::from(&green), TreeNode::from(&red), TreeNode::from(green.clone()), TreeNode::from(red.clone())] {
                same(&t, &d)?;
                let mut f = Vec::new();
                flat(&t, 0, None, &mut f);
                ensure_eq!(f.iter().map(|x| &x.0.id).collect::<HashSet<_>>().len(), n + 1, "ids", "ids of the nodes");
            }
            (if g.bool() { to_svg(&green) } else { to_svg(&red) }, v, n)
        }
    };
    if edges > 3 {
        c.nontrivial()
    }
    let svg = match svg {
        Ok(s) => s,
        Err(e) => return fail("render", e.to_string()),
    };
    let h = markup(&svg)?;
    let (mut texts, mut rects, mut paths) = (Vec::new(), 0, 0);
    fn go(h: &H, t: &mut Vec<String>, r: &mut usize, p: &mut usize) {
        match el(h).0 {
            "text" => {
                let mut s = String::new();
                h.text(&mut s);
                t.push(s)
            }
            "rect" => *r += 1,
            "path" => *p += 1,
            _ => {}
        }
        el(h).2.iter().for_each(|h| go(h, t, r, p))
    }
    go(&h, &mut texts, &mut rects, &mut paths);
    texts.sort();
    want.sort();
    ensure_eq!(texts, want, "drawn", "the labels shown");
    ensure_eq!(paths, edges, "drawn", "the edges shown");
    Ok(())
}
fn kinds(d: &docs::D, out: &mut Vec<String>) {
    match d {
        docs::D::L(t, _) => out.push(format!("{t:?}")),
        docs::D::N(k, c) => {
            out.push(format!("{k:?}"));
            c.iter().for_each(|d| kinds(d, out))
        }
    }
}
fn same(t: &TreeNode, d: &docs::D) -> Res {
    match d {
        docs::D::L(k, _) => ensure!(t.label == format!("{k:?}") && t.node_type == "leaf" && t.children.is_empty(), "tree", "{t:?} for {k:?}"),
        docs::D::N(k, c) => {
            ensure!(t.label == format!("{k:?}") && t.node_type == "node" && t.children.len() == c.len(), "tree", "{:?} with {} children for {k:?} with {}", t.label, t.children.len(), c.len());
            for (t, d) in t.children.iter().zip(c) {
                same(t, d)?
            }
        }
    }
    Ok(())
}

// C33
fn queries(g: &mut Gen, c: &mut Case) -> Res {
    let ids = ids(g, 9);
    let edges = pairs(g, &ids, false);
    let directed = g.bool();
    let (gr, _, _) = graph_of(g, &ids, &edges, directed, false);
    c.desc(format!("{} {ids:?} {edges:?}", if directed { "directed" } else { "undirected" }));
    if edges.len() > 3 {
        c.nontrivial()
    }
    for id in &ids {
        let mut want: Vec<&str> = Vec::new();
        for (a, b) in &edges {
            if a == id {
                want.push(b)
            }
            if !directed && b == id {
                want.push(a)
            }
        }
        let mut got = gr.get_neighbors(id);
        ensure_eq!(gr.get_degree(id), want.len(), "degree", "{id:?}");
        got.sort();
        want.sort();
        ensure_eq!(got, want, "neighbors", "{id:?}");
    }
    // connected: every node reached from the first, along edges in either direction
    let mut seen: HashSet<&String> = ids.iter().take(1).collect();
    loop {
        let n = seen.len();
        for (a, b) in &edges {
            if seen.contains(a) || seen.contains(b) {
                seen.insert(a);
                seen.insert(b);
            }
        }
        if n == seen.len() {
            break;
        }
    }
    ensure_eq!(gr.is_connected(), seen.len() == ids.len(), "connected", "is_connected");
    // cycles
    let want = if directed {
        cyclic(&ids, &edges)
    } else {
        // a forest has fewer edges than nodes in every component
        let mut up: HashMap<&String, &String> = ids.iter().map(|i| (i, i)).collect();
        let mut found = false;
        for (a, b) in &edges {
            let root = |mut x| {
                while up[x] != x {
                    x = up[x]
                }
                x
            };
            let (ra, rb) = (root(a), root(b));
            found |= ra == rb;
            up.insert(ra, rb);
        }
        found
    };
    let got = gr.find_cycles();
    ensure_eq!(!got.is_empty(), want, if directed { "cycles" } else { "cycles-undirected" }, "whether there is a cycle; found {got:?}");
    for cy in &got {
        let sig = if directed { "cycles" } else { "cycles-undirected" };
        ensure!(!cy.is_empty() && cy.iter().collect::<HashSet<_>>().len() == cy.len(), sig, "{cy:?} has a node twice");
        for (i, a) in cy.iter().enumerate() {
            let b = &cy[(i + 1) % cy.len()];
            ensure!(edges.iter().any(|e| &e.0 == a && &e.1 == b || !directed && &e.0 == b && &e.1 == a), sig, "{cy:?} has no edge {a:?} -> {b:?}");
        }
        if !directed && cy.len() == 2 {
            let n = edges.iter().filter(|e| e.0 == cy[0] && e.1 == cy[1] || e.0 == cy[1] && e.1 == cy[0]).count();
            ensure!(n > 1, sig, "{cy:?} goes back on the edge it came by");
        }
    }
    Ok(())
}
fn counts(g: &mut Gen, c: &mut Case) -> Res {
    let d = g.usize(7);
    let t = tree(g, &mut 0, d, true);
    let mut v = Vec::new();
    flat(&t, 0, None, &mut v);
    c.desc(format!("{t:?}"));
    if v.len() > 4 {
        c.nontrivial()
    }
    ensure_eq!(t.node_count(), v.len(), "count", "node_count");
    ensure_eq!(t.leaf_count(), v.iter().filter(|x| x.0.children.is_empty()).count(), "count", "leaf_count");
    ensure_eq!(t.depth(), v.iter().map(|x| x.1 + 1).max().unwrap(), "count", "depth");
    ensure_eq!(t.is_leaf(), t.children.is_empty(), "count", "is_leaf");
    let back: TreeNode = serde_json::from_str(&serde_json::to_string(&t).unwrap()).unwrap();
    ensure_eq!(format!("{back:?}"), format!("{t:?}"), "json", "a tree through JSON");
    Ok(())
}
fn geometry(g: &mut Gen, c: &mut Case) -> Res {
    let f = |g: &mut Gen| *g.pick(&[0.0, 1.0, -1.0, 0.5, 2.25, -3.75, 10.0, 100.0, 1e3, -7.0]);
    let p = |g: &mut Gen| Point::new(f(g), f(g));
    let rect = |g: &mut Gen| Rect::new(p(g), Size::new(f(g).abs(), f(g).abs()));
    let (a, b, x) = (rect(g), rect(g), if g.bool() { p(g) } else { Point::new(0.25, 1.5) });
    let (q, r) = (p(g), p(g));
    let m = f(g).abs();
    c.desc(format!("{a:?} {b:?} {x:?} {q:?} {r:?} {m}"));
    c.nontrivial();
    let inside = |r: &Rect, p: &Point| p.x >= r.x() && p.x <= r.x() + r.width() && p.y >= r.y() && p.y <= r.y() + r.height();
    for r in [&a, &b] {
        for y in [x, r.center(), r.top_left(), r.top_right(), r.bottom_left(), r.bottom_right(), q] {
            ensure_eq!(r.contains_point(y), inside(r, &y), "rect", "{r:?} contains {y:?}");
        }
        ensure!(near(r.center().x, (r.min_x() + r.max_x()) / 2.0) && near(r.center().y, (r.min_y() + r.max_y()) / 2.0), "rect", "center of {r:?}");
        let e = r.expand(m);
        ensure!(near(e.min_x(), r.min_x() - m) && near(e.max_x(), r.max_x() + m) && near(e.min_y(), r.min_y() - m) && near(e.max_y(), r.max_y() + m), "rect", "{r:?} expanded by {m}");
        let t = r.translate(q.x, q.y);
        ensure!(t.origin == r.origin + q && t.size == r.size, "rect", "{r:?} translated");
        let s = r.scale(m);
        ensure!(near(s.max_x(), r.max_x() * m) && near(s.min_y(), r.min_y() * m) && near(s.max_y(), r.max_y() * m) && near(s.min_x(), r.min_x() * m), "rect", "{r:?} scaled by {m}");
    }
    // a common point is in both: the clamped corner
    let k = Point::new(a.min_x().max(b.min_x()), a.min_y().max(b.min_y()));
    ensure_eq!(a.intersects(&b), inside(&a, &k) && inside(&b, &k), "rect", "{a:?} intersects {b:?}");
    ensure_eq!(a.intersects(&b), b.intersects(&a), "rect", "intersects the other way");
    let u = a.union(&b);
    ensure!(near(u.min_x(), a.min_x().min(b.min_x())) && near(u.min_y(), a.min_y().min(b.min_y())) && near(u.max_x(), a.max_x().max(b.max_x())) && near(u.max_y(), a.max_y().max(b.max_y())), "rect", "union of {a:?} and {b:?}");
    let w = Rect::from_points(q, r);
    ensure!(inside(&w, &q) && inside(&w, &r) && near(w.width(), (q.x - r.x).abs()) && near(w.height(), (q.y - r.y).abs()), "rect", "from_points({q:?}, {r:?}) is {w:?}");
    ensure!(near(q.distance_to(&r), ((q.x - r.x).powi(2) + (q.y - r.y).powi(2)).sqrt()) && near(q.distance_to(&r), r.distance_to(&q)), "point", "distance");
    ensure!(q + r - r == q && q.translate(r.x, r.y) == q + r && q.scale(m) == Point::new(q.x * m, q.y * m), "point", "sums of {q:?} and {r:?}");
    let s = a.size;
    ensure!(near(s.area(), s.width * s.height) && s.scale_xy(m, 2.0) == Size::new(s.width * m, s.height * 2.0) && s.scale(m) == Size::new(s.width * m, s.height * m) && Size::square(m) == Size::new(m, m), "size", "{s:?}");
    ensure!(if s.height == 0.0 { s.aspect_ratio().is_infinite() } else { near(s.aspect_ratio() * s.height, s.width) }, "size", "aspect ratio of {s:?}");
    // transforms
    let one = |g: &mut Gen| match g.below(3) {
        0 => {
            let (x, y) = (f(g), f(g));
            let t = Transform::translate(x, y);
            let p = t.transform_point(q);
            (t, near(p.x, q.x + x) && near(p.y, q.y + y))
        }
        1 => {
            let (x, y) = (f(g), f(g));
            let t = Transform::scale(x, y);
            let p = t.transform_point(q);
            (t, near(p.x, q.x * x) && near(p.y, q.y * y))
        }
        _ => {
            let t = Transform::rotate(f(g));
            let p = t.transform_point(q);
            (t, near(p.distance_to(&Point::origin()), q.distance_to(&Point::origin())))
        }
    };
    let (t1, ok1) = one(g);
    let (t2, ok2) = one(g);
    let (t3, ok3) = one(g);
    ensure!(ok1 && ok2 && ok3, "transform", "{t1:?} {t2:?} {t3:?} on {q:?}");
    let t12 = t1.compose(&t2);
    let (got, want) = (t12.compose(&t3).transform_point(q), t3.transform_point(t2.transform_point(t1.transform_point(q))));
    ensure!(near(got.x, want.x) && near(got.y, want.y), "transform", "{t1:?} then {t2:?} then {t3:?} takes {q:?} to {want:?}, composed to {got:?}");
    ensure!(Transform::identity().transform_point(q) == q && Transform::default().compose(&t1) == t1 && t1.compose(&Transform::identity()) == t1, "transform", "identity");
    let turn = Transform::rotate(std::f64::consts::FRAC_PI_2).transform_point(Point::new(1.0, 0.0));
    ensure!(near(turn.x, 0.0) && near(turn.y, 1.0), "transform", "a quarter turn takes 1,0 to {turn:?}");
    Ok(())
}
/// Everything built with `with_…` holds what was given
fn builders(g: &mut Gen, c: &mut Case) -> Res {
    let names = ids(g, 6);
    let (x, y) = (g.pick(LABELS).to_string(), g.pick(TYPES).to_string());
    let (s, w) = (size(g), *g.pick(&[0.5, 2.0, 3.0]));
    let at: Vec<(String, String)> = names.iter().map(|n| (n.clone(), g.pick(LABELS).to_string())).collect();
    c.desc(format!("{names:?} {x:?} {y:?} {s:?} {w} {at:?}"));
    if names.len() > 1 {
        c.nontrivial()
    }
    let want: HashMap<String, String> = at.iter().cloned().collect();
    let mut n = GraphNode::new(x.clone(), y.clone()).with_type(x.clone()).with_size(s).with_weight(w);
    let mut e = GraphEdge::new(x.clone(), y.clone()).with_label(x.clone()).with_type(y.clone()).with_weight(w);
    let mut t = TreeNode::new(x.clone(), y.clone(), x.clone()).with_size(s);
    let mut st = ElementStyle::new().with_fill(x.clone()).with_stroke(y.clone(), w).with_text(x.clone(), 3.0 * w).with_opacity(w / 10.0).with_class(y.clone());
    ensure!(!n.attributes.contains_key("k") && t.attributes.is_empty() && t.children.is_empty() && st.attributes.is_empty(), "builders", "something is there before it is given");
    for (k, v) in at {
        n = n.with_attribute(k.clone(), v.clone());
        e = e.with_attribute(k.clone(), v.clone());
        t = t.with_attribute(k.clone(), v.clone());
        st = st.with_attribute(k, v)
    }
    ensure!((&n.id, &n.label, &n.node_type, n.size, n.weight) == (&x, &y, &x, Some(s), w) && n.attributes == want, "builders", "{n:?}");
    ensure!((&e.from, &e.to, &e.label, &e.edge_type, e.weight) == (&x, &y, &Some(x.clone()), &y, w) && e.attributes == want, "builders", "{e:?}");
    ensure!((&t.id, &t.label, &t.node_type, t.size) == (&x, &y, &x, Some(s)) && t.attributes == want, "builders", "{t:?}");
    ensure!((&st.fill_color, &st.stroke_color, &st.stroke_width, &st.text_color, &st.text_size, &st.opacity, &st.class_name) == (&Some(x.clone()), &Some(y.clone()), &Some(w), &Some(x.clone()), &Some(3.0 * w), &Some(w / 10.0), &Some(y.clone())) && st.attributes == want, "builders", "{st:?}");
    let leaf = |i: &String| TreeNode::new(i.clone(), y.clone(), x.clone());
    let ids = |t: &TreeNode| t.children.iter().map(|c| c.id.clone()).collect::<Vec<_>>();
    let one = names.iter().fold(t.clone(), |t, i| t.with_child(leaf(i)));
    ensure_eq!(ids(&one), names.clone(), "builders", "the children of a tree node, one by one");
    let all = one.with_children(names.iter().rev().map(leaf).collect());
    ensure_eq!(ids(&all), names.iter().rev().cloned().collect::<Vec<_>>(), "builders", "the children of a tree node");
    let mut gr = Graph::new(true);
    for i in &names {
        gr.add_node(GraphNode::new(i.clone(), x.clone()));
        gr.add_edge(GraphEdge::new(i.clone(), y.clone()));
    }
    ensure!(gr.directed && names.iter().all(|i| gr.nodes.get(i).is_some_and(|n| n.id == *i)) && gr.nodes.len() == names.len(), "builders", "nodes of a graph");
    ensure_eq!(gr.edges.iter().map(|e| e.from.clone()).collect::<Vec<_>>(), names, "builders", "edges of a graph, in order");
    let n = LayoutNode::new(x.clone(), y.clone()).with_size(s).with_type(NodeType::Struct);
    ensure!((&n.id, &n.label, n.size, n.node_type) == (&x, &y, s, NodeType::Struct), "builders", "{n:?}");
    let e = LayoutEdge::new(x.clone(), y.clone()).with_label(y.clone());
    ensure!((&e.from, &e.to, &e.label) == (&x, &y, &Some(y.clone())), "builders", "{e:?}");
    Ok(())
}
/// A layout made by hand, nodes placed again included.
fn built(g: &mut Gen, c: &mut Case) -> Res {
    let names: Vec<String> = ids(g, 6).into_iter().collect();
    let mut l = if g.bool() { Layout::new() } else { Layout::default() };
    let (mut nodes, mut edges) = (BTreeMap::new(), Vec::<(String, String, Option<String>)>::new());
    let mut log = String::new();
    let mut again = false;
    if names.is_empty() {
        return Ok(());
    }
    for _ in 0..g.range(1, 14) {
        let id = g.pick::<String>(&names).clone();
        let coord = |g: &mut Gen| *g.pick(&[0.0, 1.5, -20.0, 333.25, 1e3, -0.125, 40.0]);
        match g.usize(4) {
            0 => {
                let mut e = Edge::new(id, g.pick::<String>(&names).clone()).with_points(vec![Point::new(coord(g), 0.0), Point::new(coord(g), 1.0)]);
                let label = if g.bool() { Some(g.pick(LABELS).to_string()) } else { None };
                if let Some(x) = &label {
                    e = e.with_label(x.clone())
                }
                log.push_str(&format!("; {e:?}"));
                edges.push((e.from.clone(), e.to.clone(), label));
                l.add_edge(e)
            }
            k => {
                let r = Rect::new(Point::new(coord(g), coord(g)), size(g));
                log.push_str(&format!("; {id:?} at {r:?}"));
                let w = if k == 1 { Want { label: id.clone(), size: r.size, kind: NodeType::Default } } else { Want { label: g.pick(LABELS).to_string(), size: r.size, kind: *g.pick(&[NodeType::Struct, NodeType::Function, NodeType::Default]) } };
                if k == 1 { l.add_node(id.clone(), r) } else { l.add_node_with_metadata(id.clone(), w.label.clone(), r, w.kind) }
                again |= nodes.insert(id.clone(), w).is_some();
                c.desc(log.clone());
                ensure_eq!((l.nodes[&id].rect.origin.x, l.nodes[&id].rect.origin.y), (r.origin.x, r.origin.y), "place", "place of {id:?}");
            }
        }
        c.desc(log.clone());
        let kept = std::mem::take(&mut l.edges);
        sound(&l, &nodes, &[])?;
        l.edges = kept;
        ensure_eq!(l.edges.iter().map(|e| (e.from.clone(), e.to.clone(), e.label.clone())).collect::<Vec<_>>(), edges, "edges", "edges of the layout");
    }
    if again {
        c.nontrivial()
    }
    Ok(())
}
pub fn all() -> Vec<Check> {
    vec![
        Check {
            id: "C31",
            rule: "one case = a graph, a tree or a list of nodes and edges, laid out by one algorithm, or a layout made by hand (built); non-trivial: over 3 nodes and 3 edges (graphs, engines), over 5 nodes (trees), a node was placed again (built)",
            assumptions: vec!["ids of nodes differ", "at most 14 nodes in graphs, 45 in trees; at most 120 steps of simulation"],
            facets: vec![Facet::new("graphs", 30_000, 800_000, graphs), Facet::new("trees", 80_000, 1_500_000, trees), Facet::new("engines", 40_000, 1_000_000, engines), Facet::new("built", 120_000, 800_000, built), Facet::new("forces", 20_000, 600_000, forces)],
        },
        Check {
            id: "C32",
            rule: "one case = a layout, configuration and styles rendered as SVG, HTML and JSON (render), or a graph or tree drawn the whole way (drawn); non-trivial: over 2 nodes and 1 edge / over 3 edges",
            assumptions: vec!["attribute names given by the user are valid", "finite coordinates"],
            facets: vec![Facet::new("render", 20_000, 800_000, render), Facet::new("drawn", 8_000, 200_000, drawn)],
        },
        Check {
            id: "C33",
            rule: "one case = a graph with all queries, a tree with its counts, or rectangles, points and transforms; non-trivial: over 3 edges / over 4 nodes / every geometry case",
            assumptions: vec!["directed graphs are connected when they are without regard to direction", "which cycles are found is not judged, only that some is when there is one"],
            facets: vec![Facet::new("queries", 180_000, 2_000_000, queries), Facet::new("counts", 60_000, 600_000, counts), Facet::new("geometry", 300_000, 2_000_000, geometry), Facet::new("builders", 60_000, 200_000, builders)],
        },
    ]
}
