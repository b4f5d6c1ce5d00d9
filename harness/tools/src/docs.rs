//! A language of nothing but roles, and documents with their trees generated together.
use kit::*;
use oak_core::memory::arena::SyntaxArena;
use oak_core::tree::{GreenLeaf, GreenNode, GreenTree};
use oak_core::{ElementType, Language, TokenType, UniversalElementRole as ER, UniversalTokenRole as TR};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum T {
    Name,
    Keyword,
    Literal,
    Escape,
    Operator,
    Punct,
    Comment,
    Ws,
    Bad,
    Plain,
    Eof,
}
impl TokenType for T {
    type Role = TR;
    const END_OF_STREAM: Self = T::Eof;
    fn role(&self) -> TR {
        match self {
            T::Name => TR::Name,
            T::Keyword => TR::Keyword,
            T::Literal => TR::Literal,
            T::Escape => TR::Escape,
            T::Operator => TR::Operator,
            T::Punct => TR::Punctuation,
            T::Comment => TR::Comment,
            T::Ws => TR::Whitespace,
            T::Bad => TR::Error,
            T::Plain => TR::None,
            T::Eof => TR::Eof,
        }
    }
}
pub const ROLES: [ER; 17] = [
    ER::None, ER::Definition, ER::Statement, ER::Container, ER::Reference, ER::Expression, ER::Binding, ER::Call, ER::Value, ER::Typing, ER::Metadata, ER::Attribute, ER::Detail, ER::Name, ER::Embedded, ER::Documentation, ER::Error,
];
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum E {
    Root,
    N(u8),
    Tok(T),
}
impl ElementType for E {
    type Role = ER;
    fn role(&self) -> ER {
        match self {
            E::Root => ER::Root,
            E::N(i) => ROLES[*i as usize % ROLES.len()],
            E::Tok(_) => ER::None,
        }
    }
}
impl From<T> for E {
    fn from(t: T) -> E {
        E::Tok(t)
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Toy;
impl Language for Toy {
    const NAME: &'static str = "toy";
    type TokenType = T;
    type ElementType = E;
    type TypedRoot = ();
}

/// A document: the tree as plain values.
#[derive(Clone, Debug, PartialEq)]
pub enum D {
    L(T, String),
    N(E, Vec<D>),
}
impl D {
    pub fn len(&self) -> usize {
        match self {
            D::L(_, s) => s.len(),
            D::N(_, c) => c.iter().map(D::len).sum(),
        }
    }
    pub fn text(&self, out: &mut String) {
        match self {
            D::L(_, s) => out.push_str(s),
            D::N(_, c) => c.iter().for_each(|d| d.text(out)),
        }
    }
    /// (kind, text, start, end) of the leaves
    pub fn leaves(&self, at: &mut usize, out: &mut Vec<(T, String, usize, usize)>) {
        match self {
            D::L(t, s) => {
                out.push((*t, s.clone(), *at, *at + s.len()));
                *at += s.len();
            }
            D::N(_, c) => c.iter().for_each(|d| d.leaves(at, out)),
        }
    }
}
pub const NAMES: &[&str] = &["a", "b", "foo", "bar", "foo_bar", "é", "中文", "x1", "main", "fo"];
pub fn leaf(g: &mut Gen) -> D {
    match g.weighted(&[6, 2, 2, 3, 4, 1, 1, 1, 1]) {
        0 => D::L(T::Name, g.pick(NAMES).to_string()),
        1 => D::L(T::Keyword, g.pick(&["fn", "let", "a"]).to_string()),
        2 => D::L(T::Literal, g.pick(&["1", "\"s\"", "\"é😀\"", "\"a\nb\"", "''"]).to_string()),
        3 => D::L(T::Punct, g.pick(&[",", ";", "(", ")", ",,"]).to_string()),
        4 => D::L(T::Ws, g.pick(&[" ", "\n", "  ", "\r\n", "\t", "\n\n"]).to_string()),
        5 => D::L(T::Comment, g.pick(&["/*c*/", "// é\n", "/* a\n b */"]).to_string()),
        6 => D::L(T::Operator, g.pick(&["+", "<", "&", "&&"]).to_string()),
        7 => D::L(*g.pick(&[T::Bad, T::Escape, T::Plain]), g.pick(&["?", "<", "\\n", "\u{7f}", "\u{1b}", "'"]).to_string()),
        _ => D::L(*g.pick(&[T::Name, T::Eof, T::Ws]), String::new()),
    }
}
fn node(g: &mut Gen, depth: usize, budget: &mut usize, kinds: &[u8]) -> D {
    let k = E::N(*g.pick(kinds));
    let n = g.usize(6);
    D::N(k, kids(g, n, depth, budget, kinds))
}
fn kids(g: &mut Gen, n: usize, depth: usize, budget: &mut usize, kinds: &[u8]) -> Vec<D> {
    let mut v = Vec::new();
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        if depth > 0 && g.bool() { v.push(node(g, depth - 1, budget, kinds)) } else { v.push(leaf(g)) }
    }
    v
}
/// A root with content; `kinds` are the indices into ROLES to use for inner nodes.
pub fn document(g: &mut Gen, kinds: &[u8]) -> D {
    let depth = if g.chance(1, 12) { 12 } else { g.range(1, 4) };
    let mut budget = g.range(1, 70);
    let n = g.range(1, 10);
    D::N(E::Root, kids(g, n, depth, &mut budget, kinds))
}
pub fn any_document(g: &mut Gen) -> D {
    let kinds: Vec<u8> = (0..ROLES.len() as u8).collect();
    document(g, &kinds)
}
pub fn text(d: &D) -> String {
    let mut s = String::new();
    d.text(&mut s);
    s
}
pub fn build<'a>(d: &D, a: &'a SyntaxArena) -> &'a GreenNode<'a, Toy> {
    match d {
        D::N(k, c) => {
            let v: Vec<GreenTree<'a, Toy>> = c
                .iter()
                .map(|c| match c {
                    D::L(k, s) => GreenTree::Leaf(GreenLeaf::new(*k, s.len() as u32)),
                    D::N(..) => GreenTree::Node(build(c, a)),
                })
                .collect();
            a.alloc(GreenNode::new(*k, a.alloc_slice_copy(&v)))
        }
        D::L(..) => unreachable!(),
    }
}
