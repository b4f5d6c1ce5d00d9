//! Object-safe view of one language: lexing and parse sessions, with comparable dumps.
use oak_core::{
    Language, Lexer, OakError, Parser, TextEdit,
    lexer::{LexOutput, LexerCache},
    parser::{ParseCache, ParseSession},
    source::Source,
    tree::{GreenNode, GreenTree},
};
use std::hash::{Hash, Hasher};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tok {
    pub kind: String,
    pub start: usize,
    pub end: usize,
    pub eof: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Diag {
    pub text: String,
    /// Offset the diagnostic points at, if any.
    pub at: Option<usize>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Lexed {
    pub toks: Result<Vec<Tok>, String>,
    pub diags: Vec<Diag>,
}

/// Pre-order node of a tree dump.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct N {
    pub depth: u32,
    pub leaf: bool,
    /// Leaf: the token kind by name. Node: a hash of the element kind (never formatted: some
    /// languages build element kinds by transmuting token kinds).
    pub kind: String,
    pub len: u32,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Parsed {
    pub tree: Result<Vec<N>, String>,
    pub diags: Vec<Diag>,
}

impl Parsed {
    pub fn root_len(&self) -> Option<usize> {
        self.tree.as_ref().ok().and_then(|t| t.first()).map(|n| n.len as usize)
    }
    /// (kind, start, end) of all leaves.
    pub fn leaves(&self) -> Vec<(String, usize, usize)> {
        let mut at = 0;
        let mut v = Vec::new();
        if let Ok(t) = &self.tree {
            for n in t {
                if n.leaf {
                    v.push((n.kind.clone(), at, at + n.len as usize));
                    at += n.len as usize;
                }
            }
        }
        v
    }
    /// First place where a node's length is not the sum of its children.
    pub fn inconsistent(&self) -> Option<usize> {
        let t = self.tree.as_ref().ok()?;
        // stack of (index, depth, remaining)
        let mut stack: Vec<(usize, u32, i64)> = Vec::new();
        let close = |s: (usize, u32, i64)| if s.2 != 0 { Some(s.0) } else { None };
        for (i, n) in t.iter().enumerate() {
            while let Some(top) = stack.last() {
                if top.1 >= n.depth {
                    let s = stack.pop().unwrap();
                    if let Some(x) = close(s) {
                        return Some(x);
                    }
                } else {
                    break;
                }
            }
            if let Some(top) = stack.last_mut() {
                top.2 -= n.len as i64;
            }
            if !n.leaf {
                stack.push((i, n.depth, n.len as i64));
            }
        }
        while let Some(s) = stack.pop() {
            if let Some(x) = close(s) {
                return Some(x);
            }
        }
        None
    }
}

pub fn show_err(e: &OakError) -> String {
    format!("{:?}", e.kind())
}

fn diag(e: &OakError) -> Diag {
    use oak_core::errors::OakErrorKind::*;
    let at = match e.kind() {
        SyntaxError { offset, .. } | UnexpectedCharacter { offset, .. } | UnexpectedToken { offset, .. } | UnexpectedEof { offset, .. } | ExpectedToken { offset, .. } | ExpectedName { offset, .. } | TrailingCommaNotAllowed { offset, .. } => Some(*offset),
        _ => None,
    };
    Diag { text: show_err(e), at }
}

pub fn show_lex<L: Language>(o: &LexOutput<L>) -> Lexed {
    Lexed {
        toks: match &o.result {
            Ok(t) => Ok(t
                .iter()
                .map(|t| {
                    use oak_core::language::TokenType;
                    Tok { kind: format!("{:?}", t.kind), start: t.span.start, end: t.span.end, eof: t.kind.is_end_of_stream() }
                })
                .collect()),
            Err(e) => Err(show_err(e)),
        },
        diags: o.diagnostics.iter().map(diag).collect(),
    }
}

fn kind_hash<K: Hash>(k: &K) -> String {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    k.hash(&mut h);
    format!("{:x}", h.finish() & 0xffff_ffff)
}

pub fn dump<L: Language>(root: &GreenNode<L>) -> Vec<N> {
    fn go<L: Language>(n: &GreenNode<L>, depth: u32, out: &mut Vec<N>) {
        out.push(N { depth, leaf: false, kind: kind_hash(&n.kind()), len: n.text_len() });
        for c in n.children() {
            match c {
                GreenTree::Node(n) => go(n, depth + 1, out),
                GreenTree::Leaf(l) => out.push(N { depth: depth + 1, leaf: true, kind: format!("{:?}", l.kind()), len: l.length() }),
            }
        }
    }
    let mut out = Vec::new();
    go(root, 0, &mut out);
    out
}

/// A reusable parse session (incremental parsing).
pub trait Sess {
    fn parse(&mut self, src: &dyn Source, edits: &[TextEdit]) -> Parsed;
    /// Calls the lexer directly with this session as its cache (the documented incremental path).
    fn lex(&mut self, src: &dyn Source, edits: &[TextEdit]) -> Lexed;
    /// The same with a cache of the user's own, which hands out tokens one by one.
    fn lex_slow(&mut self, src: &dyn Source, edits: &[TextEdit]) -> Lexed;
    /// Dump of the session's remembered root, if any.
    fn last(&self) -> Option<Vec<N>>;
}

/// A cache that implements only what `LexerCache` demands, and the diagnostics.
pub struct Slow<L: Language>(Option<LexOutput<L>>);
impl<L: Language> Default for Slow<L> {
    fn default() -> Self {
        Slow(None)
    }
}
impl<L: Language> LexerCache<L> for Slow<L> {
    fn set_lex_output(&mut self, output: LexOutput<L>) {
        self.0 = Some(output)
    }
    fn get_token(&self, index: usize) -> Option<oak_core::lexer::Token<L::TokenType>> {
        self.0.as_ref()?.result.as_ref().ok()?.get(index).cloned()
    }
    fn count_tokens(&self) -> usize {
        self.0.as_ref().and_then(|o| o.result.as_ref().ok()).map_or(0, |t| t.len())
    }
    fn has_tokens(&self) -> bool {
        self.count_tokens() > 0
    }
    fn get_diagnostics(&self) -> &[OakError] {
        self.0.as_ref().map_or(&[], |o| &o.diagnostics)
    }
}

pub struct SessImpl<L: Language + Send + Sync, X, P> {
    pub session: ParseSession<L>,
    pub slow: Slow<L>,
    pub lexer: X,
    pub parser: P,
}

impl<L, X, P> Sess for SessImpl<L, X, P>
where
    L: Language + Send + Sync + 'static,
    L::ElementType: From<L::TokenType>,
    X: Lexer<L>,
    P: Parser<L>,
{
    fn parse(&mut self, src: &dyn Source, edits: &[TextEdit]) -> Parsed {
        // the tree borrows the session only while it is dumped
        use oak_core::parser::{parse, parse_one_pass};
        let out = if edits.is_empty() { parse_one_pass(&self.parser, src, &mut self.session) } else { parse(&self.parser, &self.lexer, src, edits, &mut self.session) };
        Parsed {
            tree: match &out.result {
                Ok(r) => Ok(dump(r)),
                Err(e) => Err(show_err(e)),
            },
            diags: out.diagnostics.iter().map(diag).collect(),
        }
    }
    fn lex(&mut self, src: &dyn Source, edits: &[TextEdit]) -> Lexed {
        let out = self.lexer.lex(src, edits, &mut self.session);
        let r = show_lex::<L>(&out);
        self.session.set_lex_output(out);
        r
    }
    fn lex_slow(&mut self, src: &dyn Source, edits: &[TextEdit]) -> Lexed {
        let out = self.lexer.lex(src, edits, &mut self.slow);
        let r = show_lex::<L>(&out);
        self.slow.set_lex_output(out);
        r
    }
    fn last(&self) -> Option<Vec<N>> {
        self.session.last_root().map(dump)
    }
}

#[allow(unused)]
fn _unused<L: Language + Send + Sync>(s: &ParseSession<L>) -> usize {
    s.arena() as *const _ as usize
}

pub trait Driver: Send + Sync {
    fn name(&self) -> &'static str;
    fn session(&self) -> Box<dyn Sess>;
}
