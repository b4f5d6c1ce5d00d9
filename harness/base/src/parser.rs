//! C12: what ParserState does to the token position, the tree and the errors, against lists.
//! C13: Pratt parsing against an operator-stack algorithm.
use crate::toy::{E, T, Toy};
use crate::tree::{M, back, node};
use kit::*;
use oak_core::errors::{OakError, OakErrorKind};
use oak_core::lexer::{LexOutput, Token};
use oak_core::memory::arena::SyntaxArena;
use oak_core::parser::{Associativity, OperatorInfo, Pratt, PrattParser, binary, postfix, unary};
use oak_core::source::{Source, SourceText};
use oak_core::tree::{GreenNode, ProvenancePart, TokenProvenance};
use oak_core::{OakDiagnostics, ParserState, TokenType, Tokens};

pub type St<'a> = ParserState<'a, Toy, SourceText>;

/// A text and its tokens.
pub fn tokens(g: &mut Gen, eof: bool) -> (String, Vec<(T, String)>) {
    let n = g.usize(25);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(match g.weighted(&[1600, 800, 2000, 200, 200, 1]) {
            // lexers give empty tokens for what is missing: ends of indentation, inserted separators
            3 => (*g.pick(&[T::Ws, T::Comment]), String::new()),
            4 => (T::ALL[g.usize(T::ALL.len() - 3)], String::new()),
            // a long token
            5 => (*g.pick(&[T::Ws, T::Comment, T::Str]), "é".repeat(*g.pick(&[150, 33_000, 40_000]))),
            0 => (T::Ws, (0..g.range(1, 3)).map(|_| *g.pick(&[' ', '\n', '\u{3000}'])).collect()),
            1 => (T::Comment, format!("/*{}*/", text::any(g, 3))),
            _ => { let k = T::ALL[g.usize(T::ALL.len() - 3)]; (k, if g.chance(1, 5) { "é中".into() } else { text::ident(g) }) }
        })
    }
    if eof {
        v.push((T::Eof, String::new()))
    }
    (v.iter().map(|t| t.1.as_str()).collect(), v)
}
pub fn lexed(v: &[(T, String)]) -> Tokens<Toy> {
    let mut at = 0;
    let v: Vec<Token<T>> = v.iter().map(|(k, s)| { at += s.len(); Token { kind: *k, span: (at - s.len()..at).into() } }).collect();
    v.into()
}

/// A child as the model sees it: nodes keep an identity.
#[derive(Clone, Debug)]
enum Item {
    L(T, usize),
    N(E, Vec<Item>, usize),
}
fn plain(v: &[Item]) -> Vec<M> {
    v.iter().map(|i| match i { Item::L(k, n) => M::L(*k, *n as u32), Item::N(k, c, _) => M::N(*k, plain(c)) }).collect()
}
fn total(v: &[Item]) -> usize {
    plain(v).iter().map(M::len).sum()
}

#[derive(Clone, Debug, PartialEq)]
enum Err {
    Syntax(String),
    Unexpected(String),
    Expected(String),
    Name(String),
    Comma,
    Eof,
}
fn read(e: &OakError) -> Option<(Err, usize, Option<u32>)> {
    Some(match e.kind() {
        OakErrorKind::SyntaxError { message, offset, source_id } => (Err::Syntax(message.clone()), *offset, *source_id),
        OakErrorKind::UnexpectedToken { token, offset, source_id } => (Err::Unexpected(token.clone()), *offset, *source_id),
        OakErrorKind::ExpectedToken { expected, offset, source_id } => (Err::Expected(expected.clone()), *offset, *source_id),
        OakErrorKind::ExpectedName { name_kind, offset, source_id } => (Err::Name(name_kind.clone()), *offset, *source_id),
        OakErrorKind::TrailingCommaNotAllowed { offset, source_id } => (Err::Comma, *offset, *source_id),
        OakErrorKind::UnexpectedEof { offset, source_id } => (Err::Eof, *offset, *source_id),
        _ => return None,
    })
}

struct Model<'a> {
    toks: Vec<(T, usize, usize)>,
    text: String,
    id: Option<u32>,
    at: usize,
    sink: Vec<Item>,
    errors: Vec<(Err, usize, Option<u32>)>,
    /// checkpoints that still mean something: (given by the parser, token index, sink length)
    points: Vec<((usize, usize), usize, usize)>,
    /// nodes finished and still children
    nodes: Vec<(&'a GreenNode<'a, Toy>, usize)>,
    next: usize,
    log: String,
    dropped: bool,
    finished: usize,
    restored: usize,
}
impl<'a> Model<'a> {
    fn kind(&self, n: usize) -> Option<T> {
        self.toks.get(self.at + n).map(|t| t.0)
    }
    fn offset(&self) -> usize {
        self.toks.get(self.at).map_or(self.text.len(), |t| t.1)
    }
    fn trivia(&mut self) {
        while matches!(self.kind(0), Some(T::Ws | T::Comment)) {
            self.leaf()
        }
    }
    fn leaf(&mut self) {
        let (k, s, e) = self.toks[self.at];
        self.sink.push(Item::L(k, e - s));
        self.at += 1
    }
    fn bump(&mut self) {
        if self.at < self.toks.len() {
            self.leaf();
            self.trivia()
        }
    }
    fn err(&mut self, e: Err, at: usize) {
        self.errors.push((e, at, self.id))
    }
    /// Forgets checkpoints and nodes above a length of the sink.
    fn cut(&mut self, len: usize) {
        self.points.retain(|p| p.2 <= len);
        let alive: Vec<usize> = self.sink.iter().filter_map(|i| match i { Item::N(_, _, id) => Some(*id), _ => None }).collect();
        self.nodes.retain(|n| alive.contains(&n.1));
    }
    fn finish(&mut self, from: usize, k: E, got: &'a GreenNode<'a, Toy>) -> Res {
        let kids = self.sink.split_off(from);
        let want = M::N(k, plain(&kids));
        ensure_eq!(back(got), want, "finish_at", "{}: the node finished", self.log);
        ensure_eq!(got.text_len() as usize, want.len(), "finish_at", "{}: length", self.log);
        self.next += 1;
        self.sink.push(Item::N(k, kids, self.next));
        self.cut(from);
        self.nodes.push((got, self.next));
        self.finished += 1;
        Ok(())
    }
    fn restore(&mut self, at: usize, len: usize) {
        self.at = at;
        self.sink.truncate(len);
        self.cut(len);
        self.restored += 1
    }
}

fn observe<'a>(g: &mut Gen, st: &St<'a>, m: &Model<'a>) -> Res {
    let log = &m.log;
    ensure_eq!(st.peek_kind(), m.kind(0), "peek", "{log}: peek_kind");
    ensure_eq!(st.current().map(|t| (t.kind, t.span.start, t.span.end)), m.toks.get(m.at).copied(), "peek", "{log}: current");
    ensure_eq!(st.current_offset(), m.offset(), "offset", "{log}: current_offset");
    ensure_eq!(st.not_at_end(), m.at < m.toks.len(), "end", "{log}: not_at_end");
    ensure_eq!(st.tokens.index(), m.at, "index", "{log}: token index");
    ensure_eq!(st.tokens.is_end(), m.at >= m.toks.len(), "end", "{log}: is_end");
    let k = *g.pick(&T::ALL);
    ensure_eq!((st.at(k), st.not_at(k)), (m.kind(0) == Some(k), m.kind(0) != Some(k)), "at", "{log}: at({k:?})");
    let n = g.usize(6);
    ensure_eq!(st.peek_kind_at(n), m.kind(n), "peek_at", "{log}: peek_kind_at({n})");
    ensure_eq!(st.peek_at(n).map(|t| (t.kind, t.span.start, t.span.end)), m.toks.get(m.at + n).copied(), "peek_at", "{log}: peek_at({n})");
    let want = m.toks.get(m.at..).unwrap_or(&[]).iter().filter(|t| !matches!(t.0, T::Ws | T::Comment)).nth(n).copied();
    ensure_eq!(st.peek_non_trivia_at(n).map(|t| (t.kind, t.span.start, t.span.end)), want, "peek_non_trivia", "{log}: peek_non_trivia_at({n})");
    ensure_eq!(st.peek_non_trivia_kind_at(n), want.map(|t| t.0), "peek_non_trivia", "{log}: peek_non_trivia_kind_at({n})");
    ensure_eq!(st.peek_text().map(|s| s.to_string()), m.toks.get(m.at).map(|t| m.text[t.1..t.2].to_string()), "peek_text", "{log}: peek_text");
    ensure_eq!(st.source_id(), m.id, "source", "{log}: source_id");
    ensure_eq!(st.sink.checkpoint(), m.sink.len(), "sink", "{log}: number of children");
    let got: Vec<_> = st.errors.iter().map(read).collect();
    let want: Vec<_> = m.errors.iter().cloned().map(Some).collect();
    ensure_eq!(got, want, "errors", "{log}: errors");
    Ok(())
}

/// Some operations; those inside try_parse nest.
fn ops<'a>(g: &mut Gen, st: &mut St<'a>, m: &mut Model<'a>, n: usize, depth: usize) -> Res {
    for _ in 0..n {
        let w: &[u64] = &[10, 4, 4, 2, 2, 1, 1, 6, 3, 6, 3, 3, 2, 1, 3];
        match g.weighted(w) {
            0 => { m.log.push_str(" bump"); st.bump(); m.bump() }
            1 => {
                let k = m.kind(0).filter(|_| g.bool()).unwrap_or(*g.pick(&T::ALL));
                m.log.push_str(&format!(" eat({k:?})"));
                let want = m.kind(0) == Some(k);
                ensure_eq!(st.eat(k), want, "eat", "{}", m.log);
                if want { m.bump() }
            }
            2 => {
                let k = m.kind(0).filter(|_| g.bool()).unwrap_or(*g.pick(&T::ALL));
                m.log.push_str(&format!(" expect({k:?})"));
                let want = m.kind(0) == Some(k);
                let r = st.expect(k);
                ensure_eq!(r.is_ok(), want, "expect", "{}", m.log);
                if want { m.bump() } else {
                    let o = m.offset();
                    m.err(Err::Expected(format!("{k:?}")), o);
                    ensure_eq!(read(&r.unwrap_err()), m.errors.last().cloned(), "expect", "{}: the error returned", m.log)
                }
            }
            3 => {
                let o = m.offset();
                let end = m.text.len();
                let s = text::ident(g);
                let k = g.usize(7);
                m.log.push_str(&format!(" error{k}"));
                match k {
                    0 => { let e = st.syntax_error(s.clone()); m.err(Err::Syntax(s), o); ensure_eq!(read(&e), m.errors.last().cloned(), "errors", "{}: returned", m.log) }
                    1 => { st.record_unexpected_token(s.clone()); m.err(Err::Unexpected(s), o) }
                    2 => { st.record_expected(s.clone()); m.err(Err::Expected(s), o) }
                    3 => { st.record_expected_name(s.clone()); m.err(Err::Name(s), o) }
                    4 => { st.record_trailing_comma_not_allowed(); m.err(Err::Comma, o) }
                    5 => { st.record_unexpected_eof(); m.err(Err::Eof, end) }
                    _ => { let e = st.unexpected_eof(); m.err(Err::Eof, end); ensure_eq!(read(&e), m.errors.last().cloned(), "errors", "{}: returned", m.log) }
                }
            }
            4 => {
                let k = *g.pick(&T::ALL);
                m.log.push_str(&format!(" until({k:?})"));
                st.advance_until(k);
                while m.at < m.toks.len() && m.kind(0) != Some(k) { m.bump() }
            }
            5 => {
                let ks: Vec<T> = (0..g.usize(4)).map(|_| *g.pick(&T::ALL)).collect();
                m.log.push_str(&format!(" until_any({ks:?})"));
                st.advance_until_any(&ks);
                while m.at < m.toks.len() && !ks.contains(&m.kind(0).unwrap()) { m.bump() }
            }
            6 => {
                m.log.push_str(" skip_trivia");
                st.skip_trivia();
                m.trivia()
            }
            7 => {
                m.log.push_str(" checkpoint");
                let p = st.checkpoint();
                m.points.push((p, m.at, m.sink.len()))
            }
            8 if !m.points.is_empty() && depth == 0 => {
                let i = g.usize(m.points.len());
                m.log.push_str(&format!(" restore({i})"));
                let (p, at, len) = m.points[i];
                st.restore(p);
                m.restore(at, len)
            }
            9 if !m.points.is_empty() && depth == 0 => {
                let i = g.usize(m.points.len());
                let k = *g.pick(&[E::A, E::B, E::C]);
                m.log.push_str(&format!(" finish({i}, {k:?})"));
                let (p, _, len) = m.points[i];
                let n = st.finish_at(p, k);
                m.finish(len, k, n)?
            }
            10 if !m.nodes.is_empty() && depth == 0 => {
                let i = g.usize(m.nodes.len());
                let (n, id) = m.nodes[i];
                let Some(pos) = m.sink.iter().position(|x| matches!(x, Item::N(_, _, y) if *y == id)) else { continue };
                m.log.push_str(&format!(" before(node {id})"));
                let p = st.checkpoint_before(n);
                let k = *g.pick(&[E::A, E::B, E::C]);
                let n = st.finish_at(p, k);
                m.finish(pos, k, n)?
            }
            11 if depth < 3 => {
                let ok = g.bool();
                m.log.push_str(if ok { " try(" } else { " try-fail(" });
                let (at, len) = (m.at, m.sink.len());
                let k = g.usize(5);
                let mut inner = Ok(());
                let mut f = |st: &mut St<'a>| {
                    inner = ops(g, st, m, k, depth + 1);
                    if ok { Ok(7) } else { Result::Err(OakError::custom_error("no")) }
                };
                let r = if k % 2 == 0 { st.try_parse(&mut f) } else { st.try_parse_with_error(&mut f) };
                inner?;
                m.log.push_str(" )");
                ensure_eq!(r.as_ref().ok().copied(), ok.then_some(7), "try_parse", "{}: result", m.log);
                if !ok {
                    ensure!(matches!(r.unwrap_err().kind(), OakErrorKind::CustomError { message } if message == "no"), "try_parse", "{}: another error", m.log);
                    m.restore(at, len)
                }
            }
            12 => {
                // leaves and nodes that are not tokens of the text
                match g.usize(3) {
                    0 => { m.log.push_str(" push_leaf"); st.sink.push_leaf(T::Other, 0); m.sink.push(Item::L(T::Other, 0)) }
                    1 => {
                        m.log.push_str(" push_leaf_with_metadata");
                        let p = TokenProvenance { parts: vec![ProvenancePart::Synthesized(text::ident(g))] };
                        st.sink.push_leaf_with_metadata(T::Ident, 0, p.clone());
                        m.sink.push(Item::L(T::Ident, 0));
                        let cp = m.sink.len() - 1;
                        let n = st.sink.finish_node(cp, E::Lit);
                        let k = n.children()[0].as_leaf().and_then(|l| l.metadata);
                        ensure_eq!(k.and_then(|k| st.arena().get_metadata(k)), Some(&p), "metadata", "{}: provenance of a leaf", m.log);
                        m.finish(cp, E::Lit, n)?
                    }
                    _ => {
                        m.log.push_str(" push_child");
                        let n = node(E::Paren, &[M::L(T::Open, 0), M::N(E::Lit, vec![])], st.arena());
                        st.push_child(n);
                        m.next += 2;
                        m.sink.push(Item::N(E::Paren, vec![Item::L(T::Open, 0), Item::N(E::Lit, vec![], m.next - 1)], m.next));
                        m.nodes.push((n, m.next))
                    }
                }
            }
            13 => {
                m.log.push_str(" nested");
                let n = st.nested();
                ensure_eq!((n.tokens.index(), n.sink.checkpoint(), n.errors.len(), n.source_id()), (m.at, 0, 0, m.id), "nested", "{}", m.log);
                ensure_eq!(n.peek_kind(), m.kind(0), "nested", "{}", m.log)
            }
            14 if m.at < m.toks.len() && g.chance(1, 6) => {
                m.log.push_str(" advance");
                st.advance();
                m.dropped |= m.toks[m.at].1 < m.toks[m.at].2;
                m.at += 1;
                m.trivia()
            }
            _ => {}
        }
        observe(g, st, m)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- Pratt

#[derive(Clone, Debug)]
struct Table {
    bin: Vec<(T, u8, Associativity)>,
    pre: Vec<(T, u8)>,
    post: Vec<(T, u8)>,
}
fn table(g: &mut Gen) -> Table {
    let mut kinds = vec![T::Plus, T::Minus, T::Star, T::Caret, T::Eq, T::Bang, T::Semi, T::Other];
    for i in (1..kinds.len()).rev() {
        let j = g.usize(i + 1);
        kinds.swap(i, j)
    }
    let nb = g.range(1, 5);
    let nq = g.usize(3);
    let prec = |g: &mut Gen| g.range(1, 6) as u8;
    let bin: Vec<_> = kinds[..nb].iter().map(|k| (*k, prec(g), *g.pick(&[Associativity::Left, Associativity::Right, Associativity::None]))).collect();
    let post: Vec<_> = kinds[nb..nb + nq].iter().map(|k| (*k, prec(g))).collect();
    // a prefix operator may be a binary one too, as minus is
    let pre: Vec<_> = (0..g.usize(3)).map(|i| (if g.bool() { kinds[i % nb] } else { kinds[7 - i.min(7 - nb - nq)] }, prec(g))).filter(|p| !post.iter().any(|q| q.0 == p.0)).collect();
    Table { bin, pre, post }
}

struct Spec<'t>(&'t Table);
impl Spec<'_> {
    fn expr<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Toy, S>, min: u8) -> &'a GreenNode<'a, Toy> {
        PrattParser::new(Spec(self.0)).parse_expr(st, min)
    }
}
impl Pratt<Toy> for Spec<'_> {
    fn primary<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Toy, S>) -> &'a GreenNode<'a, Toy> {
        let cp = st.checkpoint();
        if st.eat(T::Open) {
            self.expr(st, 0);
            st.expect(T::Close).ok();
            return st.finish_at(cp, E::Paren);
        }
        st.bump();
        st.finish_at(cp, E::Lit)
    }
    fn prefix<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Toy, S>) -> &'a GreenNode<'a, Toy> {
        match st.peek_kind().and_then(|k| self.0.pre.iter().find(|p| p.0 == k)) {
            Some(&(k, p)) => unary(st, k, p, E::A, |s, p| self.expr(s, p)),
            None => self.primary(st),
        }
    }
    fn infix<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Toy, S>, left: &'a GreenNode<'a, Toy>, min: u8) -> Option<&'a GreenNode<'a, Toy>> {
        let k = st.peek_kind()?;
        if let Some(&(_, p, a)) = self.0.bin.iter().find(|b| b.0 == k) {
            if p < min {
                return None;
            }
            return Some(binary(st, left, k, p, a, E::B, |s, p| self.expr(s, p)));
        }
        let &(_, p) = self.0.post.iter().find(|b| b.0 == k)?;
        if p < min { None } else { Some(postfix(st, left, k, E::C)) }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum X {
    Lit(usize),
    Paren(Box<X>),
    Bin(usize, Box<X>, Box<X>),
    Pre(usize, Box<X>),
    Post(usize, Box<X>),
}
/// An expression as a flat list of operators and operands.
enum Flat {
    Operand(X),
    Pre(usize, u8),
    Bin(usize, u8, Associativity),
    Post(usize, u8),
}
fn gen_expr(g: &mut Gen, t: &Table, depth: usize, out: &mut Vec<(T, String)>) -> Vec<Flat> {
    let mut v = Vec::new();
    let n = g.range(1, if depth == 0 { 9 } else { 4 });
    for i in 0..n {
        if i > 0 {
            let b = *g.pick(&t.bin);
            v.push(Flat::Bin(tok(g, b.0, "+", out), b.1, b.2))
        }
        while !t.pre.is_empty() && g.chance(1, 4) {
            let p = *g.pick(&t.pre);
            // the table is searched from the front
            let p = *t.pre.iter().find(|q| q.0 == p.0).unwrap();
            v.push(Flat::Pre(tok(g, p.0, "~", out), p.1))
        }
        if depth < 3 && g.chance(1, 5) {
            tok(g, T::Open, "(", out);
            let inner = gen_expr(g, t, depth + 1, out);
            tok(g, T::Close, ")", out);
            v.push(Flat::Operand(X::Paren(Box::new(stack(inner)))))
        } else {
            let k = *g.pick(&[T::Num, T::Ident, T::Str]);
            v.push(Flat::Operand(X::Lit(tok(g, k, "x1", out))))
        }
        while !t.post.is_empty() && g.chance(1, 4) {
            let p = *g.pick(&t.post);
            v.push(Flat::Post(tok(g, p.0, "!", out), p.1))
        }
    }
    v
}
/// Adds a token, after some trivia, and says which of the significant ones it is.
fn tok(g: &mut Gen, k: T, s: &str, out: &mut Vec<(T, String)>) -> usize {
    while g.chance(1, 4) {
        out.push(if g.bool() { (T::Ws, " ".into()) } else { (T::Comment, "/**/".into()) })
    }
    out.push((k, s.into()));
    out.iter().filter(|t| !t.0.is_ignored()).count() - 1
}
/// Groups by precedence with a stack of pending operators.
fn stack(v: Vec<Flat>) -> X {
    enum Op {
        Pre(usize, u8),
        Bin(usize, u8),
    }
    let need = |o: &Op| match o { Op::Pre(_, p) | Op::Bin(_, p) => *p };
    let mut ops: Vec<Op> = vec![];
    let mut xs: Vec<X> = vec![];
    fn reduce(ops: &mut Vec<Op>, xs: &mut Vec<X>) {
        match ops.pop().unwrap() {
            Op::Pre(i, _) => { let x = xs.pop().unwrap(); xs.push(X::Pre(i, Box::new(x))) }
            Op::Bin(i, _) => { let r = xs.pop().unwrap(); let l = xs.pop().unwrap(); xs.push(X::Bin(i, Box::new(l), Box::new(r))) }
        }
    }
    for f in v {
        match f {
            Flat::Operand(x) => xs.push(x),
            Flat::Pre(i, p) => ops.push(Op::Pre(i, p)),
            Flat::Post(i, p) => {
                while ops.last().is_some_and(|o| need(o) > p) { reduce(&mut ops, &mut xs) }
                let x = xs.pop().unwrap();
                xs.push(X::Post(i, Box::new(x)))
            }
            Flat::Bin(i, p, a) => {
                while ops.last().is_some_and(|o| need(o) > p) { reduce(&mut ops, &mut xs) }
                // what binds to the right operand: tighter operators, and equal ones if it associates to the right
                ops.push(Op::Bin(i, if a == Associativity::Right { p } else { p + 1 }))
            }
        }
    }
    while !ops.is_empty() { reduce(&mut ops, &mut xs) }
    xs.pop().unwrap()
}
/// Reads the grouping off a tree, checking that the tokens come in order.
fn unparse(n: &M, at: &mut usize) -> Result<X, Fail> {
    let M::N(k, c) = n else { return fail("shape", "a leaf where a node belongs") };
    let c: Vec<&M> = c.iter().filter(|m| !matches!(m, M::L(k, _) if k.is_ignored())).collect();
    let shape: String = c.iter().map(|m| if matches!(m, M::L(..)) { 't' } else { 'n' }).collect();
    let mut one = || { *at += 1; *at - 1 };
    Ok(match (k, shape.as_str()) {
        (E::Lit, "t") => X::Lit(one()),
        (E::Paren, "tnt") => { one(); let x = unparse(c[1], at)?; *at += 1; X::Paren(Box::new(x)) }
        (E::A, "tn") => { let i = one(); X::Pre(i, Box::new(unparse(c[1], at)?)) }
        (E::B, "ntn") => { let l = unparse(c[0], at)?; let i = *at; *at += 1; X::Bin(i, Box::new(l), Box::new(unparse(c[2], at)?)) }
        (E::C, "nt") => { let x = unparse(c[0], at)?; *at += 1; X::Post(*at - 1, Box::new(x)) }
        _ => return fail("shape", format!("a node {k:?} of {shape}")),
    })
}
fn leaves(m: &M, out: &mut Vec<(T, usize)>) {
    match m {
        M::L(k, n) => out.push((*k, *n as usize)),
        M::N(_, c) => c.iter().for_each(|c| leaves(c, out)),
    }
}

pub fn all() -> Vec<Check> {
    vec![
        Check {
            id: "C12",
            rule: "one case = a token list with trivia and a history of up to 40 parser operations (bump, eat, expect, advance, advance_until, checkpoints, restore, nested try_parse, finish_at, checkpoint_before, pushes, errors), everything observable compared after each; non-trivial: at least one node was finished and one checkpoint restored",
            assumptions: vec!["a checkpoint is used only while the children it was taken after are still there", "errors recorded before a restore stay recorded"],
            facets: vec![Facet::new("histories", 200_000, 3_000_000, |g, c| {
                let eof = g.chance(4, 5);
                let (text, toks) = tokens(g, eof);
                let id = g.bool().then(|| g.below(100) as u32);
                let src = match id { Some(i) => SourceText::new_with_id(text.clone(), i), None => SourceText::new(text.clone()) };
                let a = SyntaxArena::default();
                let fatal = g.chance(1, 20);
                let mut diags = vec![];
                let mut errors = vec![];
                if fatal { errors.push((Err::Unexpected("lexer".into()), 3, id)) }
                if g.chance(1, 6) { diags.push(OakError::trailing_comma_not_allowed(2, id)); errors.push((Err::Comma, 2, id)) }
                let out: LexOutput<Toy> = OakDiagnostics { result: if fatal { Result::Err(OakError::unexpected_token("lexer", 3, id)) } else { Ok(lexed(&toks)) }, diagnostics: diags };
                let mut st: St = ParserState::new(&a, out, &src, g.usize(50));
                let mut at = 0;
                let spans = if fatal { vec![] } else { toks.iter().map(|(k, s)| { at += s.len(); (*k, at - s.len(), at) }).collect() };
                let mut m = Model { toks: spans, text, id, at: 0, sink: vec![], errors, points: vec![], nodes: vec![], next: 0, log: format!("{toks:?}:"), dropped: fatal, finished: 0, restored: 0 };
                m.trivia();
                observe(g, &st, &m)?;
                // as parsers do, after the trivia in front
                let (root, len) = if g.bool() { (st.checkpoint(), m.sink.len()) } else { ((0, 0), 0) };
                m.points.push((root, root.0, len));
                let n = g.range(1, 40);
                let r = ops(g, &mut st, &mut m, n, 0);
                c.desc(m.log.clone());
                r?;
                if m.finished > 0 && m.restored > 0 {
                    c.nontrivial()
                }
                let node = st.finish_at(root, E::Root);
                m.finish(len, E::Root, node)?;
                let fails = g.chance(1, 6);
                let out = st.finish(if fails { Result::Err(OakError::custom_error("x")) } else { Ok(node) });
                let got: Vec<_> = out.diagnostics.iter().map(read).collect();
                ensure_eq!(got, m.errors.iter().cloned().map(Some).collect::<Vec<_>>(), "errors", "{}: diagnostics", m.log);
                ensure_eq!(out.result.is_err(), fails, "finish", "{}: result", m.log);
                if let Ok(root) = out.result {
                    // every token not dropped on purpose is in the tree, in order
                    let mut want = vec![];
                    for x in plain(&m.sink) { leaves(&x, &mut want) }
                    if !m.dropped {
                        while m.at < m.toks.len() && m.toks[m.at].0 != T::Eof { let t = m.toks[m.at]; want.push((t.0, t.2 - t.1)); m.at += 1 }
                        let mut got = vec![];
                        leaves(&back(root), &mut got);
                        if want.iter().map(|l| l.1).sum::<usize>() == m.text.len() {
                            ensure_eq!(got, want, "lossless", "{}: leaves of the tree", m.log);
                            ensure_eq!(root.text_len() as usize, m.text.len(), "lossless", "{}: length of the tree", m.log);
                        }
                        ensure_eq!(root.kind(), E::Root, "finish", "{}: kind of the root", m.log);
                    }
                }
                let _ = total(&m.sink);
                Ok(())
            })],
        },
        Check {
            id: "C13",
            rule: "one case = an operator table (up to 5 binary operators of any associativity, prefix and postfix operators, precedences 1..6) and an expression over it with trivia between the tokens, parsed through PrattParser with binary/unary/postfix; non-trivial: at least 3 operators, two of them of different precedence",
            assumptions: vec!["an operator of associativity None groups like a left-associative one (the code gives no error for a chain)", "operators that are prefix and binary are told apart by position"],
            facets: vec![Facet::new("expressions", 180_000, 3_000_000, |g, c| {
                let t = table(g);
                let mut toks = vec![];
                let flat = gen_expr(g, &t, 0, &mut toks);
                let ps: Vec<u8> = flat.iter().filter_map(|f| match f { Flat::Operand(_) => None, Flat::Pre(_, p) | Flat::Bin(_, p, _) | Flat::Post(_, p) => Some(*p) }).collect();
                if ps.len() >= 3 && ps.iter().any(|p| *p != ps[0]) {
                    c.nontrivial()
                }
                let want = stack(flat);
                if g.bool() { toks.push((T::Ws, " ".into())) }
                toks.push((T::Eof, String::new()));
                let text: String = toks.iter().map(|t| t.1.as_str()).collect();
                c.desc(format!("{t:?}\n {:?}", toks.iter().filter(|t| !t.0.is_ignored()).map(|t| t.0).collect::<Vec<_>>()));
                let src = SourceText::new(text.clone());
                let a = SyntaxArena::default();
                let mut st: St = ParserState::new(&a, OakDiagnostics { result: Ok(lexed(&toks)), diagnostics: vec![] }, &src, 10);
                let spec = Spec(&t);
                let node = if g.bool() { spec.expr(&mut st, 0) } else { PrattParser::<Toy, Spec>::parse(&mut st, 0, &spec) };
                ensure_eq!(st.peek_kind(), Some(T::Eof), "rest", "the parser stopped before the end");
                ensure!(st.errors.is_empty(), "errors", "errors: {:?}", st.errors);
                let tree = back(node);
                let mut n = 0;
                let got = unparse(&tree, &mut n)?;
                ensure_eq!(got, want, "grouping", "grouping of the expression");
                let out = st.finish(Ok(node));
                let mut got = vec![];
                leaves(&back(out.result.unwrap()), &mut got);
                let want: Vec<(T, usize)> = toks[..toks.len() - 1].iter().map(|t| (t.0, t.1.len())).collect();
                ensure_eq!(got, want, "lossless", "leaves of the tree");
                for i in [OperatorInfo::left(3), OperatorInfo::right(3), OperatorInfo::none(3)] {
                    ensure_eq!(i.precedence, 3, "info", "precedence");
                }
                ensure_eq!([OperatorInfo::left(1).associativity, OperatorInfo::right(1).associativity, OperatorInfo::none(1).associativity], [Associativity::Left, Associativity::Right, Associativity::None], "info", "associativity");
                Ok(())
            })],
        },
    ]
}
