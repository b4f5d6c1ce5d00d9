//! Languages made up on the spot: random lexers and random grammars out of the helpers of the core.
//!
//! A token of such a language is settled by the text up to the token after it, and a node by its own
//! tokens and the next one, which is what incremental lexing and parsing rely on. Every loop of a
//! grammar moves on by at least one token, and every production takes a token before it recurs.
use crate::corpus::Corpus;
use crate::toy::T;
use kit::Gen;
use oak_core::{
    Associativity, ElementType, GreenNode, Language, Lexer, LexerCache, LexerState, OakError, ParserState, Pratt, PrattParser, TextEdit, UniversalElementRole,
    lexer::{CommentConfig, LexOutput, StringConfig, WhitespaceConfig},
    parser::{ParseCache, ParseOutput, Parser, binary, parse_with_lexer, postfix, unary},
    source::Source,
};
use std::sync::Arc;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum E {
    Root,
    /// Node of the production of this number.
    P(u8),
    /// Any other node.
    X(u8),
    Tok(T),
}
impl ElementType for E {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        match self {
            E::Root => UniversalElementRole::Root,
            _ => UniversalElementRole::Expression,
        }
    }
}
impl From<T> for E {
    fn from(t: T) -> E {
        E::Tok(t)
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Made;
impl Language for Made {
    const NAME: &'static str = "generated";
    type TokenType = T;
    type ElementType = E;
    type TypedRoot = ();
}

const COMMENTS: [CommentConfig; 5] = [
    CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: true },
    CommentConfig { line_marker: "#", block_start: "/*", block_end: "*/", nested_blocks: false },
    CommentConfig { line_marker: "--", block_start: "{-", block_end: "-}", nested_blocks: true },
    CommentConfig { line_marker: "", block_start: "⟦", block_end: "⟧", nested_blocks: true },
    CommentConfig { line_marker: "§", block_start: "", block_end: "", nested_blocks: false },
];
const COMMENT_WORDS: [&[&str]; 5] = [&["//", "/*", "*/", "// a\n"], &["#", "/*", "*/", "# é\n"], &["--", "{-", "-}", "-"], &["⟦", "⟧", "⟦a⟦b⟧c⟧"], &["§", "§ 中\n"]];
const STRINGS: [StringConfig; 4] = [
    StringConfig { quotes: &['"', '\''], escape: Some('\\') },
    StringConfig { quotes: &['«', '"'], escape: Some('\\') },
    StringConfig { quotes: &['`'], escape: None },
    StringConfig { quotes: &['"'], escape: Some('¬') },
];
const STRING_WORDS: [&[&str]; 4] = [&["\"", "'", "\"a\\\"b\"", "'é\\'"], &["«", "«q\\««", "\"a\\\n\""], &["`", "`a`", "`中\n`"], &["\"", "\"a¬\"b\"", "¬"]];
const MARKS: [&str; 26] = ["=>", "+", "-", "*", "^", "=", "!", "?", ",", ";", "@", "(", ")", "{", "}", "==", "<", "<=", "->", "..", "...", "→", "≠≠", "/", "é", "\u{1F600}"];
const KINDS: [T; 15] = [T::Arrow, T::Plus, T::Minus, T::Star, T::Caret, T::Eq, T::Bang, T::Quest, T::Comma, T::Semi, T::At, T::Open, T::Close, T::LBrace, T::RBrace];
const WORDS: [&str; 8] = ["let", "fn", "if", "é", "λx", "in", "_", "x1"];

#[derive(Debug, Clone)]
enum Rule {
    Space(bool),
    AsciiSpace,
    Comment(usize),
    LineComment(&'static str),
    BlockComment(&'static str, &'static str),
    Str(usize),
    Word(Vec<(&'static str, T)>),
    AsciiWord(Vec<(&'static str, T)>),
    PlainWord,
    Number,
    Marks(Vec<(&'static str, T)>),
    /// From a mark to the next such byte.
    Raw(&'static str, u8, T),
    /// Lower-case letters by bytes.
    Lower(T),
    /// A sigil and a character of any kind.
    Sigil(char, T),
}

#[derive(Debug, Clone)]
enum Item {
    Bump,
    /// Drops a token: only in grammars that may lose text.
    Advance,
    Eat(T),
    /// Expect, and whether a failure ends the production.
    Expect(T, bool),
    Until(T),
    UntilAny(Vec<T>),
    If(Vec<T>, Vec<Item>, Vec<Item>),
    /// While the next token is one of these (or: none of these), at most so many times.
    While(bool, Vec<T>, usize, Vec<Item>),
    /// While not at the end.
    All(Vec<Item>),
    Node(usize, bool),
    Wrap(u8, Vec<Item>),
    /// An attempt that is taken back unless such a token follows: only where nodes are not reused.
    Try(Vec<Item>, T),
    /// If the token so many significant tokens ahead is this one: as above.
    Ahead(usize, T, Vec<Item>),
    Expr(u8),
    Error(u8),
}

#[derive(Debug, Clone)]
struct Production {
    /// The production is there only in front of such a token.
    guard: Option<T>,
    first: Item,
    items: Vec<Item>,
}

#[derive(Debug)]
pub struct Spec {
    rules: Vec<Rule>,
    /// The lexer keeps tokens of the last text.
    incremental: bool,
    /// The parser reuses nodes of the last tree, so it looks no further than the next token.
    reuses: bool,
    /// The parser gives no tree where the top items fail.
    fails: bool,
    /// The lexer does not say where its errors are.
    vague: bool,
    productions: Vec<Production>,
    top: Vec<Item>,
    bin: Vec<(T, u8, Associativity)>,
    pre: Vec<(T, u8)>,
    post: Vec<(T, u8)>,
}

// ---------------------------------------------------------------- making them up

fn kinds(g: &mut Gen, max: usize) -> Vec<T> {
    (0..g.range(1, max)).map(|_| kind(g)).collect()
}
fn kind(g: &mut Gen) -> T {
    *g.pick(&[T::Ident, T::Num, T::Str, T::Let, T::Fn, T::Arrow, T::Plus, T::Minus, T::Star, T::Eq, T::Comma, T::Semi, T::At, T::Open, T::Close, T::LBrace, T::RBrace])
}
fn rules(g: &mut Gen) -> Vec<Rule> {
    let mut v = Vec::new();
    let keywords = |g: &mut Gen| (0..g.usize(4)).map(|_| (*g.pick(&WORDS), *g.pick(&[T::Let, T::Fn]))).collect::<Vec<_>>();
    v.push(if g.bool() { Rule::Space(g.bool()) } else { Rule::AsciiSpace });
    for _ in 0..g.usize(3) {
        v.push(match g.usize(3) {
            0 => Rule::Comment(g.usize(COMMENTS.len())),
            1 => Rule::LineComment(*g.pick(&["//", "#", "%", "é"])),
            _ => {
                let (a, b) = *g.pick(&[("/*", "*/"), ("(*", "*)"), ("<!--", "-->"), ("⟦", "⟧"), ("'''", "'''"), ("/*", "****/")]);
                Rule::BlockComment(a, b)
            }
        })
    }
    for _ in 0..g.usize(3) {
        v.push(Rule::Str(g.usize(STRINGS.len())))
    }
    match g.usize(4) {
        0 => v.push(Rule::AsciiWord(keywords(g))),
        1 => v.push(Rule::PlainWord),
        _ => v.push(Rule::Word(keywords(g))),
    }
    if g.chance(3, 4) {
        v.push(Rule::Number)
    }
    if g.chance(1, 4) {
        v.push(Rule::Raw(*g.pick(&["@", "r#", "$$", "→", "\\"]), *g.pick(b"\n;#$a"), *g.pick(&[T::Str, T::At, T::Line])))
    }
    if g.chance(1, 4) {
        v.push(Rule::Lower(*g.pick(&[T::Ident, T::Let, T::Ws])))
    }
    if g.chance(1, 4) {
        v.push(Rule::Sigil(*g.pick(&['@', '$', '¿', '!']), *g.pick(&[T::At, T::Str])))
    }
    v.push(Rule::Marks((0..g.range(3, 16)).map(|_| (*g.pick(&MARKS), *g.pick(&KINDS))).collect()));
    // any order: a rule may hide another, wholly or in part
    for i in (1..v.len()).rev() {
        let j = g.usize(i + 1);
        v.swap(i, j)
    }
    v
}
fn item(g: &mut Gen, n: usize, depth: usize, how: How, bare: bool) -> Item {
    let inner = |g: &mut Gen, bare: bool| items(g, n, depth - 1, how, bare);
    match g.weighted(&[4, 6, 4, 2, 1, if depth > 0 { 4 } else { 0 }, if depth > 0 { 4 } else { 0 }, if depth > 0 { 1 } else { 0 }, if bare { 0 } else { 10 }, if depth > 0 { 2 } else { 0 }, if how.far && depth > 0 && !bare { 2 } else { 0 }, if bare { 0 } else { 3 }, 1, if how.lossy { 3 } else { 0 }, if how.far && depth > 0 { 2 } else { 0 }]) {
        0 => Item::Bump,
        1 => Item::Eat(kind(g)),
        2 => Item::Expect(kind(g), g.bool()),
        3 => Item::Until(kind(g)),
        4 => Item::UntilAny(kinds(g, 3)),
        5 => {
            let (k, a) = (kinds(g, 3), inner(g, bare));
            Item::If(k, a, inner(g, bare))
        }
        6 => {
            let (b, k, m) = (g.bool(), kinds(g, 3), if g.bool() { usize::MAX } else { g.range(1, 4) });
            Item::While(b, k, m, inner(g, bare))
        }
        7 => Item::All(inner(g, bare)),
        8 => Item::Node(g.usize(n), g.bool()),
        9 => Item::Wrap(g.below(3) as u8, inner(g, bare)),
        10 => Item::Try(inner(g, true), kind(g)),
        11 => Item::Expr(*g.pick(&[0, 0, 2, 4])),
        12 => Item::Error(if g.chance(1, 8) { 9 } else { g.below(6) as u8 }),
        13 => Item::Advance,
        _ => Item::Ahead(g.range(1, 3), kind(g), inner(g, bare)),
    }
}
fn items(g: &mut Gen, n: usize, depth: usize, how: How, bare: bool) -> Vec<Item> {
    (0..g.usize(5)).map(|_| item(g, n, depth, how, bare)).collect()
}

/// Freedoms of a grammar.
#[derive(Clone, Copy)]
struct How {
    lossy: bool,
    far: bool,
}
/// Makes up a language; a lossy one may drop tokens.
pub fn spec(g: &mut Gen, lossy: bool) -> Spec {
    let how = How { lossy, far: g.chance(1, 3) };
    let n = g.range(1, 5);
    let productions = (0..n)
        .map(|i| Production {
            guard: if g.chance(1, 3) { Some(kind(g)) } else { None },
            first: if i + 1 < n && g.chance(1, 4) { Item::Node(g.range(i + 1, n - 1), g.bool()) } else { Item::Bump },
            items: items(g, n, 2, how, false),
        })
        .collect();
    let assoc = |g: &mut Gen| *g.pick(&[Associativity::Left, Associativity::Right, Associativity::None]);
    Spec {
        rules: rules(g),
        incremental: g.chance(3, 4),
        reuses: !how.far,
        fails: g.chance(1, 6),
        vague: g.chance(1, 8),
        productions,
        top: items(g, n, 2, how, false),
        bin: (0..g.usize(5)).map(|_| (kind(g), g.range(1, 6) as u8, assoc(g))).collect(),
        pre: (0..g.usize(3)).map(|_| (kind(g), g.range(1, 8) as u8)).collect(),
        post: (0..g.usize(2)).map(|_| (kind(g), g.range(1, 8) as u8)).collect(),
    }
}

impl Spec {
    /// Text of a token of this kind, if the lexer knows one.
    fn spell(&self, g: &mut Gen, k: T) -> Option<String> {
        let mut v: Vec<String> = Vec::new();
        for r in &self.rules {
            match r {
                Rule::Word(ks) | Rule::AsciiWord(ks) => {
                    v.extend(ks.iter().filter(|x| x.1 == k).map(|x| x.0.to_string()));
                    if k == T::Ident {
                        v.push((*g.pick(&["a", "foo", "Z9"])).to_string())
                    }
                }
                Rule::Marks(ks) => v.extend(ks.iter().filter(|x| x.1 == k).map(|x| x.0.to_string())),
                Rule::PlainWord if k == T::Ident => v.push("abc".to_string()),
                Rule::Number if k == T::Num => v.push((*g.pick(&["1", "42", "1.5", "1e+5", "2.5e→1"])).to_string()),
                Rule::Str(i) if k == T::Str => v.push(STRING_WORDS[*i][1].to_string()),
                Rule::Raw(a, b, x) if *x == k => v.push(format!("{a}x{}", *b as char)),
                Rule::Sigil(c, x) if *x == k => v.push(format!("{c}é")),
                _ => {}
            }
        }
        if v.is_empty() { None } else { Some(g.pick(&v).clone()) }
    }
    /// A text the grammar is likely to take.
    fn derive(&self, g: &mut Gen, xs: &[Item], depth: usize, out: &mut String) {
        for x in xs {
            if out.len() > 400 {
                return;
            }
            let put = |g: &mut Gen, k: T, out: &mut String| {
                if let Some(s) = self.spell(g, k) {
                    out.push_str(&s);
                    out.push_str(*g.pick(&[" ", " ", "\n", ""]))
                }
            };
            match x {
                Item::Bump | Item::Advance => {
                    let k = kind(g);
                    put(g, k, out)
                }
                Item::Eat(k) if g.bool() => put(g, *k, out),
                Item::Expect(k, _) if g.chance(7, 8) => put(g, *k, out),
                Item::Until(k) | Item::Try(_, k) => {
                    let o = kind(g);
                    put(g, o, out);
                    put(g, *k, out)
                }
                Item::If(ks, a, b) => {
                    if g.bool() {
                        let k = *g.pick(ks);
                        put(g, k, out);
                        self.derive(g, a, depth, out)
                    }
                    else {
                        self.derive(g, b, depth, out)
                    }
                }
                Item::While(yes, ks, _, a) => {
                    for _ in 0..g.usize(3) {
                        if *yes {
                            let k = *g.pick(ks);
                            put(g, k, out)
                        }
                        self.derive(g, a, depth, out)
                    }
                    if !*yes {
                        let k = *g.pick(ks);
                        put(g, k, out)
                    }
                }
                Item::All(a) | Item::Wrap(_, a) | Item::Ahead(_, _, a) => self.derive(g, a, depth, out),
                Item::Node(i, _) if depth > 0 => {
                    let p = &self.productions[*i];
                    match (p.guard, &p.first) {
                        (Some(k), _) => put(g, k, out),
                        (_, Item::Node(j, b)) => self.derive(g, &[Item::Node(*j, *b)], depth - 1, out),
                        _ => {
                            let k = kind(g);
                            put(g, k, out)
                        }
                    }
                    self.derive(g, &p.items, depth - 1, out)
                }
                Item::Expr(_) => {
                    for i in 0..g.range(1, 4) {
                        if i > 0 && !self.bin.is_empty() {
                            let k = g.pick(&self.bin).0;
                            put(g, k, out)
                        }
                        put(g, T::Ident, out)
                    }
                }
                _ => {}
            }
        }
    }
    pub fn corpus(&self, g: &mut Gen) -> Corpus {
        let mut dict: Vec<String> = vec![" ".into(), "\n".into(), "1e→5".into(), "2e+".into()];
        for r in &self.rules {
            match r {
                Rule::Comment(i) => dict.extend(COMMENT_WORDS[*i].iter().map(|s| s.to_string())),
                Rule::LineComment(a) => dict.extend([a.to_string(), format!("{a} b\n")]),
                Rule::BlockComment(a, b) => dict.extend([a.to_string(), b.to_string(), format!("{a}x{b}")]),
                Rule::Str(i) => dict.extend(STRING_WORDS[*i].iter().map(|s| s.to_string())),
                Rule::Word(ks) | Rule::AsciiWord(ks) | Rule::Marks(ks) => dict.extend(ks.iter().map(|k| k.0.to_string())),
                Rule::Raw(a, b, _) => dict.extend([a.to_string(), (*b as char).to_string(), format!("{a}é{}", *b as char)]),
                Rule::Sigil(c, _) => dict.extend([c.to_string(), format!("{c}中"), format!("{c}a")]),
                _ => {}
            }
        }
        let mut seeds = Vec::new();
        for _ in 0..3 {
            let mut s = String::new();
            for _ in 0..g.range(1, 4) {
                self.derive(g, &self.top, 4, &mut s);
                let i = g.usize(self.productions.len());
                self.derive(g, &[Item::Node(i, false)], 4, &mut s)
            }
            if !s.is_empty() {
                seeds.push(s)
            }
        }
        Corpus { dict, seeds }
    }
}

// ---------------------------------------------------------------- running them

pub struct MadeLexer(pub Arc<Spec>);
impl Rule {
    fn scan<S: Source + ?Sized>(&self, st: &mut LexerState<'_, S, Made>) -> bool {
        let at = st.get_position();
        let word = |st: &LexerState<'_, S, Made>, ks: &[(&str, T)], at: usize| {
            let s = st.get_text_from(at);
            let end = st.get_position() - at;
            ks.iter().find(|k| k.0 == &s[..end.min(s.len())]).map_or(T::Ident, |k| k.1)
        };
        match self {
            Rule::Space(unicode) => return WhitespaceConfig { unicode_whitespace: *unicode }.scan(st, T::Ws),
            Rule::AsciiSpace => {
                let r = st.skip_ascii_whitespace();
                if r.end > r.start {
                    st.add_token(T::Ws, r.start, r.end)
                }
            }
            Rule::Comment(i) => return COMMENTS[*i].scan(st, T::Line, T::Block),
            Rule::LineComment(a) => return st.scan_line_comment(T::Line, a),
            Rule::BlockComment(a, b) => return st.scan_block_comment(T::Block, a, b),
            Rule::Str(i) => return STRINGS[*i].scan(st, T::Str),
            Rule::Word(ks) => {
                if st.current().is_some_and(|c| c.is_alphabetic() || c == '_') {
                    let r = st.take_while(|c| c.is_alphanumeric() || c == '_');
                    let k = word(st, ks, r.start);
                    st.add_token(k, r.start, r.end)
                }
            }
            Rule::AsciiWord(ks) => {
                if st.peek_byte().is_some_and(|b| b.is_ascii_alphabetic()) {
                    st.skip_ascii_ident_continue();
                    let k = word(st, ks, at);
                    st.add_token(k, at, st.get_position())
                }
            }
            Rule::PlainWord => return st.scan_ascii_identifier(T::Ident),
            Rule::Number => {
                let r = st.skip_ascii_digits();
                if r.end > r.start {
                    if st.peek() == Some('.') && st.peek_next().is_some_and(|c| c.is_ascii_digit()) {
                        st.advance(1);
                        st.take_while_byte(|b| b.is_ascii_digit());
                    }
                    if st.current() == Some('e') && matches!(st.peek_next_n(1), Some('+' | '→')) && st.peek_next_n(2).is_some_and(|c| c.is_ascii_digit()) {
                        st.bump();
                        st.bump();
                        st.skip_ascii_digits();
                    }
                    st.add_token(T::Num, r.start, st.get_position())
                }
            }
            Rule::Marks(ks) => {
                if let Some((_, k)) = ks.iter().find(|o| st.consume_if_starts_with(o.0)) {
                    st.add_token(*k, at, st.get_position())
                }
            }
            Rule::Raw(a, b, k) => {
                if st.starts_with(a) {
                    st.advance(a.len());
                    st.skip_until(*b);
                    if st.peek_byte() == Some(*b) {
                        st.advance_byte();
                    }
                    st.add_token(*k, at, st.get_position())
                }
            }
            Rule::Lower(k) => {
                let r = st.take_while_byte(|b| b.is_ascii_lowercase());
                if r.end > r.start {
                    st.add_token(*k, r.start, r.end)
                }
            }
            Rule::Sigil(c, k) => {
                if st.current() == Some(*c) && st.peek_next_n(1).is_some_and(|x| x != '\n') {
                    st.bump();
                    st.bump();
                    st.add_token(*k, at, st.get_position())
                }
            }
        }
        st.get_position() > at
    }
}
impl Lexer<Made> for MadeLexer {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl LexerCache<Made>) -> LexOutput<Made> {
        let from = edits.iter().map(|e| e.span.start).min().unwrap_or(0);
        let mut st: LexerState<'_, S, Made> = if self.0.incremental { LexerState::new_with_cache(text, from, cache) } else { LexerState::new(text) };
        let mut rounds = 0;
        while st.not_at_end() {
            rounds += 1;
            assert!(rounds <= text.length() + 1, "the lexer goes round more often than there are bytes");
            let safe = st.get_position();
            if self.0.rules.iter().any(|r| r.scan(&mut st)) {
                continue;
            }
            match st.current() {
                Some(_) if self.0.vague => st.add_error(OakError::custom_error("nowhere")),
                Some(c) => st.add_error(OakError::unexpected_character(c, safe, text.source_id())),
                None => panic!("no character at {safe} of {}, but not at the end", text.length()),
            }
            st.advance_if_dead_lock(safe);
            st.add_token(T::Error, safe, st.get_position())
        }
        st.add_eof();
        st.finish_with_cache(Ok(()), cache)
    }
}

type St<'a, S> = ParserState<'a, Made, S>;
pub struct MadeParser(pub Arc<Spec>);

struct Expr<'s>(&'s Spec);
impl Expr<'_> {
    fn parse<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>, min: u8) -> &'a GreenNode<'a, Made> {
        PrattParser::new(Expr(self.0)).parse_expr(st, min)
    }
}
impl Pratt<Made> for Expr<'_> {
    fn primary<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>) -> &'a GreenNode<'a, Made> {
        let cp = st.checkpoint();
        match st.peek_kind() {
            Some(T::Open) => {
                st.bump();
                self.parse(st, 0);
                st.expect(T::Close).ok();
                st.finish_at(cp, E::X(100))
            }
            Some(T::Ident | T::Num | T::Str) => {
                st.bump();
                st.finish_at(cp, E::X(101))
            }
            _ => {
                st.record_expected("expression");
                st.finish_at(cp, E::X(102))
            }
        }
    }
    fn prefix<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>) -> &'a GreenNode<'a, Made> {
        match self.0.pre.iter().find(|x| st.at(x.0)) {
            Some((k, p)) => unary(st, *k, *p, E::X(103), |s, p| self.parse(s, p)),
            None => self.primary(st),
        }
    }
    fn infix<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>, left: &'a GreenNode<'a, Made>, min: u8) -> Option<&'a GreenNode<'a, Made>> {
        let k = st.peek_kind()?;
        if let Some((_, p)) = self.0.post.iter().find(|x| x.0 == k) {
            return if *p >= min { Some(postfix(st, left, k, E::X(104))) } else { None };
        }
        let (_, p, a) = self.0.bin.iter().find(|x| x.0 == k)?;
        if *p < min { None } else { Some(binary(st, left, k, *p, *a, E::X(105), |s, p| self.parse(s, p))) }
    }
}

impl Spec {
    fn run<S: Source + ?Sized>(&self, st: &mut St<'_, S>, xs: &[Item]) -> Result<(), OakError> {
        for x in xs {
            match x {
                Item::Bump => st.bump(),
                Item::Advance => st.advance(),
                Item::Eat(k) => {
                    let there = st.at(*k);
                    assert_eq!(st.eat(*k), there, "eat takes a token exactly if it is there")
                }
                Item::Expect(k, strict) => match st.expect(*k) {
                    Err(e) if *strict => return Err(e),
                    _ => {}
                },
                Item::Until(k) => {
                    st.advance_until(*k);
                    assert!(st.at(*k) || !st.not_at_end(), "advance_until stops neither at the token nor at the end")
                }
                Item::UntilAny(ks) => {
                    st.advance_until_any(ks);
                    assert!(ks.iter().any(|k| st.at(*k)) || !st.not_at_end(), "advance_until_any stops neither at a token nor at the end")
                }
                Item::If(ks, a, b) => self.run(st, if ks.iter().any(|k| st.at(*k)) { a } else { b })?,
                Item::While(yes, ks, max, a) => {
                    let mut n = 0;
                    while n < *max && !matches!(st.peek_kind(), None | Some(T::Eof)) && ks.iter().any(|k| st.at(*k)) == *yes {
                        n += 1;
                        self.round(st, a)?
                    }
                }
                Item::All(a) => {
                    while st.not_at_end() {
                        self.round(st, a)?
                    }
                }
                Item::Node(i, strict) => match self.node(st, *i) {
                    Err(e) if *strict => return Err(e),
                    _ => {}
                },
                Item::Wrap(k, a) => {
                    let cp = st.checkpoint();
                    let r = self.run(st, a);
                    st.finish_at(cp, E::X(*k));
                    r?
                }
                Item::Try(a, k) => {
                    let before = (st.tokens.index(), st.current_offset());
                    let r = st.try_parse(|st| {
                        self.run(st, a)?;
                        if st.eat(*k) { Ok(()) } else { Err(OakError::custom_error("something else")) }
                    });
                    if r.is_err() {
                        assert_eq!((st.tokens.index(), st.current_offset()), before, "a failed attempt leaves the parser where it was")
                    }
                }
                Item::Ahead(n, k, a) => {
                    if st.peek_non_trivia_kind_at(*n) == Some(*k) {
                        self.run(st, a)?
                    }
                }
                Item::Expr(min) => {
                    Expr(self).parse(st, *min);
                }
                Item::Error(0) => st.record_unexpected_token("x"),
                Item::Error(1) => st.record_expected("x"),
                Item::Error(2) => st.record_expected_name("x"),
                Item::Error(3) => st.record_trailing_comma_not_allowed(),
                Item::Error(4) if matches!(st.peek_kind(), None | Some(T::Eof)) => st.record_unexpected_eof(),
                Item::Error(9) => st.errors.push(OakError::custom_error("nowhere")),
                Item::Error(_) => {
                    st.syntax_error("x");
                }
            }
        }
        Ok(())
    }
    /// One round of a loop, which takes at least one token unless there is none.
    fn round<S: Source + ?Sized>(&self, st: &mut St<'_, S>, a: &[Item]) -> Result<(), OakError> {
        let before = st.tokens.index();
        let r = self.run(st, a);
        if st.tokens.index() == before {
            let more = st.not_at_end();
            assert_eq!(more, st.current().is_some(), "at the end there is no token, and before it there is one");
            st.record_unexpected_token("y");
            st.bump();
            assert_eq!(more, st.tokens.index() > before, "bump moves on, except at the end")
        }
        r
    }
    fn node<S: Source + ?Sized>(&self, st: &mut St<'_, S>, i: usize) -> Result<(), OakError> {
        let p = &self.productions[i];
        let body = |st: &mut St<'_, S>| {
            if matches!(st.peek_kind(), None | Some(T::Eof)) {
                st.record_unexpected_eof();
                return Ok(());
            }
            let before = st.tokens.index();
            self.run(st, std::slice::from_ref(&p.first))?;
            if st.tokens.index() == before {
                st.bump()
            }
            self.run(st, &p.items)
        };
        match p.guard {
            _ if !self.reuses => {
                if p.guard.is_some_and(|k| st.not_at(k)) {
                    return Ok(());
                }
                let cp = st.checkpoint();
                let r = body(st);
                st.finish_at(cp, E::P(i as u8));
                r
            }
            None => st.incremental_node(E::P(i as u8), body),
            Some(k) => st.incremental_opt(E::P(i as u8), |st| if st.at(k) { body(st).map(|_| true) } else { Ok(false) }).map(|_| ()),
        }
    }
}
impl Parser<Made> for MadeParser {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Made>) -> ParseOutput<'a, Made> {
        parse_with_lexer(&MadeLexer(self.0.clone()), text, edits, cache, |st| {
            let cp = st.checkpoint();
            let top = self.0.run(st, &self.0.top);
            if self.0.fails {
                top?
            }
            let mut i = 0;
            while !matches!(st.peek_kind(), None | Some(T::Eof)) {
                let before = st.tokens.index();
                self.0.node(st, i % self.0.productions.len()).ok();
                i += 1;
                if st.tokens.index() == before && i % self.0.productions.len() == 0 {
                    st.bump()
                }
            }
            Ok(st.finish_at(cp, E::Root))
        })
    }
}
