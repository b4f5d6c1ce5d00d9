//! A language of the harness itself that uses every helper of the core: incremental lexing with
//! diagnostics, nested incremental nodes, backtracking, Pratt expressions and error recovery.
use oak_core::{
    Associativity, ElementType, GreenNode, Language, Lexer, LexerCache, LexerState, OakError, ParserState, Pratt, PrattParser, TextEdit, TokenType, UniversalElementRole, UniversalTokenRole,
    lexer::{CommentConfig, LexOutput, StringConfig, WhitespaceConfig},
    parser::{ParseCache, ParseOutput, Parser, binary, parse_with_lexer, postfix, unary},
    source::Source,
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum T {
    Ws,
    Line,
    Block,
    Ident,
    Let,
    Fn,
    Num,
    Str,
    Arrow,
    Plus,
    Minus,
    Star,
    Caret,
    Eq,
    Bang,
    Quest,
    Comma,
    Semi,
    At,
    Open,
    Close,
    LBrace,
    RBrace,
    Error,
    Eof,
}
impl TokenType for T {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = T::Eof;
    fn role(&self) -> UniversalTokenRole {
        match self {
            T::Ws => UniversalTokenRole::Whitespace,
            T::Line | T::Block => UniversalTokenRole::Comment,
            T::Error => UniversalTokenRole::Error,
            T::Eof => UniversalTokenRole::Eof,
            _ => UniversalTokenRole::Operator,
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum E {
    Root,
    Attr,
    Let,
    Fn,
    Params,
    Block,
    Stmt,
    Error,
    Lit,
    Paren,
    Call,
    Unary,
    Binary,
    Postfix,
    Tok(T),
}
impl ElementType for E {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        match self {
            E::Root => UniversalElementRole::Root,
            E::Error => UniversalElementRole::Error,
            _ => UniversalElementRole::Expression,
        }
    }
}
impl From<T> for E {
    fn from(t: T) -> E {
        E::Tok(t)
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Toy;
impl Language for Toy {
    const NAME: &'static str = "toy";
    type TokenType = T;
    type ElementType = E;
    type TypedRoot = ();
}

pub struct ToyLexer;
impl ToyLexer {
    pub fn new(_: &Toy) -> Self {
        ToyLexer
    }
}
const COMMENTS: CommentConfig = CommentConfig { line_marker: "//", block_start: "/*", block_end: "*/", nested_blocks: true };
const STRINGS: StringConfig = StringConfig { quotes: &['"', '«'], escape: Some('\\') };
const SPACE: WhitespaceConfig = WhitespaceConfig { unicode_whitespace: true };
const OPS: &[(&str, T)] = &[("=>", T::Arrow), ("+", T::Plus), ("-", T::Minus), ("*", T::Star), ("^", T::Caret), ("=", T::Eq), ("!", T::Bang), ("?", T::Quest), (",", T::Comma), (";", T::Semi), ("@", T::At), ("(", T::Open), (")", T::Close), ("{", T::LBrace), ("}", T::RBrace)];

impl Lexer<Toy> for ToyLexer {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl LexerCache<Toy>) -> LexOutput<Toy> {
        let from = edits.iter().map(|e| e.span.start).min().unwrap_or(0);
        let mut st: LexerState<'_, S, Toy> = LexerState::new_with_cache(text, from, cache);
        while st.not_at_end() {
            let safe = st.get_position();
            if SPACE.scan(&mut st, T::Ws) || COMMENTS.scan(&mut st, T::Line, T::Block) || STRINGS.scan(&mut st, T::Str) {
                continue;
            }
            if st.current().is_some_and(|c| c.is_alphabetic() || c == '_') {
                let r = st.take_while(|c| c.is_alphanumeric() || c == '_');
                let k = match &*st.get_text_in(r) {
                    "let" => T::Let,
                    "fn" => T::Fn,
                    _ => T::Ident,
                };
                st.add_token(k, r.start, r.end);
                continue;
            }
            let r = st.skip_ascii_digits();
            if r.end > r.start {
                if st.peek() == Some('.') && st.peek_next().is_some_and(|c| c.is_ascii_digit()) {
                    st.advance(1);
                    st.take_while_byte(|b| b.is_ascii_digit());
                }
                st.add_token(T::Num, r.start, st.get_position());
                // said about the number, but where it ends
                if let Some(c) = st.current().filter(|c| c.is_alphabetic()) {
                    st.add_error(OakError::unexpected_character(c, st.get_position(), text.source_id()))
                }
                continue;
            }
            if let Some((_, k)) = OPS.iter().find(|o| st.consume_if_starts_with(o.0)) {
                st.add_token(*k, safe, st.get_position());
                continue;
            }
            if let Some(c) = st.bump() {
                st.add_error(OakError::unexpected_character(c, safe, text.source_id()));
                st.add_token(T::Error, safe, st.get_position())
            }
            st.advance_if_dead_lock(safe)
        }
        st.add_eof();
        st.finish_with_cache(Ok(()), cache)
    }
}

pub struct ToyParser;
type St<'a, S> = ParserState<'a, Toy, S>;
struct Expr;
impl Expr {
    fn parse<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>, min: u8) -> &'a GreenNode<'a, Toy> {
        PrattParser::new(Expr).parse_expr(st, min)
    }
}
impl Pratt<Toy> for Expr {
    fn primary<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>) -> &'a GreenNode<'a, Toy> {
        let cp = st.checkpoint();
        match st.peek_kind() {
            Some(T::Open) => {
                st.bump();
                self.parse(st, 0);
                st.expect(T::Close).ok();
                return st.finish_at(cp, E::Paren);
            }
            Some(T::LBrace) => return block(st),
            Some(T::Ident) => {
                // a call, unless its arguments do not end
                let call = st.try_parse(|st| {
                    st.bump();
                    if !st.eat(T::Open) {
                        return Err(OakError::custom_error("no call"));
                    }
                    while st.not_at_end() && !st.at(T::Close) {
                        let before = st.tokens.index();
                        self.parse(st, 0);
                        if !st.eat(T::Comma) || st.tokens.index() == before {
                            break;
                        }
                    }
                    if st.eat(T::Close) { Ok(()) } else { Err(OakError::custom_error("no call")) }
                });
                if call.is_ok() {
                    return st.finish_at(cp, E::Call);
                }
                st.bump()
            }
            Some(T::Num | T::Str) => st.bump(),
            _ => st.record_expected("expression"),
        }
        st.finish_at(cp, E::Lit)
    }
    fn prefix<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>) -> &'a GreenNode<'a, Toy> {
        match st.peek_kind() {
            Some(k @ (T::Minus | T::Bang)) => unary(st, k, 8, E::Unary, |s, p| self.parse(s, p)),
            _ => self.primary(st),
        }
    }
    fn infix<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>, left: &'a GreenNode<'a, Toy>, min: u8) -> Option<&'a GreenNode<'a, Toy>> {
        let k = st.peek_kind()?;
        let (p, a) = match k {
            T::Eq => (1, Associativity::Right),
            T::Plus | T::Minus => (3, Associativity::Left),
            T::Star => (5, Associativity::Left),
            T::Caret => (7, Associativity::Right),
            T::Quest if 9 >= min => return Some(postfix(st, left, k, E::Postfix)),
            _ => return None,
        };
        if p < min { None } else { Some(binary(st, left, k, p, a, E::Binary, |s, p| self.parse(s, p))) }
    }
}
fn block<'a, S: Source + ?Sized>(st: &mut St<'a, S>) -> &'a GreenNode<'a, Toy> {
    let cp = st.checkpoint();
    st.expect(T::LBrace).ok();
    while !matches!(st.peek_kind(), None | Some(T::Eof | T::RBrace)) {
        item(st)
    }
    st.expect(T::RBrace).ok();
    st.finish_at(cp, E::Block)
}
fn item<S: Source + ?Sized>(st: &mut St<'_, S>) {
    let before = st.tokens.index();
    // an attribute, which is there or not
    let attr = st.incremental_opt(E::Attr, |st| {
        if !st.eat(T::At) {
            return Ok(false);
        }
        st.expect(T::Ident)?;
        Ok(true)
    });
    if attr.is_err() {
        st.advance_until_any(&[T::Semi, T::RBrace, T::Eof])
    }
    let r = match st.peek_kind() {
        Some(T::Let) => st.incremental_node(E::Let, |st| {
            st.bump();
            if st.not_at(T::Ident) {
                st.record_expected_name("variable")
            }
            st.eat(T::Ident);
            st.expect(T::Eq)?;
            Expr.parse(st, 0);
            st.expect(T::Semi)
        }),
        Some(T::Fn) => st.incremental_node(E::Fn, |st| {
            st.bump();
            st.expect(T::Ident)?;
            st.incremental_node(E::Params, |st| {
                st.expect(T::Open)?;
                while st.eat(T::Ident) {
                    if st.eat(T::Comma) && st.at(T::Close) {
                        st.record_trailing_comma_not_allowed()
                    }
                }
                st.expect(T::Close)
            })?;
            if st.eat(T::Arrow) {
                Expr.parse(st, 0);
                return st.expect(T::Semi);
            }
            st.incremental_node(E::Block, |st| {
                st.expect(T::LBrace)?;
                while !matches!(st.peek_kind(), None | Some(T::Eof | T::RBrace)) {
                    item(st)
                }
                st.expect(T::RBrace)
            })
        }),
        Some(T::Eof) | None => {
            st.record_unexpected_eof();
            return;
        }
        _ => st.incremental_node(E::Stmt, |st| {
            Expr.parse(st, 0);
            st.expect(T::Semi)
        }),
    };
    if r.is_err() && st.tokens.index() > before {
        let cp = st.checkpoint();
        st.advance_until_any(&[T::Semi, T::RBrace, T::Let, T::Fn, T::Eof]);
        st.eat(T::Semi);
        st.finish_at(cp, E::Error);
    }
    if st.tokens.index() == before {
        let k = format!("{:?}", st.peek_kind());
        st.record_unexpected_token(k);
        st.bump()
    }
}
impl ToyParser {
    pub fn new(_: &Toy) -> Self {
        ToyParser
    }
}
impl Parser<Toy> for ToyParser {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Toy>) -> ParseOutput<'a, Toy> {
        parse_with_lexer(&ToyLexer, text, edits, cache, |st| {
            let cp = st.checkpoint();
            while !matches!(st.peek_kind(), None | Some(T::Eof)) {
                item(st)
            }
            Ok(st.finish_at(cp, E::Root))
        })
    }
}
