//! A small language for driving the core directly.
use oak_core::{ElementType, Language, TokenType, UniversalElementRole, UniversalTokenRole};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum T {
    Ws,
    Comment,
    Ident,
    Num,
    Str,
    Plus,
    Minus,
    Star,
    Caret,
    Bang,
    Eq,
    Open,
    Close,
    Semi,
    Other,
    Eof,
}
impl T {
    pub const ALL: [T; 16] = [T::Ident, T::Num, T::Str, T::Plus, T::Minus, T::Star, T::Caret, T::Bang, T::Eq, T::Open, T::Close, T::Semi, T::Other, T::Ws, T::Comment, T::Eof];
}
impl TokenType for T {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = T::Eof;
    fn role(&self) -> UniversalTokenRole {
        match self {
            T::Ws => UniversalTokenRole::Whitespace,
            T::Comment => UniversalTokenRole::Comment,
            T::Ident => UniversalTokenRole::Name,
            T::Num | T::Str => UniversalTokenRole::Literal,
            T::Eof => UniversalTokenRole::Eof,
            _ => UniversalTokenRole::Operator,
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum E {
    Root,
    A,
    B,
    C,
    Lit,
    Paren,
    Tok(T),
}
impl ElementType for E {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        match self {
            E::Root => UniversalElementRole::Root,
            _ => UniversalElementRole::Expression,
        }
    }
}
impl From<T> for E {
    fn from(t: T) -> E {
        E::Tok(t)
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Toy;
impl Language for Toy {
    const NAME: &'static str = "toy";
    type TokenType = T;
    type ElementType = E;
    type TypedRoot = ();
}
