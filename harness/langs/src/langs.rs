//! The list of drivers.
use crate::corpus::Corpus;
use crate::driver::{Driver, Sess, SessImpl};
use crate::registry::for_each_lang;
use std::sync::OnceLock;

pub struct Lang {
    pub name: &'static str,
    pub corpus: Corpus,
    make: Box<dyn Fn() -> Box<dyn Sess> + Send + Sync>,
}
impl Driver for Lang {
    fn name(&self) -> &'static str {
        self.name
    }
    fn session(&self) -> Box<dyn Sess> {
        (self.make)()
    }
}

/// A language made up on the spot.
pub fn generated(g: &mut kit::Gen, lossy: bool) -> (Lang, String) {
    use crate::generated::*;
    let spec = std::sync::Arc::new(spec(g, lossy));
    let shown = format!("{spec:?}");
    let corpus = spec.corpus(g);
    let make = Box::new(move || Box::new(SessImpl::<Made, _, _> { session: oak_core::parser::ParseSession::new(16), slow: Default::default(), lexer: MadeLexer(spec.clone()), parser: MadeParser(spec.clone()) }) as Box<dyn Sess>);
    (Lang { name: "generated", corpus, make }, shown)
}

pub fn all() -> &'static [Lang] {
    static ALL: OnceLock<Vec<Lang>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<Lang> = Vec::new();
        macro_rules! add {
            ($name:literal, $l:ty, $x:ty, $p:ty) => {
                add!($name, $l, $x, $p, { <$l>::default() }, |c| <$x>::new(c), |c| <$p>::new(c))
            };
            ($name:literal, $l:ty, $x:ty, $p:ty, $cfg:block, |$c1:ident| $nx:expr, |$c2:ident| $np:expr) => {{
                let c: &'static $l = Box::leak(Box::new($cfg));
                v.push(Lang {
                    name: $name,
                    corpus: Corpus::load(include_str!(concat!("../corpus/", $name, ".json"))),
                    make: Box::new(move || {
                        let $c1 = c;
                        let lexer = $nx;
                        let $c2 = c;
                        let parser = $np;
                        Box::new(SessImpl::<$l, _, _> { session: oak_core::parser::ParseSession::new(16), slow: Default::default(), lexer, parser })
                    }),
                });
            }};
        }
        add!("toy", crate::toy::Toy, crate::toy::ToyLexer, crate::toy::ToyParser);
        for_each_lang!(add);
        v
    })
}

pub fn get(name: &str) -> &'static Lang {
    all().iter().find(|l| l.name == name).unwrap()
}
