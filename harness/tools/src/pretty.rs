//! C27 layout of documents; C28 the formatter, its rules and comments.
use crate::docs::{self, D, E, T, Toy};
use kit::*;
use oak_core::memory::arena::SyntaxArena;
use oak_core::tree::{RedLeaf, RedNode};
use oak_pretty_print::comment::{Position, SourceSpan};
use oak_pretty_print::document::JoinDoc;
use oak_pretty_print::{AsDocument, Comment, CommentCollector, CommentKind, CommentProcessor, Document, FormatConfig, FormatContext, FormatResult, FormatRule, Formatter, IndentStyle, LineEnding, RuleSet, ToDocument, doc};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- layout

fn words(g: &mut Gen) -> String {
    match g.weighted(&[8, 2, 1, 1, 1]) {
        0 => g.pick(&["a", "fn", "foo", "(", ",", "x y", "longer_word"]).to_string(),
        1 => g.pick(&["é", "中文字", "😀😀", "ñandú"]).to_string(),
        2 => g.pick(&["a\nbb", "\n", "/* x\n y */", "a\r\nb"]).to_string(),
        3 => g.pick(&["", " ", "a  ", "\t", " b "]).to_string(),
        _ => "w".repeat(g.usize(30)),
    }
}
fn document(g: &mut Gen, depth: usize, with_line: bool) -> Document<'static> {
    let leafy = depth == 0;
    match g.weighted(&[6, if leafy { 0 } else { 5 }, if leafy { 0 } else { 4 }, if leafy { 0 } else { 3 }, 2, 3, 1, 1, if with_line { 3 } else { 0 }]) {
        0 => Document::text(words(g)),
        1 => Document::concat((0..g.usize(6)).map(|_| document(g, depth - 1, with_line)).collect()),
        2 => Document::group(document(g, depth - 1, with_line)),
        3 => Document::indent(document(g, depth - 1, with_line)),
        4 => Document::SoftLine,
        5 => Document::SoftLineSpace,
        6 => Document::HardLine,
        7 => Document::Nil,
        _ => Document::Line,
    }
}
/// Several documents on end, in groups now and then.
fn whole(g: &mut Gen, with_line: bool) -> Document<'static> {
    let depth = g.range(0, 5);
    let n = g.range(1, 8);
    Document::concat(
        (0..n)
            .map(|_| {
                let d = document(g, depth, with_line);
                match g.usize(4) {
                    0 => Document::group(d),
                    1 => {
                        let e = document(g, depth.min(2), with_line);
                        let l = g.pick(&[Document::SoftLineSpace, Document::SoftLine, Document::Nil]).clone();
                        Document::group(Document::concat(vec![d, l, e]))
                    }
                    _ => d,
                }
            })
            .collect(),
    )
}
fn config(g: &mut Gen) -> FormatConfig {
    let mut c = FormatConfig::new()
        .with_indent_style(match g.usize(4) {
            0 => IndentStyle::Spaces(2),
            1 => IndentStyle::Tabs,
            2 => IndentStyle::Spaces(0),
            _ => IndentStyle::Spaces(4),
        })
        .with_line_ending(*g.pick(&[LineEnding::Unix, LineEnding::Windows, LineEnding::Auto]))
        .with_max_width(if g.bool() { g.usize(40) } else { *g.pick(&[10, 20, 5, 40, 0, 100, 80]) });
    c.insert_final_newline = g.bool();
    c.trim_trailing_whitespace = g.bool();
    c
}
/// The document on one line, or nothing if it cannot be.
fn flat(d: &Document, out: &mut String, line: bool) -> bool {
    match d {
        Document::Line if line => false,
        Document::Nil | Document::SoftLine => true,
        Document::Text(s) => {
            out.push_str(s);
            true
        }
        Document::Concat(v) => v.iter().all(|d| flat(d, out, line)),
        Document::Group(d) | Document::Indent(d) => flat(d, out, line),
        Document::Line | Document::SoftLineSpace => {
            out.push(' ');
            true
        }
        Document::HardLine => false,
    }
}
/// What a document should look like.
struct Ref<'c> {
    c: &'c FormatConfig,
    eol: &'static str,
    unit: (String, usize),
    out: String,
    /// columns of the current line so far
    col: usize,
    broken_groups: usize,
    flat_groups: usize,
    /// whether a Line keeps a group from being flat
    breaking: bool,
}
impl<'c> Ref<'c> {
    fn new(c: &'c FormatConfig) -> Self {
        let eol = match c.line_ending {
            LineEnding::Windows => "\r\n",
            _ => "\n",
        };
        let unit = match c.indent_style {
            IndentStyle::Spaces(n) => (" ".repeat(n as usize), n as usize),
            IndentStyle::Tabs => ("\t".to_string(), 4),
        };
        Ref { c, eol, unit, out: String::new(), col: 0, broken_groups: 0, flat_groups: 0, breaking: false }
    }
    fn fits(&self, d: &Document, line: bool) -> bool {
        let mut s = String::new();
        if !flat(d, &mut s, line) {
            return false;
        }
        s.split('\n').enumerate().all(|(i, l)| l.chars().count() + if i == 0 { self.col } else { 0 } <= self.c.max_width)
    }
    fn newline(&mut self, level: usize) {
        if self.c.trim_trailing_whitespace {
            let n = self.out.trim_end_matches([' ', '\t']).len();
            self.out.truncate(n);
        }
        self.out.push_str(self.eol);
        self.out.push_str(&self.unit.0.repeat(level));
        self.col = self.unit.1 * level;
    }
    fn text(&mut self, s: &str) {
        self.out.push_str(s);
        match s.rsplit_once('\n') {
            Some((_, l)) => self.col = l.chars().count(),
            None => self.col += s.chars().count(),
        }
    }
    fn go(&mut self, d: &Document, broken: bool, level: usize, forced: bool) {
        match d {
            Document::Nil => {}
            Document::Text(s) => self.text(s),
            Document::Concat(v) => v.iter().for_each(|d| self.go(d, broken, level, forced)),
            Document::Indent(d) => self.go(d, broken, level + 1, forced),
            Document::Group(d) => {
                let b = !self.fits(d, self.breaking);
                if b { self.broken_groups += 1 } else { self.flat_groups += 1 }
                self.go(d, b, level, forced)
            }
            Document::HardLine => self.newline(level),
            Document::Line if broken || forced => self.newline(level),
            Document::Line => self.text(" "),
            Document::SoftLine if broken => self.newline(level),
            Document::SoftLineSpace if broken => self.newline(level),
            Document::SoftLine => {}
            Document::SoftLineSpace => self.text(" "),
        }
    }
    fn end(mut self) -> String {
        if self.c.trim_trailing_whitespace {
            let n = self.out.trim_end_matches([' ', '\t']).len();
            self.out.truncate(n);
        }
        if self.c.insert_final_newline && !self.out.is_empty() && !self.out.ends_with('\n') {
            self.out.push_str(self.eol);
        }
        self.out
    }
}
fn layout(g: &mut Gen, c: &mut Case) -> Res {
    let cfg = config(g);
    let d = whole(g, false);
    c.desc(format!("{d:?} width {} indent {:?} {:?} trim {} final {}", cfg.max_width, cfg.indent_style, cfg.line_ending, cfg.trim_trailing_whitespace, cfg.insert_final_newline));
    let mut r = Ref::new(&cfg);
    r.go(&d, false, 0, false);
    if r.broken_groups > 0 && r.flat_groups > 0 {
        c.nontrivial()
    }
    let want = r.end();
    ensure_eq!(d.render(cfg.clone()), want, "layout", "the rendered document");
    // joining is putting a separator between
    let parts: Vec<Document> = (0..g.usize(4)).map(|_| document(g, 2, false)).collect();
    let sep = document(g, 1, false);
    let mut all = Vec::new();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            all.push(sep.clone())
        }
        all.push(p.clone())
    }
    let want = {
        let mut r = Ref::new(&cfg);
        all.iter().for_each(|d| r.go(d, false, 0, false));
        r.end()
    };
    ensure_eq!(Document::join(parts.clone(), sep.clone()).render(cfg.clone()), want, "join", "{parts:?} joined with {sep:?}");
    ensure_eq!(parts.clone().join_doc(sep.clone()).render(cfg.clone()), want, "join", "{parts:?} joined with {sep:?}");
    ensure_eq!(oak_pretty_print::join(parts.clone(), sep.clone()).render(cfg), want, "join", "{parts:?} joined with {sep:?}");
    Ok(())
}
/// A Line is a line break.
fn line(g: &mut Gen, c: &mut Case) -> Res {
    let mut cfg = config(g);
    cfg.max_width = 60;
    let in_broken = g.bool();
    let a = g.pick(&["a", "foo"]).to_string();
    let level = g.usize(3);
    let mut d = Document::concat(vec![Document::text(a), Document::Line, Document::text("b")]);
    if in_broken {
        d = Document::group(Document::concat(vec![Document::HardLine, d]))
    } else if g.bool() {
        d = Document::group(d)
    }
    for _ in 0..level {
        d = Document::indent(d)
    }
    c.nontrivial();
    c.desc(format!("{d:?}"));
    judge_line(c, &d, &cfg)
}
/// The same within whole documents: a Line is a line break everywhere, or a space in every group that fits.
fn lines(g: &mut Gen, c: &mut Case) -> Res {
    let cfg = config(g);
    let d = whole(g, true);
    c.desc(format!("{d:?} width {} indent {:?} {:?} trim {} final {}", cfg.max_width, cfg.indent_style, cfg.line_ending, cfg.trim_trailing_whitespace, cfg.insert_final_newline));
    judge_line(c, &d, &cfg)
}
fn judge_line(c: &mut Case, d: &Document, cfg: &FormatConfig) -> Res {
    let render = |forced, breaking| {
        let mut r = Ref::new(cfg);
        r.breaking = breaking;
        r.go(d, false, 0, forced);
        let many = r.broken_groups > 0 && r.flat_groups > 0;
        (r.end(), many)
    };
    let got = d.render(cfg.clone());
    let ((soft, many), (hard, _), (harder, _)) = (render(false, false), render(true, false), render(true, true));
    if many {
        c.nontrivial()
    }
    let r = if got == hard || got == harder { Ok(()) } else { fail(if got == soft { "line/soft" } else { "line/other" }, format!("Lines are rendered as {got:?}, forced line breaks give {harder:?}, spaces where they fit {soft:?}")) };
    c.tolerate(r)
}
/// The doc! macro, the conversions and derives build the document they describe.
#[derive(AsDocument)]
#[allow(dead_code)]
struct One(String);
#[derive(AsDocument)]
#[allow(dead_code)]
struct Field {
    name: String,
}
#[derive(AsDocument)]
#[oak(doc = ["<", _self.name.as_document(), soft_line_space, _self.args.as_document(), ">"])]
struct Tag {
    name: String,
    args: Vec<String>,
}
#[derive(AsDocument)]
#[allow(dead_code)]
enum Choice {
    Unit,
    One(String),
    #[oak(doc = ["[", _self.as_document(), "]"])]
    Wrapped(String),
    #[oak(doc = group(["{", indent([soft_line, _self.as_document()]), soft_line, "}"]))]
    Named { inner: String },
    Two(String, String),
}
/// The document without the nesting of its concatenations
fn flatten(d: &Document, out: &mut Vec<String>) {
    match d {
        Document::Nil => {}
        Document::Concat(v) => v.iter().for_each(|d| flatten(d, out)),
        Document::Group(d) => {
            out.push("group(".into());
            flatten(d, out);
            out.push(")".into())
        }
        Document::Indent(d) => {
            out.push("indent(".into());
            flatten(d, out);
            out.push(")".into())
        }
        d => out.push(format!("{d:?}")),
    }
}
fn macros(g: &mut Gen, c: &mut Case) -> Res {
    let cfg = config(g);
    let (a, b) = (words(g), words(g));
    let list: Vec<String> = (0..g.usize(4)).map(|_| words(g)).collect();
    let t = |s: &String| Document::text(s.clone());
    let cat = Document::concat;
    let joined = |sep: Document<'static>| {
        let mut v = Vec::new();
        for (i, s) in list.iter().enumerate() {
            if i > 0 {
                v.push(sep.clone())
            }
            v.push(t(s))
        }
        Document::concat(v)
    };
    let opt = if g.bool() { Some(b.clone()) } else { None };
    let cases: Vec<(&str, Document, Document)> = vec![
        ("nil", doc!(nil), Document::Nil),
        ("text", doc!("é"), Document::text("é")),
        ("expr", doc!(a.as_str()), t(&a)),
        ("concat", doc!(["x", a.as_str(), hard_line, soft_line, soft_line_space, b.as_str(), nil]), cat(vec![Document::text("x"), t(&a), Document::HardLine, Document::SoftLine, Document::SoftLineSpace, t(&b), Document::Nil])),
        ("bare", doc!("x", a.as_str(), hard_line), cat(vec![Document::text("x"), t(&a), Document::HardLine])),
        ("group", doc!(group([a.as_str(), indent([soft_line, b.as_str()]), soft_line])), Document::group(cat(vec![t(&a), Document::indent(cat(vec![Document::SoftLine, t(&b)])), Document::SoftLine]))),
        ("group bare", doc!(group(a.as_str(), soft_line_space, b.as_str())), Document::group(cat(vec![t(&a), Document::SoftLineSpace, t(&b)]))),
        ("join", doc!(join(list.clone(), [",", soft_line_space])), joined(cat(vec![Document::text(","), Document::SoftLineSpace]))),
        ("group join", doc!(group(["(", indent([soft_line, join(list.iter(), [",", soft_line_space])]), soft_line, ")"])), Document::group(cat(vec![Document::text("("), Document::indent(cat(vec![Document::SoftLine, joined(cat(vec![Document::text(","), Document::SoftLineSpace]))])), Document::SoftLine, Document::text(")")]))),
        ("indent hard", doc!(indent([hard_line, indent([hard_line, a.as_str()])])), Document::indent(cat(vec![Document::HardLine, Document::indent(cat(vec![Document::HardLine, t(&a)]))]))),
    ];
    c.desc(format!("{a:?} {b:?} {list:?}"));
    if list.len() > 1 {
        c.nontrivial()
    }
    for (what, got, want) in &cases {
        let mut flat = (Vec::new(), Vec::new());
        flatten(got, &mut flat.0);
        flatten(want, &mut flat.1);
        ensure_eq!(flat.0, flat.1, format!("macro-{}", what.replace(' ', "-")), "doc!({what})");
        ensure_eq!(got.render(cfg.clone()), want.render(cfg.clone()), format!("macro-{}", what.replace(' ', "-")), "doc!({what})");
    }
    let text = |d: Document| d.render(cfg.clone());
    let one = |s: &String| text(Document::text(s.clone()));
    ensure_eq!(text(One(a.clone()).as_document()), one(&a), "derive", "a struct of one field");
    ensure_eq!(text(Field { name: a.clone() }.as_document()), one(&a), "derive", "a struct of one named field");
    let tag = Tag { name: a.clone(), args: list.clone() };
    ensure_eq!(text(tag.as_document()), text(cat(vec![Document::text("<"), t(&a), Document::SoftLineSpace, Document::concat(list.iter().map(t).collect()), Document::text(">")])), "derive", "a struct with its own document");
    ensure_eq!(text(Choice::Unit.as_document()), text(Document::Nil), "derive", "a unit variant");
    ensure_eq!(text(Choice::One(a.clone()).as_document()), one(&a), "derive", "a variant");
    ensure_eq!(text(Choice::Wrapped(a.clone()).as_document()), text(cat(vec![Document::text("["), t(&a), Document::text("]")])), "derive", "a variant with its own document");
    ensure_eq!(
        text(Choice::Named { inner: a.clone() }.as_document()),
        text(Document::group(cat(vec![Document::text("{"), Document::indent(cat(vec![Document::SoftLine, t(&a)])), Document::SoftLine, Document::text("}")]))),
        "derive",
        "a named variant with its own document"
    );
    ensure_eq!(text(opt.as_document()), opt.as_ref().map(one).unwrap_or_else(|| text(Document::Nil)), "as_document", "an option");
    ensure_eq!(text(list.as_document()), text(Document::concat(list.iter().map(t).collect())), "as_document", "a list");
    ensure_eq!(text(Box::new(a.clone()).as_document()), one(&a), "as_document", "a box");
    ensure_eq!(text(a.as_str().to_document()), one(&a), "to_document", "a string slice");
    ensure_eq!(text(a.clone().to_document()), one(&a), "to_document", "a string");
    ensure_eq!(text(Document::from(a.as_str())), one(&a), "from", "a string slice");
    ensure_eq!(text(Document::from(a.clone())), one(&a), "from", "a string");
    Ok(())
}

// ---------------------------------------------------------------- formatter

/// The document the built-in rules describe.
fn expected(d: &D) -> Document<'static> {
    match d {
        D::L(T::Punct, s) if s == "," => Document::concat(vec![Document::text(","), Document::SoftLineSpace]),
        D::L(_, s) => Document::text(s.clone()),
        D::N(k, kids) => {
            let inner = Document::concat(kids.iter().map(expected).collect());
            match k {
                E::N(3) => Document::group(Document::indent(Document::concat(vec![Document::Line, inner]))),
                E::N(2) => Document::concat(vec![inner, Document::Line]),
                _ => inner,
            }
        }
    }
}
fn solid(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn formatter(g: &mut Gen, c: &mut Case) -> Res {
    let cfg = config(g);
    let d = docs::document(g, &[3, 2, 3, 2, 0, 1, 4]);
    let t = docs::text(&d);
    c.desc(format!("{d:?} width {}", cfg.max_width));
    let a = SyntaxArena::default();
    let root: RedNode<Toy> = RedNode::new(docs::build(&d, &a), 0);
    let mut f = Formatter::<Toy>::new(cfg.clone());
    let r = f.format(&root, &t);
    ensure!(r.is_ok(), "format", "formatting fails: {:?}", r.err());
    let r = r.unwrap();
    ensure_eq!(solid(&r.content), solid(&t), "kept", "the text without white space");
    ensure_eq!(r.changed, r.content != t, "changed", "whether {:?} differs", r.content);
    ensure_eq!(r.content, expected(&d).render(cfg.clone()), "builtin", "the text formatted by the built-in rules");
    if !t.is_empty() && r.changed {
        c.nontrivial()
    }
    // the same again
    let again = f.format(&root, &t);
    ensure!(again.is_ok_and(|x| x.content == r.content), "again", "formatting the same again");
    Ok(())
}
#[derive(Clone, Debug, PartialEq)]
enum Does {
    Nothing,
    Text(String),
    Wrap(String),
    Fail(String),
}
#[derive(Clone, Debug)]
struct Rule {
    name: String,
    priority: u8,
    nodes: Option<(E, Does)>,
    tokens: Option<(T, Does)>,
    hates: Vec<String>,
    notes: Arc<Mutex<Vec<String>>>,
}
impl FormatRule<Toy> for Rule {
    fn name(&self) -> &str {
        &self.name
    }
    fn priority(&self) -> u8 {
        self.priority
    }
    fn applies_to_node(&self, n: &RedNode<Toy>) -> bool {
        self.nodes.as_ref().is_some_and(|(k, _)| *k == n.green.kind)
    }
    fn applies_to_token(&self, t: &RedLeaf<Toy>) -> bool {
        self.tokens.as_ref().is_some_and(|(k, _)| *k == t.kind)
    }
    fn apply_node<'a>(&self, n: &RedNode<Toy>, ctx: &FormatContext<Toy>, _: &'a str, kids: &dyn Fn(&RedNode<Toy>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
        let inside: Vec<bool> = [E::Root, E::N(0), E::N(1), E::N(2), E::N(3), E::N(4)].iter().map(|k| ctx.is_inside(*k)).collect();
        self.notes.lock().unwrap().push(format!("{} node {:?} depth {} parent {:?} inside {inside:?}", self.name, n.span(), ctx.depth, ctx.parent_kind()));
        Ok(match &self.nodes.as_ref().unwrap().1 {
            Does::Nothing => None,
            Does::Text(s) => Some(Document::text(s.clone())),
            Does::Wrap(s) => Some(Document::concat(vec![Document::text(s.clone()), kids(n)?, Document::text(s.clone())])),
            Does::Fail(s) => return Err(oak_core::errors::OakError::format_error(s.clone())),
        })
    }
    fn apply_token<'a>(&self, t: &RedLeaf<Toy>, ctx: &FormatContext<Toy>, src: &'a str) -> FormatResult<Option<Document<'a>>> {
        self.notes.lock().unwrap().push(format!("{} token {:?} depth {}", self.name, t.span, ctx.depth));
        Ok(match &self.tokens.as_ref().unwrap().1 {
            Does::Nothing => None,
            Does::Text(s) => Some(Document::text(s.clone())),
            Does::Wrap(s) => Some(Document::text(format!("{s}{}{s}", &src[t.span.start..t.span.end]))),
            Does::Fail(s) => return Err(oak_core::errors::OakError::format_error(s.clone())),
        })
    }
    fn conflicts_with(&self, other: &dyn FormatRule<Toy>) -> bool {
        self.hates.iter().any(|h| h == other.name())
    }
}
struct Sim<'r> {
    rules: &'r [Rule],
    notes: Vec<String>,
    out: String,
}
impl Sim<'_> {
    fn node(&mut self, d: &D, at: usize, path: &mut Vec<E>) -> Result<(), String> {
        let D::N(k, kids) = d else { unreachable!() };
        path.push(*k);
        let inside: Vec<bool> = [E::Root, E::N(0), E::N(1), E::N(2), E::N(3), E::N(4)].iter().map(|k| path.contains(k)).collect();
        let parent = path.len().checked_sub(2).map(|i| path[i]);
        let rules = self.rules;
        let mut done = None;
        for r in rules.iter().filter(|r| r.nodes.as_ref().is_some_and(|(n, _)| n == k)) {
            let span: oak_core::Range<usize> = (at..at + d.len()).into();
            self.notes.push(format!("{} node {span:?} depth {} parent {parent:?} inside {inside:?}", r.name, path.len()));
            match &r.nodes.as_ref().unwrap().1 {
                Does::Nothing => continue,
                other => {
                    done = Some(other.clone());
                    break;
                }
            }
        }
        match done {
            Some(Does::Text(s)) => self.out.push_str(&s),
            Some(Does::Fail(s)) => return Err(s),
            Some(Does::Wrap(s)) => {
                self.out.push_str(&s);
                self.kids(kids, at, path)?;
                self.out.push_str(&s);
            }
            _ => self.kids(kids, at, path)?,
        }
        path.pop();
        Ok(())
    }
    fn kids(&mut self, kids: &[D], mut at: usize, path: &mut Vec<E>) -> Result<(), String> {
        for kid in kids {
            match kid {
                D::N(..) => self.node(kid, at, path)?,
                D::L(k, s) => {
                    let rules = self.rules;
                    let mut done = None;
                    for r in rules.iter().filter(|r| r.tokens.as_ref().is_some_and(|(t, _)| t == k)) {
                        let span: oak_core::Range<usize> = (at..at + s.len()).into();
                        self.notes.push(format!("{} token {span:?} depth {}", r.name, path.len()));
                        match &r.tokens.as_ref().unwrap().1 {
                            Does::Nothing => continue,
                            other => {
                                done = Some(other.clone());
                                break;
                            }
                        }
                    }
                    match done {
                        Some(Does::Text(t)) => self.out.push_str(&t),
                        Some(Does::Fail(e)) => return Err(e),
                        Some(Does::Wrap(w)) => self.out.push_str(&format!("{w}{s}{w}")),
                        _ => self.out.push_str(s),
                    }
                }
            }
            at += kid.len();
        }
        Ok(())
    }
}
fn rules(g: &mut Gen, c: &mut Case) -> Res {
    let notes = Arc::new(Mutex::new(Vec::new()));
    let names = ["r0", "r1", "r2", "r3", "r4", "r5"];
    let does = |g: &mut Gen| match g.weighted(&[3, 3, 3, 1]) {
        0 => Does::Nothing,
        1 => Does::Text(g.pick(&["T", "é", ""]).to_string()),
        2 => Does::Wrap(g.pick(&["|", "<>"]).to_string()),
        _ => Does::Fail(format!("e{}", g.usize(3))),
    };
    // kinds no built-in rule speaks about
    let kinds = [0u8, 1, 4];
    let pool: Vec<Rule> = (0..g.range(1, 6))
        .map(|i| Rule {
            name: names[i].to_string(),
            priority: *g.pick(&[0, 5, 7, 10, 255]),
            nodes: if g.chance(3, 4) { Some((if g.chance(1, 5) { E::Root } else { E::N(*g.pick(&kinds)) }, does(g))) } else { None },
            tokens: if g.chance(3, 4) { Some((*g.pick(&[T::Name, T::Keyword, T::Ws]), does(g))) } else { None },
            hates: if g.chance(1, 4) { vec![g.pick(&names).to_string()] } else { vec![] },
            notes: notes.clone(),
        })
        .collect();
    let d = docs::document(g, &kinds);
    let t = docs::text(&d);
    c.desc(format!("{pool:?} on {d:?}"));
    let cfg = FormatConfig { trim_trailing_whitespace: false, insert_final_newline: false, ..FormatConfig::default() };
    let mut f = Formatter::<Toy>::new(cfg.clone());
    let mut set = RuleSet::<Toy>::new();
    let mut model: Vec<Rule> = Vec::new();
    for r in &pool {
        let conflict: Vec<String> = model.iter().filter(|x| x.hates.contains(&r.name) || r.hates.contains(&x.name)).map(|x| x.name.clone()).collect();
        for got in [f.add_rule(Box::new(r.clone())), set.add_rule(Box::new(r.clone()))] {
            ensure_eq!(got.is_err(), !conflict.is_empty(), "conflict", "whether {} conflicts", r.name);
            if let Err(e) = got {
                let m = e.to_string();
                ensure!(m.contains(&r.name) && conflict.iter().any(|x| m.contains(x.as_str())), "conflict", "the conflict of {} with {conflict:?} reads {m:?}", r.name);
            }
        }
        if conflict.is_empty() {
            model.push(r.clone());
        }
    }
    let mut batch = RuleSet::<Toy>::new();
    let got = batch.add_rules(pool.iter().map(|r| Box::new(r.clone()) as Box<dyn FormatRule<Toy>>).collect());
    ensure_eq!(got.is_err(), model.len() < pool.len(), "conflict", "whether the rules added at once conflict");
    model.sort_by_key(|r| std::cmp::Reverse(r.priority));
    let a = SyntaxArena::default();
    let root: RedNode<Toy> = RedNode::new(docs::build(&d, &a), 0);
    for k in [E::N(0), E::N(1), E::N(4), E::Root] {
        let n: RedNode<Toy> = RedNode::new(docs::build(&D::N(k, vec![]), &a), 0);
        let got: Vec<String> = set.applicable_rules_for_node(&n).map(|r| r.name().to_string()).collect();
        let want: Vec<String> = model.iter().filter(|r| r.nodes.as_ref().is_some_and(|x| x.0 == k)).map(|r| r.name.clone()).collect();
        ensure_eq!(got, want, "order", "rules for {k:?}");
        if model.len() == pool.len() {
            let got: Vec<String> = batch.applicable_rules_for_node(&n).map(|r| r.name().to_string()).collect();
            ensure_eq!(got, want, "order", "rules for {k:?}, added at once");
        }
    }
    let mut s = Sim { rules: &model, notes: vec![], out: String::new() };
    let want = s.node(&d, 0, &mut vec![]);
    let got = f.format(&root, &t);
    match (&want, got) {
        (Err(e), Err(x)) => ensure!(x.to_string().contains(e.as_str()), "error", "the error of the rule is {e:?}, formatting fails with {x}"),
        (Ok(()), Ok(x)) => {
            // layout is judged elsewhere: no soft lines and no commas here
            if !d_has_comma(&d) {
                ensure_eq!(x.content, s.out, "rules", "the text formatted by the rules");
            }
            ensure_eq!(x.changed, x.content != t, "changed", "whether {:?} differs", x.content);
        }
        (w, x) => return fail("error", format!("formatting gives {x:?}, the rules {w:?}")),
    }
    ensure_eq!(*notes.lock().unwrap(), s.notes, "applied", "the rules applied");
    if s.notes.len() > 2 && model.len() > 2 {
        c.nontrivial()
    }
    Ok(())
}
fn d_has_comma(d: &D) -> bool {
    match d {
        D::L(T::Punct, s) => s == ",",
        D::L(..) => false,
        D::N(_, k) => k.iter().any(d_has_comma),
    }
}

// ---------------------------------------------------------------- comments

fn comments(g: &mut Gen, c: &mut Case) -> Res {
    let at = |o: usize| Position { line: 0, column: o, offset: o };
    let mut col = CommentCollector::new();
    let mut all: Vec<Comment> = Vec::new();
    for _ in 0..g.usize(7) {
        let (a, b) = (g.usize(40), g.usize(40));
        let span = SourceSpan { start: at(a.min(b)), end: at(a.max(b)) };
        let kind = g.pick(&[CommentKind::Line, CommentKind::Block, CommentKind::Doc]).clone();
        let mut content = g.pick(&["x", " note ", "é 中", "", "  ", "a // b", "TODO: *"]).to_string();
        if kind == CommentKind::Block && g.bool() {
            content = g.pick(&["a\nb", " a\n  b \n", "\nx\n", "é\n\nü"]).to_string()
        }
        let (trailing, level) = (g.chance(1, 3), g.usize(3));
        let built = Comment { kind: kind.clone(), content: content.clone(), span: span.clone(), is_trailing: trailing, indent_level: level };
        let x = match kind {
            CommentKind::Line => Comment::line(content, span),
            CommentKind::Block => Comment::block(content, span),
            CommentKind::Doc => Comment::doc(content, span),
        }
        .with_trailing(trailing)
        .with_indent_level(level);
        ensure_eq!(x, built, "built", "the comment built");
        all.push(x.clone());
        col.add_comment(x);
    }
    if all.len() > 2 {
        c.nontrivial()
    }
    c.desc(format!("{all:?}"));
    if g.bool() {
        col.sort_by_position();
        all.sort_by_key(|x| x.span.start.offset);
    }
    ensure_eq!(col.comments(), all.as_slice(), "comments", "the comments");
    if g.chance(1, 4) && !all.is_empty() {
        let i = g.usize(all.len() - 1);
        ensure_eq!(col.comments_mut().remove(i), all.remove(i), "comments", "the comment taken out");
    }
    let (p, q) = (g.usize(45), g.usize(45));
    let own = |v: Vec<&Comment>| v.into_iter().cloned().collect::<Vec<_>>();
    let pick = |f: &dyn Fn(&Comment) -> bool| all.iter().filter(|x| f(x)).cloned().collect::<Vec<_>>();
    ensure_eq!(own(col.comments_in_range(at(p), at(q))), pick(&|x| x.span.start.offset >= p && x.span.end.offset <= q), "range", "comments in {p}..{q}");
    ensure_eq!(own(col.comments_before(at(p))), pick(&|x| x.span.end.offset <= p), "before", "comments before {p}");
    ensure_eq!(own(col.comments_after(at(p))), pick(&|x| x.span.start.offset >= p), "after", "comments after {p}");
    ensure_eq!(own(col.trailing_comments()), pick(&|x| x.is_trailing), "trailing", "trailing comments");
    let indent = *g.pick(&["", "  ", "\t"]);
    for x in &all {
        let t = x.formatted_text(indent);
        // the words survive, in order, between the markers of the kind
        let (open, close) = match x.kind {
            CommentKind::Line => ("//", ""),
            CommentKind::Block => ("/*", "*/"),
            CommentKind::Doc => ("///", ""),
        };
        ensure!(t.starts_with(open) && t.ends_with(close) && t.len() >= open.len() + close.len(), "markers", "{x:?} is written {t:?}");
        if x.kind != CommentKind::Doc {
            ensure!(!t.starts_with("///"), "markers", "{x:?} is written {t:?}");
        }
        let inner = &t[open.len()..t.len() - close.len()];
        if x.kind == CommentKind::Block && x.content.trim().contains('\n') {
            let mut lines: Vec<&str> = inner.lines().collect();
            ensure!(lines.len() >= 2 && lines[0].is_empty() && lines.last().is_some_and(|l| *l == format!("{indent} ")), "block", "{x:?} is written {t:?}");
            lines.pop();
            let got: Vec<String> = lines[1..].iter().map(|l| l.strip_prefix(indent).and_then(|l| l.strip_prefix(" * ")).map(str::to_string).unwrap_or_else(|| format!("?{l}"))).collect();
            let want: Vec<String> = x.content.lines().map(|l| l.trim().to_string()).collect();
            ensure_eq!(got, want, "block", "lines of {t:?}");
        } else if !x.content.contains('\n') {
            ensure_eq!(inner.trim(), x.content.trim(), "text", "the text of {t:?}");
            ensure!(!t.contains('\n'), "text", "{x:?} is written over several lines: {t:?}");
        }
    }
    let (preserve, format) = (g.bool(), g.bool());
    let mut pr = CommentProcessor::new().with_preserve_comments(preserve).with_format_comments(format);
    *pr.collector_mut() = col.clone();
    let want: Vec<String> = if !preserve { vec![] } else { all.iter().map(|x| if format { x.formatted_text(indent) } else { x.content.clone() }).collect() };
    ensure_eq!(pr.process_comments(&all, indent), want, "process", "comments processed (preserve {preserve}, format {format})");
    let mut out = "before".to_string();
    pr.insert_comments_at_position(&mut out, at(p), indent);
    let want: String = all.iter().filter(|x| x.span.end.offset <= p && !x.is_trailing).map(|x| format!("{indent}{}\n", x.formatted_text(indent))).collect();
    ensure_eq!(out, format!("before{want}"), "insert", "comments inserted at {p}");
    let mut out = "before".to_string();
    pr.insert_trailing_comment(&mut out, at(p));
    let want = all.iter().find(|x| x.is_trailing && x.span.start.offset >= p).map(|x| format!(" {}", x.formatted_text(""))).unwrap_or_default();
    ensure_eq!(out, format!("before{want}"), "insert-trailing", "trailing comment inserted at {p}");
    pr.collector_mut().clear();
    ensure!(pr.collector().comments().is_empty(), "clear", "comments are left after clear");
    Ok(())
}
pub fn all() -> Vec<Check> {
    vec![
        Check {
            id: "C27",
            rule: "one case = a generated document and configuration (layout), a document with a Line (line, lines), or values put into ten doc! templates and the derives (macros); non-trivial: a group was broken and one was not / the same, every line case / two list elements",
            assumptions: vec!["width is counted in characters", "a group is broken exactly if it contains a hard line or does not fit on the rest of the line by itself", "a tab counts as four columns in indentation"],
            facets: vec![Facet::new("layout", 200_000, 4_000_000, layout), Facet::new("line", 6_000, 60_000, line), Facet::new("lines", 200_000, 2_000_000, lines), Facet::new("macros", 36_000, 200_000, macros)],
        },
        Check {
            id: "C28",
            rule: "one case = a tree formatted by the built-in rules (formatter), up to six generated rules on a tree (rules), or up to six comments (comments); non-trivial: the text changed / over two rules applied / over two comments",
            assumptions: vec!["rules of one priority apply in the order they were added"],
            facets: vec![Facet::new("formatter", 120_000, 1_000_000, formatter), Facet::new("rules", 90_000, 1_000_000, rules), Facet::new("comments", 120_000, 500_000, comments)],
        },
    ]
}
