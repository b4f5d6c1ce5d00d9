//! Planted behaviours for the runner itself: `selftest OVERFLOW|HANG|BLOAT|FAIL|OK`.
use kit::*;
fn deep(n: u64) -> u64 {
    if n == u64::MAX { 0 } else { std::hint::black_box(deep(std::hint::black_box(n + 1))) + 1 }
}
fn main() {
    let mk = |id: &'static str, f: fn(u64)| Check {
        id,
        rule: "",
        assumptions: vec![],
        facets: vec![Facet::new("f", 1000, 1000, move |g, c| {
            let v: Vec<u64> = g.vec(20, |g| g.below(1000));
            c.desc(format!("{v:?}"));
            if v.iter().any(|x| *x > 900) && v.len() > 3 {
                f(v.len() as u64);
                return fail("bad", "");
            }
            Ok(())
        })],
    };
    main_(vec![
        mk("OVERFLOW", |n| {
            deep(n);
        }),
        mk("HANG", |_| loop {
            std::hint::spin_loop()
        }),
        mk("BLOAT", |_| {
            let mut v = Vec::new();
            loop {
                v.push(std::hint::black_box(vec![1u8; 1 << 20]))
            }
        }),
        mk("FAIL", |_| ()),
        Check { id: "OK", rule: "", assumptions: vec![], facets: vec![Facet::new("f", 10, 10, |_, _| Ok(()))] },
    ]);
}
fn main_(c: Vec<Check>) {
    kit::main(c)
}
