//! C10: the arena hands out memory that is aligned, disjoint, stays as written, and is given back.
use kit::*;
use oak_core::memory::arena::SyntaxArena;
use oak_core::tree::{ProvenancePart, TokenProvenance};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static DAMAGE: Cell<u8> = const { Cell::new(0) };
}
/// Blocks of at least this size are watched: the size they were asked with, and the bytes behind them.
const WATCHED: usize = 16_384;
/// Room in front of a watched block (keeps any alignment up to 16) and behind it; the slack takes
/// writes past the end, so that they are reported and break nothing else.
const HEAD: usize = 32;
const TAIL: usize = 64;
const SLACK: usize = 200_000;

/// Counts the bytes the current thread holds, and watches large blocks.
struct Counting;
impl Counting {
    fn outer(l: Layout) -> Option<Layout> {
        (l.size() >= WATCHED && l.align() <= 16).then(|| Layout::from_size_align(l.size() + HEAD + if l.size() <= 70_000 { SLACK } else { TAIL }, 16).unwrap())
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        let Some(o) = Self::outer(l) else { return unsafe { System.alloc(l) } };
        unsafe {
            let p = System.alloc(o);
            if p.is_null() {
                return p;
            }
            (p as *mut [usize; 2]).write([l.size(), 0x5afe_b10c]);
            p.add(HEAD + l.size()).write_bytes(0xC5, TAIL);
            p.add(HEAD)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        if Self::outer(l).is_none() {
            return unsafe { System.dealloc(p, l) };
        }
        unsafe {
            let q = p.sub(HEAD);
            let [size, mark] = (q as *const [usize; 2]).read();
            if mark != 0x5afe_b10c {
                // Not a watched block: was asked with another size. Left alone.
                let _ = DAMAGE.try_with(|d| d.set(1));
                return;
            }
            if size != l.size() {
                let _ = DAMAGE.try_with(|d| d.set(1));
            }
            if (0..TAIL).any(|i| *q.add(HEAD + size + i) != 0xC5) {
                let _ = DAMAGE.try_with(|d| d.set(2));
            }
            (q as *mut [usize; 2]).write([0, 0]);
            System.dealloc(q, Self::outer(Layout::from_size_align(size, 8).unwrap()).unwrap())
        }
    }
}
fn undamaged() -> Res {
    match DAMAGE.with(|d| d.replace(0)) {
        1 => fail("layout", "a block of memory was given back with another size than it was asked with"),
        2 => fail("overrun", "memory past the end of a chunk was written"),
        _ => Ok(()),
    }
}
#[global_allocator]
static A: Counting = Counting;

/// One allocation: where, how long, which bytes it must hold.
struct Block {
    at: usize,
    bytes: Vec<u8>,
}

fn fill(g: &mut Gen, n: usize) -> Vec<u8> {
    let s = g.below(256) as u8;
    (0..n).map(|i| s.wrapping_add((i * 7) as u8)).collect()
}

fn one(g: &mut Gen, a: &SyntaxArena, log: &mut String) -> Result<Block, Fail> {
    let k = g.usize(9);
    let n = match g.weighted(&[12, 6, 2, 2, 1]) {
        0 => g.range(1, 20),
        1 => g.range(1, 2000),
        2 => g.range(20_000, 70_000),
        3 => 65_536 - 24 + g.range(0, 48),
        _ => g.range(70_000, 180_000),
    };
    let block = |p: *const u8, len: usize, align: usize, bytes: Vec<u8>| -> Result<Block, Fail> {
        ensure!(p as usize % align == 0, "align", "an allocation at {p:p} is not aligned to {align}");
        ensure!(len == bytes.len(), "length", "{len} bytes instead of {}", bytes.len());
        Ok(Block { at: p as usize, bytes })
    };
    log.push_str(&format!(" {k}:{n}"));
    match k {
        0 => { let v = g.below(u64::MAX); let r = a.alloc(v); block(r as *mut u64 as *const u8, 8, 8, v.to_ne_bytes().to_vec()) }
        1 => { let v = g.below(256) as u8; let r = a.alloc(v); block(r, 1, 1, vec![v]) }
        2 => { let v = g.below(1 << 32) as u32; let r = a.alloc(v); block(r as *mut u32 as *const u8, 4, 4, v.to_ne_bytes().to_vec()) }
        3 => { let v = [g.below(u64::MAX), 1, 2, g.below(9)]; let r = a.alloc(v); block(r as *mut _ as *const u8, 32, 8, v.iter().flat_map(|x| x.to_ne_bytes()).collect()) }
        4 => { let v = fill(g, n); let r = a.alloc_slice_copy(&v); block(r.as_ptr(), r.len(), 1, v) }
        5 => { let v: Vec<u16> = (0..n / 2 + 1).map(|i| i as u16 ^ 0x5a5a).collect(); let r = a.alloc_slice_copy(&v); block(r.as_ptr() as *const u8, r.len() * 2, 2, v.iter().flat_map(|x| x.to_ne_bytes()).collect()) }
        6 => { let s = g.below(1 << 40); let c = n / 8 + 1; let r = a.alloc_slice_fill_iter(c, (0..c as u64).map(|i| i * 3 + s)); block(r.as_ptr() as *const u8, r.len() * 8, 8, (0..c as u64).flat_map(|i| (i * 3 + s).to_ne_bytes()).collect()) }
        7 => { let c = n / 4 + 1; let r = a.alloc_slice_fill_iter(c, (0..c as u32).map(|i| i ^ 0xdead)); block(r.as_ptr() as *const u8, r.len() * 4, 4, (0..c as u32).flat_map(|i| (i ^ 0xdead).to_ne_bytes()).collect()) }
        _ => {
            let r = a.alloc_slice_copy::<u64>(&[]);
            ensure!(r.is_empty(), "empty", "an empty slice has elements");
            let r = a.alloc_slice_fill_iter(0, std::iter::empty::<u64>());
            ensure!(r.is_empty(), "empty", "an empty slice has elements");
            Ok(Block { at: 8, bytes: vec![] })
        }
    }
}

fn intact(arenas: &[(SyntaxArena, Vec<Block>, Vec<TokenProvenance>)]) -> Res {
    let mut all: Vec<&Block> = arenas.iter().flat_map(|a| &a.1).filter(|b| !b.bytes.is_empty()).collect();
    all.sort_by_key(|b| b.at);
    for w in all.windows(2) {
        ensure!(w[0].at + w[0].bytes.len() <= w[1].at, "overlap", "allocations of {} and {} bytes overlap", w[0].bytes.len(), w[1].bytes.len());
    }
    for b in all {
        let now = unsafe { std::slice::from_raw_parts(b.at as *const u8, b.bytes.len()) };
        ensure!(now == b.bytes, "content", "an allocation of {} bytes changed", b.bytes.len());
    }
    for (a, _, meta) in arenas {
        for (i, m) in meta.iter().enumerate() {
            let k = std::num::NonZeroU32::new(i as u32 + 1).unwrap();
            ensure!(a.get_metadata(k) == Some(m), "metadata", "metadata {k} is {:?}, not {m:?}", a.get_metadata(k));
        }
        ensure!(a.get_metadata(std::num::NonZeroU32::new(meta.len() as u32 + 1).unwrap()).is_none(), "metadata", "metadata past the end");
    }
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C10",
        rule: "one case = a history of allocations (single values, slices, filled slices, larger than a chunk) in up to four arenas that are created and dropped in between, on a thread of its own or a shared one; non-trivial: an arena was dropped while another had allocations",
        assumptions: vec!["a filling iterator yields as many items as announced", "memory given back is measured with a counting allocator: at most 64 chunks of 64 KiB stay pooled per thread, as documented"],
        facets: vec![
            Facet::new("histories", 20_000, 400_000, |g, c| {
                let mut arenas: Vec<(SyntaxArena, Vec<Block>, Vec<TokenProvenance>)> = Vec::new();
                let mut log = String::new();
                let mut dropped = false;
                for _ in 0..g.range(2, 60) {
                    match g.weighted(&[2, 2, 12, 2]) {
                        0 if arenas.len() < 4 => { arenas.push((if g.bool() { SyntaxArena::default() } else { SyntaxArena::new(g.usize(5)) }, vec![], vec![])); log.push_str(" new") }
                        1 if arenas.len() > 1 => { let i = g.usize(arenas.len()); arenas.swap_remove(i); log.push_str(&format!(" drop{i}")); dropped |= arenas.iter().any(|a| !a.1.is_empty()) }
                        2 if !arenas.is_empty() => {
                            let i = g.usize(arenas.len());
                            log.push_str(&format!(" a{i}"));
                            let b = one(g, &arenas[i].0, &mut log)?;
                            arenas[i].1.push(b);
                        }
                        3 if !arenas.is_empty() => {
                            let i = g.usize(arenas.len());
                            let m = match g.usize(3) { 0 => TokenProvenance::from_source((g.usize(9)..g.usize(9) + 9).into()), 1 => TokenProvenance::from_synthesized(text::ident(g)), _ => TokenProvenance { parts: vec![ProvenancePart::OpaqueTag(text::ident(g)), ProvenancePart::Source((0..g.usize(5)).into())] } };
                            let k = arenas[i].0.add_metadata(m.clone());
                            arenas[i].2.push(m);
                            ensure!(k.get() as usize == arenas[i].2.len(), "metadata", "metadata index {k}");
                        }
                        _ => {}
                    }
                    c.desc(log.clone());
                    if g.chance(1, 4) {
                        intact(&arenas)?;
                    }
                }
                if dropped {
                    c.nontrivial();
                }
                intact(&arenas)?;
                drop(arenas);
                undamaged()
            }),
            Facet::new("given-back", 180, 2_000, |g, c| {
                let sizes: Vec<(usize, usize)> = (0..g.range(1, 3)).map(|_| (g.range(1, 100), *g.pick(&[30_000, 64_000, 65_528, 65_529, 100_000]))).collect();
                c.desc(format!("arenas of chunks {sizes:?}"));
                if sizes.iter().map(|s| s.0).sum::<usize>() > 64 {
                    c.nontrivial();
                }
                let rounds = g.range(1, 3);
                std::thread::spawn(move || {
                    let before = LIVE.with(|c| c.get());
                    for _ in 0..rounds {
                        let v: Vec<SyntaxArena> = sizes
                            .iter()
                            .map(|(n, size)| {
                                let a = SyntaxArena::default();
                                for _ in 0..*n {
                                    a.alloc_slice_fill_iter(*size, std::iter::repeat_n(1u8, *size));
                                }
                                a
                            })
                            .collect();
                        drop(v);
                    }
                    let kept = LIVE.with(|c| c.get()) - before;
                    ensure!(kept <= 64 * 65_536 + 20_000, "kept", "{kept} bytes are held after all arenas of this thread were dropped");
                    undamaged()
                })
                .join()
                .unwrap_or_else(|_| fail("panic", "panicked"))
            }),
        ],
    }]
}
