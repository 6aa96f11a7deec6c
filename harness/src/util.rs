//! PRNG, hashing, statistics, allocation accounting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Picks an index according to the weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, &v) in w.iter().enumerate() {
            if x < v {
                return i;
            }
            x -= v;
        }
        unreachable!()
    }
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in s {
        h ^= b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(b ^ 0xD1B5_4A32_D192_ED03);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// What one worker observed.
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub discarded: u64,
    pub nontrivial: HashSet<u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
}
impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    pub fn nontrivial(&mut self, h: u64) {
        if self.nontrivial.len() < 4_000_000 {
            self.nontrivial.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 6 {
            self.samples.push(f());
            self.want_sample = false;
        }
    }
}

pub enum Verdict {
    Held,
    Discard,
    Violation(String),
}

// ---------------------------------------------------------------------------
// Counting allocator: live bytes and number of live blocks, per thread (the
// library is single-threaded: everything a case allocates, it also frees on
// the same thread).
pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
}
fn account(d: isize, blocks: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = LIMIT.try_with(|m| {
            if v > m.get() {
                // Deterministic stand-in for "ran out of memory": the
                // supervisor recognises this message.
                m.set(isize::MAX);
                eprintln!("ALLOC-LIMIT exceeded: {v} live bytes");
                std::process::abort();
            }
        });
    });
    let _ = BLOCKS.try_with(|l| l.set(l.get() + blocks));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as isize - l.size() as isize, 0);
        System.realloc(p, l, n)
    }
}
pub fn live_bytes() -> isize {
    LIVE.with(|l| l.get())
}
pub fn live_blocks() -> isize {
    BLOCKS.with(|l| l.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
}
pub fn peak_bytes() -> isize {
    PEAK.with(|p| p.get())
}
pub fn set_alloc_limit(extra: isize) {
    LIMIT.with(|m| m.set(live_bytes().saturating_add(extra)));
}
