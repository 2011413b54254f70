//! What the library's code reports while a case runs: which edges it takes and what it compares.
//!
//! check.py builds the library with the compiler's coverage pass; these are the functions that pass calls.
//! Without it they are never called, and every case looks alike.
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

const REGIONS: usize = 256;
const PAIRS: usize = 1 << 12;

/// Two numbers that were compared; the first one stands in the code if `fixed`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Pair {
    pub a: u64,
    pub b: u64,
    pub fixed: bool,
}
const NONE: Pair = Pair { a: 0, b: 0, fixed: false };

struct Global {
    regions: UnsafeCell<[(usize, usize); REGIONS]>,
    pairs: UnsafeCell<[Pair; PAIRS]>,
    /// where in `pairs` one that hashes to this slot is
    slots: UnsafeCell<[u16; 2 * PAIRS]>,
}
// registered before main; pairs are only written while the one thread that reads them runs a case
unsafe impl Sync for Global {}
static G: Global = Global {
    regions: UnsafeCell::new([(0, 0); REGIONS]),
    pairs: UnsafeCell::new([NONE; PAIRS]),
    slots: UnsafeCell::new([u16::MAX; 2 * PAIRS]),
};
static COUNT: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    let (s, e) = (start as usize, end as usize);
    let n = COUNT.load(Relaxed);
    if s < e && n < REGIONS {
        unsafe {
            let r = &mut *G.regions.get();
            if !r[..n].iter().any(|x| x.0 == s) {
                r[n] = (s, e);
                COUNT.store(n + 1, Relaxed);
            }
        }
    }
}
fn store(p: Pair) {
    let n = NEXT.load(Relaxed);
    if n >= PAIRS {
        return;
    }
    let h = (p.a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ p.b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F)) >> 40;
    let i = h as usize % (2 * PAIRS);
    unsafe {
        let (pairs, slots) = (&mut *G.pairs.get(), &mut *G.slots.get());
        let k = slots[i] as usize;
        if k < n && pairs[k] == p {
            return;
        }
        pairs[n] = p;
        slots[i] = n as u16;
    }
    NEXT.store(n + 1, Relaxed);
}
#[inline]
fn seen(a: u64, b: u64, fixed: bool) {
    if ON.load(Relaxed) {
        store(Pair { a, b, fixed });
    }
}
macro_rules! traced {
    ($($n:ident $m:ident $t:ty;)*) => { $(
        #[no_mangle]
        pub extern "C" fn $n(a: $t, b: $t) { seen(a as u64, b as u64, false) }
        #[no_mangle]
        pub extern "C" fn $m(a: $t, b: $t) { seen(a as u64, b as u64, true) }
    )* };
}
traced! {
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8;
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16;
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32;
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64;
}
/// The cases: how many, their width, then the values.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    if ON.load(Relaxed) {
        for i in 0..(*cases).min(64) as usize {
            seen(*cases.add(2 + i), v, true);
        }
    }
}

fn regions() -> &'static [(usize, usize)] {
    unsafe { &(&*G.regions.get())[..COUNT.load(Relaxed)] }
}
/// How many edges the library reports; none without the coverage pass.
pub fn edges() -> usize {
    regions().iter().map(|(s, e)| e - s).sum()
}
/// Forget what was counted so far.
pub fn clear(pairs: bool) {
    for (s, e) in regions() {
        unsafe { std::ptr::write_bytes(*s as *mut u8, 0, e - s) };
    }
    NEXT.store(0, Relaxed);
    ON.store(pairs, Relaxed);
}
/// What was compared since, in the order of the code.
pub fn pairs() -> Vec<Pair> {
    ON.store(false, Relaxed);
    let n = NEXT.load(Relaxed).min(PAIRS);
    let all = unsafe { &(&(*G.pairs.get()))[..n] };
    // addresses differ from run to run
    all.iter().filter(|p| p.fixed || p.a.max(p.b) < 1 << 34).copied().collect()
}
/// Add what was counted to this record of edges and how often they were taken; is there anything new?
pub fn novel(record: &mut Vec<u8>) -> bool {
    record.resize(edges(), 0);
    let mut new = false;
    let mut at = 0;
    for (s, e) in regions() {
        let n = e - s;
        let c = unsafe { std::slice::from_raw_parts(*s as *const u8, n) };
        for (x, old) in c.iter().zip(&mut record[at..at + n]) {
            if *x != 0 {
                let class = match x {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                new |= *old & class == 0;
                *old |= class;
            }
        }
        at += n;
    }
    new
}
