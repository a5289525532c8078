//! Monitors: the tracking allocator, the panic guard, instrumented iterators
//! and the per-thread counters that end up in the evidence.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Counts live heap bytes; refuses to go beyond `CAP`.
pub struct Track;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(3 << 30);
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let now = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        if now > CAP.load(Relaxed) { LIVE.fetch_sub(l.size(), Relaxed); return std::ptr::null_mut(); }
        PEAK.fetch_max(now, Relaxed);
        let p = System.alloc(l);
        if p.is_null() { LIVE.fetch_sub(l.size(), Relaxed); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // a growing block may exist twice while it is being moved
        if n > l.size() {
            let now = LIVE.fetch_add(n - l.size(), Relaxed) + (n - l.size());
            if now > CAP.load(Relaxed) { LIVE.fetch_sub(n - l.size(), Relaxed); return std::ptr::null_mut(); }
            PEAK.fetch_max(now, Relaxed);
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}
pub fn set_cap(n: usize) { CAP.store(n, Relaxed) }
pub fn live() -> usize { LIVE.load(Relaxed) }
/// Run `f`, returning its result and the growth of the heap peak above the level at entry.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(base))
}

thread_local! {
    static INSIDE: Cell<bool> = Cell::new(false);
    static LAST: RefCell<String> = RefCell::new(String::new());
    static COUNTS: RefCell<BTreeMap<String, u64>> = RefCell::new(BTreeMap::new());
}

/// Install the hook that records (rather than prints) panics of the code under test.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if INSIDE.with(|x| x.get()) {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if m.contains("unsafe precondition") { eprintln!("{} at {}", m, l); }
            LAST.with(|x| *x.borrow_mut() = format!("{} at {}", m, l));
        } else {
            old(i)
        }
    }));
}

/// Call into the code under test; a panic becomes Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = INSIDE.with(|x| x.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    INSIDE.with(|x| x.set(before));
    r.map_err(|_| format!("panic: {}", LAST.with(|x| x.borrow().clone())))
}

pub fn count(k: &str, n: u64) {
    COUNTS.with(|c| {
        let mut c = c.borrow_mut();
        match c.get_mut(k) { Some(v) => *v += n, None => { c.insert(k.to_string(), n); } }
    })
}
pub fn take_counts() -> BTreeMap<String, u64> { COUNTS.with(|c| std::mem::take(&mut *c.borrow_mut())) }

/// Byte source over a slice that records what is pulled from it.
pub struct Src<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// calls of next() after the end was reported
    pub past: usize,
}
impl<'a> Src<'a> { pub fn new(b: &'a [u8]) -> Src<'a> { Src { b, p: 0, past: 0 } } }
impl<'a> Iterator for Src<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.p < self.b.len() { self.p += 1; return Some(self.b[self.p - 1]); }
        self.past += 1;
        if self.past > 1_000_000 { panic!("input polled more than a million times after its end"); }
        None
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    h ^ (h >> 29)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push_str(&format!("{:02x}", x)); }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.trim();
    if s.len() % 2 != 0 { return None; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
