//! C14: the result is a function of the bytes alone.
use crate::imp::PErr;
use crate::judge::J;
use crate::mon::{count, fnv, guard, Src};
use std::io::Read;
use whasm::binary::WasmBinary;
use whasm::structure::module::Module;

/// Everything that can be observed about parsing and validating, as one string's hash.
fn finish(r: Result<Module, PErr>) -> Result<u64, String> {
    match r {
        Err(e) => Ok(fnv(format!("E {:?} {}", e, e).as_bytes())),
        Ok(m) => {
            let before = shown(&m);
            let v1 = validation(&m);
            let after = shown(&m);
            if before != after { return Err("validation changed the module".into()); }
            let v2 = validation(&m);
            if v1 != v2 { return Err(format!("validating twice: {} then {}", clip(&v1), clip(&v2))); }
            Ok(fnv(format!("M {:016x} {}", before, v1).as_bytes()))
        }
    }
}
/// Hash of the debug text, without keeping the text.
fn shown(m: &Module) -> u64 {
    use std::fmt::Write;
    struct H(u64);
    impl Write for H { fn write_str(&mut self, s: &str) -> std::fmt::Result { for b in s.bytes() { self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3); } Ok(()) } }
    let mut h = H(0xcbf29ce484222325);
    let _ = write!(h, "{:?}", m);
    h.0
}
/// The code under test stores locals one by one: keep the workload within memory.
fn modest(b: &[u8]) -> bool { let mut c = crate::dec::Cur::new(b); let _ = c.module(); c.locals <= 100_000 }
fn validation(m: &Module) -> String { format!("{:?}", crate::imp::validate(m)) }
fn clip(s: &str) -> String { s.chars().take(200).collect() }

/// Hands out its bytes through `dyn Iterator` with an uninformative size hint.
struct Lazy<'a> { b: &'a [u8], p: usize }
impl<'a> Iterator for Lazy<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> { let x = self.b.get(self.p).copied(); self.p += x.is_some() as usize; x }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, None) }
}
/// Has its own nth/fold/count, as adaptors may.
struct Own<'a> { b: &'a [u8] }
impl<'a> Iterator for Own<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> { let (f, r) = self.b.split_first()?; self.b = r; Some(*f) }
    fn nth(&mut self, n: usize) -> Option<u8> { if n >= self.b.len() { self.b = &[]; return None; } self.b = &self.b[n..]; self.next() }
    fn count(self) -> usize { self.b.len() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.b.len(), Some(self.b.len())) }
}

pub const KINDS: usize = 14;
pub fn via(kind: usize, b: &[u8]) -> Result<Module, PErr> {
    match kind {
        0 => { let mut s = Src::new(b); s.parse() }
        1 => b.iter().copied().parse(),
        2 => b.to_vec().into_iter().parse(),
        3 => b.iter().copied().peekable().parse(),
        4 => { let k = b.len() / 3; b[..k].iter().copied().chain(b[k..].iter().copied()).parse() }
        5 => { let mut d: Box<dyn Iterator<Item = u8>> = Box::new(Lazy { b, p: 0 }); (&mut d).parse() }
        6 => { let mut v: std::collections::VecDeque<u8> = b.iter().copied().collect(); v.rotate_left(b.len() / 2); v.rotate_right(b.len() / 2); v.into_iter().parse() }
        7 => std::io::Cursor::new(b).bytes().map(|x| x.unwrap()).parse(),
        8 => b.chunks(3).flat_map(|c| c.to_vec()).parse(),
        9 => b.iter().copied().fuse().skip(0).parse(),
        10 => { let mut i = b.iter().copied(); let mut j = &mut i; (&mut j).parse() }
        11 => { let mut k = 0; std::iter::from_fn(|| { let x = b.get(k).copied(); k += 1; x }).parse() }
        12 => Own { b }.parse(),
        _ => { let t: Vec<u8> = b.iter().chain(b"trailing".iter()).copied().collect(); let mut i = t.into_iter(); let r = i.by_ref().take(b.len()).parse(); r }
    }
}

pub fn digest(kind: usize, b: &[u8]) -> Result<u64, String> { guard(|| finish(via(kind, b)))? }

/// data: bytes of one module
pub fn judge(b: &[u8]) -> J {
    if !modest(b) { count("skipped: too many locals to expand", 1); return J::ok(false); }
    let d = match digest(0, b) { Ok(d) => d, Err(e) => return J::bad(e) };
    for k in 1..KINDS {
        match digest(k, b) {
            Ok(x) if x == d => {}
            Ok(_) => return J::bad(format!("the result through iterator kind {} differs", k)),
            Err(e) => return J::bad(format!("iterator kind {}: {}", k, e)),
        }
    }
    count("runs through further iterator kinds", KINDS as u64 - 1);
    let mut j = J::ok(true);
    j.note = Some(format!("{:016x}", d));
    j
}

/// data: several modules, each prefixed by its length (u32 le): histories and threads
pub fn history(d: &[u8]) -> J {
    let mut ms: Vec<&[u8]> = vec![];
    let mut p = 0;
    while p + 4 <= d.len() {
        let n = u32::from_le_bytes([d[p], d[p + 1], d[p + 2], d[p + 3]]) as usize;
        if p + 4 + n > d.len() { break; }
        ms.push(&d[p + 4..p + 4 + n]);
        p += 4 + n;
    }
    ms.retain(|m| modest(m));
    if ms.is_empty() { return J::ok(false); }
    let mut want = vec![];
    for m in &ms { match digest(0, m) { Ok(d) => want.push(d), Err(e) => return J::bad(e) } }
    let n = ms.len();
    // other orders, and modules kept alive while others are processed
    for step in 1..n.min(6) {
        for i in 0..n {
            let k = (i * (2 * step + 1) + step) % n;
            match digest(step % KINDS, ms[k]) { Ok(d) if d == want[k] => {}, Ok(_) => return J::bad(format!("module {} gave another result after others were processed", k)), Err(e) => return J::bad(e) }
        }
    }
    let r = guard(|| {
        let kept: Vec<_> = ms.iter().map(|m| { let mut s = Src::new(m); s.parse::<Module>() }).collect();
        let mut out = vec![];
        for r in kept.into_iter().rev() { out.push(finish(r)); }
        out.reverse();
        out
    });
    match r {
        Err(e) => return J::bad(e),
        Ok(v) => for (k, x) in v.into_iter().enumerate() { match x { Ok(d) if d == want[k] => {}, Ok(_) => return J::bad(format!("module {} gave another result when validated after others were parsed", k)), Err(e) => return J::bad(e) } },
    }
    // interleaved reading from two sources at once, element by element, on several threads
    let bad = std::sync::Mutex::new(None::<String>);
    let gate = std::sync::Barrier::new(4);
    std::thread::scope(|s| {
        for t in 0..4usize {
            let (ms, want, bad, gate) = (&ms, &want, &bad, &gate);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                gate.wait();
                for round in 0..3 {
                    for i in 0..ms.len() {
                        let k = if t % 2 == 0 { i } else { (i + t + round) % ms.len() };
                        match digest((t * 3 + round) % KINDS, ms[k]) {
                            Ok(d) if d == want[k] => {}
                            Ok(_) => { bad.lock().unwrap().get_or_insert(format!("module {} gave another result on a concurrent thread", k)); }
                            Err(e) => { bad.lock().unwrap().get_or_insert(e); }
                        }
                    }
                }
            }).unwrap();
        }
    });
    if let Some(e) = bad.into_inner().unwrap() { return J::bad(e); }
    // one parsed module shared between threads
    let m = guard(|| { let mut s = Src::new(ms[0]); s.parse::<Module>() });
    if let Ok(Ok(m)) = m {
        let v = guard(|| validation(&m)).unwrap_or_default();
        let same = std::thread::scope(|s| {
            let h: Vec<_> = (0..3).map(|_| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || guard(|| validation(&m)).unwrap_or_default() == v).unwrap()).collect();
            h.into_iter().all(|h| h.join().unwrap_or(false))
        });
        if !same { return J::bad("validating one module on several threads gave different results"); }
    }
    count("histories", 1);
    let mut j = J::ok(true);
    j.evals = (n * 8) as u64;
    j.note = Some(format!("{:016x}", want.iter().fold(0u64, |a, x| a.rotate_left(7) ^ x)));
    j
}
