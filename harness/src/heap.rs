//! C05: heap use against the size of the input.
use crate::dec::Cur;
use crate::judge::J;
use crate::mon::{count, guard, peak_of, Src};
use crate::rast::*;
use whasm::binary::WasmBinary;
use whasm::structure::module::Module;
use whasm::validation::ValidationEntry;

/// Size of the input as the property counts it: bytes, declared locals, and
/// signature entries each time a signature is used.
pub fn size(b: &[u8]) -> (u64, u64) {
    let mut c = Cur::new(b);
    let r = c.module();
    let mut uses = 0u64;
    if let Ok(m) = r {
        let len = |t: u32| m.types.get(t as usize).map_or(0, |f| (f.params.len() + f.results.len()) as u64);
        let mut ft = vec![];
        for i in &m.imports { if let IDesc::Func(t) = i.desc { uses += len(t); ft.push(t); } }
        for f in &m.funcs { uses += len(f.ty); ft.push(f.ty); }
        let of = |i: u32| ft.get(i as usize).map_or(0, |t| len(*t));
        for e in &m.exports { if e.kind == 0 { uses += of(e.idx); } }
        for e in &m.elems { for i in &e.init { uses += of(*i); } }
        for f in &m.funcs { for i in &f.body { match (i.op, &i.imm) { (0x10, Imm::Idx(k)) => uses += of(*k), (0x11, Imm::Idx2(t, _)) => uses += len(*t), _ => {} } } }
        if let Some(s) = m.start { uses += of(s); }
    }
    (c.locals, uses)
}

pub fn judge(b: &[u8]) -> J {
    let (locals, uses) = size(b);
    if locals > crate::judge::MANY { return J::ok(false); }
    let bound = (256 << 10) + 1024 * (b.len() as u64 + locals + uses);
    let (r, peak) = peak_of(|| guard(|| {
        let mut s = Src::new(b);
        match s.parse::<Module>() { Ok(m) => { let v = m.validate().is_ok(); (1 + v as u8, s.past) } Err(_) => (0, s.past) }
    }));
    match r {
        Err(e) => return J::bad(e),
        Ok((k, past)) => {
            count(["malformed", "parsed, invalid", "valid"][k as usize], 1);
            if past > 64 + b.len() { return J::bad(format!("the input was asked for more {} times after its end ({} bytes)", past, b.len())); }
        }
    }
    if peak as u64 > bound { return J::bad(format!("{} bytes of heap for {} bytes of input with {} locals and {} signature entries", peak, b.len(), locals, uses)); }
    count("heap bytes in total", peak as u64);
    let mut j = J::ok(true);
    j.ratio = peak as f64 / (b.len() as u64 + locals + uses).max(1024) as f64;
    j
}

#[inline(never)]
#[no_mangle]
pub extern "C" fn wh_measured(p: *const u8, n: usize) -> u32 {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    match b.iter().copied().parse::<Module>() { Ok(m) => 1 + m.validate().is_ok() as u32, Err(_) => 0 }
}
