//! Judges that drive single readers of the public API (C01, C07, C16, C17, C22, C24).
use crate::dec::{Cur, DErr};
use crate::imp::{self, PErr};
use crate::judge::{err_fits, J};
use crate::leb::{self, Leb};
use crate::mon::{count, guard, hex, Src};
use crate::pool::Pool;
use crate::rast::*;
use crate::rng::Rng;
use crate::utf8;
use std::cell::{Cell, RefCell};
use whasm::binary::{Consume, Sized};
use whasm::binary::{CompactVec, UnwrappingVec};
use whasm::binary::{Byte, WasmBinary, WasmBinaryParse, WasmBinaryParseProxy};
use whasm::structure::{instr, module, ty};

// ---------------------------------------------------------------- C01

pub const INT_NAMES: [&str; 8] = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"];
pub fn int_shape(t: usize) -> (usize, bool) { ([8, 16, 32, 64][t % 4], t >= 4) }

/// value as two's complement in the low bits
fn read_int(t: usize, s: &mut Src) -> Result<u64, PErr> {
    Ok(match t {
        0 => s.parse::<u8>()? as u64,
        1 => s.parse::<u16>()? as u64,
        2 => s.parse::<u32>()? as u64,
        3 => s.parse::<u64>()?,
        4 => s.parse::<i8>()? as u8 as u64,
        5 => s.parse::<i16>()? as u16 as u64,
        6 => s.parse::<i32>()? as u32 as u64,
        _ => s.parse::<i64>()? as u64,
    })
}
pub fn int(t: usize, b: &[u8]) -> J {
    let (bits, signed) = int_shape(t);
    let mut s = Src::new(b);
    let got = match guard(|| read_int(t, &mut s)) { Ok(g) => g, Err(e) => return J::bad(format!("{} from {}: {}", INT_NAMES[t], hex(b), e)) };
    let want = leb::decode(b, bits, signed);
    let fine = match (&want, &got) {
        (Leb::Ok(v, n), Ok(g)) => v == g && s.p == *n,
        (Leb::OutOfRange, Err(e)) => if signed { matches!(e, PErr::OutOfRangeSignedInteger) } else { matches!(e, PErr::OutOfRangeUnsignedInteger) },
        (Leb::Eof, Err(e)) => matches!(e, PErr::UnexpectedEndOfFile),
        (Leb::EofOrRange, Err(e)) => matches!(e, PErr::UnexpectedEndOfFile | PErr::OutOfRangeSignedInteger | PErr::OutOfRangeUnsignedInteger),
        _ => false,
    };
    if !fine { return J::bad(format!("{} from {}: expected {:?}, got {:?} with {} bytes consumed", INT_NAMES[t], hex(b), want, got, s.p)); }
    J::ok(true)
}
/// data: type, then stream
pub fn int_case(d: &[u8]) -> J { if d.is_empty() { return J::ok(false); } int((d[0] % 8) as usize, &d[1..]) }
/// data: type, first byte: all streams of up to 3 bytes that start with it
pub fn int_short(d: &[u8]) -> J {
    let t = (d[0] % 8) as usize;
    let mut j = J::batch();
    fn go(t: usize, b: &[u8], j: &mut J) { let mut c = vec![t as u8]; c.extend(b); let x = int(t, b); j.add("int", &c, x); }
    if d[1] == 0 { go(t, &[], &mut j); }
    go(t, &[d[1]], &mut j);
    for b in 0..=255u8 {
        go(t, &[d[1], b], &mut j);
        if b & 0x80 == 0 && d[1] & 0x80 == 0 { continue; } // the third byte cannot matter
        for c in 0..=255u8 { go(t, &[d[1], b, c], &mut j); }
        if j.bad.is_some() { break; }
    }
    count("streams of at most 3 bytes", j.evals);
    j
}
/// data: type, length, fill: the last two bytes vary over everything
pub fn int_tail(d: &[u8]) -> J {
    let (t, len, fill) = ((d[0] % 8) as usize, d[1] as usize, d[2] | 0x80);
    let mut j = J::batch();
    let mut c = vec![t as u8];
    c.extend(vec![fill; len]);
    c.extend([0, 0, 0x55]);
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            c[len + 1] = a;
            c[len + 2] = b;
            let x = int(t, &c[1..]);
            j.add("int", &c, x);
        }
        if j.bad.is_some() { break; }
    }
    j
}
pub fn int_random(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let t = r.below(8);
    let (bits, signed) = int_shape(t);
    let mut b = vec![];
    // mostly near a boundary of some width
    if signed || r.chance(1, 8) {
        let v = match r.below(3) { 0 => p.i64(r), 1 => { let k = r.range(0, 63); (1i64.wrapping_shl(k as u32)).wrapping_mul(if r.chance(1, 2) { -1 } else { 1 }).wrapping_add(r.below(5) as i64 - 2) } _ => { let h = 1i128 << (bits - 1); let x = if r.chance(1, 2) { h } else { -h } + r.below(7) as i128 - 3; x as i64 } };
        leb::enc_s(v, &mut b);
    } else {
        let v = match r.below(3) { 0 => p.i64(r) as u64, 1 => (1u64 << r.below(64)).wrapping_add(r.below(5) as u64).wrapping_sub(2), _ => { let h = 1u128 << bits; (h + r.below(7) as u128 - 3) as u64 } };
        leb::enc_u(v, &mut b);
    }
    match r.below(8) {
        0 | 1 => { let n = p.size(r, 12, 400); leb::pad(&mut b, n, signed); }
        2 => { let n = r.range(1, 12); leb::pad(&mut b, n, signed); let k = r.below(b.len()); b[k] ^= 1 << r.below(7); }
        3 => { let k = r.below(b.len() + 1); b.truncate(k); }
        4 => { let n = r.range(1, 14); b = (0..n).map(|_| r.byte() | 0x80).collect(); if r.chance(2, 3) { b.push(r.byte() & 0x7F); } }
        _ => {}
    }
    for _ in 0..r.below(3) { b.push(r.byte()); }
    b.insert(0, t as u8);
    b
}

// ---------------------------------------------------------------- C16

fn f32_case(b: &[u8]) -> Option<String> {
    let mut s = Src::new(b);
    let g = match guard(|| s.parse::<f32>().map(|f| f.to_bits())) { Ok(g) => g, Err(e) => return Some(e) };
    if b.len() >= 4 {
        let w = b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24;
        if g != Ok(w) || s.p != 4 { return Some(format!("f32 from {}: expected {:08x}, got {:x?}, {} bytes consumed", hex(b), w, g, s.p)); }
    } else if !matches!(g, Err(PErr::UnexpectedEndOfFile)) { return Some(format!("f32 from {}: got {:x?}", hex(b), g)); }
    None
}
fn f64_case(b: &[u8]) -> Option<String> {
    let mut s = Src::new(b);
    let g = match guard(|| s.parse::<f64>().map(|f| f.to_bits())) { Ok(g) => g, Err(e) => return Some(e) };
    if b.len() >= 8 {
        let mut w = 0u64;
        for i in (0..8).rev() { w = w * 256 + b[i] as u64; }
        if g != Ok(w) || s.p != 8 { return Some(format!("f64 from {}: expected {:016x}, got {:x?}, {} bytes consumed", hex(b), w, g, s.p)); }
    } else if !matches!(g, Err(PErr::UnexpectedEndOfFile)) { return Some(format!("f64 from {}: got {:x?}", hex(b), g)); }
    None
}
/// The same constants inside instructions, global initialisers and offsets.
pub fn float_module(w32: u32, w64: u64) -> RModule {
    RModule {
        types: vec![FT::default()],
        globals: vec![
            RGlobal { vt: VT::F32, mutable: false, init: vec![RI { op: 0x43, imm: Imm::F32(w32) }, RI::end()] },
            RGlobal { vt: VT::F64, mutable: false, init: vec![RI { op: 0x44, imm: Imm::F64(w64) }, RI::end()] },
        ],
        funcs: vec![RFunc { ty: 0, locals: vec![], body: vec![
            RI { op: 0x44, imm: Imm::F64(w64) }, RI { op: 0x43, imm: Imm::F32(w32) }, RI::op(0x1A), RI::op(0x1A),
            RI::blk(2, None), RI { op: 0x43, imm: Imm::F32(!w32) }, RI::op(0x1A), RI { op: 0x44, imm: Imm::F64(!w64) }, RI::op(0x1A), RI::end(), RI::end(),
        ] }],
        ..Default::default()
    }
}
/// data: 12 bytes of pattern
pub fn float(d: &[u8]) -> J {
    let mut j = J::batch();
    let one = |m: Option<String>| -> J { match m { Some(m) => J::bad(m), None => J::ok(true) } };
    let mut long = d.to_vec();
    long.extend([0xAA, 0x55]);
    for n in 0..=d.len().min(4) { j.add("float", d, one(f32_case(&d[..n]))); }
    for n in 0..=d.len().min(8) { j.add("float", d, one(f64_case(&d[..n]))); }
    j.add("float", d, one(f32_case(&long)));
    j.add("float", d, one(f64_case(&long)));
    if d.len() >= 12 {
        let w32 = u32::from_le_bytes([d[8], d[9], d[10], d[11]]);
        let mut w64 = 0u64;
        for i in 0..8 { w64 |= (d[i] as u64) << (8 * i); }
        let m = float_module(w32, w64);
        let b = crate::enc::encode(&m);
        let x = crate::judge::module(&b, crate::judge::asp::ACC | crate::judge::asp::CONTENT);
        j.add("float", d, x);
        // and arrays / vectors of floats
        let mut v = vec![3u8];
        for _ in 0..3 { v.extend(w32.to_le_bytes()); }
        let mut s = Src::new(&v);
        match guard(|| s.parse::<Vec<f32>>().map(|x| x.iter().map(|f| f.to_bits()).collect::<Vec<_>>())) {
            Ok(Ok(x)) if x == vec![w32; 3] => {}
            o => j.add("float", d, J::bad(format!("vector of f32 {:08x}: {:x?}", w32, o))),
        }
        let a: Vec<u8> = w64.to_le_bytes().iter().chain(w64.swap_bytes().to_le_bytes().iter()).copied().collect();
        let mut s = Src::new(&a);
        match guard(|| s.parse::<[f64; 2]>().map(|x| [x[0].to_bits(), x[1].to_bits()])) {
            Ok(Ok(x)) if x == [w64, w64.swap_bytes()] => {}
            o => j.add("float", d, J::bad(format!("array of f64 {:016x}: {:x?}", w64, o))),
        }
    }
    j
}
pub fn float_random(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut d = p.f64(r).to_le_bytes().to_vec();
    d.extend(p.f32(r).to_le_bytes());
    d
}
/// data: high byte, stride (u32 le): f32 patterns with that high byte
pub fn float_sweep(d: &[u8]) -> J {
    let mut j = J::batch();
    let stride = u32::from_le_bytes([d[1], d[2], d[3], d[4]]).max(1);
    let off = u32::from_le_bytes([d[5], d[6], d[7], d[8]]) % stride;
    let mut x = off;
    while x < 1 << 24 {
        let b = (x | (d[0] as u32) << 24).to_le_bytes();
        j.evals += 1;
        j.nontrivial += 1;
        if let Some(m) = f32_case(&b) { j.bad = Some(m); j.replay = Some(("float", b.to_vec())); return j; }
        x += stride;
    }
    j
}

// ---------------------------------------------------------------- C17

fn string_case(b: &[u8], declared: usize, rest: &[u8]) -> Option<String> {
    let mut v = vec![];
    leb::enc_u(declared as u64, &mut v);
    let pre = v.len();
    v.extend(b);
    v.extend(rest);
    let mut s = Src::new(&v);
    let g = match guard(|| s.parse::<String>()) { Ok(g) => g, Err(e) => return Some(format!("name {}: {}", hex(b), e)) };
    let have = &v[pre..];
    if have.len() < declared {
        return if g.is_err() { None } else { Some(format!("name of declared length {} from {} bytes: {:?}", declared, have.len(), g)) };
    }
    let body = &have[..declared];
    match (utf8::valid(body), g) {
        (true, Ok(x)) if x.as_bytes() == body && s.p == pre + declared => None,
        (false, Err(PErr::InvalidUtf8Encoding)) => None,
        (v, g) => Some(format!("name {} ({}valid): got {:?}, {} of {} bytes consumed", hex(body), if v { "" } else { "in" }, g.map(|x| hex(x.as_bytes())), s.p, pre + declared)),
    }
}
/// data: the name. Read on its own and in all name positions of a module.
pub fn name(d: &[u8]) -> J {
    let mut j = J::batch();
    let one = |m: Option<String>| -> J { match m { Some(m) => J::bad(m), None => J::ok(true) } };
    j.add("name", d, one(string_case(d, d.len(), &[])));
    j.add("name", d, one(string_case(d, d.len(), &[0x41, 0x80, 0xBF])));
    if !d.is_empty() { j.add("name", d, one(string_case(d, d.len() - 1, &[]))); j.add("name", d, one(string_case(d, d.len() + 1, &[]))); }
    for m in name_modules(d) { let x = crate::judge::module(&m, crate::judge::asp::ACC | crate::judge::asp::CONTENT | crate::judge::asp::ERR); j.add("name", d, x); }
    j
}
pub fn name_modules(d: &[u8]) -> Vec<Vec<u8>> {
    let base = RModule { types: vec![FT::default()], imports: vec![RImport { module: b"a".to_vec(), name: b"b".to_vec(), desc: IDesc::Func(0) }], exports: vec![RExport { name: b"c".to_vec(), kind: 0, idx: 0 }], ..Default::default() };
    let mut v = vec![];
    let mut m = base.clone(); m.imports[0].module = d.to_vec(); v.push(crate::enc::encode(&m));
    let mut m = base.clone(); m.imports[0].name = d.to_vec(); v.push(crate::enc::encode(&m));
    let mut m = base.clone(); m.exports[0].name = d.to_vec(); v.push(crate::enc::encode(&m));
    let mut e = crate::enc::Enc::plain();
    let mut s = e.sections(&base);
    let mut c = vec![];
    leb::enc_u(d.len() as u64, &mut c);
    c.extend(d);
    c.extend([1, 2, 0xFF]);
    s.insert(1, (0, c));
    v.push(e.assemble(&s));
    v
}
/// data: first byte: all strings of 1..=3 bytes starting with it
pub fn name_short(d: &[u8]) -> J {
    let mut j = J::batch();
    fn go(b: &[u8], j: &mut J) {
        j.evals += 1;
        j.nontrivial += 1;
        if let Some(m) = string_case(b, b.len(), &[]) { if j.bad.is_none() { j.bad = Some(m); j.replay = Some(("name", b.to_vec())); } }
    }
    go(&[d[0]], &mut j);
    for a in 0..=255u8 { go(&[d[0], a], &mut j); for b in 0..=255u8 { go(&[d[0], a, b], &mut j); } if j.bad.is_some() { return j; } }
    // four-byte sequences around every boundary of the continuation bytes
    if d[0] >= 0xC0 {
        let e = [0x00, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x91, 0x9F, 0xA0, 0xA1, 0xBF, 0xC0, 0xFF];
        for a in 0..=255u8 { for b in e { for c in e { go(&[d[0], a, b, c], &mut j); go(&[b'x', d[0], a, b, c, b'y'], &mut j); } } }
        // every code point of the lead byte
        for a in 0x80..=0xBFu8 { for b in (0x80..=0xBFu8).step_by(3) { for c in 0x80..=0xBFu8 { go(&[d[0], a, b, c], &mut j); } } }
    }
    count("exhaustive short strings", j.evals);
    j
}
pub fn name_random(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut n = vec![];
    for _ in 0..r.below(6) { n.extend(p.name(r)); }
    match r.below(4) {
        0 => {}
        1 => { let at = r.below(n.len() + 1); n.insert(at, r.byte()); }
        2 if !n.is_empty() => { let at = r.below(n.len()); n[at] = r.byte(); }
        _ if !n.is_empty() => { let k = r.below(n.len()); n.truncate(k); }
        _ => {}
    }
    if r.chance(1, 20) { let k = p.size(r, 300, 5000); let mut v: Vec<u8> = "é".repeat(k / 2).into_bytes(); v.extend(n); n = v; }
    n
}
/// data: length (u32 le), position of an invalid byte (u32 le): long names
pub fn name_long(d: &[u8]) -> J {
    let n = u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as usize;
    let k = u32::from_le_bytes([d[4], d[5], d[6], d[7]]) as usize;
    let mut v: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    let mut j = J::batch();
    let one = |m: Option<String>| -> J { match m { Some(mut m) => { m.truncate(300); J::bad(m) }, None => J::ok(true) } };
    j.add("name long", d, one(string_case(&v, n, &[7])));
    if n > 0 {
        let k = k % n;
        v[k] = 0xE2; // truncated three-byte sequence
        j.add("name long", d, one(string_case(&v, n, &[7])));
        if k + 3 <= n { v[k..k + 3].copy_from_slice("€".as_bytes()); j.add("name long", d, one(string_case(&v, n, &[7]))); }
        if k + 2 <= n { v[k] = 0xC3; v[k + 1] = 0x28; j.add("name long", d, one(string_case(&v, n, &[7]))); }
    }
    for m in name_modules(&v) { let x = crate::judge::module(&m, crate::judge::asp::ACC | crate::judge::asp::CONTENT); j.add("name long", d, x); }
    j
}

// ---------------------------------------------------------------- C07 and C24: element readers

#[derive(Clone, Debug, PartialEq)]
pub enum Val { U(u64), Bits(u64), S(Vec<u8>), V(Vec<Val>), T(VT), Ft(FT), L(Lim), G(VT, bool), Ins(Vec<RI>), Imp(RImport), Exp(RExport), Fun(RFunc), Glo(RGlobal), El(RElem), Da(RData), Unit, Count(usize) }

/// The element readers that are driven one by one: name, whasm reader, reference reader.
pub struct Elem { pub name: &'static str, pub imp: fn(&mut Src) -> Result<Val, PErr>, pub refr: fn(&mut Cur) -> Result<Val, DErr> }

fn one_instr(c: &mut Cur) -> Result<Val, DErr> {
    // an instruction together with what it encloses
    let i = c.instr()?;
    match i.op {
        0x05 => return Err(DErr::Else),
        0x02..=0x04 => {
            let mut v = vec![i.clone()];
            let mut open = vec![i.op == 4];
            while !open.is_empty() {
                let k = c.instr()?;
                match k.op { 2 | 3 => open.push(false), 4 => open.push(true), 5 => { if !*open.last().unwrap() { return Err(DErr::Else); } *open.last_mut().unwrap() = false; } 0x0B => { open.pop(); } _ => {} }
                v.push(k);
            }
            Ok(Val::Ins(norm_body(&v)))
        }
        // a bare `end` is no instruction of its own
        0x0B => Err(DErr::Else),
        _ => Ok(Val::Ins(vec![i])),
    }
}

macro_rules! el { ($n:expr, $t:ty, |$x:ident| $e:expr, |$c:ident| $r:expr) => { Elem { name: $n, imp: |s| { let $x = s.parse::<$t>()?; Ok($e) }, refr: |$c| $r } } }

pub fn elems() -> Vec<Elem> {
    vec![
        el!("u32", u32, |x| Val::U(x as u64), |c| Ok(Val::U(c.u32()? as u64))),
        el!("i32", i32, |x| Val::U(x as u32 as u64), |c| Ok(Val::U(c.i32()? as u32 as u64))),
        el!("i64", i64, |x| Val::U(x as u64), |c| Ok(Val::U(c.i64()? as u64))),
        el!("byte", Byte, |x| Val::U(x.0 as u64), |c| Ok(Val::U(c.byte()? as u64))),
        el!("name", String, |x| Val::S(x.into_bytes()), |c| Ok(Val::S(c.name()?))),
        el!("bytes", Vec<Byte>, |x| Val::S(x.iter().map(|b| b.0).collect()), |c| Ok(Val::S(c.vec(|c| c.byte())?))),
        el!("u32 list", Vec<u32>, |x| Val::V(x.iter().map(|b| Val::U(*b as u64)).collect()), |c| Ok(Val::V(c.vec(|c| Ok(Val::U(c.u32()? as u64)))?))),
        el!("value type", ty::Val, |x| Val::T(imp::vt(&x)), |c| Ok(Val::T(c.vt()?))),
        el!("function type", ty::Func, |x| Val::Ft(imp::ft(&x)), |c| Ok(Val::Ft(c.functype()?))),
        el!("limits", ty::Limits, |x| Val::L(imp::lim(&x)), |c| Ok(Val::L(c.limits()?))),
        el!("memory type", ty::Mem, |x| Val::L(imp::lim(&x.lim)), |c| Ok(Val::L(c.limits()?))),
        el!("table type", ty::Table, |x| Val::L(imp::lim(&x.lim)), |c| Ok(Val::L(c.tabletype()?))),
        el!("global type", ty::Global, |x| Val::G(imp::vt(&x.val), imp::mutable(&x.mt)), |c| { let (a, b) = c.globaltype()?; Ok(Val::G(a, b)) }),
        el!("instruction", instr::Instr, |x| { let mut f = imp::flat(std::slice::from_ref(&x)); f.pop(); Val::Ins(norm_body(&f)) }, |c| one_instr(c)),
        el!("expression", instr::Expr, |x| Val::Ins(norm_body(&imp::flat(&x.0))), |c| Ok(Val::Ins(norm_body(&c.expr()?)))),
        el!("import", module::Import, |x| Val::Imp(imp::conv_import(&x)), |c| Ok(Val::Imp(c.import()?))),
        el!("export", module::Export, |x| Val::Exp(imp::conv_export(&x)), |c| Ok(Val::Exp(c.export()?))),
        el!("function body", module::Func, |x| { let mut f = imp::conv_func(&x); f.body = norm_body(&f.body); Val::Fun(f) }, |c| { let mut f = c.code()?; f.body = norm_body(&f.body); f.locals = norm_locals(&f.locals).into_iter().map(|(n, t)| (n as u32, t)).collect(); Ok(Val::Fun(f)) }),
        el!("data segment", module::Data, |x| Val::Da(imp::conv_data(&x)), |c| { let mem = c.u32()?; let offset = norm_body(&c.expr()?); let init = c.vec(|c| c.byte())?; Ok(Val::Da(RData { mem, offset, init })) }),
        el!("element segment", module::Elem, |x| Val::El(imp::conv_elem(&x)), |c| { let table = c.u32()?; let offset = norm_body(&c.expr()?); Ok(Val::El(RElem { table, offset, init: c.vec(|c| c.u32())? })) }),
        el!("global", module::Global, |x| Val::Glo(imp::conv_global(&x)), |c| { let (vt, mutable) = c.globaltype()?; Ok(Val::Glo(RGlobal { vt, mutable, init: norm_body(&c.expr()?) })) }),
        el!("nothing", [Byte; 0], |x| { let _ = x; Val::Unit }, |c| { let _ = c; Ok(Val::Unit) }),
        el!("three bytes", [Byte; 3], |x| Val::S(x.iter().map(|b| b.0).collect()), |c| Ok(Val::S(vec![c.byte()?, c.byte()?, c.byte()?]))),
        el!("sized u32", Sized<u32>, |x| Val::U(x.unwrap() as u64), |c| c.sized(|c| Ok(Val::U(c.u32()? as u64)))),
        el!("sized name", Sized<String>, |x| Val::S(x.unwrap().into_bytes()), |c| c.sized(|c| Ok(Val::S(c.name()?)))),
        el!("sized sized bytes", Sized<Sized<Vec<Byte>>>, |x| Val::S(x.unwrap().unwrap().iter().map(|b| b.0).collect()), |c| c.sized(|c| c.sized(|c| Ok(Val::S(c.vec(|c| c.byte())?))))),
        el!("list of sized bytes", UnwrappingVec<Sized<Vec<Byte>>>, |x| Val::V(x.unwrap().into_iter().map(|v| Val::S(v.iter().map(|b| b.0).collect())).collect()), |c| Ok(Val::V(c.vec(|c| c.sized(|c| Ok(Val::S(c.vec(|c| c.byte())?))))?))),
        el!("sized expression", Sized<instr::Expr>, |x| Val::Ins(norm_body(&imp::flat(&x.unwrap().0))), |c| c.sized(|c| Ok(Val::Ins(norm_body(&c.expr()?))))),
        el!("sized function body", Sized<module::Func>, |x| { let mut f = imp::conv_func(&x.unwrap()); f.body = norm_body(&f.body); Val::Fun(f) }, |c| c.sized(|c| { let mut f = c.code()?; f.body = norm_body(&f.body); f.locals = norm_locals(&f.locals).into_iter().map(|(n, t)| (n as u32, t)).collect(); Ok(Val::Fun(f)) })),
        el!("sized skip", Sized<Consume>, |x| Val::Count(x.unwrap().count), |c| c.sized(|c| { let n = c.end - c.p; c.p = c.end; Ok(Val::Count(n)) })),
        el!("sized types", Sized<Vec<ty::Func>>, |x| Val::V(x.unwrap().iter().map(|f| Val::Ft(imp::ft(f))).collect()), |c| c.sized(|c| Ok(Val::V(c.vec(|c| Ok(Val::Ft(c.functype()?)))?)))),
        el!("sized imports", Sized<Vec<module::Import>>, |x| Val::V(x.unwrap().iter().map(|f| Val::Imp(imp::conv_import(f))).collect()), |c| c.sized(|c| Ok(Val::V(c.vec(|c| Ok(Val::Imp(c.import()?)))?)))),
        el!("sized nothing", Sized<[Byte; 0]>, |x| { let _ = x.unwrap(); Val::Unit }, |c| c.sized(|_| Ok(Val::Unit))),
        el!("locals", CompactVec<ty::Val>, |x| Val::V(x.unwrap().iter().map(|v| Val::T(imp::vt(v))).collect()), |c| {
            let k = c.u32()?;
            let mut v = vec![];
            let mut total = 0u64;
            for _ in 0..k { let n = c.u32()?; let t = c.vt()?; total += n as u64; if total <= 1 << 20 { for _ in 0..n { v.push(Val::T(t)); } } }
            c.locals += total;
            if total > u32::MAX as u64 { return Err(DErr::Locals); }
            Ok(Val::V(v))
        }),
    ]
}

thread_local! { static ELEMS: Vec<Elem> = elems(); }
pub fn n_elems() -> usize { ELEMS.with(|e| e.len()) }
pub fn elem_name(k: usize) -> &'static str { ELEMS.with(|e| e[k].name) }

/// data: reader number, stream
pub fn element(d: &[u8]) -> J {
    if d.is_empty() { return J::ok(false); }
    ELEMS.with(|es| {
        let e = &es[d[0] as usize % es.len()];
        let b = &d[1..];
        // a bare `end` or `else` is a delimiter; what reading it as an instruction gives is left open
        let open = e.name == "instruction" && matches!(b.first(), Some(5 | 0x0B));
        let mut c = Cur::new(b);
        let want = (e.refr)(&mut c);
        if c.locals > 1 << 20 { return J::ok(false); }
        let mut s = Src::new(b);
        let got = match guard(|| (e.imp)(&mut s)) { Ok(g) => g, Err(m) => return J::bad(format!("{} from {}: {}", e.name, hex(b), m)) };
        if open { return J::ok(false); }
        match (&want, &got) {
            (Ok(w), Ok(g)) => {
                count("read", 1);
                if w != g { return J::bad(clip(format!("{} from {}: expected {:?}, got {:?}", e.name, hex(b), w, g))); }
                if c.p != s.p { return J::bad(format!("{} from {}: {} bytes belong to it, {} were taken", e.name, hex(b), c.p, s.p)); }
                J::ok(true)
            }
            (Err(w), Err(g)) => {
                count(&format!("rejected: {}", crate::judge::derr_name(w)), 1);
                if err_fits(w, g) == Some(false) { return J::bad(format!("{} from {}: fault {:?}, error {:?}", e.name, hex(b), w, g)); }
                // a failing frame takes nothing beyond its end
                if e.name.starts_with("sized") {
                    let mut h = Cur::new(b);
                    if let Ok(n) = h.u32() {
                        let end = h.p.saturating_add(n as usize);
                        if s.p > end { return J::bad(format!("{} from {}: frame ends at {}, {} bytes were taken", e.name, hex(b), end, s.p)); }
                    }
                }
                J::ok(true)
            }
            _ => J::bad(clip(format!("{} from {}: expected {:?}, got {:?}", e.name, hex(b), want, got))),
        }
    })
}
/// data: n, n readers, stream: the readers one after another on the same stream, until one fails
pub fn sequence(d: &[u8]) -> J {
    if d.is_empty() || d.len() < 1 + d[0] as usize { return J::ok(false); }
    let (ks, b) = d[1..].split_at(d[0] as usize);
    ELEMS.with(|es| {
        let mut c = Cur::new(b);
        let mut s = Src::new(b);
        let mut done = 0;
        for k in ks {
            let e = &es[*k as usize % es.len()];
            if e.name == "instruction" && matches!(b.get(c.p), Some(5 | 0x0B)) { break; }
            let from = c.p;
            let want = (e.refr)(&mut c);
            if c.locals > 1 << 20 { break; }
            let got = match guard(|| (e.imp)(&mut s)) { Ok(g) => g, Err(m) => return J::bad(format!("{} at {} of {}: {}", e.name, from, hex(b), m)) };
            match (&want, &got) {
                (Ok(w), Ok(g)) => {
                    if w != g { return J::bad(clip(format!("{} at {} of {}: expected {:?}, got {:?}", e.name, from, hex(b), w, g))); }
                    if c.p != s.p { return J::bad(format!("after {} at {} of {}: position {} instead of {}", e.name, from, hex(b), s.p, c.p)); }
                    done += 1;
                }
                (Err(w), Err(g)) => {
                    if err_fits(w, g) == Some(false) { return J::bad(format!("{} at {} of {}: fault {:?}, error {:?}", e.name, from, hex(b), w, g)); }
                    break;
                }
                _ => return J::bad(clip(format!("{} at {} of {}: expected {:?}, got {:?}", e.name, from, hex(b), want, got))),
            }
        }
        count("elements read in sequence", done);
        J::ok(done > 1)
    })
}
pub fn sequence_random(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let n = r.range(2, 9);
    let mut ks = vec![];
    let mut o: Vec<u8> = vec![];
    for i in 0..n {
        let k = r.below(n_elems());
        let mut b = element_random(p, r, k)[1..].to_vec();
        // mostly exactly one element, so that the next reader starts at its own
        for _ in 0..4 {
            let mut c = Cur::new(&b);
            if i + 1 == n || r.chance(1, 40) || ELEMS.with(|es| (es[k].refr)(&mut c).is_ok() && c.p == b.len()) { break; }
            b = element_random(p, r, k)[1..].to_vec();
        }
        ks.push(k as u8);
        o.extend(b);
    }
    let mut v = vec![n as u8];
    v.extend(ks);
    v.extend(o);
    v
}
fn clip(mut s: String) -> String { if s.len() > 700 { let mut n = 700; while !s.is_char_boundary(n) { n -= 1; } s.truncate(n); } s }

/// A stream that fits (or nearly fits) the reader `k`.
pub fn element_random(p: &Pool, r: &mut Rng, k: usize) -> Vec<u8> {
    let mut e = if r.chance(1, 3) { crate::enc::Enc::padded(r.u64(), 16, 4) } else { crate::enc::Enc::plain() };
    let mut o = vec![];
    let nm = elem_name(k);
    let small = |r: &mut Rng| -> Vec<RI> {
        let n = r.below(5);
        let mut v: Vec<RI> = (0..n).map(|_| { let t = gen_const(p, r); t }).collect();
        if r.chance(1, 3) { v.push(RI::blk(*r.pick(&[2u8, 3, 4]), None)); v.push(RI::op(1)); if v[v.len() - 2].op == 4 && r.chance(1, 2) { v.push(RI::op(5)); v.push(RI::op(0)); } v.push(RI::end()); }
        v.push(RI::end());
        v
    };
    let inner = |r: &mut Rng, e: &mut crate::enc::Enc, nm: &str| -> Vec<u8> {
        let mut o = vec![];
        match nm {
            "u32" => e.u(p.u32(r) as u64, &mut o),
            "i32" => e.s(p.i32(r) as i64, &mut o),
            "i64" => e.s(p.i64(r), &mut o),
            "name" => { let n = p.name(r); e.name(&n, &mut o) }
            "bytes" => { let n: Vec<u8> = (0..p.size(r, 8, 300)).map(|_| r.byte()).collect(); e.name(&n, &mut o) }
            "u32 list" => { let n = p.size(r, 6, 300); e.u(n as u64, &mut o); for _ in 0..n { e.u(p.u32(r) as u64, &mut o); } }
            "value type" => o.push(gen_vt(r).byte()),
            "function type" => { let f = FT { params: (0..p.size(r, 5, 300)).map(|_| gen_vt(r)).collect(), results: (0..r.below(3)).map(|_| gen_vt(r)).collect() }; e.ft(&f, &mut o) }
            "limits" | "memory type" => { let l = Lim { min: p.u32(r), max: if r.chance(1, 2) { Some(p.u32(r)) } else { None } }; e.lim(&l, &mut o) }
            "table type" => { o.push(0x70); let l = Lim { min: p.u32(r), max: if r.chance(1, 2) { Some(p.u32(r)) } else { None } }; e.lim(&l, &mut o) }
            "global type" => { o.push(gen_vt(r).byte()); o.push(r.below(2) as u8) }
            "instruction" => { let i = any(p, r); e.instr(&i, &mut o); if matches!(i.op, 2..=4) { o.push(0x0B); } }
            "expression" => { let b = small(r); e.body(&b, &mut o) }
            "import" => { let (a, b) = (p.name(r), p.name(r)); e.name(&a, &mut o); e.name(&b, &mut o); match r.below(4) { 0 => { o.push(0); e.u(p.u32(r) as u64, &mut o) } 1 => { o.extend([1, 0x70]); e.lim(&Lim { min: p.u32(r), max: Some(p.u32(r)) }, &mut o) } 2 => { o.push(2); e.lim(&Lim { min: p.u32(r), max: None }, &mut o) } _ => { o.extend([3, gen_vt(r).byte(), r.below(2) as u8]) } } }
            "export" => { let a = p.name(r); e.name(&a, &mut o); o.push(r.below(4) as u8); e.u(p.u32(r) as u64, &mut o) }
            "function body" => { let n = r.below(4); let f = RFunc { ty: 0, locals: (0..n).map(|_| (r.below(6) as u32, gen_vt(r))).collect(), body: small(r) }; o = e.code(&f) }
            "data segment" => { e.u(p.u32(r) as u64, &mut o); let b = small(r); e.body(&b, &mut o); let n: Vec<u8> = (0..r.below(9)).map(|_| r.byte()).collect(); e.name(&n, &mut o) }
            "element segment" => { e.u(p.u32(r) as u64, &mut o); let b = small(r); e.body(&b, &mut o); let n = r.below(6); e.u(n as u64, &mut o); for _ in 0..n { e.u(p.u32(r) as u64, &mut o) } }
            "global" => { o.push(gen_vt(r).byte()); o.push(r.below(2) as u8); let b = small(r); e.body(&b, &mut o) }
            "locals" => { let n = p.size(r, 5, 200); e.u(n as u64, &mut o); for _ in 0..n { e.u(r.below(40) as u64, &mut o); o.push(gen_vt(r).byte()) } }
            "types" => { let n = r.below(4); e.u(n as u64, &mut o); for _ in 0..n { let f = FT { params: (0..r.below(4)).map(|_| gen_vt(r)).collect(), results: vec![] }; e.ft(&f, &mut o) } }
            "imports" => { let n = r.below(3); e.u(n as u64, &mut o); for _ in 0..n { e.name(b"a", &mut o); e.name(b"", &mut o); o.extend([0, 3]) } }
            "skip" => { for _ in 0..p.size(r, 20, 300) { o.push(r.byte()) } }
            "nothing" => {}
            _ => { for _ in 0..r.below(5) { o.push(r.byte()) } }
        }
        o
    };
    let size = |r: &mut Rng, real: usize| -> usize { match r.below(6) { 0 => real + 1, 1 => real.saturating_sub(1), 2 => r.below(real + 4), 3 if r.chance(1, 4) => p.u32(r) as usize, _ => real } };
    if let Some(t) = nm.strip_prefix("sized ") {
        if t == "sized bytes" {
            let b = inner(r, &mut e, "bytes");
            let mut i = vec![];
            let n = size(r, b.len());
            e.u(n as u64, &mut i);
            i.extend(b);
            let n = size(r, i.len());
            e.u(n as u64, &mut o);
            o.extend(i);
        } else {
            let i = inner(r, &mut e, t);
            let n = size(r, i.len());
            e.u(n as u64, &mut o);
            o.extend(i);
        }
    } else if nm == "list of sized bytes" {
        let n = r.below(5);
        e.u(n as u64, &mut o);
        for _ in 0..n { let i = inner(r, &mut e, "bytes"); let k = if r.chance(1, 6) { size(r, i.len()) } else { i.len() }; e.u(k as u64, &mut o); o.extend(i); }
    } else {
        o = inner(r, &mut e, nm);
    }
    match r.below(8) { 0 => { let n = r.below(o.len() + 1); o.truncate(n); } 1 if !o.is_empty() => { let n = r.below(o.len()); o[n] = r.byte(); } _ => {} }
    for _ in 0..r.below(4) { o.push(if r.chance(1, 3) { 0x0B } else { r.byte() }); }
    o.insert(0, k as u8);
    o
}
fn gen_vt(r: &mut Rng) -> VT { *r.pick(&VTS) }
fn gen_const(p: &Pool, r: &mut Rng) -> RI { match r.below(5) { 0 => RI::i32c(p.i32(r)), 1 => RI { op: 0x42, imm: Imm::I64(p.i64(r)) }, 2 => RI { op: 0x43, imm: Imm::F32(p.f32(r)) }, 3 => RI { op: 0x44, imm: Imm::F64(p.f64(r)) }, _ => { let i = any(p, r); if matches!(i.op, 2..=5 | 0x0B) { RI::op(1) } else { i } } } }
fn any(p: &Pool, r: &mut Rng) -> RI {
    let c = crate::val::Ctx { types: vec![FT::default(); 3], funcs: vec![0; 3], tables: 1, mems: 1, globals: vec![(VT::I32, true); 3] };
    loop { let i = crate::gen::any_instr(p, r, &c, 4, 3); if !matches!(i.op, 5 | 0x0B) { return i; } }
}

/// data: reader number, offset position in a base stream: all 256 values of a tag byte
pub fn tag_sweep(d: &[u8]) -> J {
    let k = d[0] as usize;
    let at = d[1] as usize;
    let mut j = J::batch();
    let mut c = vec![d[0]];
    c.extend(&d[2..]);
    if at + 1 >= c.len() { return J::ok(false); }
    let _ = k;
    for v in 0..=255u8 { c[at + 1] = v; let x = element(&c); j.add("element", &c, x); }
    j
}
/// data: opcode: the opcode with a range of immediates, on its own and in a body
pub fn opcode(d: &[u8]) -> J {
    let op = d[0];
    let mut j = J::batch();
    let k = ELEMS.with(|e| e.iter().position(|x| x.name == "instruction").unwrap()) as u8;
    let x = ELEMS.with(|e| e.iter().position(|x| x.name == "expression").unwrap()) as u8;
    let tails: Vec<Vec<u8>> = vec![
        vec![], vec![0], vec![0, 0], vec![1, 2], vec![0x40, 0x0B], vec![0x7F, 0x0B], vec![0x7E, 0x01, 0x0B], vec![0x7D, 0x0B], vec![0x7C, 0x05, 0x0B], vec![0x40, 0x01, 0x05, 0x00, 0x0B],
        vec![0x40, 0x05, 0x05, 0x0B], vec![0x40], vec![0x41, 0x0B], vec![3, 1, 2, 3, 4, 9], vec![0x80, 0x80, 0, 0x81, 0x80, 0], vec![0xFF, 0xFF, 0xFF, 0xFF, 0x0F, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F, 1],
        vec![0xFF, 0xFF, 0xFF, 0xFF, 0x1F], vec![0xFF, 0xFF, 0xFF, 0xFF, 0x07], vec![0x80, 0x80, 0x80, 0x80, 0x78], vec![0x7F], vec![1, 2, 3, 4, 5, 6, 7, 8, 9], vec![0, 0, 0xC0, 0x7F, 0, 0, 0xF0, 0x7F],
        vec![0xFF; 8], vec![0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x7F], vec![0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0], vec![0x0B], vec![0x05],
        vec![5, 0, 6, 0], vec![0x80, 1, 0x80, 2], vec![0x70, 0], vec![0, 0x70, 0x0B],
    ];
    for t in &tails {
        for junk in [&[][..], &[0x0B], &[0x1A, 0x0B], &[0x00, 0x01, 0x0B, 0x0B]] {
            for q in [k, x] {
                let mut c = vec![q, op];
                c.extend(t);
                c.extend(junk);
                let r = element(&c);
                j.add("element", &c, r);
            }
        }
    }
    for b in 0..=255u8 {
        for q in [k, x] {
            for c in [vec![q, op, b], vec![q, op, b, 0x0B], vec![q, op, b, b, 0x0B, 0x0B]] { let r = element(&c); j.add("element", &c, r); }
        }
    }
    j
}

// ---------------------------------------------------------------- C22: containers over user types

thread_local! {
    static LOG: RefCell<Vec<(u8, u64)>> = RefCell::new(vec![]);
    static POS: Cell<usize> = Cell::new(0);
    static SEQ: Cell<u64> = Cell::new(0);
    static LIVE: RefCell<std::collections::BTreeSet<u64>> = RefCell::new(Default::default());
    static DOUBLE: Cell<u64> = Cell::new(0);
}
fn reset() {
    LOG.with(|l| l.borrow_mut().clear());
    SEQ.with(|s| s.set(0));
    LIVE.with(|l| l.borrow_mut().clear());
    DOUBLE.with(|d| d.set(0));
}

/// A user element that owns a resource: id, then payload `len` bytes, fails on a length of 0xEE/0xDD.
#[derive(Debug)]
pub struct Own { id: u64, data: Vec<u8> }
impl Drop for Own {
    fn drop(&mut self) { LIVE.with(|l| if !l.borrow_mut().remove(&self.id) { DOUBLE.with(|d| d.set(d.get() + 1)) }); }
}
impl WasmBinaryParse for Own {
    fn parse<B: WasmBinary>(bin: &mut B) -> whasm::binary::Result<Self> {
        let id = SEQ.with(|s| { s.set(s.get() + 1); s.get() });
        LOG.with(|l| l.borrow_mut().push((b'r', id)));
        let n = bin.parse::<Byte>()?.0;
        if n == 0xBB { panic!("the element reader gives up"); }
        if n == 0xEE { return Err(PErr::InvalidVariantId { id: 0xEE, ty: "user" }); }
        if n == 0xDD { return Err(PErr::InvalidUtf8Encoding); }
        let mut data = vec![];
        for _ in 0..n % 4 { data.push(bin.parse::<Byte>()?.0); }
        LIVE.with(|l| l.borrow_mut().insert(id));
        Ok(Own { id, data })
    }
}
impl WasmBinaryParseProxy for Own { type Inner = (u64, Vec<u8>); fn unwrap(mut self) -> (u64, Vec<u8>) { LOG.with(|l| l.borrow_mut().push((b'u', self.id))); (self.id, std::mem::take(&mut self.data)) } }

/// The same, but Copy, for the run-length reader.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Tag3 { id: u64, v: u8, w: u16 }
impl WasmBinaryParse for Tag3 {
    fn parse<B: WasmBinary>(bin: &mut B) -> whasm::binary::Result<Self> {
        let id = SEQ.with(|s| { s.set(s.get() + 1); s.get() });
        LOG.with(|l| l.borrow_mut().push((b'r', id)));
        let v = bin.parse::<Byte>()?.0;
        if v == 0xBB { panic!("the element reader gives up"); }
        if v == 0xEE { return Err(PErr::InvalidVariantId { id: 0xEE, ty: "user" }); }
        if v == 0xDD { return Err(PErr::InvalidUtf8Encoding); }
        let w = bin.parse::<u16>()?;
        Ok(Tag3 { id, v, w })
    }
}
/// Zero-sized in the stream and in memory.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Zst;
impl WasmBinaryParse for Zst {
    fn parse<B: WasmBinary>(_: &mut B) -> whasm::binary::Result<Self> { SEQ.with(|s| s.set(s.get() + 1)); Ok(Zst) }
}

fn m_own(c: &mut Cur, seq: &mut u64) -> Result<(u64, Vec<u8>), DErr> {
    *seq += 1;
    let id = *seq;
    let n = c.byte()?;
    if n == 0xBB { return Err(DErr::Magic); }
    if n == 0xEE { return Err(DErr::Tag(0xEE)); }
    if n == 0xDD { return Err(DErr::Utf8); }
    let mut d = vec![];
    for _ in 0..n % 4 { d.push(c.byte()?); }
    Ok((id, d))
}
fn m_tag(c: &mut Cur, seq: &mut u64) -> Result<(u64, u8, u16), DErr> {
    *seq += 1;
    let id = *seq;
    let v = c.byte()?;
    if v == 0xBB { return Err(DErr::Magic); }
    if v == 0xEE { return Err(DErr::Tag(0xEE)); }
    if v == 0xDD { return Err(DErr::Utf8); }
    let w = match leb::decode(&c.b[c.p..c.end], 16, false) { Leb::Ok(v, n) => { c.p += n; v as u16 } Leb::OutOfRange => return Err(DErr::LebU), Leb::Eof => return Err(DErr::Eof), Leb::EofOrRange => return Err(DErr::EofOrLeb) };
    Ok((id, v, w))
}
fn m_arr(c: &mut Cur, seq: &mut u64, n: usize) -> Result<Vec<(u64, Vec<u8>)>, DErr> { (0..n).map(|_| m_own(c, seq)).collect() }

type Seen = Vec<(u64, Vec<u8>)>;
fn own(v: &[Own]) -> Seen { v.iter().map(|o| (o.id, o.data.clone())).collect() }
pub const CONTAINERS: usize = 22;

/// Run container `k` on the stream: Ok(elements) or the error.
fn run_container(k: usize, s: &mut Src) -> Result<Seen, PErr> {
    Ok(match k {
        0 => own(&s.parse::<Vec<Own>>()?),
        1 => s.parse::<UnwrappingVec<Own>>()?.unwrap(),
        2 => s.parse::<CompactVec<Tag3>>()?.unwrap().iter().map(|t| (t.id, vec![t.v, t.w as u8, (t.w >> 8) as u8])).collect(),
        3 => own(&s.parse::<[Own; 0]>()?),
        4 => own(&s.parse::<[Own; 1]>()?),
        5 => own(&s.parse::<[Own; 2]>()?),
        6 => own(&s.parse::<[Own; 3]>()?),
        7 => own(&s.parse::<[Own; 4]>()?),
        8 => own(&s.parse::<[Own; 5]>()?),
        9 => own(&s.parse::<[Own; 6]>()?),
        10 => own(&s.parse::<[Own; 7]>()?),
        11 => own(&s.parse::<[Own; 8]>()?),
        12 => own(&[s.parse::<Sized<Own>>()?.unwrap()]),
        13 => own(&s.parse::<Sized<Vec<Own>>>()?.unwrap()),
        14 => s.parse::<UnwrappingVec<Sized<Own>>>()?.unwrap().iter().map(|o| (o.id, o.data.clone())).collect(),
        15 => s.parse::<Vec<Vec<Own>>>()?.iter().flat_map(|v| own(v)).collect(),
        16 => s.parse::<Vec<[Own; 2]>>()?.iter().flat_map(|v| own(v)).collect(),
        17 => s.parse::<[Vec<Own>; 3]>()?.iter().flat_map(|v| own(v)).collect(),
        18 => own(&s.parse::<Sized<Sized<[Own; 2]>>>()?.unwrap().unwrap()),
        19 => s.parse::<Vec<Tag3>>()?.iter().map(|t| (t.id, vec![t.v, t.w as u8, (t.w >> 8) as u8])).collect(),
        20 => s.parse::<Vec<Zst>>()?.iter().map(|_| (0, vec![])).collect(),
        _ => s.parse::<UnwrappingVec<Sized<Vec<Own>>>>()?.unwrap().iter().flat_map(|v| own(v)).collect(),
    })
}
fn model_container(k: usize, c: &mut Cur, q: &mut u64) -> Result<Seen, DErr> {
    let tag = |t: (u64, u8, u16)| (t.0, vec![t.1, t.2 as u8, (t.2 >> 8) as u8]);
    Ok(match k {
        0 | 1 => c.vec(|c| m_own(c, q))?,
        2 => {
            let n = c.u32()?;
            let mut v = vec![];
            for _ in 0..n { let k = c.u32()?; let t = tag(m_tag(c, q)?); c.locals += k as u64; for _ in 0..k.min(5000) { v.push(t.clone()); } }
            if c.locals > u32::MAX as u64 { return Err(DErr::Locals); }
            v
        }
        3..=11 => m_arr(c, q, k - 3)?,
        12 => vec![c.sized(|c| m_own(c, q))?],
        13 => c.sized(|c| c.vec(|c| m_own(c, q)))?,
        14 => c.vec(|c| c.sized(|c| m_own(c, q)))?,
        15 => c.vec(|c| c.vec(|c| m_own(c, q)))?.concat(),
        16 => c.vec(|c| m_arr(c, q, 2))?.concat(),
        17 => { let mut v = vec![]; for _ in 0..3 { v.extend(c.vec(|c| m_own(c, q))?); } v }
        18 => c.sized(|c| c.sized(|c| m_arr(c, q, 2)))?,
        19 => c.vec(|c| m_tag(c, q))?.into_iter().map(tag).collect(),
        20 => { let n = c.u32()?; if n > 5000 { c.locals = u64::MAX; return Err(DErr::Locals); } *q += n as u64; (0..n).map(|_| (0, vec![])).collect() }
        _ => c.vec(|c| c.sized(|c| c.vec(|c| m_own(c, q))))?.concat(),
    })
}
/// data: container, stream
pub fn container(d: &[u8]) -> J {
    if d.is_empty() { return J::ok(false); }
    let k = d[0] as usize % CONTAINERS;
    let b = &d[1..];
    let mut c = Cur::new(b);
    let mut q = 0;
    let want = model_container(k, &mut c, &mut q);
    if c.locals > 5000 { return J::ok(false); }
    reset();
    let mut s = Src::new(b);
    if want == Err(DErr::Magic) {
        // the element reader itself panics: that passes through, and nothing is dropped twice
        let got = guard(|| run_container(k, &mut s).is_ok());
        count("panicking element readers", 1);
        if DOUBLE.with(|l| l.get()) > 0 { return J::bad(format!("container {} on {}: an element was dropped twice while unwinding", k, hex(b))); }
        return match got {
            Err(e) if e.contains("gives up") => J::ok(true),
            Err(e) => J::bad(format!("container {} on {}: {}", k, hex(b), e)),
            Ok(_) => J::bad(format!("container {} on {}: the element reader's panic vanished", k, hex(b))),
        };
    }
    let got = match guard(|| run_container(k, &mut s)) { Ok(g) => g, Err(e) => return J::bad(format!("container {} on {}: {}", k, hex(b), e)) };
    let reads = SEQ.with(|s| s.get());
    let live = LIVE.with(|l| l.borrow().len());
    let double = DOUBLE.with(|l| l.get());
    let order = LOG.with(|l| { let l = l.borrow(); l.iter().filter(|e| e.0 == b'r').map(|e| e.1).collect::<Vec<_>>() });
    let ctx = || format!("container {} on {}", k, hex(b));
    if double > 0 { return J::bad(format!("{}: an element was dropped twice", ctx())); }
    if live > 0 { return J::bad(format!("{}: {} elements were never dropped", ctx(), live)); }
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            count("complete", 1);
            if w != g { return J::bad(clip(format!("{}: expected {:?}, got {:?}", ctx(), w, g))); }
            if c.p != s.p { return J::bad(format!("{}: {} bytes belong to it, {} were taken", ctx(), c.p, s.p)); }
        }
        (Err(w), Err(g)) => {
            count(&format!("failing: {}", crate::judge::derr_name(w)), 1);
            if err_fits(w, g) == Some(false) { return J::bad(format!("{}: fault {:?}, error {:?}", ctx(), w, g)); }
            if *w == DErr::Tag(0xEE) && !matches!(g, PErr::InvalidVariantId { ty: "user", .. }) { return J::bad(format!("{}: the element's error was replaced by {:?}", ctx(), g)); }
            if matches!(w, DErr::Tag(0xEE) | DErr::Utf8) && s.p != c.p { return J::bad(format!("{}: {} bytes taken, the failing element ends at {}", ctx(), s.p, c.p)); }
        }
        _ => return J::bad(clip(format!("{}: expected {:?}, got {:?}", ctx(), want, got))),
    }
    if reads != q { return J::bad(format!("{}: element reader called {} times instead of {}", ctx(), reads, q)); }
    if k != 20 && order.windows(2).any(|w| w[1] != w[0] + 1) { return J::bad(format!("{}: elements read out of order", ctx())); }
    J::ok(true)
}
pub fn container_random(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let k = r.below(CONTAINERS);
    let mut e = if r.chance(1, 3) { crate::enc::Enc::padded(r.u64(), 16, 4) } else { crate::enc::Enc::plain() };
    let mut o = vec![];
    fn own(r: &mut Rng, o: &mut Vec<u8>) { let n = if r.chance(1, 25) { *r.pick(&[0xEEu8, 0xEE, 0xDD, 0xDD, 0xBB]) } else { r.below(8) as u8 }; o.push(n); if n < 0xBB { for _ in 0..n % 4 { o.push(r.byte()); } } }
    fn tag(r: &mut Rng, e: &mut crate::enc::Enc, o: &mut Vec<u8>) { o.push(if r.chance(1, 25) { *r.pick(&[0xEEu8, 0xEE, 0xBB]) } else { r.below(100) as u8 }); e.u(r.below(65536) as u64, o); }
    let cnt = |r: &mut Rng| p.size(r, 5, 400);
    let sz = |r: &mut Rng, n: usize| if r.chance(1, 5) { r.below(n + 4) } else { n };
    match k {
        0 | 1 => { let n = cnt(r); e.u(n as u64, &mut o); for _ in 0..n { own(r, &mut o); } }
        2 => { let n = cnt(r); e.u(n as u64, &mut o); for _ in 0..n { let k = if n > 20 { r.below(4) } else { p.size(r, 5, 600) }; e.u(k as u64, &mut o); tag(r, &mut e, &mut o); } }
        3..=11 => for _ in 0..k - 3 { own(r, &mut o); },
        12 => { let mut i = vec![]; own(r, &mut i); let n = sz(r, i.len()); e.u(n as u64, &mut o); o.extend(i); }
        13 => { let mut i = vec![]; let n = cnt(r); e.u(n as u64, &mut i); for _ in 0..n { own(r, &mut i); } let n = sz(r, i.len()); e.u(n as u64, &mut o); o.extend(i); }
        14 => { let n = cnt(r); e.u(n as u64, &mut o); for _ in 0..n { let mut i = vec![]; own(r, &mut i); let n = if r.chance(1, 10) { sz(r, i.len()) } else { i.len() }; e.u(n as u64, &mut o); o.extend(i); } }
        15 | 21 => { let n = r.below(6); e.u(n as u64, &mut o); for _ in 0..n { let mut i = vec![]; let q = r.below(4); e.u(q as u64, &mut i); for _ in 0..q { own(r, &mut i); } if k == 21 { let n = if r.chance(1, 10) { sz(r, i.len()) } else { i.len() }; e.u(n as u64, &mut o); } o.extend(i); } }
        16 => { let n = r.below(6); e.u(n as u64, &mut o); for _ in 0..2 * n { own(r, &mut o); } }
        17 => for _ in 0..3 { let n = r.below(4); e.u(n as u64, &mut o); for _ in 0..n { own(r, &mut o); } },
        18 => { let mut i = vec![]; own(r, &mut i); own(r, &mut i); let mut j = vec![]; let n = sz(r, i.len()); e.u(n as u64, &mut j); j.extend(i); let n = sz(r, j.len()); e.u(n as u64, &mut o); o.extend(j); }
        19 => { let n = cnt(r); e.u(n as u64, &mut o); for _ in 0..n { tag(r, &mut e, &mut o); } }
        _ => { let n = p.size(r, 30, 4000); e.u(n as u64, &mut o); }
    }
    match r.below(8) { 0 => { let n = r.below(o.len() + 1); o.truncate(n); } 1 => { for _ in 0..r.below(5) { o.push(r.byte()); } } _ => {} }
    o.insert(0, k as u8);
    o
}
