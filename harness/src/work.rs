//! Workload generators for whole modules, shared by the properties.
use crate::enc::{encode, Enc};
use crate::fam;
use crate::gen::{self, Aim, Cfg};
use crate::judge::J;
use crate::leb;
use crate::pool::Pool;
use crate::rast::*;
use crate::rng::Rng;
use VT::*;

/// Encode with a random choice of integer padding and custom sections.
pub fn dress(p: &Pool, r: &mut Rng, m: &RModule) -> Vec<u8> {
    let mut e = match r.below(6) {
        0 => Enc::padded(r.u64(), 8, 4),
        1 => Enc::padded(r.u64(), 40, 5),
        2 => Enc::padded(r.u64(), 1, 12),
        _ => Enc::plain(),
    };
    let mut secs = e.sections(m);
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let at = r.below(secs.len() + 1);
            let c = custom(p, r);
            secs.insert(at, (0, c));
        }
    }
    // explicitly empty sections are legal too
    if r.chance(1, 8) {
        for id in [1u8, 2, 4, 5, 6, 7, 9, 11] {
            if r.chance(1, 3) && !secs.iter().any(|s| s.0 == id) {
                let at = secs.iter().position(|s| s.0 > id).unwrap_or(secs.len());
                secs.insert(at, (id, vec![0]));
            }
        }
        if m.funcs.is_empty() {
            for id in [3u8, 10] {
                if r.chance(1, 2) {
                    let at = secs.iter().position(|s| s.0 > id).unwrap_or(secs.len());
                    secs.insert(at, (id, vec![0]));
                }
            }
        }
    }
    e.assemble(&secs)
}

pub fn custom(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    let n = p.name(r);
    leb::enc_u(n.len() as u64, &mut o);
    o.extend(n);
    let k = p.size(r, 30, 1000);
    for _ in 0..k { o.push(r.byte()); }
    o
}

pub fn cfg(r: &mut Rng) -> Cfg { if r.chance(1, 6) { Cfg::medium() } else { Cfg::small() } }

pub fn valid(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let c = cfg(r);
    let m = gen::module(p, r, &c);
    dress(p, r, &m)
}

/// One dimension of a random module stretched to a size of the pool, sometimes with a fault.
pub fn stretched(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let c = Cfg::stretched(p, r);
    let m = gen::module(p, r, &c);
    encode(&m)
}
pub fn stretched_fault(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let c = Cfg::stretched(p, r);
    let mut m = gen::module(p, r, &c);
    match r.below(6) {
        0 => gen::mutate_module(p, r, &mut m, Aim::Index),
        1 => gen::mutate_module(p, r, &mut m, Aim::Const),
        2 => gen::mutate_module(p, r, &mut m, Aim::Limits),
        _ => { gen::mutate_body(p, r, &mut m); }
    }
    encode(&m)
}
pub fn stretched_any(p: &Pool, r: &mut Rng) -> Vec<u8> { if r.chance(1, 2) { stretched(p, r) } else { stretched_fault(p, r) } }

pub fn body_fault(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let c = cfg(r);
    let mut m = gen::module(p, r, &c);
    for _ in 0..if r.chance(1, 8) { 2 } else { 1 } { gen::mutate_body(p, r, &mut m); }
    encode(&m)
}

pub fn module_fault(p: &Pool, r: &mut Rng, aim: Aim) -> Vec<u8> {
    let c = cfg(r);
    let mut m = gen::module(p, r, &c);
    for _ in 0..if r.chance(1, 8) { 2 } else { 1 } { gen::mutate_module(p, r, &mut m, aim); }
    encode(&m)
}

pub fn any_fault(p: &Pool, r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => module_fault(p, r, Aim::Index),
        1 => module_fault(p, r, Aim::Const),
        2 => module_fault(p, r, Aim::Limits),
        _ => body_fault(p, r),
    }
}

/// One edit (sometimes more) of a byte string.
pub fn edit(p: &Pool, r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..if r.chance(1, 5) { r.range(2, 4) } else { 1 } {
        if b.is_empty() { b.push(r.byte()); continue; }
        let k = r.below(b.len());
        match r.below(11) {
            0 => b[k] = r.byte(),
            1 => b[k] = b[k].wrapping_add(1),
            2 => b[k] = b[k].wrapping_sub(1),
            3 => b[k] ^= 1 << r.below(8),
            4 => b.insert(k, r.byte()),
            5 => { b.remove(k); }
            6 => b.truncate(k),
            7 => { let n = r.range(1, 8).min(b.len() - k); let c: Vec<u8> = b[k..k + n].to_vec(); let at = r.below(b.len() + 1); b.splice(at..at, c); }
            8 => { let j = r.below(b.len()); b.swap(k, j); }
            9 => { let mut t = vec![]; leb::enc_u(p.u32(r) as u64, &mut t); b.splice(k..k + 1, t); }
            _ => b[k] = *r.pick(&[0x00, 0x01, 0x05, 0x0B, 0x40, 0x41, 0x60, 0x70, 0x7C, 0x7F, 0x80, 0xFF, 0x0E, 0x11, 0x02, 0x04]),
        }
    }
}

pub fn edited(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let m = gen::module(p, r, &Cfg::small());
    let mut b = dress(p, r, &m);
    edit(p, r, &mut b);
    b
}

/// Keep section framing correct while editing one section's content.
pub fn section_edited(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let m = gen::module(p, r, &Cfg::small());
    let mut e = Enc::plain();
    let mut secs = e.sections(&m);
    if secs.is_empty() { return e.assemble(&secs); }
    let k = r.below(secs.len());
    match r.below(6) {
        0 => { secs.remove(k); }
        1 => { let j = r.below(secs.len()); secs.swap(k, j); }
        2 => { let s = secs[k].clone(); secs.insert(k, s); }
        3 => secs[k].0 = r.below(14) as u8,
        _ => edit(p, r, &mut secs[k].1),
    }
    e.assemble(&secs)
}

/// Arbitrary bytes behind a (mostly) correct preamble.
pub fn soup(_p: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut b = if r.chance(1, 8) { vec![] } else { vec![0, 0x61, 0x73, 0x6D, 1, 0, 0, 0] };
    for _ in 0..r.below(4) {
        let n = r.below(40);
        let id = r.below(13) as u8;
        b.push(id);
        b.push(n as u8);
        for _ in 0..n { b.push(if r.chance(1, 2) { r.below(8) as u8 } else { r.byte() }); }
    }
    if r.chance(1, 4) { for _ in 0..r.below(60) { b.push(r.byte()); } }
    b
}

/// A member of a size family: (family, size, fault) chosen by index over all sizes of the pool.
pub fn family(p: &Pool, r: &mut Rng, idx: u64) -> Vec<u8> {
    let nf = fam::NAMES.len() as u64;
    let k = (idx % nf) as usize;
    let j = idx / nf;
    let bad = j % 2 == 1;
    let s = ((j / 2) as usize) % p.sizes.len();
    let n = p.sizes[s].min(fam::max(k));
    fam::build(k, n, bad, r)
}
pub fn family_count(p: &Pool) -> u64 { (fam::NAMES.len() * 2 * p.sizes.len()) as u64 }

/// All prefixes of a small module.
pub fn truncations(b: &[u8], mut f: impl FnMut(&[u8]) -> J) -> J {
    let mut j = J::batch();
    for n in 0..=b.len() { let x = f(&b[..n]); j.add("m", &b[..n], x); if j.bad.is_some() { break; } }
    j
}
/// All single-byte substitutions of a small module.
pub fn substitutions(b: &[u8], mut f: impl FnMut(&[u8]) -> J) -> J {
    let mut j = J::batch();
    let mut c = b.to_vec();
    for i in 0..b.len() {
        for v in 0..=255u8 {
            if v == b[i] { continue; }
            c[i] = v;
            let x = f(&c);
            j.add("m", &c, x);
            if j.bad.is_some() { return j; }
        }
        c[i] = b[i];
    }
    j
}
pub fn small_module(p: &Pool, r: &mut Rng) -> Vec<u8> {
    loop {
        let mut c = Cfg::small();
        c.body = 8;
        let m = gen::module(p, r, &c);
        let b = dress(p, r, &m);
        if b.len() <= 200 { return b; }
    }
}

/// Tiny inputs that declare huge counts, in every position that has one.
pub fn hostile(idx: u64, p: &Pool) -> Vec<u8> {
    let counts = [u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 29, 1 << 28, 1 << 26, 1 << 24, 10_000_000, 1 << 20, 65536, 1000];
    let n = counts[(idx as usize / 40) % counts.len()];
    let mut c = vec![];
    leb::enc_u(n as u64, &mut c);
    let fill = (idx as usize / (40 * counts.len())) % 3; // trailing bytes available
    let tail: Vec<u8> = match fill { 0 => vec![], 1 => vec![0; 3], _ => vec![0x0B; 40] };
    let cat = |v: &[&[u8]]| -> Vec<u8> { v.concat() };
    let sec = |id: u8, content: Vec<u8>| -> Vec<u8> {
        let mut o = vec![id];
        leb::enc_u(content.len() as u64, &mut o);
        o.extend(content);
        o
    };
    let big = |id: u8, content: Vec<u8>| -> Vec<u8> { cat(&[&[id], &c, &content]) };
    let ty = [1u8, 4, 1, 0x60, 0, 0];
    let fs = [3u8, 2, 1, 0];
    let _ = p;
    let body = |code: Vec<u8>| -> Vec<u8> {
        let mut s = vec![1];
        leb::enc_u(code.len() as u64, &mut s);
        s.extend(code);
        cat(&[&ty, &fs, &sec(10, s)])
    };
    let r: Vec<u8> = match idx % 40 {
        0..=10 => { let id = (idx % 40) as u8 + 1; sec(id, cat(&[&c, &tail])) }
        11 => sec(1, cat(&[&[1, 0x60], &c, &tail])),
        12 => sec(1, cat(&[&[1, 0x60, 0], &c, &tail])),
        13 => sec(2, cat(&[&[1], &c, &tail])),
        14 => sec(2, cat(&[&[1, 0], &c, &tail])),
        15 => sec(2, cat(&[&[1, 0, 0, 0], &c])),
        16 => sec(2, cat(&[&[1, 0, 0, 2, 1], &c, &c])),
        17 => sec(3, cat(&[&[1], &c])),
        18 => sec(4, cat(&[&[1, 0x70, 0], &c])),
        19 => sec(5, cat(&[&[1, 0], &c])),
        20 => sec(7, cat(&[&[1], &c, &tail])),
        21 => sec(7, cat(&[&[1, 0, 0], &c])),
        22 => sec(8, c.clone()),
        23 => sec(9, cat(&[&[1, 0, 0x41, 0, 0x0B], &c, &tail])),
        24 => sec(10, cat(&[&[1], &c, &tail])),
        25 => body(cat(&[&c, &tail])),
        26 => body(cat(&[&[0, 0x0E], &c, &tail])),
        27 => body(cat(&[&[0, 0x0E, 0], &c, &[0x0B]])),
        28 => body(cat(&[&[0, 0x0C], &c, &[0x0B]])),
        29 => body(cat(&[&[0, 0x41, 0, 0x0D], &c, &[0x0B]])),
        30 => body(cat(&[&[0, 0x10], &c, &[0x0B]])),
        31 => body(cat(&[&[0, 0x41, 0, 0x11], &c, &[0, 0x0B]])),
        32 => body(cat(&[&[0, 0x20], &c, &[0x1A, 0x0B]])),
        33 => body(cat(&[&[0, 0x41, 0, 0x28], &c, &c, &[0x1A, 0x0B]])),
        34 => cat(&[&sec(5, vec![1, 0, 1]), &sec(11, cat(&[&[1, 0, 0x41, 0, 0x0B], &c, &tail]))]),
        35 => big((idx / 40 % 12) as u8, tail.clone()),
        36 => sec(0, cat(&[&c, &tail])),
        37 => big(0, cat(&[&[1, b'x'], &tail])),
        38 => cat(&[&ty, &fs, &sec(10, cat(&[&[1], &c, &[0, 0x0B]]))]),
        _ => sec(6, cat(&[&[1, 0x7F, 0, 0x23], &c, &[0x0B]])),
    };
    cat(&[&[0, 0x61, 0x73, 0x6D, 1, 0, 0, 0], &r])
}
pub const HOSTILE: u64 = 40 * 13 * 3;

// ---------------------------------------------------------------- C20: typing matrix

/// All immediate-free and representative immediate-carrying forms of every instruction.
pub fn matrix_ops() -> Vec<RI> {
    let mut v = vec![RI::op(0x00), RI::op(0x01), RI::op(0x0F), RI::op(0x1A), RI::op(0x1B)];
    for l in 0..2 { v.push(RI::idx(0x0C, l)); v.push(RI::idx(0x0D, l)); v.push(RI { op: 0x0E, imm: Imm::Table(vec![l, l], l) }); }
    for f in 0..18 { v.push(RI::idx(0x10, f)); }
    for t in 0..13 { v.push(RI { op: 0x11, imm: Imm::Idx2(t, 0) }); }
    for op in 0x20..=0x22 { for l in 0..9 { v.push(RI::idx(op, l)); } }
    for op in 0x23..=0x24 { for g in 0..17 { v.push(RI::idx(op, g)); } }
    for op in 0x28..=0x3E { for a in 0..5 { v.push(RI { op, imm: Imm::Mem(a, 0) }); } }
    v.push(RI::idx(0x3F, 0));
    v.push(RI::idx(0x40, 0));
    for t in VTS { v.push(RI::konst(t)); }
    for op in 0x45..=0xBF { v.push(RI::op(op)); }
    v
}

pub fn matrix_base() -> RModule {
    let mut m = RModule::default();
    let f = |p: &[VT], r: &[VT]| FT { params: p.to_vec(), results: r.to_vec() };
    m.types = vec![f(&[], &[])];
    for t in VTS { m.types.push(f(&[], &[t])); }
    for t in VTS { m.types.push(f(&[t], &[])); }
    m.types.push(f(&[I32, I64], &[F32]));
    m.types.push(f(&[F64, F32, I64], &[I32]));
    m.types.push(f(&[I64, I32], &[I64]));
    m.types.push(f(&[F32, F32], &[F64]));
    for i in 0..13 { m.imports.push(RImport { module: vec![], name: vec![], desc: IDesc::Func(i) }); if i < 8 { m.imports.push(RImport { module: vec![], name: vec![], desc: IDesc::Global(VTS[i as usize % 4], i >= 4) }); } }
    m.imports.push(RImport { module: vec![], name: vec![], desc: IDesc::Table(Lim { min: 0, max: None }) });
    m.mems.push(Lim { min: 0, max: None });
    for i in 0..8 { m.globals.push(RGlobal { vt: VTS[(i + 1) % 4], mutable: i < 4, init: vec![RI::konst(VTS[(i + 1) % 4]), RI::end()] }); }
    // fillers so that function indices 13..17 exist with a different type each
    for t in 0..4 { m.funcs.push(RFunc { ty: 5 + t, locals: vec![], body: vec![RI::end()] }); }
    m
}

/// Every operand vector of length 0..=3 in front of one instruction, in
/// reachable and dead code, with every function result type.
pub fn matrix(op: &RI, depth: usize, mut f: impl FnMut(&[u8]) -> J) -> J {
    let mut j = J::batch();
    let base = matrix_base();
    let mut e = Enc::plain();
    for len in 0..=depth {
        for code in 0..4usize.pow(len as u32) {
            let mut ops = vec![];
            let mut c = code;
            for _ in 0..len { ops.push(VTS[c % 4]); c /= 4; }
            for res in 0..5u32 {
                for mode in 0..4 {
                    let mut body = vec![];
                    if mode == 1 || mode == 3 { body.push(RI::op(0x00)); }
                    if mode == 2 { body.push(RI::blk(0x02, if res == 0 { None } else { Some(VTS[res as usize - 1]) })); }
                    body.extend(ops.iter().map(|t| RI::konst(*t)));
                    body.push(op.clone());
                    if mode == 2 { body.push(RI::end()); }
                    if mode == 3 { body.push(RI::op(0x1A)); }
                    body.push(RI::end());
                    let mut m = base.clone();
                    m.funcs.push(RFunc { ty: res, locals: vec![(1, I32), (2, I64), (1, F32), (1, F64), (1, I32), (1, F32)], body });
                    let b = e.module(&m);
                    let x = f(&b);
                    j.add("m", &b, x);
                    if j.bad.is_some() { return j; }
                }
            }
        }
    }
    j
}

// ---------------------------------------------------------------- C23: control flow

pub fn ctl_tokens() -> Vec<RI> {
    let bt = |l: Vec<u32>, d| RI { op: 0x0E, imm: Imm::Table(l, d) };
    vec![
        RI::blk(2, None), RI::blk(2, Some(I32)), RI::blk(3, None), RI::blk(3, Some(I32)), RI::blk(4, None), RI::blk(4, Some(I32)),
        RI::op(5), RI::op(0x0B), RI::idx(0x0C, 0), RI::idx(0x0C, 1), RI::idx(0x0C, 2), RI::idx(0x0D, 0), RI::idx(0x0D, 1),
        bt(vec![0], 1), bt(vec![], 0), RI::op(0x0F), RI::op(0), RI::i32c(1), RI::konst(I64), RI::op(0x1A), RI::op(0x1B), RI::op(0x45),
        // less frequent ones, used by the random sequences only
        RI::op(1), bt(vec![1, 0], 0), bt(vec![0, 0, 1], 1), bt(vec![1], 2), RI::idx(0x0D, 2), RI::idx(0x0C, 3), RI::blk(2, Some(I64)), RI::blk(3, Some(F64)),
        RI::blk(4, Some(I64)), RI::konst(F32), RI::konst(F64), RI::op(0x50), RI::idx(0x10, 0), RI::op(0x6A), RI::idx(0x20, 0), RI::idx(0x21, 0), RI::idx(0x22, 0),
        RI::op(0xA7), RI::op(0xAC), RI::blk(2, Some(F32)), RI::blk(4, Some(F64)),
    ]
}
pub const CTL_CORE: usize = 22;

/// Wrap a control token sequence into a module, closing what is left open.
pub fn ctl_module(seq: &[RI], res: u32) -> Option<Vec<u8>> {
    let mut open: Vec<u8> = vec![];
    for i in seq {
        match i.op {
            2..=4 => open.push(i.op),
            5 => { if open.last() != Some(&4) { return None; } *open.last_mut().unwrap() = 5; }
            0x0B => { open.pop()?; }
            _ => {}
        }
    }
    let mut body = seq.to_vec();
    for _ in 0..=open.len() { body.push(RI::end()); }
    let m = RModule {
        types: vec![FT::default(), FT { params: vec![], results: vec![I32] }, FT { params: vec![], results: vec![I64] }],
        funcs: vec![RFunc { ty: res, locals: vec![(1, I32)], body }],
        ..Default::default()
    };
    Some(encode(&m))
}

/// All sequences of core tokens of length `len` that start with tokens a, b.
pub fn ctl_exhaustive(a: usize, b: usize, len: usize, res: u32, mut f: impl FnMut(&[u8]) -> J) -> J {
    let t = ctl_tokens();
    let mut j = J::batch();
    let mut ix = vec![0usize; len.saturating_sub(2)];
    loop {
        let mut seq = vec![t[a].clone(), t[b].clone()];
        seq.extend(ix.iter().map(|i| t[*i].clone()));
        if let Some(m) = ctl_module(&seq, res) {
            let x = f(&m);
            j.add("m", &m, x);
            if j.bad.is_some() { return j; }
        }
        let mut k = 0;
        loop {
            if k == ix.len() { return j; }
            ix[k] += 1;
            if ix[k] < CTL_CORE { break; }
            ix[k] = 0;
            k += 1;
        }
    }
}

/// A random control sequence, steered so that about half of them are valid.
pub fn ctl_random(r: &mut Rng) -> Vec<u8> {
    let t = ctl_tokens();
    let c = crate::val::Ctx { types: vec![FT::default(), FT { params: vec![], results: vec![I32] }, FT { params: vec![], results: vec![I64] }], funcs: vec![0], ..Default::default() };
    let loc = crate::val::Locals::new(&[], &[(1, I32)]);
    loop {
        let n = r.range(3, 22);
        let res = r.below(3) as u32;
        let ret = [None, Some(I32), Some(I64)][res as usize];
        let mut c2 = c.clone();
        c2.funcs = vec![res];
        let mut fv = crate::val::FV::new(ret);
        let mut seq: Vec<RI> = vec![];
        let fault = if r.chance(1, 2) { r.below(n) } else { usize::MAX };
        for k in 0..n {
            for _ in 0..30 {
                let i = if k < CTL_CORE && r.chance(2, 3) { r.pick(&t[..CTL_CORE]).clone() } else { r.pick(&t).clone() };
                if i.op == 0x0B && fv.frames.len() == 1 { continue; }
                if k == fault { seq.push(i.clone()); let _ = fv.step(&c2, &loc, &i); break; }
                let mut g = fv.clone();
                if g.step(&c2, &loc, &i).is_ok() { fv = g; seq.push(i); break; }
            }
        }
        // try to end validly
        while !fv.done {
            let f = fv.frames.last().unwrap().clone();
            let mut extra = vec![];
            let have = fv.vals[f.base.min(fv.vals.len())..].to_vec();
            let want: Vec<VT> = f.end.into_iter().collect();
            let fits = have.len() == want.len() && have.iter().zip(&want).all(|(h, w)| h.map_or(true, |h| h == *w));
            if !fits && !(f.dead && have.is_empty()) {
                extra.extend(vec![RI::op(0x1A); have.len()]);
                extra.extend(want.iter().map(|t| RI::konst(*t)));
            }
            extra.push(if f.op == 4 && f.end.is_some() { RI::op(5) } else { RI::end() });
            let mut stuck = false;
            for i in extra { if fv.step(&c2, &loc, &i).is_err() { stuck = true; break; } if !fv.done { seq.push(i); } }
            if stuck { break; }
        }
        if let Some(b) = ctl_module(&seq, res) { return b; }
    }
}

// ---------------------------------------------------------------- C11: constant expressions

/// Instructions whose typing in unreachable code depends on what was pushed there.
pub fn dead_tokens() -> Vec<RI> {
    vec![RI::op(0x1B), RI::op(0x1A), RI::i32c(1), RI { op: 0x42, imm: Imm::I64(1) }, RI { op: 0x43, imm: Imm::F32(0) }, RI { op: 0x44, imm: Imm::F64(0) }, RI::op(0x45), RI::op(0xAC), RI::op(0x8C), RI::op(0x9A), RI::idx(0x0D, 0), RI::idx(0x22, 0)]
}
fn dead_module(seq: &[RI], res: usize) -> Vec<u8> {
    let mut m = RModule::default();
    m.types.push(FT { params: vec![VT::I64, VT::F32], results: if res == 0 { vec![] } else { vec![VTS[res - 1]] } });
    let mut body = seq.to_vec();
    body.push(RI::end());
    m.funcs.push(RFunc { ty: 0, locals: vec![], body });
    crate::enc::encode(&m)
}
/// All five-instruction sequences after `unreachable` that start with the given two.
pub fn dead(a: usize, b: usize, res: usize, mut f: impl FnMut(&[u8]) -> J) -> J {
    let t = dead_tokens();
    let n = t.len();
    let mut j = J::batch();
    for k in 0..n * n * n {
        let s = [RI::op(0x00), t[a].clone(), t[b].clone(), t[k % n].clone(), t[k / n % n].clone(), t[k / n / n].clone()];
        let m = dead_module(&s, res);
        j.add("m", &m, f(&m));
        if j.bad.is_some() { break; }
    }
    j
}
pub fn dead_random(_: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut t = dead_tokens();
    t.extend([RI::op(0x00), RI::op(0x01), RI::op(0x6A), RI::op(0x7C), RI::op(0x92), RI::op(0xA0), RI::op(0x46), RI::op(0xA7), RI::op(0xBB), RI::idx(0x20, 0), RI::idx(0x21, 1), RI::idx(0x22, 1), RI { op: 0x0E, imm: Imm::Table(vec![0], 0) }, RI::op(0x0F)]);
    let few = r.range(3, 8);
    let some: Vec<RI> = (0..few).map(|_| t[r.below(t.len())].clone()).collect();
    let mut s = vec![];
    // what lies below the unreachable point, then that point, then what follows
    for _ in 0..r.below(3) { s.push(t[2 + r.below(4)].clone()); }
    s.push(match r.below(5) { 0 => RI::op(0x0F), 1 => RI::idx(0x0C, 0), _ => RI::op(0x00) });
    let mut open = 0;
    for _ in 0..r.range(2, 16) {
        match r.below(14) {
            0 => { s.push(RI { op: [0x02, 0x03][r.below(2)], imm: Imm::Block(if r.chance(1, 3) { vec![] } else { vec![VTS[r.below(4)]] }) }); open += 1; if r.chance(1, 3) { s.push(RI::op(0x00)); } }
            1 if open > 0 => { s.push(RI::end()); open -= 1; }
            2 | 3 => s.push(t[0].clone()),
            4..=6 => s.push(t[r.below(t.len())].clone()),
            _ => s.push(some[r.below(few)].clone()),
        }
    }
    for _ in 0..open { s.push(RI::end()); }
    let res = r.below(5);
    dead_module(&s, res)
}

pub fn const_base() -> RModule {
    let mut m = RModule::default();
    m.types.push(FT::default());
    m.types.push(FT { params: vec![], results: vec![I32] });
    for i in 0..8 { m.imports.push(RImport { module: vec![], name: vec![i], desc: IDesc::Global(VTS[i as usize % 4], i >= 4) }); }
    m.imports.push(RImport { module: vec![], name: vec![9], desc: IDesc::Func(1) });
    m.tables.push(Lim { min: 0, max: None });
    m.mems.push(Lim { min: 0, max: None });
    for i in 0..8 { m.globals.push(RGlobal { vt: VTS[i % 4], mutable: i >= 4, init: vec![RI::konst(VTS[i % 4]), RI::end()] }); }
    m
}
pub fn const_tokens() -> Vec<RI> {
    let mut v: Vec<RI> = VTS.iter().map(|t| RI::konst(*t)).collect();
    for g in 0..18 { v.push(RI::idx(0x23, g)); }
    v.push(RI::idx(0x23, u32::MAX));
    v.extend([RI::op(0x01), RI::op(0x00), RI::op(0x1A), RI::op(0x1B), RI::op(0x0F), RI::idx(0x0C, 0), RI::idx(0x10, 0), RI::idx(0x3F, 0), RI::op(0x6A), RI::op(0x45), RI::idx(0x24, 4), RI::idx(0x20, 0), RI::op(0xBC), RI::op(0xA7)]);
    v
}
/// Place an expression: 0..4 as initialiser of a global of that type, 4 element offset, 5 data offset.
pub fn const_place(m: &mut RModule, pos: usize, e: Vec<RI>) {
    match pos {
        0..=3 => m.globals.push(RGlobal { vt: VTS[pos], mutable: false, init: e }),
        4 => m.elems.push(RElem { table: 0, offset: e, init: vec![] }),
        _ => m.datas.push(RData { mem: 0, offset: e, init: vec![] }),
    }
}
pub fn const_matrix(pos: usize, a: usize, mut f: impl FnMut(&[u8]) -> J) -> J {
    let t = const_tokens();
    let base = const_base();
    let mut j = J::batch();
    let mut run = |e: Vec<RI>, j: &mut J| {
        let mut m = base.clone();
        const_place(&mut m, pos, e);
        let b = encode(&m);
        let x = f(&b);
        j.add("m", &b, x);
    };
    if a == 0 {
        run(vec![RI::end()], &mut j);
        // every instruction on its own, and wrapped into a structured one
        for i in matrix_ops() { run(vec![i, RI::end()], &mut j); }
        for ty in VTS { for k in [2u8, 3] { run(vec![RI::blk(k, Some(ty)), RI::konst(ty), RI::end(), RI::end()], &mut j); } run(vec![RI::i32c(1), RI::blk(4, Some(ty)), RI::konst(ty), RI::op(5), RI::konst(ty), RI::end(), RI::end()], &mut j); }
    }
    run(vec![t[a].clone(), RI::end()], &mut j);
    for b in &t {
        run(vec![t[a].clone(), b.clone(), RI::end()], &mut j);
        for c in [0, 1, 4, 23, 25, 26, 31, 32] { run(vec![t[a].clone(), b.clone(), t[c].clone(), RI::end()], &mut j); }
        if j.bad.is_some() { return j; }
    }
    j
}

// ---------------------------------------------------------------- C10: index sweeps

/// Every index position of a module, with the size of the space it points into.
pub fn slots<'a>(m: &'a mut RModule) -> Vec<(&'a mut u32, usize)> {
    let imp = |m: &RModule, f: fn(&IDesc) -> bool| m.imports.iter().filter(|i| f(&i.desc)).count();
    let nf = m.funcs.len() + imp(m, |d| matches!(d, IDesc::Func(_)));
    let nt = m.tables.len() + imp(m, |d| matches!(d, IDesc::Table(_)));
    let nm = m.mems.len() + imp(m, |d| matches!(d, IDesc::Mem(_)));
    let ng = m.globals.len() + imp(m, |d| matches!(d, IDesc::Global(..)));
    let ty = m.types.len();
    let types = m.types.clone();
    let mut v: Vec<(&'a mut u32, usize)> = vec![];
    for i in m.imports.iter_mut() { if let IDesc::Func(t) = &mut i.desc { v.push((t, ty)); } }
    for e in m.exports.iter_mut() { let n = match e.kind { 0 => nf, 1 => nt, 2 => nm, _ => ng }; v.push((&mut e.idx, n)); }
    if let Some(s) = m.start.as_mut() { v.push((s, nf)); }
    fn code<'a>(b: &'a mut Vec<RI>, nl: usize, sp: (usize, usize, usize, usize, usize), v: &mut Vec<(&'a mut u32, usize)>) {
        let mut d = 1;
        for i in b.iter_mut() {
            match i.op { 2..=4 => d += 1, 0x0B => d -= 1, _ => {} }
            let op = i.op;
            match &mut i.imm {
                Imm::Idx(x) => v.push((x, match op { 0x0C | 0x0D => d, 0x10 => sp.0, 0x20..=0x22 => nl, 0x23 | 0x24 => sp.3, _ => sp.2 })),
                Imm::Idx2(x, y) => { v.push((x, sp.4)); v.push((y, sp.1)); }
                Imm::Table(l, x) => { for y in l.iter_mut() { v.push((y, d)); } v.push((x, d)); }
                _ => {}
            }
        }
    }
    let sp = (nf, nt, nm, ng, ty);
    for g in m.globals.iter_mut() { code(&mut g.init, 0, sp, &mut v); }
    for e in m.elems.iter_mut() { v.push((&mut e.table, nt)); code(&mut e.offset, 0, sp, &mut v); for x in e.init.iter_mut() { v.push((x, nf)); } }
    for d in m.datas.iter_mut() { v.push((&mut d.mem, nm)); code(&mut d.offset, 0, sp, &mut v); }
    for f in m.funcs.iter_mut() {
        let nl = types.get(f.ty as usize).map_or(0, |t| t.params.len()) + f.locals.iter().map(|l| l.0 as usize).sum::<usize>();
        v.push((&mut f.ty, ty));
        code(&mut f.body, nl, sp, &mut v);
    }
    v
}
/// Set every index of a generated module to every value up to just past its space.
pub fn index_sweep(p: &Pool, r: &mut Rng, m0: &RModule, mut f: impl FnMut(&[u8]) -> J) -> J {
    let mut j = J::batch();
    let mut m = m0.clone();
    let n = slots(&mut m).len();
    let mut picks: Vec<usize> = (0..n).collect();
    r.shuffle(&mut picks);
    for k in picks.into_iter().take(60) {
        let size = slots(&mut m)[k].1;
        let mut vals: Vec<u32> = if size <= 24 { (0..size as u32 + 3).collect() } else { let s = size as u32; let mut v = vec![0, 1, s / 2, s - 2, s - 1, s, s + 1]; for _ in 0..6 { v.push(r.below(size) as u32); } v };
        vals.extend([u32::MAX, 1 << 31, 256, 65536, p.u32(r), (size as u32).wrapping_add(1 << 8), (size as u32).wrapping_sub(1).wrapping_add(1 << 16)]);
        for v in vals {
            let old = { let mut s = slots(&mut m); let o = *s[k].0; *s[k].0 = v; o };
            let b = encode(&m);
            *slots(&mut m)[k].0 = old;
            let x = f(&b);
            j.add("m", &b, x);
            if j.bad.is_some() { return j; }
        }
    }
    j
}
/// A module rich in imports of all kinds, interleaved, each entity with a distinctive type.
pub fn index_rich(p: &Pool, r: &mut Rng) -> RModule {
    let mut cfg = Cfg::small();
    cfg.body = 14;
    let mut m = gen::module(p, r, &cfg);
    // more of everything that can be referred to
    for _ in 0..r.below(6) {
        let t = m.types.len() as u32;
        m.types.push(FT { params: (0..r.below(4)).map(|_| gen::rvt(r)).collect(), results: if r.chance(1, 2) { vec![gen::rvt(r)] } else { vec![] } });
        m.imports.push(RImport { module: p.name(r), name: p.name(r), desc: IDesc::Func(t) });
        // shifting the function space invalidates old references: rebuild bodies below
    }
    for _ in 0..r.below(6) { let g = IDesc::Global(gen::rvt(r), r.chance(1, 2)); let at = r.below(m.imports.len() + 1); m.imports.insert(at, RImport { module: p.name(r), name: p.name(r), desc: g }); }
    if let Ok(c) = crate::val::context(&m) {
        let types = m.types.clone();
        for f in m.funcs.iter_mut() {
            let ft = &types[f.ty as usize];
            let l = crate::val::Locals::new(&ft.params, &f.locals);
            let len = r.range(6, 22);
            f.body = gen::body(p, r, &c, ft, &l, len, &Cfg { depth: 4, ..Cfg::small() });
        }
        m.start = None;
        let imported: Vec<(VT, bool)> = m.imports.iter().filter_map(|i| if let IDesc::Global(t, mu) = i.desc { Some((t, mu)) } else { None }).collect();
        for g in m.globals.iter_mut() {
            let k: Vec<u32> = imported.iter().enumerate().filter(|(_, x)| x.0 == g.vt && !x.1).map(|(i, _)| i as u32).collect();
            g.init = vec![if k.is_empty() { RI::konst(g.vt) } else { RI::idx(0x23, *r.pick(&k)) }, RI::end()];
        }
        let k: Vec<u32> = c.globals.iter().enumerate().filter(|(_, x)| x.0 == I32 && !x.1).map(|(i, _)| i as u32).collect();
        for o in m.elems.iter_mut().map(|e| &mut e.offset).chain(m.datas.iter_mut().map(|d| &mut d.offset)) {
            *o = vec![if k.is_empty() { RI::i32c(0) } else { RI::idx(0x23, *r.pick(&k)) }, RI::end()];
        }
    }
    m
}

// ---------------------------------------------------------------- C12: limits

pub fn limit_values(p: &Pool) -> Vec<u32> {
    let mut v = vec![0, 1, 2, 9, 10, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 65538, 99999, 100000, 131072, 1 << 20, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX];
    v.extend(p.u32s.iter().filter(|x| **x > 300).step_by(7));
    v.sort();
    v.dedup();
    v
}
/// All (min, max) pairs for one min, as own/imported table/memory.
pub fn limits_batch(p: &Pool, min: u32, mut f: impl FnMut(&[u8]) -> J) -> J {
    let mut j = J::batch();
    let mut maxs: Vec<Option<u32>> = vec![None];
    maxs.extend(limit_values(p).into_iter().map(Some));
    maxs.extend([min.wrapping_sub(1), min, min.wrapping_add(1)].map(Some));
    for max in maxs {
        let l = Lim { min, max };
        for place in 0..4 {
            let mut m = RModule::default();
            match place {
                0 => m.tables.push(l),
                1 => m.mems.push(l),
                2 => m.imports.push(RImport { module: vec![], name: vec![], desc: IDesc::Table(l) }),
                _ => m.imports.push(RImport { module: vec![], name: vec![], desc: IDesc::Mem(l) }),
            }
            let b = encode(&m);
            let x = f(&b);
            j.add("m", &b, x);
        }
        if j.bad.is_some() { return j; }
    }
    j
}
/// Alignment: one memory instruction, all exponents, several offsets, reachable and dead.
pub fn align_batch(p: &Pool, op: u8, mut f: impl FnMut(&[u8]) -> J) -> J {
    let mut j = J::batch();
    let (t, _) = crate::val::mem_sig(op);
    let mut al: Vec<u32> = (0..70).collect();
    al.extend(p.u32s.iter().filter(|x| **x >= 70));
    for a in al {
        for off in [0u32, 1, 2, 3, 4, 8, 31, 32, 64, 65536, u32::MAX] {
            for dead in 0..2 {
                let mut body = vec![];
                if dead == 1 { body.push(RI::op(0)); }
                body.push(RI::i32c(0));
                if op >= 0x36 { body.push(RI::konst(t)); }
                body.push(RI { op, imm: Imm::Mem(a, off) });
                if op < 0x36 { body.push(RI::op(0x1A)); }
                body.push(RI::end());
                let m = RModule { types: vec![FT::default()], mems: vec![Lim { min: 0, max: None }], funcs: vec![RFunc { ty: 0, locals: vec![], body }], ..Default::default() };
                let b = encode(&m);
                let x = f(&b);
                j.add("m", &b, x);
            }
        }
        if j.bad.is_some() { return j; }
    }
    j
}
/// Counts of imported and own tables and memories.
pub fn counts_batch(mut f: impl FnMut(&[u8]) -> J) -> J {
    let mut j = J::batch();
    for c in 0..256u32 {
        let d = |k: u32| (c >> (2 * k)) & 3;
        let mut m = RModule::default();
        let l = Lim { min: 0, max: None };
        for i in 0..d(0) { m.imports.push(RImport { module: vec![], name: vec![i as u8], desc: IDesc::Table(l) }); }
        for i in 0..d(1) { m.imports.push(RImport { module: vec![], name: vec![i as u8], desc: IDesc::Mem(l) }); }
        for _ in 0..d(2) { m.tables.push(l); }
        for _ in 0..d(3) { m.mems.push(l); }
        let b = encode(&m);
        let x = f(&b);
        j.add("m", &b, x);
    }
    j
}
/// Start functions of every small signature, own and imported; function types with several results.
pub fn start_batch(mut f: impl FnMut(&[u8]) -> J) -> J {
    let mut j = J::batch();
    for np in 0..4usize { for pc in 0..4usize.pow(np as u32) { for nr in 0..4usize { for rc in 0..4usize.pow(nr as u32) {
        let dec = |n: usize, mut c: usize| -> Vec<VT> { (0..n).map(|_| { let t = VTS[c % 4]; c /= 4; t }).collect() };
        let ft = FT { params: dec(np, pc), results: dec(nr, rc) };
        for place in 0..4 {
            let mut m = RModule { types: vec![FT::default(), ft.clone()], ..Default::default() };
            match place {
                0 => {} // the type alone
                1 => m.imports.push(RImport { module: vec![], name: vec![], desc: IDesc::Func(1) }),
                2 => { m.imports.push(RImport { module: vec![], name: vec![], desc: IDesc::Func(1) }); m.start = Some(0); }
                _ => {
                    m.imports.push(RImport { module: vec![], name: vec![], desc: IDesc::Func(0) });
                    m.funcs.push(RFunc { ty: 1, locals: vec![], body: vec![RI::op(0), RI::end()] });
                    m.start = Some(1);
                }
            }
            let b = encode(&m);
            let x = f(&b);
            j.add("m", &b, x);
            if j.bad.is_some() { return j; }
        }
    } } } }
    j
}
/// Export lists with and without duplicates.
pub fn exports(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut m = RModule { types: vec![FT::default()], ..Default::default() };
    m.funcs.push(RFunc { ty: 0, locals: vec![], body: vec![RI::end()] });
    m.funcs.push(RFunc { ty: 0, locals: vec![], body: vec![RI::end()] });
    m.tables.push(Lim { min: 0, max: None });
    m.mems.push(Lim { min: 0, max: None });
    m.globals.push(RGlobal { vt: I32, mutable: false, init: vec![RI::i32c(0), RI::end()] });
    let n = p.size(r, 10, 2000);
    let mut seen = std::collections::HashSet::new();
    let style = r.below(5);
    for i in 0..n {
        let mut nm = match style {
            0 => p.name(r),
            1 => format!("{}", i).into_bytes(),
            2 => { let mut s = vec![b'a'; i % 50]; s.extend(format!("{}", i / 50).bytes()); s }
            3 => { let mut s = format!("Name{}", i / 4).into_bytes(); match i % 4 { 1 => s.make_ascii_lowercase(), 2 => s.make_ascii_uppercase(), 3 => s.push(b' '), _ => {} } s }
            _ => { let mut s = format!("{}", i).into_bytes(); s.push(0); s.extend(p.name(r)); s }
        };
        while !seen.insert(nm.clone()) { nm.push(b'_'); }
        let kind = r.below(4) as u8;
        m.exports.push(RExport { name: nm, kind, idx: if kind == 0 { r.below(2) as u32 } else { 0 } });
    }
    if n > 1 && r.chance(1, 2) {
        let (a, b) = match r.below(4) { 0 => (0, n - 1), 1 => (0, 1), 2 => (n - 2, n - 1), _ => { let a = r.below(n); let b = r.below(n); (a, b) } };
        if a != b { m.exports[b].name = m.exports[a].name.clone(); if r.chance(1, 2) { m.exports[b].kind = m.exports[a].kind; m.exports[b].idx = m.exports[a].idx; } }
    }
    encode(&m)
}

// ---------------------------------------------------------------- C18: sections

/// Minimal well-formed content of each section (0 custom).
pub fn section_content(id: u8, alt: usize) -> Vec<u8> {
    match (id, alt % 2) {
        (0, 0) => vec![0],
        (0, _) => vec![1, b'x', 9, 9],
        (1, _) => vec![1, 0x60, 0, 0],
        (2, 0) => vec![0],
        (2, _) => vec![1, 0, 0, 3, 0x7F, 0],
        (3, _) => vec![0],
        (4, 0) => vec![0],
        (4, _) => vec![1, 0x70, 0, 0],
        (5, 0) => vec![0],
        (5, _) => vec![1, 0, 0],
        (6, 0) => vec![0],
        (6, _) => vec![1, 0x7F, 0, 0x41, 0, 0x0B],
        (7, _) => vec![0],
        (8, _) => vec![0],
        (9, _) => vec![0],
        (10, _) => vec![0],
        (11, _) => vec![0],
        _ => vec![0],
    }
}
/// All section sequences of length 3 that start with `a`.
pub fn section_seqs(a: u8, mut f: impl FnMut(&[u8]) -> J) -> J {
    let mut j = J::batch();
    let mut e = Enc::plain();
    let mk = |ids: &[u8], alt: usize| -> Vec<(u8, Vec<u8>)> { ids.iter().map(|i| (*i, section_content(*i, alt))).collect() };
    let mut run = |ids: &[u8], j: &mut J| for alt in 0..2 { let b = e.assemble(&mk(ids, alt)); let x = f(&b); j.add("m", &b, x); };
    run(&[a], &mut j);
    for b in 0..14 {
        run(&[a, b], &mut j);
        for c in 0..14 { run(&[a, b, c], &mut j); for d in [0u8, 1, 11] { run(&[a, b, c, d], &mut j); } }
        if j.bad.is_some() { break; }
    }
    j
}
/// Random longer sequences: mostly ordered, with a swap, repetition or unknown number.
pub fn section_random(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let m = gen::module(p, r, &Cfg::small());
    let mut e = Enc::plain();
    let mut secs = if r.chance(1, 2) { e.sections(&m) } else {
        (1..12u8).filter_map(|i| if r.chance(1, 2) { Some((i, section_content(i, r.below(2)))) } else { None }).collect()
    };
    for _ in 0..r.below(4) { let at = r.below(secs.len() + 1); let c = custom(p, r); secs.insert(at, (0, c)); }
    if !secs.is_empty() {
        let k = r.below(secs.len());
        match r.below(7) {
            0 => { let j = r.below(secs.len()); secs.swap(k, j); }
            1 => { let s = secs[k].clone(); let at = r.below(secs.len() + 1); secs.insert(at, s); }
            2 => { let id = r.byte(); secs.insert(k, (id, vec![0])); }
            3 => { let s = secs.remove(k); let at = r.below(secs.len() + 1); secs.insert(at, s); }
            4 => {
                // a custom section with a broken name
                let c: Vec<u8> = match r.below(4) { 0 => vec![], 1 => vec![3, b'a'], 2 => vec![1, 0xFF], _ => vec![0x80] };
                secs.insert(k, (0, c));
            }
            _ => {}
        }
    }
    e.assemble(&secs)
}

// ---------------------------------------------------------------- C19: functions and locals

/// `decl` function declarations (None: no section) against `bodies` bodies.
pub fn pairing(decl: Option<usize>, bodies: Option<usize>, between: bool) -> Vec<u8> {
    let mut e = Enc::plain();
    let mut secs = vec![(1u8, vec![2, 0x60, 0, 0, 0x60, 1, 0x7F, 0])];
    let n = |k: usize| { let mut v = vec![]; leb::enc_u(k as u64, &mut v); v };
    if let Some(d) = decl { let mut c = n(d); c.extend((0..d).map(|i| (i % 2) as u8)); secs.push((3, c)); }
    if between { secs.push((5, vec![1, 0, 1])); secs.push((0, vec![1, b'z'])); }
    if let Some(k) = bodies {
        let mut c = n(k);
        for i in 0..k { let body = [1, (i % 5) as u8, 0x7F, 0x41, (i % 64) as u8, 0x1A, 0x0B]; c.push(body.len() as u8); c.extend(body); }
        secs.push((10, c));
    }
    if between { secs.push((11, vec![1, 0, 0x41, 0, 0x0B, 0])); }
    e.assemble(&secs)
}
/// Locals: lists of runs, sometimes with a total beyond the limit.
pub fn locals(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut runs: Vec<(u32, VT)> = vec![];
    let k = p.size(r, 6, 400);
    let over = r.chance(1, 3);
    for _ in 0..k { let n = if r.chance(1, 3) { 0 } else { p.size(r, 9, 3000) }; runs.push((n as u32, gen::rvt(r))); }
    if over {
        // total just around 2^32: too many locals, or (when below) not generated
        let mut left: u64 = (1u64 << 32) + r.below(3) as u64 * 7;
        let parts = r.range(2, 5);
        for i in 0..parts {
            let n = if i + 1 == parts { left.min(u32::MAX as u64) } else { (left / 2).min(u32::MAX as u64) };
            left -= n;
            let at = r.below(runs.len() + 1);
            runs.insert(at, (n as u32, gen::rvt(r)));
            if left == 0 { break; }
        }
        while left > 0 { let n = left.min(u32::MAX as u64); left -= n; runs.push((n as u32, gen::rvt(r))); }
    }
    let total: u64 = runs.iter().map(|x| x.0 as u64).sum();
    let params: Vec<VT> = (0..r.below(4)).map(|_| gen::rvt(r)).collect();
    let l = crate::val::Locals::new(&params, &runs);
    let mut body = vec![];
    for _ in 0..r.below(6) {
        let n = l.len();
        if n == 0 { break; }
        let i = if r.chance(1, 2) { r.u64() % n } else { n - 1 - (r.u64() % n.min(4)) };
        body.extend([RI::idx(0x20, i.min(u32::MAX as u64) as u32), RI::op(0x1A)]);
    }
    if r.chance(1, 6) && total < 1 << 31 { body.extend([RI::idx(0x20, l.len() as u32), RI::op(0x1A)]); }
    body.push(RI::end());
    let nf = r.below(3);
    let mut m = RModule { types: vec![FT { params, results: vec![] }], ..Default::default() };
    for _ in 0..nf { m.funcs.push(RFunc { ty: 0, locals: vec![(r.below(4) as u32, gen::rvt(r))], body: vec![RI::end()] }); }
    let at = r.below(nf + 1);
    m.funcs.insert(at, RFunc { ty: 0, locals: runs, body });
    let mut e = if r.chance(1, 4) { Enc::padded(r.u64(), 20, 4) } else { Enc::plain() };
    e.module(&m)
}

// ---------------------------------------------------------------- C21: single faults

/// A well-formed module with one engineered fault.
pub fn faulted(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut cfg = Cfg::small();
    cfg.body = 12;
    let m = gen::module(p, r, &cfg);
    let mut e = Enc::plain();
    let secs = e.sections(&m);
    let b = e.assemble(&secs);
    match r.below(9) {
        0 => { let k = r.below(b.len()); b[..k].to_vec() }
        1 => { let mut b = b; let k = r.below(8); b[k] = b[k].wrapping_add(1 + r.below(255) as u8); b }
        2 => {
            // a section whose declared size is larger than its content
            if secs.is_empty() { return b; }
            let k = r.below(secs.len());
            let mut o = b[..8].to_vec();
            for (i, (id, c)) in secs.iter().enumerate() {
                o.push(*id);
                let extra = if i == k { r.range(1, 5) } else { 0 };
                leb::enc_u((c.len() + extra) as u64, &mut o);
                o.extend(c);
                for _ in 0..extra { o.push(0); }
            }
            o
        }
        3 => { let mut s = secs.clone(); if s.is_empty() { return b; } let k = r.below(s.len()); let x = s[k].clone(); s.insert(k + 1, x); e.assemble(&s) }
        4 => { let mut s = secs.clone(); let k = r.below(s.len() + 1); s.insert(k, (r.range(12, 255) as u8, vec![0])); e.assemble(&s) }
        5 => { let mut s = secs.clone(); if s.len() < 2 { return b; } let k = r.below(s.len() - 1); s.swap(k, k + 1); e.assemble(&s) }
        6 => {
            // a body with a misplaced else or an unknown opcode
            let mut m = m.clone();
            if m.funcs.is_empty() { return b; }
            let k = r.below(m.funcs.len());
            let at = r.below(m.funcs[k].body.len());
            let op = if r.chance(1, 2) { 0x05 } else { *r.pick(&[0x06, 0x07, 0x0A, 0x12, 0x19, 0x1C, 0x1F, 0x25, 0x27, 0xC0, 0xC4, 0xD0, 0xFC, 0xFD, 0xFE, 0xFF]) };
            m.funcs[k].body.insert(at, RI::op(op));
            encode(&m)
        }
        7 => {
            // a name with an invalid byte
            let mut m = m.clone();
            if m.imports.is_empty() && m.exports.is_empty() { return b; }
            let bad = { let mut n = p.name(r); let at = r.below(n.len() + 1); n.insert(at, *r.pick(&[0x80, 0xC0, 0xC1, 0xF5, 0xFF, 0xED])); n };
            if !m.imports.is_empty() && r.chance(1, 2) { let k = r.below(m.imports.len()); if r.chance(1, 2) { m.imports[k].module = bad } else { m.imports[k].name = bad } }
            else if !m.exports.is_empty() { let k = r.below(m.exports.len()); m.exports[k].name = bad }
            encode(&m)
        }
        _ => {
            // an integer out of range
            let mut m = m.clone();
            if m.funcs.is_empty() { return b; }
            let k = r.below(m.funcs.len());
            let mut code = e.code(&RFunc { ty: 0, locals: m.funcs[k].locals.clone(), body: vec![] });
            let bad: Vec<u8> = match r.below(6) {
                0 => vec![0x20, 0xFF, 0xFF, 0xFF, 0xFF, 0x1F],
                1 => vec![0x41, 0xFF, 0xFF, 0xFF, 0xFF, 0x0F],
                2 => vec![0x42, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x01],
                3 => vec![0x10, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01],
                4 => vec![0x41, 0x80, 0x80, 0x80, 0x80, 0x70],
                _ => vec![0x28, 0x80, 0x80, 0x80, 0x80, 0x10, 0x00],
            };
            code.extend(bad);
            code.push(0x0B);
            m.funcs.truncate(k + 1);
            let mut s = e.sections(&m);
            let mut c = vec![];
            leb::enc_u(m.funcs.len() as u64, &mut c);
            for f in &m.funcs[..k] { let x = e.code(f); leb::enc_u(x.len() as u64, &mut c); c.extend(x); }
            leb::enc_u(code.len() as u64, &mut c);
            c.extend(code);
            for x in s.iter_mut() { if x.0 == 10 { x.1 = c.clone(); } }
            e.assemble(&s)
        }
    }
}
