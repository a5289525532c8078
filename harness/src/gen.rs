//! Random generation of WebAssembly 1.0 modules that are valid by construction,
//! and of single-fault variants of them.
use crate::pool::Pool;
use crate::rast::*;
use crate::rng::Rng;
use crate::val::{self, Ctx, Locals, FV};

#[derive(Clone)]
pub struct Cfg {
    pub body: usize,
    pub depth: usize,
    pub funcs: usize,
    pub big: bool,
    /// one dimension stretched to a given size (0: none)
    pub dim: usize,
    pub size: usize,
}
/// Dimensions of a module that can be stretched.
pub const DIMS: &[&str] = &["none", "types", "params", "imports", "globals", "funcs", "local runs", "locals", "exports", "elem entries", "elems",
    "data bytes", "datas", "import names", "export names", "branch table", "operands", "nesting", "body", "function imports"];
impl Cfg {
    pub fn small() -> Cfg { Cfg { body: 24, depth: 5, funcs: 3, big: false, dim: 0, size: 0 } }
    pub fn stretched(p: &Pool, r: &mut Rng) -> Cfg {
        let dim = r.range(1, DIMS.len() - 1);
        let cap = match dim { 16 | 17 | 18 => 2000, 8 | 13 | 14 | 5 => 5000, _ => 70_000 };
        let cap = match r.below(24) { 0 => cap, 1..=6 => cap.min(3000), _ => 300 };
        let hi = p.sizes.partition_point(|x| *x <= cap);
        Cfg { dim, size: p.sizes[r.below(hi.max(1))], body: 10, ..Cfg::small() }
    }
    fn at(&self, dim: &str, normal: usize) -> usize { if DIMS[self.dim] == dim { self.size } else { normal } }
    pub fn medium() -> Cfg { Cfg { body: 150, depth: 12, funcs: 8, big: true, dim: 0, size: 0 } }
}

pub fn rvt(r: &mut Rng) -> VT { *r.pick(&VTS) }

fn konst(p: &Pool, r: &mut Rng, t: VT) -> RI {
    match t {
        VT::I32 => RI { op: 0x41, imm: Imm::I32(p.i32(r)) },
        VT::I64 => RI { op: 0x42, imm: Imm::I64(p.i64(r)) },
        VT::F32 => RI { op: 0x43, imm: Imm::F32(p.f32(r)) },
        VT::F64 => RI { op: 0x44, imm: Imm::F64(p.f64(r)) },
    }
}

/// A random instruction (any operator, plausible immediates); validity not considered.
pub fn any_instr(p: &Pool, r: &mut Rng, c: &Ctx, nlocals: u64, nlabels: usize) -> RI {
    fn near(p: &Pool, r: &mut Rng, n: u64) -> u32 {
        if n > 0 && !r.chance(1, 12) { r.below(n.min(u32::MAX as u64) as usize) as u32 }
        else if r.chance(2, 3) { (n as u32).wrapping_add(r.below(3) as u32) }
        else { p.u32(r) }
    }
    match r.below(30) {
        0 => RI::op(0x00),
        1 => RI::op(0x01),
        2 => RI::blk(0x02, if r.chance(1, 2) { None } else { Some(rvt(r)) }),
        3 => RI::blk(0x03, if r.chance(1, 2) { None } else { Some(rvt(r)) }),
        4 => RI::blk(0x04, if r.chance(1, 2) { None } else { Some(rvt(r)) }),
        5 => RI::idx(0x0C, near(p, r, nlabels as u64)),
        6 => RI::idx(0x0D, near(p, r, nlabels as u64)),
        7 => {
            let n = p.size(r, 4, 200);
            RI { op: 0x0E, imm: Imm::Table((0..n).map(|_| near(p, r, nlabels as u64)).collect(), near(p, r, nlabels as u64)) }
        }
        8 => RI::op(0x0F),
        9 => RI::idx(0x10, near(p, r, c.funcs.len() as u64)),
        10 => RI { op: 0x11, imm: Imm::Idx2(near(p, r, c.types.len() as u64), near(p, r, c.tables as u64)) },
        11 => RI::op(0x1A),
        12 => RI::op(0x1B),
        13 => RI::idx(0x20, near(p, r, nlocals)),
        14 => RI::idx(0x21, near(p, r, nlocals)),
        15 => RI::idx(0x22, near(p, r, nlocals)),
        16 => RI::idx(0x23, near(p, r, c.globals.len() as u64)),
        17 => RI::idx(0x24, near(p, r, c.globals.len() as u64)),
        18 | 19 => {
            let op = r.range(0x28, 0x3E) as u8;
            let (_, w) = val::mem_sig(op);
            let nat = w.trailing_zeros();
            let a = if r.chance(1, 10) { p.u32(r) } else { r.below(nat as usize + 2) as u32 };
            RI { op, imm: Imm::Mem(a, p.u32(r)) }
        }
        20 => RI::idx(if r.chance(1, 2) { 0x3F } else { 0x40 }, near(p, r, c.mems as u64)),
        21 | 22 => { let t = rvt(r); konst(p, r, t) }
        23 if nlabels > 1 => RI::op(0x0B),
        24 if nlabels > 1 => RI::op(0x05),
        _ => RI::op(r.range(0x45, 0xBF) as u8),
    }
}

/// Instructions that bring the current frame's stack to exactly its end type.
fn settle(p: &Pool, r: &mut Rng, fv: &FV) -> Vec<RI> {
    let f = fv.frames.last().unwrap();
    let have = &fv.vals[f.base..];
    let want: Vec<VT> = f.end.into_iter().collect();
    let fits = have.len() == want.len() && have.iter().zip(&want).all(|(h, w)| h.map_or(true, |h| h == *w));
    if fits || (f.dead && have.is_empty() && r.chance(2, 3)) { return vec![]; }
    let mut out = vec![RI::op(0x1A); have.len()];
    for t in want { out.push(konst(p, r, t)); }
    out
}

/// A valid body for a function of type `ft` with the given locals.
pub fn body(p: &Pool, r: &mut Rng, c: &Ctx, ft: &FT, locals: &Locals, len: usize, cfg: &Cfg) -> Vec<RI> {
    let depth = cfg.depth;
    let mut fv = FV::new(ft.results.first().copied());
    let mut out: Vec<RI> = vec![];
    macro_rules! emit { ($i:expr) => {{ let i = $i; fv.step(c, locals, &i).expect("generator emitted an ill-typed instruction"); out.push(i); }}; }
    let mut tries = 0;
    match DIMS[cfg.dim] {
        "operands" => for _ in 0..cfg.size { let t = rvt(r); emit!(konst(p, r, t)); },
        "nesting" => for _ in 0..cfg.size {
            let bt = if r.chance(1, 2) { None } else { Some(rvt(r)) };
            let op = *r.pick(&[0x02, 0x02, 0x03, 0x04]);
            if op == 0x04 { emit!(konst(p, r, VT::I32)); }
            emit!(RI::blk(op, bt));
        },
        "branch table" => {
            emit!(RI::blk(0x02, None));
            if r.chance(1, 2) { emit!(RI::blk(0x03, None)); }
            let k = fv.frames.len() as u32;
            emit!(konst(p, r, VT::I32));
            let n = if ft.results.is_empty() { k } else { k - 1 };
            let v = (0..cfg.size).map(|_| r.below(n as usize) as u32).collect();
            emit!(RI { op: 0x0E, imm: Imm::Table(v, r.below(n as usize) as u32) });
        }
        _ => {}
    }
    let (len, depth) = (len + out.len(), depth + fv.frames.len() - 1);
    while out.len() < len && tries < 24 * 40 + 2 * len {
        tries += 1;
        if !c.funcs.is_empty() && r.chance(1, 16) || cfg.dim == 2 && r.chance(1, 6) {
            // a call with its arguments in place
            let indirect = c.funcs.is_empty() || c.tables > 0 && r.chance(1, 3);
            if indirect && c.tables == 0 || c.types.is_empty() { continue; }
            let f = if indirect { r.below(c.types.len()) } else { r.below(c.funcs.len()) };
            let t = if indirect { f } else { c.funcs[f] as usize };
            if out.len() > len + 20_000 { continue; }
            for v in &c.types[t].params { emit!(konst(p, r, *v)); }
            if indirect { emit!(konst(p, r, VT::I32)); emit!(RI { op: 0x11, imm: Imm::Idx2(f as u32, 0) }); }
            else { emit!(RI::idx(0x10, f as u32)); }
            continue;
        }
        // numeric operators that fit the current stack are hard to hit blindly: propose one directly
        let i = match r.below(10) {
            0..=2 => {
                let mut c2 = vec![];
                for op in 0x45..=0xBFu8 {
                    let (a, _) = val::numeric_sig(op);
                    let base = fv.frames.last().unwrap().base;
                    let n = fv.vals.len();
                    if n >= base + a.len() && fv.vals[n - a.len()..].iter().zip(a).all(|(x, y)| x.map_or(true, |x| x == *y)) { c2.push(op); }
                }
                if c2.is_empty() { let t = rvt(r); konst(p, r, t) } else { RI::op(*r.pick(&c2)) }
            }
            3 => {
                // a branch to a label whose type matches the top of the stack
                let k = fv.frames.len();
                RI::idx(if r.chance(2, 3) { 0x0D } else { 0x0C }, r.below(k) as u32)
            }
            4 => {
                let k = fv.frames.len();
                let d = r.below(k) as u32;
                let lab = fv.frames[k - 1 - d as usize].label();
                let same: Vec<u32> = (0..k as u32).filter(|l| fv.frames[k - 1 - *l as usize].label() == lab).collect();
                let n = p.size(r, 5, 100);
                RI { op: 0x0E, imm: Imm::Table((0..n).map(|_| *r.pick(&same)).collect(), d) }
            }
            _ => any_instr(p, r, c, locals.len(), fv.frames.len()),
        };
        match i.op {
            0x02..=0x04 if fv.frames.len() > depth => continue,
            0x05 | 0x0B => {
                if fv.frames.len() <= 1 { continue; }
                for s in settle(p, r, &fv) { emit!(s); }
                let f = fv.frames.last().unwrap();
                if i.op == 0x05 && f.op != 0x04 { continue; }
                if i.op == 0x0B && f.op == 0x04 && f.end.is_some() { emit!(RI::op(0x05)); continue; }
                emit!(i);
                continue;
            }
            // dead code is interesting, but not all of it
            0x00 | 0x0C | 0x0E | 0x0F if r.chance(1, 2) => continue,
            _ => {}
        }
        let mut t = fv.clone();
        if t.step(c, locals, &i).is_ok() {
            fv = t;
            out.push(i);
        }
    }
    loop {
        for s in settle(p, r, &fv) { emit!(s); }
        let f = fv.frames.last().unwrap();
        if f.op == 0x04 && f.end.is_some() { emit!(RI::op(0x05)); continue; }
        emit!(RI::end());
        if fv.done { return out; }
    }
}

fn lims(p: &Pool, r: &mut Rng, range: u32) -> Lim {
    let v = |r: &mut Rng| -> u32 {
        match r.below(4) { 0 => range, 1 => range.saturating_sub(r.below(3) as u32), 2 => p.u32(r).min(range), _ => r.below(20) as u32 }
    };
    let a = v(r).min(range);
    if r.chance(1, 2) { return Lim { min: a, max: None }; }
    let b = v(r).min(range);
    Lim { min: a.min(b), max: Some(a.max(b)) }
}

/// A constant expression of type `t` over the first `visible` globals.
fn const_expr(p: &Pool, r: &mut Rng, t: VT, visible: &[(VT, bool)]) -> Vec<RI> {
    let g: Vec<u32> = visible.iter().enumerate().filter(|(_, g)| g.0 == t && !g.1).map(|(i, _)| i as u32).collect();
    if !g.is_empty() && r.chance(1, 2) { return vec![RI::idx(0x23, *r.pick(&g)), RI::end()]; }
    vec![konst(p, r, t), RI::end()]
}

/// A module that is valid by construction.
pub fn module(p: &Pool, r: &mut Rng, cfg: &Cfg) -> RModule {
    let mut m = RModule::default();
    let many = |r: &mut Rng, small: usize| if cfg.big { p.size(r, small, 300) } else { r.below(small + 1) };
    let least = if r.chance(1, 10) { 0 } else { 1 };
    let nt = r.range(least, 6) + if cfg.big && r.chance(1, 10) { p.size(r, 10, 300) } else { 0 };
    let nt = cfg.at("types", nt);
    for k in 0..nt {
        let np = if k == 0 { cfg.at("params", 2) } else if cfg.big { p.size(r, 4, 40) } else { r.below(4) };
        m.types.push(FT { params: (0..np).map(|_| rvt(r)).collect(), results: if r.chance(1, 2) { vec![rvt(r)] } else { vec![] } });
    }
    if nt > 0 && r.chance(1, 3) { let k = r.below(nt); m.types[k] = FT::default(); }
    let (mut tab, mut mem) = (false, false);
    let (n, only) = (many(r, 5), cfg.dim == 19);
    let n = cfg.at("imports", cfg.at("function imports", n));
    for k in 0..n {
        let desc = match if only { 0 } else { r.below(4) } {
            0 if nt > 0 => IDesc::Func(if cfg.dim == 2 { 0 } else { r.below(nt) as u32 }),
            1 if !tab => { tab = true; IDesc::Table(lims(p, r, u32::MAX)) }
            2 if !mem => { mem = true; IDesc::Mem(lims(p, r, 65536)) }
            _ => IDesc::Global(rvt(r), r.chance(1, 3)),
        };
        let (mut module, mut name) = (p.name(r), p.name(r));
        if DIMS[cfg.dim] == "import names" && k == 0 { if r.chance(1, 2) { module = vec![b'm'; cfg.size] } else { name = vec![b'n'; cfg.size] } }
        m.imports.push(RImport { module, name, desc });
    }
    if !tab && r.chance(1, 2) { m.tables.push(lims(p, r, u32::MAX)); }
    if !mem && r.chance(2, 3) { m.mems.push(lims(p, r, 65536)); }
    let imported: Vec<(VT, bool)> = m.imports.iter().filter_map(|i| if let IDesc::Global(t, mu) = i.desc { Some((t, mu)) } else { None }).collect();
    let n = many(r, 4);
    for _ in 0..cfg.at("globals", n) {
        let vt = rvt(r);
        m.globals.push(RGlobal { vt, mutable: r.chance(1, 2), init: const_expr(p, r, vt, &imported) });
    }
    let n = r.below(cfg.funcs + 1);
    if nt > 0 { for _ in 0..cfg.at("funcs", n) { m.funcs.push(RFunc { ty: if cfg.dim == 2 && r.chance(1, 2) { 0 } else { r.below(nt) as u32 }, ..Default::default() }); } }
    let c = val::context(&m).expect("generator context");
    let m_funcs = m.funcs.len();
    for (k, f) in m.funcs.iter_mut().enumerate() {
        let nr = if cfg.big { p.size(r, 3, 60) } else { r.below(4) };
        let nr = if k == 0 { cfg.at("local runs", nr).max((DIMS[cfg.dim] == "locals") as usize) } else { nr };
        for j in 0..nr {
            let n = if cfg.big { p.size(r, 5, 2000) } else { r.below(5) };
            let n = if k == 0 && j == 0 { cfg.at("locals", n) } else { n };
            f.locals.push((n as u32, rvt(r)));
        }
        let ft = &m.types[f.ty as usize];
        let l = Locals::new(&ft.params, &f.locals);
        let mut only = cfg.clone();
        if k > 0 && matches!(DIMS[cfg.dim], "operands" | "nesting" | "branch table" | "body") { only.dim = 0; }
        let len = only.at("body", r.below(if m_funcs > 50 { 3 } else { cfg.body + 1 }));
        f.body = body(p, r, &c, ft, &l, len, &only);
    }
    let mut used = std::collections::HashSet::new();
    let n = many(r, 4);
    for k in 0..cfg.at("exports", n) {
        let kind = r.below(4) as u8;
        let n = match kind { 0 => c.funcs.len(), 1 => c.tables, 2 => c.mems, _ => c.globals.len() };
        if n == 0 { continue; }
        let mut name = p.name(r);
        if DIMS[cfg.dim] == "export names" && k == 0 { name = vec![b'e'; cfg.size]; }
        if cfg.dim == 8 && r.chance(3, 4) { name.extend(format!("{}", k).bytes()); }
        if used.insert(name.clone()) { m.exports.push(RExport { name, kind, idx: r.below(n) as u32 }); }
    }
    let starts: Vec<u32> = c.funcs.iter().enumerate().filter(|(_, t)| c.types[**t as usize] == FT::default()).map(|(i, _)| i as u32).collect();
    if !starts.is_empty() && r.chance(1, 2) { m.start = Some(*r.pick(&starts)); }
    if c.tables > 0 {
        let k = r.below(3);
        for j in 0..cfg.at("elems", k.max((cfg.dim == 9) as usize)) {
            let n = if c.funcs.is_empty() { 0 } else { many(r, 5) };
            let n = if j == 0 && !c.funcs.is_empty() { cfg.at("elem entries", n) } else { n };
            m.elems.push(RElem { table: 0, offset: const_expr(p, r, VT::I32, &c.globals), init: (0..n).map(|_| r.below(c.funcs.len()) as u32).collect() });
        }
    }
    if c.mems > 0 {
        let k = r.below(3);
        for j in 0..cfg.at("datas", k.max((cfg.dim == 11) as usize)) {
            let n = many(r, 20);
            let n = if j == 0 { cfg.at("data bytes", n) } else { n };
            m.datas.push(RData { mem: 0, offset: const_expr(p, r, VT::I32, &c.globals), init: (0..n).map(|_| r.byte()).collect() });
        }
    }
    m
}

fn bad_idx(p: &Pool, r: &mut Rng, n: usize) -> u32 {
    match r.below(6) { 0 => n as u32, 1 => (n as u32).wrapping_add(1), 2 => (n as u32).wrapping_sub(1), 3 => u32::MAX, 4 => r.below(n + 2) as u32, _ => p.u32(r) }
}

/// Mutate one instruction sequence in place. Keeps the block structure decodable
/// most of the time.
fn mutate_seq(p: &Pool, r: &mut Rng, c: &Ctx, nlocals: u64, b: &mut Vec<RI>) {
    if b.is_empty() { b.push(RI::end()); return; }
    // depth before each instruction
    let last = b.len() - 1;
    let k = r.below(b.len());
    let mut depth = 1usize;
    for i in &b[..k] { match i.op { 0x02..=0x04 => depth += 1, 0x0B => depth = depth.saturating_sub(1), _ => {} } }
    match r.below(9) {
        0 if k < last && !matches!(b[k].op, 0x02..=0x05 | 0x0B) => { b.remove(k); }
        1 => { let i = any_instr(p, r, c, nlocals, depth); if !matches!(i.op, 0x02..=0x05 | 0x0B) { b.insert(k, i); } }
        2 if k + 1 < last && !matches!(b[k].op, 0x02..=0x05 | 0x0B) && !matches!(b[k + 1].op, 0x02..=0x05 | 0x0B) => b.swap(k, k + 1),
        3 | 4 => {
            // perturb an immediate or the operator itself
            let nl = depth;
            let i = &mut b[k];
            match &mut i.imm {
                Imm::Block(t) => *t = if r.chance(1, 2) { vec![] } else { vec![rvt(r)] },
                Imm::Idx(x) => {
                    let n = match i.op { 0x0C | 0x0D => nl as u64, 0x10 => c.funcs.len() as u64, 0x20..=0x22 => nlocals, 0x23 | 0x24 => c.globals.len() as u64, _ => c.mems as u64 };
                    *x = bad_idx(p, r, n.min(u32::MAX as u64) as usize);
                }
                Imm::Idx2(x, y) => if r.chance(1, 2) { *x = bad_idx(p, r, c.types.len()) } else { *y = bad_idx(p, r, c.tables) },
                Imm::Table(v, d) => {
                    if v.is_empty() || r.chance(1, 3) { *d = bad_idx(p, r, nl) } else { let j = r.below(v.len()); v[j] = bad_idx(p, r, nl) }
                }
                Imm::Mem(a, o) => if r.chance(3, 4) { *a = bad_idx(p, r, val::mem_sig(i.op).1.trailing_zeros() as usize + 1) } else { *o = p.u32(r) },
                Imm::None if (0x45..=0xBF).contains(&i.op) => i.op = r.range(0x45, 0xBF) as u8,
                Imm::I32(_) | Imm::I64(_) | Imm::F32(_) | Imm::F64(_) => { let t = rvt(r); *i = konst(p, r, t) }
                _ => {}
            }
        }
        5 if b[k].op == 0x02 || b[k].op == 0x03 => b[k].op ^= 1,
        6 if k < last && !matches!(b[k].op, 0x02..=0x05 | 0x0B) => {
            let i = any_instr(p, r, c, nlocals, depth);
            if !matches!(i.op, 0x02..=0x05 | 0x0B) { b[k] = i; }
        }
        7 => { let i = if r.chance(1, 2) { RI::op(0x1A) } else { let t = rvt(r); konst(p, r, t) }; b.insert(k, i); }
        _ => {
            // drop an else branch marker, or wrap one instruction in a block
            if b[k].op == 0x05 { b.remove(k); }
            else if k < last && !matches!(b[k].op, 0x02..=0x05 | 0x0B) {
                let bt = if r.chance(1, 2) { None } else { Some(rvt(r)) };
                b.insert(k + 1, RI::end());
                b.insert(k, RI::blk(*r.pick(&[0x02, 0x03, 0x04]), bt));
            }
        }
    }
}

/// One random fault (or harmless change) somewhere in a function body.
pub fn mutate_body(p: &Pool, r: &mut Rng, m: &mut RModule) -> bool {
    if m.funcs.is_empty() { return false; }
    let c = match val::context(m) { Ok(c) => c, Err(_) => return false };
    let k = r.below(m.funcs.len());
    let n = { let f = &m.funcs[k]; Locals::new(&m.types[f.ty as usize].params, &f.locals).len() };
    match r.below(12) {
        0 => { let nt = m.types.len(); m.funcs[k].ty = r.below(nt) as u32; }
        1 if !m.funcs[k].locals.is_empty() => {
            let f = &mut m.funcs[k];
            let j = r.below(f.locals.len());
            if r.chance(1, 2) { f.locals[j].1 = rvt(r) } else { f.locals[j].0 = r.below(6) as u32 }
        }
        _ => mutate_seq(p, r, &c, n, &mut m.funcs[k].body),
    }
    true
}

/// Which part of the module-level rules a mutation is aimed at.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Aim { Index, Const, Limits }

pub fn mutate_module(p: &Pool, r: &mut Rng, m: &mut RModule, aim: Aim) {
    let nf = m.funcs.len() + m.imports.iter().filter(|i| matches!(i.desc, IDesc::Func(_))).count();
    let ng = m.globals.len() + m.imports.iter().filter(|i| matches!(i.desc, IDesc::Global(..))).count();
    let nmem = m.mems.len() + m.imports.iter().filter(|i| matches!(i.desc, IDesc::Mem(_))).count();
    let ntab = m.tables.len() + m.imports.iter().filter(|i| matches!(i.desc, IDesc::Table(_))).count();
    match aim {
        Aim::Index => match r.below(9) {
            0 if !m.imports.is_empty() => {
                let k = r.below(m.imports.len());
                if let IDesc::Func(t) = &mut m.imports[k].desc { *t = bad_idx(p, r, m.types.len()) }
            }
            1 if !m.funcs.is_empty() => { let k = r.below(m.funcs.len()); m.funcs[k].ty = bad_idx(p, r, m.types.len()) }
            2 | 3 if !m.exports.is_empty() => {
                let k = r.below(m.exports.len());
                let e = &mut m.exports[k];
                let n = match e.kind { 0 => nf, 1 => ntab, 2 => nmem, _ => ng };
                if r.chance(1, 4) { e.kind = r.below(4) as u8 } else { e.idx = bad_idx(p, r, n) }
            }
            4 => m.start = Some(bad_idx(p, r, nf)),
            5 if !m.elems.is_empty() => {
                let k = r.below(m.elems.len());
                let e = &mut m.elems[k];
                if e.init.is_empty() || r.chance(1, 3) { e.table = bad_idx(p, r, ntab) } else { let j = r.below(e.init.len()); e.init[j] = bad_idx(p, r, nf) }
            }
            6 if !m.datas.is_empty() => { let k = r.below(m.datas.len()); m.datas[k].mem = bad_idx(p, r, nmem) }
            7 if !m.imports.is_empty() => { let k = r.below(m.imports.len()); m.imports.remove(k); }
            8 if !m.imports.is_empty() => {
                let k = r.below(m.imports.len());
                m.imports[k].desc = IDesc::Global(rvt(r), r.chance(1, 2));
            }
            _ => { mutate_body(p, r, m); }
        },
        Aim::Const => {
            let c = match val::context(m) { Ok(c) => c, Err(_) => return };
            let total = m.globals.len() + m.elems.len() + m.datas.len();
            if total == 0 { return; }
            let k = r.below(total);
            let e = if k < m.globals.len() { &mut m.globals[k].init }
                else if k < m.globals.len() + m.elems.len() { let k = k - m.globals.len(); &mut m.elems[k].offset }
                else { let k = k - m.globals.len() - m.elems.len(); &mut m.datas[k].offset };
            match r.below(8) {
                0 => *e = vec![RI::end()],
                1 => { let t = rvt(r); *e = vec![konst(p, r, t), RI::end()] }
                2 | 3 => *e = vec![RI::idx(0x23, bad_idx(p, r, ng)), RI::end()],
                4 => { let t = rvt(r); e.insert(0, konst(p, r, t)) }
                5 => { let i = any_instr(p, r, &c, 0, 1); if !matches!(i.op, 0x02..=0x05 | 0x0B) { let k = r.below(e.len()); e.insert(k, i) } }
                6 => {
                    // a well-typed but non-constant expression of the same type
                    let t = match e[0].op { 0x42 => VT::I64, 0x43 => VT::F32, 0x44 => VT::F64, _ => VT::I32 };
                    *e = match r.below(4) {
                        0 => vec![RI::op(0x01), konst(p, r, t), RI::end()],
                        1 => vec![RI::blk(0x02, Some(t)), konst(p, r, t), RI::end(), RI::end()],
                        2 => vec![RI::op(0x00), RI::end()],
                        _ => vec![konst(p, r, t), konst(p, r, t), RI::op(0x1A), RI::end()],
                    }
                }
                _ => { let l = m.globals.len(); if l > 0 { let k = r.below(l); let g = &mut m.globals[k]; if r.chance(1, 2) { g.mutable = !g.mutable } else { g.vt = rvt(r) } } }
            }
        }
        Aim::Limits => {
            let any = |r: &mut Rng| Lim { min: lim_val(p, r), max: if r.chance(1, 3) { None } else { Some(lim_val(p, r)) } };
            match r.below(10) {
                0 if !m.tables.is_empty() => { let l = any(r); m.tables[0] = l }
                1 if !m.mems.is_empty() => { let l = any(r); m.mems[0] = l }
                2 | 3 if !m.imports.is_empty() => {
                    let k = r.below(m.imports.len());
                    match &mut m.imports[k].desc {
                        IDesc::Table(l) | IDesc::Mem(l) => *l = any(r),
                        d => *d = if r.chance(1, 2) { IDesc::Table(any(r)) } else { IDesc::Mem(any(r)) },
                    }
                }
                4 => { let l = any(r); m.tables.push(l) }
                5 => { let l = any(r); m.mems.push(l) }
                6 if m.exports.len() > 1 => { let (a, b) = (r.below(m.exports.len()), r.below(m.exports.len())); m.exports[a].name = m.exports[b].name.clone() }
                7 if !m.types.is_empty() => { let k = r.below(m.types.len()); let n = r.below(4); m.types[k].results = (0..n).map(|_| rvt(r)).collect() }
                8 if nf > 0 => m.start = Some(r.below(nf) as u32),
                _ => {
                    // alignment of a memory access
                    for f in m.funcs.iter_mut() {
                        let ks: Vec<usize> = f.body.iter().enumerate().filter(|(_, i)| matches!(i.imm, Imm::Mem(..))).map(|(k, _)| k).collect();
                        if ks.is_empty() { continue; }
                        let k = *r.pick(&ks);
                        let nat = val::mem_sig(f.body[k].op).1.trailing_zeros();
                        if let Imm::Mem(a, _) = &mut f.body[k].imm { *a = bad_idx(p, r, nat as usize + 1) }
                        return;
                    }
                }
            }
        }
    }
}

fn lim_val(p: &Pool, r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => r.below(10) as u32,
        1 => 65534 + r.below(5) as u32,
        2 => u32::MAX - r.below(3) as u32,
        _ => p.u32(r),
    }
}
