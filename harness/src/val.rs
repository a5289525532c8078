//! Reference validator: the WebAssembly 1.0 typing rules, written over the flat
//! instruction stream (value stack + control stack).

use crate::rast::*;
use VT::*;

pub type V<T> = Result<T, &'static str>;

#[derive(Default, Clone)]
pub struct Ctx {
    pub types: Vec<FT>,
    /// type index of each function (imports first), resolved
    pub funcs: Vec<u32>,
    pub tables: usize,
    pub mems: usize,
    pub globals: Vec<(VT, bool)>,
}

/// signature of the immediate-free numeric instructions 0x45..=0xBF
pub fn numeric_sig(op: u8) -> (&'static [VT], VT) {
    const I: &[VT] = &[I32];
    const II: &[VT] = &[I32, I32];
    const L: &[VT] = &[I64];
    const LL: &[VT] = &[I64, I64];
    const F: &[VT] = &[F32];
    const FF: &[VT] = &[F32, F32];
    const D: &[VT] = &[F64];
    const DD: &[VT] = &[F64, F64];
    match op {
        0x45 => (I, I32),
        0x46..=0x4F => (II, I32),
        0x50 => (L, I32),
        0x51..=0x5A => (LL, I32),
        0x5B..=0x60 => (FF, I32),
        0x61..=0x66 => (DD, I32),
        0x67..=0x69 => (I, I32),
        0x6A..=0x78 => (II, I32),
        0x79..=0x7B => (L, I64),
        0x7C..=0x8A => (LL, I64),
        0x8B..=0x91 => (F, F32),
        0x92..=0x98 => (FF, F32),
        0x99..=0x9F => (D, F64),
        0xA0..=0xA6 => (DD, F64),
        0xA7 => (L, I32),
        0xA8 | 0xA9 => (F, I32),
        0xAA | 0xAB => (D, I32),
        0xAC | 0xAD => (I, I64),
        0xAE | 0xAF => (F, I64),
        0xB0 | 0xB1 => (D, I64),
        0xB2 | 0xB3 => (I, F32),
        0xB4 | 0xB5 => (L, F32),
        0xB6 => (D, F32),
        0xB7 | 0xB8 => (I, F64),
        0xB9 | 0xBA => (L, F64),
        0xBB => (F, F64),
        0xBC => (F, I32),
        0xBD => (D, I64),
        0xBE => (I, F32),
        0xBF => (L, F64),
        _ => unreachable!(),
    }
}

/// (value type, access width in bytes) of loads 0x28..=0x35 and stores 0x36..=0x3E
pub fn mem_sig(op: u8) -> (VT, u32) {
    match op {
        0x28 | 0x36 => (I32, 4),
        0x29 | 0x37 => (I64, 8),
        0x2A | 0x38 => (F32, 4),
        0x2B | 0x39 => (F64, 8),
        0x2C | 0x2D | 0x3A => (I32, 1),
        0x2E | 0x2F | 0x3B => (I32, 2),
        0x30 | 0x31 | 0x3C => (I64, 1),
        0x32 | 0x33 | 0x3D => (I64, 2),
        0x34 | 0x35 | 0x3E => (I64, 4),
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub op: u8,
    pub end: Option<VT>,
    pub base: usize,
    pub dead: bool,
}
impl Frame {
    pub fn label(&self) -> Option<VT> { if self.op == 0x03 { None } else { self.end } }
}

/// Incremental validator of one function body (or constant expression).
#[derive(Clone)]
pub struct FV {
    pub vals: Vec<Option<VT>>,
    pub frames: Vec<Frame>,
    pub ret: Option<VT>,
    pub done: bool,
}

impl FV {
    pub fn new(ret: Option<VT>) -> FV {
        FV { vals: vec![], frames: vec![Frame { op: 0x02, end: ret, base: 0, dead: false }], ret, done: false }
    }
    fn top(&self) -> &Frame { self.frames.last().unwrap() }
    pub fn pop(&mut self) -> V<Option<VT>> {
        let f = self.top();
        if self.vals.len() == f.base {
            return if f.dead { Ok(None) } else { Err("operand stack underflow") };
        }
        Ok(self.vals.pop().unwrap())
    }
    pub fn want(&mut self, t: VT) -> V<()> {
        match self.pop()? { None => Ok(()), Some(x) if x == t => Ok(()), _ => Err("operand type mismatch") }
    }
    fn wants(&mut self, ts: &[VT]) -> V<()> { for t in ts.iter().rev() { self.want(*t)?; } Ok(()) }
    fn push(&mut self, t: VT) { self.vals.push(Some(t)); }
    fn dead(&mut self) {
        let b = self.top().base;
        self.vals.truncate(b);
        self.frames.last_mut().unwrap().dead = true;
    }
    fn label(&self, l: u32) -> V<Option<VT>> {
        let l = l as usize;
        if l >= self.frames.len() { return Err("unknown label"); }
        Ok(self.frames[self.frames.len() - 1 - l].label())
    }
    fn close(&mut self) -> V<Frame> {
        let f = self.top().clone();
        if let Some(t) = f.end { self.want(t)?; }
        if self.vals.len() != f.base { return Err("values left on the stack at the end of a block"); }
        self.frames.pop();
        Ok(f)
    }
    pub fn step(&mut self, c: &Ctx, locals: &Locals, i: &RI) -> V<()> {
        if self.done { return Err("instruction after final end"); }
        match (i.op, &i.imm) {
            (0x00, _) => self.dead(),
            (0x01, _) => {}
            (0x02 | 0x03, Imm::Block(t)) => {
                if t.len() > 1 { return Err("multi-value block"); }
                let base = self.vals.len();
                self.frames.push(Frame { op: i.op, end: t.first().copied(), base, dead: false });
            }
            (0x04, Imm::Block(t)) => {
                if t.len() > 1 { return Err("multi-value block"); }
                self.want(I32)?;
                let base = self.vals.len();
                self.frames.push(Frame { op: 0x04, end: t.first().copied(), base, dead: false });
            }
            (0x05, _) => {
                if self.top().op != 0x04 { return Err("else without if"); }
                let f = self.close()?;
                self.frames.push(Frame { op: 0x05, end: f.end, base: f.base, dead: false });
            }
            (0x0B, _) => {
                let f = self.close()?;
                if f.op == 0x04 && f.end.is_some() { return Err("if with a result but no else"); }
                if self.frames.is_empty() { self.done = true; } else if let Some(t) = f.end { self.push(t); }
            }
            (0x0C, Imm::Idx(l)) => {
                let t = self.label(*l)?;
                if let Some(t) = t { self.want(t)?; }
                self.dead();
            }
            (0x0D, Imm::Idx(l)) => {
                let t = self.label(*l)?;
                self.want(I32)?;
                if let Some(t) = t { self.want(t)?; self.push(t); }
            }
            (0x0E, Imm::Table(ls, d)) => {
                let t = self.label(*d)?;
                for l in ls { if self.label(*l)? != t { return Err("br_table label types differ"); } }
                self.want(I32)?;
                if let Some(t) = t { self.want(t)?; }
                self.dead();
            }
            (0x0F, _) => {
                if let Some(t) = self.ret { self.want(t)?; }
                self.dead();
            }
            (0x10, Imm::Idx(f)) => {
                let t = *c.funcs.get(*f as usize).ok_or("unknown function")?;
                let ft = &c.types[t as usize];
                self.wants(&ft.params)?;
                for r in &ft.results { self.push(*r); }
            }
            (0x11, Imm::Idx2(t, tab)) => {
                if *tab as usize >= c.tables { return Err("unknown table"); }
                let ft = c.types.get(*t as usize).ok_or("unknown type")?;
                self.want(I32)?;
                self.wants(&ft.params)?;
                for r in &ft.results { self.push(*r); }
            }
            (0x1A, _) => { self.pop()?; }
            (0x1B, _) => {
                self.want(I32)?;
                let a = self.pop()?;
                let b = self.pop()?;
                let r = match (a, b) {
                    (None, x) | (x, None) => x,
                    (Some(x), Some(y)) if x == y => Some(x),
                    _ => return Err("select operand types differ"),
                };
                self.vals.push(r);
            }
            (0x20, Imm::Idx(l)) => { let t = locals.get(*l).ok_or("unknown local")?; self.push(t); }
            (0x21, Imm::Idx(l)) => { let t = locals.get(*l).ok_or("unknown local")?; self.want(t)?; }
            (0x22, Imm::Idx(l)) => { let t = locals.get(*l).ok_or("unknown local")?; self.want(t)?; self.push(t); }
            (0x23, Imm::Idx(g)) => { let t = c.globals.get(*g as usize).ok_or("unknown global")?.0; self.push(t); }
            (0x24, Imm::Idx(g)) => {
                let (t, m) = *c.globals.get(*g as usize).ok_or("unknown global")?;
                if !m { return Err("assignment to an immutable global"); }
                self.want(t)?;
            }
            (0x28..=0x35, Imm::Mem(a, _)) => {
                if c.mems == 0 { return Err("unknown memory"); }
                let (t, w) = mem_sig(i.op);
                if *a > 31 || (1u64 << *a) > w as u64 { return Err("alignment larger than natural"); }
                self.want(I32)?;
                self.push(t);
            }
            (0x36..=0x3E, Imm::Mem(a, _)) => {
                if c.mems == 0 { return Err("unknown memory"); }
                let (t, w) = mem_sig(i.op);
                if *a > 31 || (1u64 << *a) > w as u64 { return Err("alignment larger than natural"); }
                self.want(t)?;
                self.want(I32)?;
            }
            (0x3F, Imm::Idx(m)) => {
                if *m as usize >= c.mems { return Err("unknown memory"); }
                self.push(I32);
            }
            (0x40, Imm::Idx(m)) => {
                if *m as usize >= c.mems { return Err("unknown memory"); }
                self.want(I32)?;
                self.push(I32);
            }
            (0x41, _) => self.push(I32),
            (0x42, _) => self.push(I64),
            (0x43, _) => self.push(F32),
            (0x44, _) => self.push(F64),
            (0x45..=0xBF, _) => {
                let (a, r) = numeric_sig(i.op);
                self.wants(a)?;
                self.push(r);
            }
            _ => return Err("not an instruction of the 1.0 language"),
        }
        Ok(())
    }
}

/// Local variable types: parameters followed by run-length encoded locals.
pub struct Locals { params: Vec<VT>, runs: Vec<(u64, VT)> } // runs: (exclusive end, type)
impl Locals {
    pub fn new(params: &[VT], runs: &[(u32, VT)]) -> Locals {
        let mut e = params.len() as u64;
        let mut r = vec![];
        for (n, t) in runs { e += *n as u64; r.push((e, *t)); }
        Locals { params: params.to_vec(), runs: r }
    }
    pub fn get(&self, i: u32) -> Option<VT> {
        if (i as usize) < self.params.len() { return Some(self.params[i as usize]); }
        let k = self.runs.partition_point(|r| r.0 <= i as u64);
        self.runs.get(k).map(|r| r.1)
    }
    pub fn len(&self) -> u64 { self.runs.last().map_or(self.params.len() as u64, |r| r.0) }
}

fn const_expr(c: &Ctx, want: VT, e: &[RI]) -> V<()> {
    let n = e.len();
    if n == 0 || e[n - 1].op != 0x0B { return Err("expression without end"); }
    for i in &e[..n - 1] {
        match (i.op, &i.imm) {
            (0x41..=0x44, _) => {}
            (0x23, Imm::Idx(g)) => {
                if c.globals.get(*g as usize).ok_or("unknown global")?.1 { return Err("constant expression reads a mutable global"); }
            }
            _ => return Err("instruction not allowed in a constant expression"),
        }
    }
    let mut fv = FV::new(Some(want));
    let none = Locals::new(&[], &[]);
    for i in e { fv.step(c, &none, i)?; }
    Ok(())
}

fn limits(l: &Lim, range: u64) -> V<()> {
    if l.min as u64 > range { return Err("limits minimum out of range"); }
    if let Some(m) = l.max {
        if m as u64 > range { return Err("limits maximum out of range"); }
        if m < l.min { return Err("limits maximum below minimum"); }
    }
    Ok(())
}

pub fn context(m: &RModule) -> V<Ctx> {
    let mut c = Ctx { types: m.types.clone(), ..Default::default() };
    for i in &m.imports {
        match &i.desc {
            IDesc::Func(t) => {
                if *t as usize >= m.types.len() { return Err("unknown type in import"); }
                c.funcs.push(*t);
            }
            IDesc::Table(_) => c.tables += 1,
            IDesc::Mem(_) => c.mems += 1,
            IDesc::Global(t, mu) => c.globals.push((*t, *mu)),
        }
    }
    for f in &m.funcs {
        if f.ty as usize >= m.types.len() { return Err("unknown type in function section"); }
        c.funcs.push(f.ty);
    }
    c.tables += m.tables.len();
    c.mems += m.mems.len();
    for g in &m.globals { c.globals.push((g.vt, g.mutable)); }
    Ok(c)
}

/// Validate; on success the external types of imports and exports, in order.
pub fn validate(m: &RModule) -> V<(Vec<RExt>, Vec<RExt>)> {
    for t in &m.types { if t.results.len() > 1 { return Err("function type with several results"); } }
    let c = context(m)?;
    if c.tables > 1 { return Err("multiple tables"); }
    if c.mems > 1 { return Err("multiple memories"); }
    let mut imports = vec![];
    let mut tabs = vec![];
    let mut mems = vec![];
    for i in &m.imports {
        match &i.desc {
            IDesc::Func(t) => imports.push(RExt::Func(m.types[*t as usize].clone())),
            IDesc::Table(l) => { limits(l, 1 << 32)?; tabs.push(*l); imports.push(RExt::Table(*l)) }
            IDesc::Mem(l) => { limits(l, 1 << 16)?; mems.push(*l); imports.push(RExt::Mem(*l)) }
            IDesc::Global(t, mu) => imports.push(RExt::Global(*t, *mu)),
        }
    }
    for l in &m.tables { limits(l, 1 << 32)?; tabs.push(*l); }
    for l in &m.mems { limits(l, 1 << 16)?; mems.push(*l); }
    // global initialisers see the imported globals only
    let nimp = m.imports.iter().filter(|i| matches!(i.desc, IDesc::Global(..))).count();
    let gc = Ctx { globals: c.globals[..nimp].to_vec(), ..Default::default() };
    for g in &m.globals { const_expr(&gc, g.vt, &g.init)?; }
    for e in &m.elems {
        if e.table as usize >= c.tables { return Err("unknown table in element segment"); }
        const_expr(&c, I32, &e.offset)?;
        for f in &e.init { if *f as usize >= c.funcs.len() { return Err("unknown function in element segment"); } }
    }
    for d in &m.datas {
        if d.mem as usize >= c.mems { return Err("unknown memory in data segment"); }
        const_expr(&c, I32, &d.offset)?;
    }
    if let Some(s) = m.start {
        let t = *c.funcs.get(s as usize).ok_or("unknown start function")?;
        let t = &c.types[t as usize];
        if !t.params.is_empty() || !t.results.is_empty() { return Err("start function type"); }
    }
    let mut names = std::collections::HashSet::new();
    let mut exports = vec![];
    for e in &m.exports {
        if !names.insert(&e.name) { return Err("duplicate export name"); }
        let i = e.idx as usize;
        exports.push(match e.kind {
            0 => RExt::Func(c.types[*c.funcs.get(i).ok_or("unknown exported function")? as usize].clone()),
            1 => RExt::Table(*tabs.get(i).ok_or("unknown exported table")?),
            2 => RExt::Mem(*mems.get(i).ok_or("unknown exported memory")?),
            _ => { let (t, mu) = *c.globals.get(i).ok_or("unknown exported global")?; RExt::Global(t, mu) }
        });
    }
    for f in &m.funcs {
        let ft = &m.types[f.ty as usize];
        let mut fv = FV::new(ft.results.first().copied());
        let locals = Locals::new(&ft.params, &f.locals);
        for i in &f.body { fv.step(&c, &locals, i)?; }
        if !fv.done { return Err("function body without final end"); }
    }
    Ok((imports, exports))
}
