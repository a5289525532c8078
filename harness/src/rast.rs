//! The reference abstract syntax: an independent, flat representation of a
//! WebAssembly 1.0 module. Instruction sequences are kept in their binary
//! (flat) order, with explicit `else`/`end` markers.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum VT { I32, I64, F32, F64 }
pub const VTS: [VT; 4] = [VT::I32, VT::I64, VT::F32, VT::F64];
impl VT {
    pub fn byte(self) -> u8 {
        match self { VT::I32 => 0x7F, VT::I64 => 0x7E, VT::F32 => 0x7D, VT::F64 => 0x7C }
    }
    pub fn const_op(self) -> u8 {
        match self { VT::I32 => 0x41, VT::I64 => 0x42, VT::F32 => 0x43, VT::F64 => 0x44 }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct FT { pub params: Vec<VT>, pub results: Vec<VT> }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Lim { pub min: u32, pub max: Option<u32> }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Imm {
    None,
    Block(Vec<VT>),
    Idx(u32),
    /// call_indirect: type index, table index
    Idx2(u32, u32),
    Table(Vec<u32>, u32),
    /// alignment exponent, offset (binary order)
    Mem(u32, u32),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    /// something the structure holds that no binary module can denote
    Alien(&'static str),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct RI { pub op: u8, pub imm: Imm }
impl RI {
    pub fn op(op: u8) -> RI { RI { op, imm: Imm::None } }
    pub fn idx(op: u8, i: u32) -> RI { RI { op, imm: Imm::Idx(i) } }
    pub fn blk(op: u8, t: Option<VT>) -> RI { RI { op, imm: Imm::Block(t.into_iter().collect()) } }
    pub fn i32c(v: i32) -> RI { RI { op: 0x41, imm: Imm::I32(v) } }
    pub fn konst(t: VT) -> RI {
        match t {
            VT::I32 => RI { op: 0x41, imm: Imm::I32(0) },
            VT::I64 => RI { op: 0x42, imm: Imm::I64(0) },
            VT::F32 => RI { op: 0x43, imm: Imm::F32(0) },
            VT::F64 => RI { op: 0x44, imm: Imm::F64(0) },
        }
    }
    pub fn end() -> RI { RI::op(0x0B) }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum IDesc { Func(u32), Table(Lim), Mem(Lim), Global(VT, bool) }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct RImport { pub module: Vec<u8>, pub name: Vec<u8>, pub desc: IDesc }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct RExport { pub name: Vec<u8>, pub kind: u8, pub idx: u32 }

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct RFunc { pub ty: u32, pub locals: Vec<(u32, VT)>, pub body: Vec<RI> }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct RGlobal { pub vt: VT, pub mutable: bool, pub init: Vec<RI> }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct RElem { pub table: u32, pub offset: Vec<RI>, pub init: Vec<u32> }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct RData { pub mem: u32, pub offset: Vec<RI>, pub init: Vec<u8> }

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct RModule {
    pub types: Vec<FT>,
    pub imports: Vec<RImport>,
    pub funcs: Vec<RFunc>,
    pub tables: Vec<Lim>,
    pub mems: Vec<Lim>,
    pub globals: Vec<RGlobal>,
    pub exports: Vec<RExport>,
    pub start: Option<u32>,
    pub elems: Vec<RElem>,
    pub datas: Vec<RData>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum RExt { Func(FT), Table(Lim), Mem(Lim), Global(VT, bool) }

/// Drop an `else` whose branch is empty: `if .. else end` and `if .. end`
/// denote the same module.
pub fn norm_body(b: &[RI]) -> Vec<RI> {
    let mut out: Vec<RI> = Vec::with_capacity(b.len());
    for i in b {
        if i.op == 0x0B && out.last().map_or(false, |l| l.op == 0x05) { out.pop(); }
        out.push(i.clone());
    }
    out
}

/// Merge adjacent runs of the same type and drop empty runs.
pub fn norm_locals(l: &[(u32, VT)]) -> Vec<(u64, VT)> {
    let mut out: Vec<(u64, VT)> = vec![];
    for &(n, t) in l {
        if n == 0 { continue; }
        match out.last_mut() {
            Some(last) if last.1 == t => last.0 += n as u64,
            _ => out.push((n as u64, t)),
        }
    }
    out
}

/// First difference between two modules, as text, modulo the normal forms above.
pub fn diff(a: &RModule, b: &RModule) -> Option<String> {
    macro_rules! cmpv {
        ($f:ident) => {
            if a.$f.len() != b.$f.len() {
                return Some(format!("{}: expected {} entries, got {}", stringify!($f), a.$f.len(), b.$f.len()));
            }
            for (i, (x, y)) in a.$f.iter().zip(b.$f.iter()).enumerate() {
                if x != y { return Some(clip(format!("{}[{}]: expected {:?}, got {:?}", stringify!($f), i, x, y))); }
            }
        };
    }
    cmpv!(types);
    cmpv!(imports);
    cmpv!(tables);
    cmpv!(mems);
    cmpv!(exports);
    if a.start != b.start { return Some(format!("start: expected {:?}, got {:?}", a.start, b.start)); }
    if a.globals.len() != b.globals.len() { return Some(format!("globals: {} vs {}", a.globals.len(), b.globals.len())); }
    for (i, (x, y)) in a.globals.iter().zip(&b.globals).enumerate() {
        if x.vt != y.vt || x.mutable != y.mutable { return Some(format!("globals[{}] type: expected {:?}, got {:?}", i, x, y)); }
        if let Some(d) = diff_body(&x.init, &y.init) { return Some(format!("globals[{}].init {}", i, d)); }
    }
    if a.elems.len() != b.elems.len() { return Some(format!("elems: {} vs {}", a.elems.len(), b.elems.len())); }
    for (i, (x, y)) in a.elems.iter().zip(&b.elems).enumerate() {
        if x.table != y.table { return Some(format!("elems[{}].table: expected {}, got {}", i, x.table, y.table)); }
        if x.init != y.init { return Some(clip(format!("elems[{}].init: expected {:?}, got {:?}", i, x.init, y.init))); }
        if let Some(d) = diff_body(&x.offset, &y.offset) { return Some(format!("elems[{}].offset {}", i, d)); }
    }
    if a.datas.len() != b.datas.len() { return Some(format!("datas: {} vs {}", a.datas.len(), b.datas.len())); }
    for (i, (x, y)) in a.datas.iter().zip(&b.datas).enumerate() {
        if x.mem != y.mem { return Some(format!("datas[{}].mem: expected {}, got {}", i, x.mem, y.mem)); }
        if x.init != y.init { return Some(clip(format!("datas[{}].init: expected {:?}, got {:?}", i, x.init, y.init))); }
        if let Some(d) = diff_body(&x.offset, &y.offset) { return Some(format!("datas[{}].offset {}", i, d)); }
    }
    if a.funcs.len() != b.funcs.len() { return Some(format!("funcs: {} vs {}", a.funcs.len(), b.funcs.len())); }
    for (i, (x, y)) in a.funcs.iter().zip(&b.funcs).enumerate() {
        if x.ty != y.ty { return Some(format!("funcs[{}].ty: expected {}, got {}", i, x.ty, y.ty)); }
        let (lx, ly) = (norm_locals(&x.locals), norm_locals(&y.locals));
        if lx != ly { return Some(clip(format!("funcs[{}].locals: expected {:?}, got {:?}", i, lx, ly))); }
        if let Some(d) = diff_body(&x.body, &y.body) { return Some(format!("funcs[{}].body {}", i, d)); }
    }
    None
}

fn clip(s: String) -> String { if s.len() > 600 { let mut e = 600; while !s.is_char_boundary(e) { e -= 1; } format!("{}...", &s[..e]) } else { s } }

fn diff_body(a: &[RI], b: &[RI]) -> Option<String> {
    let (a, b) = (norm_body(a), norm_body(b));
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        if x != y { return Some(clip(format!("instr {}: expected {:02x} {:?}, got {:02x} {:?}", i, x.op, x.imm, y.op, y.imm))); }
    }
    if a.len() != b.len() { return Some(format!("length: expected {}, got {}", a.len(), b.len())); }
    None
}
