//! Adapter to the code under test: runs whasm's public API and converts what it
//! returns into the reference syntax.

use crate::rast::*;
use whasm::binary::WasmBinary;
use whasm::structure::instr::Instr;
use whasm::structure::module::{self, desc, Module};
use whasm::structure::ty;
use whasm::validation::module::result::External;
use whasm::validation::ValidationEntry;

pub type PErr = whasm::binary::Error;

pub fn parse(b: &[u8]) -> Result<Module, PErr> {
    let mut it = b.iter().copied();
    it.parse::<Module>()
}

#[allow(unreachable_patterns)]
pub fn vt(v: &ty::Val) -> VT {
    match v {
        ty::Val::I32 => VT::I32,
        ty::Val::I64 => VT::I64,
        ty::Val::F32 => VT::F32,
        ty::Val::F64 => VT::F64,
        _ => panic!("unknown value type"),
    }
}
pub fn ft(f: &ty::Func) -> FT {
    FT { params: f.params.iter().map(vt).collect(), results: f.results.iter().map(vt).collect() }
}
pub fn lim(l: &ty::Limits) -> Lim { Lim { min: l.min, max: l.max } }
pub fn mutable(m: &ty::Mut) -> bool { *m == ty::Mut::Var }

enum Work<'a> { Seq(std::slice::Iter<'a, Instr>), Emit(u8) }

/// Flatten an instruction tree into binary order, ending with `end`.
pub fn flat(e: &[Instr]) -> Vec<RI> {
    let mut out = vec![];
    let mut st = vec![Work::Emit(0x0B), Work::Seq(e.iter())];
    while let Some(w) = st.pop() {
        match w {
            Work::Emit(op) => out.push(RI::op(op)),
            Work::Seq(mut it) => {
                let i = match it.next() { Some(i) => i, None => continue };
                st.push(Work::Seq(it));
                let bt = |r: &ty::RetVal| Imm::Block(r.0.iter().map(vt).collect());
                match i {
                    Instr::Block(r, e) => {
                        out.push(RI { op: 0x02, imm: bt(r) });
                        st.push(Work::Emit(0x0B));
                        st.push(Work::Seq(e.0.iter()));
                    }
                    Instr::Loop(r, e) => {
                        out.push(RI { op: 0x03, imm: bt(r) });
                        st.push(Work::Emit(0x0B));
                        st.push(Work::Seq(e.0.iter()));
                    }
                    Instr::If(r, a, b) => {
                        out.push(RI { op: 0x04, imm: bt(r) });
                        st.push(Work::Emit(0x0B));
                        if !b.0.is_empty() {
                            st.push(Work::Seq(b.0.iter()));
                            st.push(Work::Emit(0x05));
                        }
                        st.push(Work::Seq(a.0.iter()));
                    }
                    other => out.push(simple(other)),
                }
            }
        }
    }
    out
}

#[allow(unreachable_patterns)]
fn simple(i: &Instr) -> RI {
    match i {
        Instr::Unreachable => RI::op(0x00),
        Instr::Nop => RI::op(0x01),
        Instr::Else => RI { op: 0x05, imm: Imm::Alien("bare else in a tree") },
        Instr::End => RI { op: 0x0B, imm: Imm::Alien("bare end in a tree") },
        Instr::Br(l) => RI::idx(0x0C, l.0),
        Instr::BrIf(l) => RI::idx(0x0D, l.0),
        Instr::BrTable(v, d) => RI { op: 0x0E, imm: Imm::Table(v.iter().map(|l| l.0).collect(), d.0) },
        Instr::Return => RI::op(0x0F),
        Instr::Call(f) => RI::idx(0x10, f.0),
        Instr::CallIndirect(t, x) => RI { op: 0x11, imm: Imm::Idx2(t.0, x.0) },
        Instr::Drop => RI::op(0x1A),
        Instr::Select => RI::op(0x1B),
        Instr::LocalGet(l) => RI::idx(0x20, l.0),
        Instr::LocalSet(l) => RI::idx(0x21, l.0),
        Instr::LocalTee(l) => RI::idx(0x22, l.0),
        Instr::GlobalGet(l) => RI::idx(0x23, l.0),
        Instr::GlobalSet(l) => RI::idx(0x24, l.0),
        Instr::MemSize(m) => RI::idx(0x3F, m.0),
        Instr::MemGrow(m) => RI::idx(0x40, m.0),
        Instr::ConstI32(v) => RI { op: 0x41, imm: Imm::I32(*v) },
        Instr::ConstI64(v) => RI { op: 0x42, imm: Imm::I64(*v) },
        Instr::ConstF32(v) => RI { op: 0x43, imm: Imm::F32(v.to_bits()) },
        Instr::ConstF64(v) => RI { op: 0x44, imm: Imm::F64(v.to_bits()) },
        // loads and stores
        Instr::I32Load(a, o) => RI { op: 0x28, imm: Imm::Mem(*a, *o) },
        Instr::I64Load(a, o) => RI { op: 0x29, imm: Imm::Mem(*a, *o) },
        Instr::F32Load(a, o) => RI { op: 0x2A, imm: Imm::Mem(*a, *o) },
        Instr::F64Load(a, o) => RI { op: 0x2B, imm: Imm::Mem(*a, *o) },
        Instr::I32Load8S(a, o) => RI { op: 0x2C, imm: Imm::Mem(*a, *o) },
        Instr::I32Load8U(a, o) => RI { op: 0x2D, imm: Imm::Mem(*a, *o) },
        Instr::I32Load16S(a, o) => RI { op: 0x2E, imm: Imm::Mem(*a, *o) },
        Instr::I32Load16U(a, o) => RI { op: 0x2F, imm: Imm::Mem(*a, *o) },
        Instr::I64Load8S(a, o) => RI { op: 0x30, imm: Imm::Mem(*a, *o) },
        Instr::I64Load8U(a, o) => RI { op: 0x31, imm: Imm::Mem(*a, *o) },
        Instr::I64Load16S(a, o) => RI { op: 0x32, imm: Imm::Mem(*a, *o) },
        Instr::I64Load16U(a, o) => RI { op: 0x33, imm: Imm::Mem(*a, *o) },
        Instr::I64Load32S(a, o) => RI { op: 0x34, imm: Imm::Mem(*a, *o) },
        Instr::I64Load32U(a, o) => RI { op: 0x35, imm: Imm::Mem(*a, *o) },
        Instr::I32Store(a, o) => RI { op: 0x36, imm: Imm::Mem(*a, *o) },
        Instr::I64Store(a, o) => RI { op: 0x37, imm: Imm::Mem(*a, *o) },
        Instr::F32Store(a, o) => RI { op: 0x38, imm: Imm::Mem(*a, *o) },
        Instr::F64Store(a, o) => RI { op: 0x39, imm: Imm::Mem(*a, *o) },
        Instr::I32Store8(a, o) => RI { op: 0x3A, imm: Imm::Mem(*a, *o) },
        Instr::I32Store16(a, o) => RI { op: 0x3B, imm: Imm::Mem(*a, *o) },
        Instr::I64Store8(a, o) => RI { op: 0x3C, imm: Imm::Mem(*a, *o) },
        Instr::I64Store16(a, o) => RI { op: 0x3D, imm: Imm::Mem(*a, *o) },
        Instr::I64Store32(a, o) => RI { op: 0x3E, imm: Imm::Mem(*a, *o) },
        // numeric, in opcode order
        Instr::I32Eqz => RI::op(0x45),
        Instr::I32Eq => RI::op(0x46),
        Instr::I32Ne => RI::op(0x47),
        Instr::I32LtS => RI::op(0x48),
        Instr::I32LtU => RI::op(0x49),
        Instr::I32GtS => RI::op(0x4A),
        Instr::I32GtU => RI::op(0x4B),
        Instr::I32LeS => RI::op(0x4C),
        Instr::I32LeU => RI::op(0x4D),
        Instr::I32GeS => RI::op(0x4E),
        Instr::I32GeU => RI::op(0x4F),
        Instr::I64Eqz => RI::op(0x50),
        Instr::I64Eq => RI::op(0x51),
        Instr::I64Ne => RI::op(0x52),
        Instr::I64LtS => RI::op(0x53),
        Instr::I64LtU => RI::op(0x54),
        Instr::I64GtS => RI::op(0x55),
        Instr::I64GtU => RI::op(0x56),
        Instr::I64LeS => RI::op(0x57),
        Instr::I64LeU => RI::op(0x58),
        Instr::I64GeS => RI::op(0x59),
        Instr::I64GeU => RI::op(0x5A),
        Instr::F32Eq => RI::op(0x5B),
        Instr::F32Ne => RI::op(0x5C),
        Instr::F32Lt => RI::op(0x5D),
        Instr::F32Gt => RI::op(0x5E),
        Instr::F32Le => RI::op(0x5F),
        Instr::F32Ge => RI::op(0x60),
        Instr::F64Eq => RI::op(0x61),
        Instr::F64Ne => RI::op(0x62),
        Instr::F64Lt => RI::op(0x63),
        Instr::F64Gt => RI::op(0x64),
        Instr::F64Le => RI::op(0x65),
        Instr::F64Ge => RI::op(0x66),
        Instr::I32Clz => RI::op(0x67),
        Instr::I32Ctz => RI::op(0x68),
        Instr::I32Popcnt => RI::op(0x69),
        Instr::I32Add => RI::op(0x6A),
        Instr::I32Sub => RI::op(0x6B),
        Instr::I32Mul => RI::op(0x6C),
        Instr::I32DivS => RI::op(0x6D),
        Instr::I32DivU => RI::op(0x6E),
        Instr::I32RemS => RI::op(0x6F),
        Instr::I32RemU => RI::op(0x70),
        Instr::I32And => RI::op(0x71),
        Instr::I32Or => RI::op(0x72),
        Instr::I32Xor => RI::op(0x73),
        Instr::I32Shl => RI::op(0x74),
        Instr::I32ShrS => RI::op(0x75),
        Instr::I32ShrU => RI::op(0x76),
        Instr::I32Rotl => RI::op(0x77),
        Instr::I32Rotr => RI::op(0x78),
        Instr::I64Clz => RI::op(0x79),
        Instr::I64Ctz => RI::op(0x7A),
        Instr::I64Popcnt => RI::op(0x7B),
        Instr::I64Add => RI::op(0x7C),
        Instr::I64Sub => RI::op(0x7D),
        Instr::I64Mul => RI::op(0x7E),
        Instr::I64DivS => RI::op(0x7F),
        Instr::I64DivU => RI::op(0x80),
        Instr::I64RemS => RI::op(0x81),
        Instr::I64RemU => RI::op(0x82),
        Instr::I64And => RI::op(0x83),
        Instr::I64Or => RI::op(0x84),
        Instr::I64Xor => RI::op(0x85),
        Instr::I64Shl => RI::op(0x86),
        Instr::I64ShrS => RI::op(0x87),
        Instr::I64ShrU => RI::op(0x88),
        Instr::I64Rotl => RI::op(0x89),
        Instr::I64Rotr => RI::op(0x8A),
        Instr::F32Abs => RI::op(0x8B),
        Instr::F32Neg => RI::op(0x8C),
        Instr::F32Ceil => RI::op(0x8D),
        Instr::F32Floor => RI::op(0x8E),
        Instr::F32Trunc => RI::op(0x8F),
        Instr::F32Nearest => RI::op(0x90),
        Instr::F32Sqrt => RI::op(0x91),
        Instr::F32Add => RI::op(0x92),
        Instr::F32Sub => RI::op(0x93),
        Instr::F32Mul => RI::op(0x94),
        Instr::F32Div => RI::op(0x95),
        Instr::F32Min => RI::op(0x96),
        Instr::F32Max => RI::op(0x97),
        Instr::F32Copysign => RI::op(0x98),
        Instr::F64Abs => RI::op(0x99),
        Instr::F64Neg => RI::op(0x9A),
        Instr::F64Ceil => RI::op(0x9B),
        Instr::F64Floor => RI::op(0x9C),
        Instr::F64Trunc => RI::op(0x9D),
        Instr::F64Nearest => RI::op(0x9E),
        Instr::F64Sqrt => RI::op(0x9F),
        Instr::F64Add => RI::op(0xA0),
        Instr::F64Sub => RI::op(0xA1),
        Instr::F64Mul => RI::op(0xA2),
        Instr::F64Div => RI::op(0xA3),
        Instr::F64Min => RI::op(0xA4),
        Instr::F64Max => RI::op(0xA5),
        Instr::F64Copysign => RI::op(0xA6),
        Instr::I32WrapI64 => RI::op(0xA7),
        Instr::I32TruncF32S => RI::op(0xA8),
        Instr::I32TruncF32U => RI::op(0xA9),
        Instr::I32TruncF64S => RI::op(0xAA),
        Instr::I32TruncF64U => RI::op(0xAB),
        Instr::I64ExtendI32S => RI::op(0xAC),
        Instr::I64ExtendI32U => RI::op(0xAD),
        Instr::I64TruncF32S => RI::op(0xAE),
        Instr::I64TruncF32U => RI::op(0xAF),
        Instr::I64TruncF64S => RI::op(0xB0),
        Instr::I64TruncF64U => RI::op(0xB1),
        Instr::F32ConvertI32S => RI::op(0xB2),
        Instr::F32ConvertI32U => RI::op(0xB3),
        Instr::F32ConvertI64S => RI::op(0xB4),
        Instr::F32ConvertI64U => RI::op(0xB5),
        Instr::F32DemoteF64 => RI::op(0xB6),
        Instr::F64ConvertI32S => RI::op(0xB7),
        Instr::F64ConvertI32U => RI::op(0xB8),
        Instr::F64ConvertI64S => RI::op(0xB9),
        Instr::F64ConvertI64U => RI::op(0xBA),
        Instr::F64PromoteF32 => RI::op(0xBB),
        Instr::I32ReinterpretF32 => RI::op(0xBC),
        Instr::I64ReinterpretF64 => RI::op(0xBD),
        Instr::F32ReinterpretI32 => RI::op(0xBE),
        Instr::F64ReinterpretI64 => RI::op(0xBF),
        _ => RI { op: 0xFF, imm: Imm::Alien("unknown instruction variant") },
    }
}

fn runs(v: &[ty::Val]) -> Vec<(u32, VT)> {
    let mut out: Vec<(u32, VT)> = vec![];
    for t in v {
        let t = vt(t);
        match out.last_mut() { Some(l) if l.1 == t => l.0 += 1, _ => out.push((1, t)) }
    }
    out
}

#[allow(unreachable_patterns)]
fn import_desc(d: &desc::Import) -> IDesc {
    match d {
        desc::Import::Func(t) => IDesc::Func(t.0),
        desc::Import::Table(t) => IDesc::Table(lim(&t.lim)),
        desc::Import::Mem(m) => IDesc::Mem(lim(&m.lim)),
        desc::Import::Global(g) => IDesc::Global(vt(&g.val), mutable(&g.mt)),
        _ => panic!("unknown import kind"),
    }
}

#[allow(unreachable_patterns)]
fn export_desc(d: &desc::Export) -> (u8, u32) {
    match d {
        desc::Export::Func(i) => (0, i.0),
        desc::Export::Table(i) => (1, i.0),
        desc::Export::Mem(i) => (2, i.0),
        desc::Export::Global(i) => (3, i.0),
        _ => panic!("unknown export kind"),
    }
}

pub fn conv(m: &Module) -> RModule {
    RModule {
        types: m.types.iter().map(ft).collect(),
        imports: m.imports.iter().map(conv_import).collect(),
        funcs: m.funcs.iter().map(conv_func).collect(),
        tables: m.tables.iter().map(|t| lim(&t.ty.lim)).collect(),
        mems: m.mems.iter().map(|t| lim(&t.ty.lim)).collect(),
        globals: m.globals.iter().map(conv_global).collect(),
        exports: m.exports.iter().map(conv_export).collect(),
        start: m.start.as_ref().map(|s| s.func.0),
        elems: m.elem.iter().map(conv_elem).collect(),
        datas: m.data.iter().map(conv_data).collect(),
    }
}

pub fn conv_func(f: &module::Func) -> RFunc {
    RFunc { ty: f.ty.0, locals: runs(&f.locals), body: flat(&f.body.0) }
}

fn ext(e: &External) -> RExt {
    match e {
        External::Func(f) => RExt::Func(ft(f)),
        External::Table(t) => RExt::Table(lim(&t.lim)),
        External::Mem(m) => RExt::Mem(lim(&m.lim)),
        External::Global(g) => RExt::Global(vt(&g.val), mutable(&g.mt)),
    }
}

/// whasm's validation verdict, with the external types it reports.
pub fn validate(m: &Module) -> Result<(Vec<RExt>, Vec<RExt>), String> {
    match m.validate() {
        Ok(r) => Ok((r.imports.iter().map(ext).collect(), r.exports.iter().map(ext).collect())),
        Err(e) => Err(format!("{}", e)),
    }
}
pub fn is_valid(m: &Module) -> bool { m.validate().is_ok() }

pub fn conv_import(i: &module::Import) -> RImport {
    RImport { module: i.module.as_bytes().to_vec(), name: i.name.as_bytes().to_vec(), desc: import_desc(&i.desc) }
}
pub fn conv_export(e: &module::Export) -> RExport {
    let (kind, idx) = export_desc(&e.desc);
    RExport { name: e.name.as_bytes().to_vec(), kind, idx }
}
pub fn conv_global(g: &module::Global) -> RGlobal { RGlobal { vt: vt(&g.ty.val), mutable: mutable(&g.ty.mt), init: norm_body(&flat(&g.init.0)) } }
pub fn conv_elem(e: &module::Elem) -> RElem { RElem { table: e.table.0, offset: norm_body(&flat(&e.offset.0)), init: e.init.iter().map(|f| f.0).collect() } }
pub fn conv_data(d: &module::Data) -> RData { RData { mem: d.mem.0, offset: norm_body(&flat(&d.offset.0)), init: d.init.clone() } }
