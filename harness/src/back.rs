//! The way back: whasm's structures built in memory from the reference syntax, without parsing.
use crate::rast::*;
use whasm::structure::instr::{ConstExpr, Expr, Instr};
use whasm::structure::module::{self, desc, Module};
use whasm::structure::{idx, ty};

pub fn vt(v: VT) -> ty::Val {
    match v { VT::I32 => ty::Val::I32, VT::I64 => ty::Val::I64, VT::F32 => ty::Val::F32, VT::F64 => ty::Val::F64 }
}
pub fn vts(v: &[VT]) -> Vec<ty::Val> { v.iter().map(|t| vt(*t)).collect() }
pub fn ft(f: &FT) -> ty::Func { ty::Func { params: vts(&f.params), results: vts(&f.results) } }
pub fn lim(l: &Lim) -> ty::Limits { ty::Limits { min: l.min, max: l.max } }
pub fn table_ty(l: &Lim) -> ty::Table { ty::Table { lim: lim(l), elem: ty::Elem::FuncRef } }
pub fn mem_ty(l: &Lim) -> ty::Mem { ty::Mem { lim: lim(l) } }
pub fn global_ty(t: VT, m: bool) -> ty::Global { ty::Global { mt: if m { ty::Mut::Var } else { ty::Mut::Const }, val: vt(t) } }

struct Open { op: u8, bt: Vec<VT>, then: Option<Vec<Instr>>, cur: Vec<Instr> }

/// The tree of a flat, properly nested sequence ending in `end`; None if it is not one.
pub fn tree(b: &[RI]) -> Option<Vec<Instr>> {
    let mut st = vec![Open { op: 0, bt: vec![], then: None, cur: vec![] }];
    for (k, i) in b.iter().enumerate() {
        match (i.op, &i.imm) {
            (0x02 | 0x03 | 0x04, Imm::Block(t)) => st.push(Open { op: i.op, bt: t.clone(), then: None, cur: vec![] }),
            (0x05, _) => {
                let f = st.last_mut()?;
                if f.op != 0x04 || f.then.is_some() { return None; }
                f.then = Some(std::mem::take(&mut f.cur));
            }
            (0x0B, _) => {
                let f = st.pop()?;
                let r = ty::RetVal(vts(&f.bt));
                let i = match f.op {
                    0x02 => Instr::Block(r, Expr(f.cur)),
                    0x03 => Instr::Loop(r, Expr(f.cur)),
                    0x04 => match f.then { Some(t) => Instr::If(r, Expr(t), Expr(f.cur)), None => Instr::If(r, Expr(f.cur), Expr(vec![])) },
                    _ => return if k + 1 == b.len() { Some(f.cur) } else { None },
                };
                st.last_mut()?.cur.push(i);
            }
            _ => { let x = simple(i)?; st.last_mut()?.cur.push(x); }
        }
    }
    None
}

pub fn simple(i: &RI) -> Option<Instr> {
    Some(match (i.op, &i.imm) {
        (0x0C, Imm::Idx(x)) => Instr::Br(idx::Label(*x)),
        (0x0D, Imm::Idx(x)) => Instr::BrIf(idx::Label(*x)),
        (0x0E, Imm::Table(v, d)) => Instr::BrTable(v.iter().map(|x| idx::Label(*x)).collect(), idx::Label(*d)),
        (0x10, Imm::Idx(x)) => Instr::Call(idx::Func(*x)),
        (0x11, Imm::Idx2(t, x)) => Instr::CallIndirect(idx::Type(*t), idx::Table(*x)),
        (0x20, Imm::Idx(x)) => Instr::LocalGet(idx::Local(*x)),
        (0x21, Imm::Idx(x)) => Instr::LocalSet(idx::Local(*x)),
        (0x22, Imm::Idx(x)) => Instr::LocalTee(idx::Local(*x)),
        (0x23, Imm::Idx(x)) => Instr::GlobalGet(idx::Global(*x)),
        (0x24, Imm::Idx(x)) => Instr::GlobalSet(idx::Global(*x)),
        (0x3F, Imm::Idx(x)) => Instr::MemSize(idx::Mem(*x)),
        (0x40, Imm::Idx(x)) => Instr::MemGrow(idx::Mem(*x)),
        (0x41, Imm::I32(v)) => Instr::ConstI32(*v),
        (0x42, Imm::I64(v)) => Instr::ConstI64(*v),
        (0x43, Imm::F32(v)) => Instr::ConstF32(f32::from_bits(*v)),
        (0x44, Imm::F64(v)) => Instr::ConstF64(f64::from_bits(*v)),
        (0x28, Imm::Mem(a, o)) => Instr::I32Load(*a, *o),
        (0x29, Imm::Mem(a, o)) => Instr::I64Load(*a, *o),
        (0x2A, Imm::Mem(a, o)) => Instr::F32Load(*a, *o),
        (0x2B, Imm::Mem(a, o)) => Instr::F64Load(*a, *o),
        (0x2C, Imm::Mem(a, o)) => Instr::I32Load8S(*a, *o),
        (0x2D, Imm::Mem(a, o)) => Instr::I32Load8U(*a, *o),
        (0x2E, Imm::Mem(a, o)) => Instr::I32Load16S(*a, *o),
        (0x2F, Imm::Mem(a, o)) => Instr::I32Load16U(*a, *o),
        (0x30, Imm::Mem(a, o)) => Instr::I64Load8S(*a, *o),
        (0x31, Imm::Mem(a, o)) => Instr::I64Load8U(*a, *o),
        (0x32, Imm::Mem(a, o)) => Instr::I64Load16S(*a, *o),
        (0x33, Imm::Mem(a, o)) => Instr::I64Load16U(*a, *o),
        (0x34, Imm::Mem(a, o)) => Instr::I64Load32S(*a, *o),
        (0x35, Imm::Mem(a, o)) => Instr::I64Load32U(*a, *o),
        (0x36, Imm::Mem(a, o)) => Instr::I32Store(*a, *o),
        (0x37, Imm::Mem(a, o)) => Instr::I64Store(*a, *o),
        (0x38, Imm::Mem(a, o)) => Instr::F32Store(*a, *o),
        (0x39, Imm::Mem(a, o)) => Instr::F64Store(*a, *o),
        (0x3A, Imm::Mem(a, o)) => Instr::I32Store8(*a, *o),
        (0x3B, Imm::Mem(a, o)) => Instr::I32Store16(*a, *o),
        (0x3C, Imm::Mem(a, o)) => Instr::I64Store8(*a, *o),
        (0x3D, Imm::Mem(a, o)) => Instr::I64Store16(*a, *o),
        (0x3E, Imm::Mem(a, o)) => Instr::I64Store32(*a, *o),
        (0x00, Imm::None) => Instr::Unreachable,
        (0x01, Imm::None) => Instr::Nop,
        (0x0F, Imm::None) => Instr::Return,
        (0x1A, Imm::None) => Instr::Drop,
        (0x1B, Imm::None) => Instr::Select,
        (0x45, Imm::None) => Instr::I32Eqz,
        (0x46, Imm::None) => Instr::I32Eq,
        (0x47, Imm::None) => Instr::I32Ne,
        (0x48, Imm::None) => Instr::I32LtS,
        (0x49, Imm::None) => Instr::I32LtU,
        (0x4A, Imm::None) => Instr::I32GtS,
        (0x4B, Imm::None) => Instr::I32GtU,
        (0x4C, Imm::None) => Instr::I32LeS,
        (0x4D, Imm::None) => Instr::I32LeU,
        (0x4E, Imm::None) => Instr::I32GeS,
        (0x4F, Imm::None) => Instr::I32GeU,
        (0x50, Imm::None) => Instr::I64Eqz,
        (0x51, Imm::None) => Instr::I64Eq,
        (0x52, Imm::None) => Instr::I64Ne,
        (0x53, Imm::None) => Instr::I64LtS,
        (0x54, Imm::None) => Instr::I64LtU,
        (0x55, Imm::None) => Instr::I64GtS,
        (0x56, Imm::None) => Instr::I64GtU,
        (0x57, Imm::None) => Instr::I64LeS,
        (0x58, Imm::None) => Instr::I64LeU,
        (0x59, Imm::None) => Instr::I64GeS,
        (0x5A, Imm::None) => Instr::I64GeU,
        (0x5B, Imm::None) => Instr::F32Eq,
        (0x5C, Imm::None) => Instr::F32Ne,
        (0x5D, Imm::None) => Instr::F32Lt,
        (0x5E, Imm::None) => Instr::F32Gt,
        (0x5F, Imm::None) => Instr::F32Le,
        (0x60, Imm::None) => Instr::F32Ge,
        (0x61, Imm::None) => Instr::F64Eq,
        (0x62, Imm::None) => Instr::F64Ne,
        (0x63, Imm::None) => Instr::F64Lt,
        (0x64, Imm::None) => Instr::F64Gt,
        (0x65, Imm::None) => Instr::F64Le,
        (0x66, Imm::None) => Instr::F64Ge,
        (0x67, Imm::None) => Instr::I32Clz,
        (0x68, Imm::None) => Instr::I32Ctz,
        (0x69, Imm::None) => Instr::I32Popcnt,
        (0x6A, Imm::None) => Instr::I32Add,
        (0x6B, Imm::None) => Instr::I32Sub,
        (0x6C, Imm::None) => Instr::I32Mul,
        (0x6D, Imm::None) => Instr::I32DivS,
        (0x6E, Imm::None) => Instr::I32DivU,
        (0x6F, Imm::None) => Instr::I32RemS,
        (0x70, Imm::None) => Instr::I32RemU,
        (0x71, Imm::None) => Instr::I32And,
        (0x72, Imm::None) => Instr::I32Or,
        (0x73, Imm::None) => Instr::I32Xor,
        (0x74, Imm::None) => Instr::I32Shl,
        (0x75, Imm::None) => Instr::I32ShrS,
        (0x76, Imm::None) => Instr::I32ShrU,
        (0x77, Imm::None) => Instr::I32Rotl,
        (0x78, Imm::None) => Instr::I32Rotr,
        (0x79, Imm::None) => Instr::I64Clz,
        (0x7A, Imm::None) => Instr::I64Ctz,
        (0x7B, Imm::None) => Instr::I64Popcnt,
        (0x7C, Imm::None) => Instr::I64Add,
        (0x7D, Imm::None) => Instr::I64Sub,
        (0x7E, Imm::None) => Instr::I64Mul,
        (0x7F, Imm::None) => Instr::I64DivS,
        (0x80, Imm::None) => Instr::I64DivU,
        (0x81, Imm::None) => Instr::I64RemS,
        (0x82, Imm::None) => Instr::I64RemU,
        (0x83, Imm::None) => Instr::I64And,
        (0x84, Imm::None) => Instr::I64Or,
        (0x85, Imm::None) => Instr::I64Xor,
        (0x86, Imm::None) => Instr::I64Shl,
        (0x87, Imm::None) => Instr::I64ShrS,
        (0x88, Imm::None) => Instr::I64ShrU,
        (0x89, Imm::None) => Instr::I64Rotl,
        (0x8A, Imm::None) => Instr::I64Rotr,
        (0x8B, Imm::None) => Instr::F32Abs,
        (0x8C, Imm::None) => Instr::F32Neg,
        (0x8D, Imm::None) => Instr::F32Ceil,
        (0x8E, Imm::None) => Instr::F32Floor,
        (0x8F, Imm::None) => Instr::F32Trunc,
        (0x90, Imm::None) => Instr::F32Nearest,
        (0x91, Imm::None) => Instr::F32Sqrt,
        (0x92, Imm::None) => Instr::F32Add,
        (0x93, Imm::None) => Instr::F32Sub,
        (0x94, Imm::None) => Instr::F32Mul,
        (0x95, Imm::None) => Instr::F32Div,
        (0x96, Imm::None) => Instr::F32Min,
        (0x97, Imm::None) => Instr::F32Max,
        (0x98, Imm::None) => Instr::F32Copysign,
        (0x99, Imm::None) => Instr::F64Abs,
        (0x9A, Imm::None) => Instr::F64Neg,
        (0x9B, Imm::None) => Instr::F64Ceil,
        (0x9C, Imm::None) => Instr::F64Floor,
        (0x9D, Imm::None) => Instr::F64Trunc,
        (0x9E, Imm::None) => Instr::F64Nearest,
        (0x9F, Imm::None) => Instr::F64Sqrt,
        (0xA0, Imm::None) => Instr::F64Add,
        (0xA1, Imm::None) => Instr::F64Sub,
        (0xA2, Imm::None) => Instr::F64Mul,
        (0xA3, Imm::None) => Instr::F64Div,
        (0xA4, Imm::None) => Instr::F64Min,
        (0xA5, Imm::None) => Instr::F64Max,
        (0xA6, Imm::None) => Instr::F64Copysign,
        (0xA7, Imm::None) => Instr::I32WrapI64,
        (0xA8, Imm::None) => Instr::I32TruncF32S,
        (0xA9, Imm::None) => Instr::I32TruncF32U,
        (0xAA, Imm::None) => Instr::I32TruncF64S,
        (0xAB, Imm::None) => Instr::I32TruncF64U,
        (0xAC, Imm::None) => Instr::I64ExtendI32S,
        (0xAD, Imm::None) => Instr::I64ExtendI32U,
        (0xAE, Imm::None) => Instr::I64TruncF32S,
        (0xAF, Imm::None) => Instr::I64TruncF32U,
        (0xB0, Imm::None) => Instr::I64TruncF64S,
        (0xB1, Imm::None) => Instr::I64TruncF64U,
        (0xB2, Imm::None) => Instr::F32ConvertI32S,
        (0xB3, Imm::None) => Instr::F32ConvertI32U,
        (0xB4, Imm::None) => Instr::F32ConvertI64S,
        (0xB5, Imm::None) => Instr::F32ConvertI64U,
        (0xB6, Imm::None) => Instr::F32DemoteF64,
        (0xB7, Imm::None) => Instr::F64ConvertI32S,
        (0xB8, Imm::None) => Instr::F64ConvertI32U,
        (0xB9, Imm::None) => Instr::F64ConvertI64S,
        (0xBA, Imm::None) => Instr::F64ConvertI64U,
        (0xBB, Imm::None) => Instr::F64PromoteF32,
        (0xBC, Imm::None) => Instr::I32ReinterpretF32,
        (0xBD, Imm::None) => Instr::I64ReinterpretF64,
        (0xBE, Imm::None) => Instr::F32ReinterpretI32,
        (0xBF, Imm::None) => Instr::F64ReinterpretI64,
        _ => return None,
    })
}

pub fn func(f: &RFunc) -> Option<module::Func> {
    let mut locals = vec![];
    for (n, t) in &f.locals { for _ in 0..*n { locals.push(vt(*t)); } }
    Some(module::Func { ty: idx::Type(f.ty), locals, body: Expr(tree(&f.body)?) })
}
pub fn global(g: &RGlobal) -> Option<module::Global> { Some(module::Global { ty: global_ty(g.vt, g.mutable), init: ConstExpr(tree(&g.init)?) }) }
pub fn elem(e: &RElem) -> Option<module::Elem> { Some(module::Elem { table: idx::Table(e.table), offset: ConstExpr(tree(&e.offset)?), init: e.init.iter().map(|f| idx::Func(*f)).collect() }) }
pub fn data(d: &RData) -> Option<module::Data> { Some(module::Data { mem: idx::Mem(d.mem), offset: ConstExpr(tree(&d.offset)?), init: d.init.clone() }) }
pub fn import(i: &RImport) -> Option<module::Import> {
    Some(module::Import {
        module: String::from_utf8(i.module.clone()).ok()?,
        name: String::from_utf8(i.name.clone()).ok()?,
        desc: match &i.desc {
            IDesc::Func(t) => desc::Import::Func(idx::Type(*t)),
            IDesc::Table(l) => desc::Import::Table(table_ty(l)),
            IDesc::Mem(l) => desc::Import::Mem(mem_ty(l)),
            IDesc::Global(t, m) => desc::Import::Global(global_ty(*t, *m)),
        },
    })
}
pub fn export(e: &RExport) -> Option<module::Export> {
    Some(module::Export {
        name: String::from_utf8(e.name.clone()).ok()?,
        desc: match e.kind {
            0 => desc::Export::Func(idx::Func(e.idx)),
            1 => desc::Export::Table(idx::Table(e.idx)),
            2 => desc::Export::Mem(idx::Mem(e.idx)),
            3 => desc::Export::Global(idx::Global(e.idx)),
            _ => return None,
        },
    })
}
pub fn module(m: &RModule) -> Option<Module> {
    let mut o = Module::default();
    edit(&mut o, &RModule::default(), m)?;
    Some(o)
}
/// Turn `o`, which holds `a`, into `b` by replacing only what differs.
pub fn edit(o: &mut Module, a: &RModule, b: &RModule) -> Option<()> {
    macro_rules! each {
        ($rf:ident, $f:ident, $make:expr) => {
            o.$f.truncate(b.$rf.len());
            for (k, x) in b.$rf.iter().enumerate() {
                if a.$rf.get(k) == Some(x) && k < o.$f.len() { continue; }
                let y = $make(x)?;
                if k < o.$f.len() { o.$f[k] = y; } else { o.$f.push(y); }
            }
        };
    }
    each!(types, types, |t| Some(ft(t)));
    each!(imports, imports, import);
    each!(funcs, funcs, func);
    each!(tables, tables, |l| Some(module::Table { ty: table_ty(l) }));
    each!(mems, mems, |l| Some(module::Mem { ty: mem_ty(l) }));
    each!(globals, globals, global);
    each!(exports, exports, export);
    each!(elems, elem, elem);
    each!(datas, data, data);
    if a.start != b.start { o.start = b.start.map(|s| module::Start { func: idx::Func(s) }); }
    Some(())
}
/// Give every list exactly the room it needs, or more.
pub fn capacities(m: &mut Module, spare: bool) {
    macro_rules! fit { ($($v:expr),*) => { $( if spare { $v.reserve(67); } else { $v.shrink_to_fit(); } )* }; }
    fit!(m.types, m.imports, m.funcs, m.tables, m.mems, m.globals, m.exports, m.elem, m.data);
    let few = m.types.len() + m.imports.len() + m.funcs.len() + m.exports.len() + m.elem.len() + m.data.len() < 200;
    if spare && !few { return; }
    for t in &mut m.types { fit!(t.params, t.results); }
    for i in &mut m.imports { fit!(i.module, i.name); }
    for f in &mut m.funcs { fit!(f.locals, f.body.0); }
    for e in &mut m.exports { fit!(e.name); }
    for e in &mut m.elem { fit!(e.init, e.offset.0); }
    for d in &mut m.data { fit!(d.init, d.offset.0); }
}
