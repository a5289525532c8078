//! Reference decoder: bytes -> RModule, written from the WebAssembly 1.0 binary
//! format, with the leniencies whasm documents (redundant LEB bytes of any
//! number are accepted; the reserved bytes of memory.size, memory.grow and
//! call_indirect are read as indices).

use crate::leb::{self, Leb};
use crate::rast::*;
use crate::utf8;

/// What is wrong, at the first fault in stream order.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum DErr {
    Eof,
    LebU,
    LebS,
    /// truncated after the last significant LEB byte: Eof or range
    EofOrLeb,
    Utf8,
    Magic,
    Version,
    SecOrder(u8),
    SecId(u8),
    Size,
    /// declared size of a skipped payload exceeds what is there
    SizeOrEof,
    Tag(u8),
    Else,
    FuncCount,
    Locals,
}
pub type R<T> = Result<T, DErr>;

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub end: usize,
    /// local variables declared so far, over all bodies
    pub locals: u64,
    /// deepest block nesting seen
    pub depth: usize,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Cur<'a> { Cur { b, p: 0, end: b.len(), locals: 0, depth: 0 } }
    pub fn byte(&mut self) -> R<u8> {
        if self.p >= self.end { return Err(DErr::Eof); }
        self.p += 1;
        Ok(self.b[self.p - 1])
    }
    fn leb(&mut self, bits: usize, signed: bool) -> R<u64> {
        match leb::decode(&self.b[self.p..self.end], bits, signed) {
            Leb::Ok(v, n) => { self.p += n; Ok(v) }
            Leb::OutOfRange => Err(if signed { DErr::LebS } else { DErr::LebU }),
            Leb::Eof => Err(DErr::Eof),
            Leb::EofOrRange => Err(DErr::EofOrLeb),
        }
    }
    pub fn u32(&mut self) -> R<u32> { Ok(self.leb(32, false)? as u32) }
    pub fn i32(&mut self) -> R<i32> { Ok(self.leb(32, true)? as u32 as i32) }
    pub fn i64(&mut self) -> R<i64> { Ok(self.leb(64, true)? as i64) }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.end - self.p { return Err(DErr::Eof); }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    pub fn name(&mut self) -> R<Vec<u8>> {
        let n = self.u32()? as usize;
        let s = self.take(n)?;
        if !utf8::valid(s) { return Err(DErr::Utf8); }
        Ok(s.to_vec())
    }
    pub fn sized<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let n = self.u32()? as usize;
        let start = self.p;
        let old = self.end;
        self.end = old.min(start.saturating_add(n));
        let r = f(self)?;
        self.end = old;
        if self.p - start != n { return Err(DErr::Size); }
        Ok(r)
    }
    pub fn vec<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n { v.push(f(self)?); }
        Ok(v)
    }
    pub fn vt(&mut self) -> R<VT> {
        match self.byte()? {
            0x7F => Ok(VT::I32),
            0x7E => Ok(VT::I64),
            0x7D => Ok(VT::F32),
            0x7C => Ok(VT::F64),
            t => Err(DErr::Tag(t)),
        }
    }
    fn blockty(&mut self) -> R<Vec<VT>> {
        if self.p < self.end && self.b[self.p] == 0x40 { self.p += 1; return Ok(vec![]); }
        Ok(vec![self.vt()?])
    }
    pub fn functype(&mut self) -> R<FT> {
        match self.byte()? {
            0x60 => Ok(FT { params: self.vec(|c| c.vt())?, results: self.vec(|c| c.vt())? }),
            t => Err(DErr::Tag(t)),
        }
    }
    pub fn limits(&mut self) -> R<Lim> {
        match self.byte()? {
            0 => Ok(Lim { min: self.u32()?, max: None }),
            1 => { let min = self.u32()?; Ok(Lim { min, max: Some(self.u32()?) }) }
            t => Err(DErr::Tag(t)),
        }
    }
    pub fn tabletype(&mut self) -> R<Lim> {
        match self.byte()? { 0x70 => self.limits(), t => Err(DErr::Tag(t)) }
    }
    pub fn globaltype(&mut self) -> R<(VT, bool)> {
        let t = self.vt()?;
        match self.byte()? { 0 => Ok((t, false)), 1 => Ok((t, true)), x => Err(DErr::Tag(x)) }
    }
    pub fn import(&mut self) -> R<RImport> {
        let module = self.name()?;
        let name = self.name()?;
        let desc = match self.byte()? {
            0 => IDesc::Func(self.u32()?),
            1 => IDesc::Table(self.tabletype()?),
            2 => IDesc::Mem(self.limits()?),
            3 => { let (t, m) = self.globaltype()?; IDesc::Global(t, m) }
            t => return Err(DErr::Tag(t)),
        };
        Ok(RImport { module, name, desc })
    }
    pub fn export(&mut self) -> R<RExport> {
        let name = self.name()?;
        let kind = self.byte()?;
        if kind > 3 { return Err(DErr::Tag(kind)); }
        Ok(RExport { name, kind, idx: self.u32()? })
    }
    /// One instruction of the flat stream (no structure check).
    pub fn instr(&mut self) -> R<RI> {
        let op = self.byte()?;
        let imm = match op {
            0x00 | 0x01 | 0x05 | 0x0B | 0x0F | 0x1A | 0x1B => Imm::None,
            0x02..=0x04 => Imm::Block(self.blockty()?),
            0x0C | 0x0D | 0x10 | 0x20..=0x24 | 0x3F | 0x40 => Imm::Idx(self.u32()?),
            0x0E => { let v = self.vec(|c| c.u32())?; Imm::Table(v, self.u32()?) }
            0x11 => { let t = self.u32()?; Imm::Idx2(t, self.u32()?) }
            0x28..=0x3E => { let a = self.u32()?; Imm::Mem(a, self.u32()?) }
            0x41 => Imm::I32(self.i32()?),
            0x42 => Imm::I64(self.i64()?),
            0x43 => { let s = self.take(4)?; Imm::F32((0..4).map(|i| (s[i] as u32) << (8 * i)).sum()) }
            0x44 => { let s = self.take(8)?; Imm::F64((0..8).map(|i| (s[i] as u64) << (8 * i)).sum()) }
            0x45..=0xBF => Imm::None,
            t => return Err(DErr::Tag(t)),
        };
        Ok(RI { op, imm })
    }
    /// An expression, up to and including its final `end`.
    pub fn expr(&mut self) -> R<Vec<RI>> {
        let mut out = vec![];
        // open constructs: true while an `else` may still come
        let mut open: Vec<bool> = vec![];
        loop {
            let i = self.instr()?;
            match i.op {
                0x02 | 0x03 => open.push(false),
                0x04 => open.push(true),
                0x05 => match open.last_mut() {
                    Some(x) if *x => *x = false,
                    _ => return Err(DErr::Else),
                },
                0x0B => {
                    out.push(i);
                    if open.pop().is_none() { return Ok(out); }
                    continue;
                }
                _ => {}
            }
            self.depth = self.depth.max(open.len());
            out.push(i);
        }
    }
    pub fn code(&mut self) -> R<RFunc> {
        let k = self.u32()?;
        let mut locals = vec![];
        let mut total = 0u64;
        for _ in 0..k {
            let run = self.u32().and_then(|n| Ok((n, self.vt()?)));
            // an unfinished list may have been expanded as far as it goes
            if run.is_err() { self.locals += total; }
            let (n, t) = run?;
            total += n as u64;
            if total > u32::MAX as u64 { return Err(DErr::Locals); }
            locals.push((n, t));
        }
        self.locals += total;
        let body = self.expr()?;
        Ok(RFunc { ty: 0, locals, body })
    }
    pub fn module(&mut self) -> R<RModule> {
        let magic = self.take(4)?;
        if magic != [0, 0x61, 0x73, 0x6D] { return Err(DErr::Magic); }
        let version = self.take(4)?;
        if version != [1, 0, 0, 0] { return Err(DErr::Version); }
        let mut m = RModule::default();
        let mut ftys: Vec<u32> = vec![];
        let mut last = 0u8;
        while self.p < self.end {
            let id = self.byte()?;
            if id != 0 {
                if id <= last { return Err(DErr::SecOrder(id)); }
                last = id;
            }
            match id {
                0 => {
                    let n = self.u32()? as usize;
                    let start = self.p;
                    let old = self.end;
                    self.end = old.min(start.saturating_add(n));
                    self.name()?;
                    self.p = self.end;
                    self.end = old;
                    if self.p - start != n { return Err(DErr::SizeOrEof); }
                }
                1 => m.types = self.sized(|c| c.vec(|c| c.functype()))?,
                2 => m.imports = self.sized(|c| c.vec(|c| c.import()))?,
                3 => ftys = self.sized(|c| c.vec(|c| c.u32()))?,
                4 => m.tables = self.sized(|c| c.vec(|c| c.tabletype()))?,
                5 => m.mems = self.sized(|c| c.vec(|c| c.limits()))?,
                6 => m.globals = self.sized(|c| c.vec(|c| {
                    let (vt, mutable) = c.globaltype()?;
                    Ok(RGlobal { vt, mutable, init: c.expr()? })
                }))?,
                7 => m.exports = self.sized(|c| c.vec(|c| c.export()))?,
                8 => m.start = Some(self.sized(|c| c.u32())?),
                9 => m.elems = self.sized(|c| c.vec(|c| {
                    let table = c.u32()?;
                    let offset = c.expr()?;
                    Ok(RElem { table, offset, init: c.vec(|c| c.u32())? })
                }))?,
                10 => {
                    m.funcs = self.sized(|c| c.vec(|c| c.sized(|c| c.code())))?;
                    if m.funcs.len() != ftys.len() { return Err(DErr::FuncCount); }
                    for (f, t) in m.funcs.iter_mut().zip(&ftys) { f.ty = *t; }
                }
                11 => m.datas = self.sized(|c| c.vec(|c| {
                    let mem = c.u32()?;
                    let offset = c.expr()?;
                    let n = c.u32()? as usize;
                    Ok(RData { mem, offset, init: c.take(n)?.to_vec() })
                }))?,
                _ => return Err(DErr::SecId(id)),
            }
        }
        if m.funcs.len() != ftys.len() { return Err(DErr::FuncCount); }
        Ok(m)
    }
}

pub fn decode(b: &[u8]) -> R<RModule> { Cur::new(b).module() }
