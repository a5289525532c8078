//! Encoder: RModule -> bytes, with optional redundant LEB padding.
use crate::leb;
use crate::rast::*;
use crate::rng::Rng;

/// Padding policy: each integer is lengthened with probability `num`/64 by up to `max` bytes.
#[derive(Clone)]
pub struct Enc { pub rng: Rng, pub num: usize, pub max: usize }

impl Enc {
    pub fn plain() -> Enc { Enc { rng: Rng::new(0), num: 0, max: 0 } }
    pub fn padded(seed: u64, num: usize, max: usize) -> Enc { Enc { rng: Rng::new(seed), num, max } }
    fn p(&mut self) -> usize {
        if self.num > 0 && self.rng.chance(self.num, 64) { self.rng.range(1, self.max) } else { 0 }
    }
    pub fn u(&mut self, v: u64, o: &mut Vec<u8>) {
        let mut t = vec![];
        leb::enc_u(v, &mut t);
        let p = self.p();
        leb::pad(&mut t, p, false);
        o.extend(t);
    }
    pub fn s(&mut self, v: i64, o: &mut Vec<u8>) {
        let mut t = vec![];
        leb::enc_s(v, &mut t);
        let p = self.p();
        leb::pad(&mut t, p, true);
        o.extend(t);
    }
    pub fn name(&mut self, n: &[u8], o: &mut Vec<u8>) { self.u(n.len() as u64, o); o.extend_from_slice(n); }
    pub fn lim(&mut self, l: &Lim, o: &mut Vec<u8>) {
        o.push(l.max.is_some() as u8);
        self.u(l.min as u64, o);
        if let Some(m) = l.max { self.u(m as u64, o); }
    }
    pub fn ft(&mut self, f: &FT, o: &mut Vec<u8>) {
        o.push(0x60);
        self.u(f.params.len() as u64, o);
        o.extend(f.params.iter().map(|t| t.byte()));
        self.u(f.results.len() as u64, o);
        o.extend(f.results.iter().map(|t| t.byte()));
    }
    pub fn instr(&mut self, i: &RI, o: &mut Vec<u8>) {
        o.push(i.op);
        match &i.imm {
            Imm::None => {}
            Imm::Block(t) => o.push(t.first().map_or(0x40, |t| t.byte())),
            Imm::Idx(x) => self.u(*x as u64, o),
            Imm::Idx2(x, y) => { self.u(*x as u64, o); self.u(*y as u64, o); }
            Imm::Table(v, d) => {
                self.u(v.len() as u64, o);
                for x in v { self.u(*x as u64, o); }
                self.u(*d as u64, o);
            }
            Imm::Mem(a, off) => { self.u(*a as u64, o); self.u(*off as u64, o); }
            Imm::I32(v) => self.s(*v as i64, o),
            Imm::I64(v) => self.s(*v, o),
            Imm::F32(v) => o.extend_from_slice(&v.to_le_bytes()),
            Imm::F64(v) => o.extend_from_slice(&v.to_le_bytes()),
            Imm::Alien(s) => panic!("cannot encode {}", s),
        }
    }
    pub fn body(&mut self, b: &[RI], o: &mut Vec<u8>) { for i in b { self.instr(i, o); } }
    pub fn code(&mut self, f: &RFunc) -> Vec<u8> {
        let mut o = vec![];
        self.u(f.locals.len() as u64, &mut o);
        for (n, t) in &f.locals { self.u(*n as u64, &mut o); o.push(t.byte()); }
        self.body(&f.body, &mut o);
        o
    }
    /// The non-empty sections, in order, as (id, content).
    pub fn sections(&mut self, m: &RModule) -> Vec<(u8, Vec<u8>)> {
        let mut s: Vec<(u8, Vec<u8>)> = vec![];
        macro_rules! sec {
            ($id:expr, $items:expr, |$o:ident, $x:ident| $body:expr) => {
                if !$items.is_empty() {
                    let mut buf = vec![];
                    { let $o = &mut buf; self.u($items.len() as u64, $o); for $x in $items.iter() { $body; } }
                    s.push(($id, buf));
                }
            };
        }
        sec!(1, m.types, |o, t| self.ft(t, o));
        sec!(2, m.imports, |o, i| {
            self.name(&i.module, o);
            self.name(&i.name, o);
            match &i.desc {
                IDesc::Func(t) => { o.push(0); self.u(*t as u64, o); }
                IDesc::Table(l) => { o.push(1); o.push(0x70); self.lim(l, o); }
                IDesc::Mem(l) => { o.push(2); self.lim(l, o); }
                IDesc::Global(t, m) => { o.push(3); o.push(t.byte()); o.push(*m as u8); }
            }
        });
        sec!(3, m.funcs, |o, f| self.u(f.ty as u64, o));
        sec!(4, m.tables, |o, l| { o.push(0x70); self.lim(l, o); });
        sec!(5, m.mems, |o, l| self.lim(l, o));
        sec!(6, m.globals, |o, g| { o.push(g.vt.byte()); o.push(g.mutable as u8); self.body(&g.init, o); });
        sec!(7, m.exports, |o, e| { self.name(&e.name, o); o.push(e.kind); self.u(e.idx as u64, o); });
        if let Some(f) = m.start {
            let mut b = vec![];
            self.u(f as u64, &mut b);
            s.push((8, b));
        }
        sec!(9, m.elems, |o, e| {
            self.u(e.table as u64, o);
            self.body(&e.offset, o);
            self.u(e.init.len() as u64, o);
            for x in &e.init { self.u(*x as u64, o); }
        });
        sec!(10, m.funcs, |o, f| { let c = self.code(f); self.u(c.len() as u64, o); o.extend(c); });
        sec!(11, m.datas, |o, d| {
            self.u(d.mem as u64, o);
            self.body(&d.offset, o);
            self.name(&d.init, o);
        });
        s
    }
    pub fn assemble(&mut self, secs: &[(u8, Vec<u8>)]) -> Vec<u8> {
        let mut o = vec![0, 0x61, 0x73, 0x6D, 1, 0, 0, 0];
        for (id, c) in secs {
            o.push(*id);
            self.u(c.len() as u64, &mut o);
            o.extend_from_slice(c);
        }
        o
    }
    pub fn module(&mut self, m: &RModule) -> Vec<u8> { let s = self.sections(m); self.assemble(&s) }
}

pub fn encode(m: &RModule) -> Vec<u8> { Enc::plain().module(m) }
