//! Families of modules that grow in one dimension: `build(k, n, bad)` is the
//! member of size `n` of family `k`, valid unless `bad`, in which case it
//! breaks exactly one rule at the far end of that dimension.
use crate::enc::{encode, Enc};
use crate::rast::*;
use crate::rng::Rng;
use VT::*;

pub const NAMES: &[&str] = &[
    "types", "params", "function imports", "global imports", "functions", "globals", "exports", "one run of locals",
    "runs of locals", "nested blocks", "nested loops", "nested ifs", "operand depth", "branch table", "element entries",
    "data bytes", "element segments", "data segments", "name length", "custom sections", "custom section bytes", "nops",
    "sequential blocks", "calls", "constants", "sequential if/else", "mixed imports", "dead code", "integer padding",
    "similar export names", "conditional branches", "selects", "initialisers from imports", "local writes",
    "nested elses", "loads and stores", "branch out of nesting", "re-exports", "indirect calls", "tees", "dead blocks",
    "everything", "width at depth", "blocks above operands", "blocks and locals", "branch table at depth", "names and exports",
];

/// A pattern without a period, so that a wrapped index shows.
pub fn pat(i: usize) -> usize { let mut x = (i as u64).wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15); x ^= x >> 29; x = x.wrapping_mul(0xBF58476D1CE4E5B9); (x >> 33) as usize }
fn pvt(i: usize) -> VT { VTS[pat(i) % 4] }
fn name(i: usize) -> Vec<u8> { format!("n{}", i).into_bytes() }
fn text(s: usize, n: usize) -> Vec<u8> { (0..n).map(|i| b'a' + (pat(i * 3 + s) % 26) as u8).collect() }
fn f0() -> FT { FT::default() }
fn c() -> RI { RI::i32c(7) }
fn drop_() -> RI { RI::op(0x1A) }
fn func(ty: u32, locals: Vec<(u32, VT)>, mut body: Vec<RI>) -> RFunc { body.push(RI::end()); RFunc { ty, locals, body } }
fn imp(i: usize, d: IDesc) -> RImport { RImport { module: b"m".to_vec(), name: name(i), desc: d } }

pub fn build(k: usize, n: usize, bad: bool, r: &mut Rng) -> Vec<u8> {
    let mut m = RModule::default();
    let t = VTS[n % 4];
    let b = bad as usize;
    let last = (n + b).wrapping_sub(1) as u32; // n-1, or n when bad
    // functions with code refer to type 0 = [] -> []
    m.types.push(f0());
    match k {
        0 => {
            m.types.clear();
            for i in 0..n { m.types.push(FT { params: vec![pvt(i); pat(i) % 3], results: if pat(i) % 2 == 0 { vec![] } else { vec![pvt(i / 2)] } }); }
            if n > 0 || bad { m.imports.push(imp(0, IDesc::Func(last))); }
        }
        1 => {
            let params: Vec<VT> = (0..n).map(|i| pvt(i)).collect();
            m.types.push(FT { params: params.clone(), results: vec![] });
            let mut body = vec![];
            if n > 0 || bad { body.extend([RI::idx(0x20, last), drop_()]); }
            for i in 0..n { body.push(RI::idx(0x20, i as u32)); }
            body.push(RI::idx(0x10, 0));
            m.funcs.push(func(1, vec![], body));
        }
        2 => {
            m.types.push(FT { params: vec![], results: vec![t] });
            m.types.push(FT { params: vec![t], results: vec![] });
            for i in 0..n { m.imports.push(imp(i, IDesc::Func(if i + 1 == n { 1 } else { pat(i) as u32 % 3 }))); }
            if n > 0 { m.funcs.push(func(0, vec![], vec![RI::idx(0x10, last + b as u32), drop_()])); }
        }
        3 => {
            for i in 0..n { m.imports.push(imp(i, IDesc::Global(pvt(i), i % 3 == 0))); }
            if n > 0 || bad { m.funcs.push(func(0, vec![], vec![RI::idx(0x23, last), drop_()])); }
        }
        4 => {
            m.types.push(FT { params: vec![t], results: vec![] });
            m.types.push(FT { params: vec![I32, t, F32], results: vec![] });
            for i in 0..n { m.funcs.push(func(if i == 0 || i + 1 == n { 0 } else { pat(i) as u32 % 3 }, vec![], if pat(i) % 5 == 0 { vec![RI::i32c(i as i32), drop_()] } else { vec![] })); }
            if n > 0 { m.funcs[0].body.insert(0, RI::idx(0x10, last)); m.funcs[n - 1].body.insert(0, RI::op(0x01)); }
        }
        5 => {
            for i in 0..n { m.globals.push(RGlobal { vt: pvt(i), mutable: true, init: vec![RI::konst(pvt(i)), RI::end()] }); }
            if n > 0 || bad { m.funcs.push(func(0, vec![], vec![RI::idx(0x23, last), RI::idx(0x24, last)])); }
        }
        6 => {
            m.funcs.push(func(0, vec![], vec![]));
            for i in 0..n { m.exports.push(RExport { name: name(i), kind: 0, idx: 0 }); }
            if bad && n > 1 { m.exports[n - 1].name = name(r.below(n - 1)); }
        }
        7 => m.funcs.push(func(0, vec![(n as u32, t)], if n > 0 || bad { vec![RI::idx(0x20, last), drop_()] } else { vec![] })),
        8 => m.funcs.push(func(0, (0..n).map(|i| (1, pvt(i))).collect(), if n > 0 || bad { vec![RI::idx(0x20, last), drop_()] } else { vec![] })),
        9 | 10 => {
            let mut v = vec![RI::blk(0x02 + (k == 10) as u8, None); n];
            v.push(RI::idx(0x0C, (n + b) as u32));
            v.extend(vec![RI::end(); n]);
            m.funcs.push(func(0, vec![], v));
        }
        11 => {
            let mut v = vec![];
            for _ in 0..n { v.extend([c(), RI::blk(0x04, None)]); }
            v.push(if bad { drop_() } else { RI::op(0x01) });
            v.extend(vec![RI::end(); n]);
            m.funcs.push(func(0, vec![], v));
        }
        12 => {
            let mut v = vec![c(); n];
            v.extend(vec![drop_(); n + b]);
            m.funcs.push(func(0, vec![], v));
        }
        13 => {
            let mut l: Vec<u32> = (0..n).map(|i| (pat(i) % 2) as u32).collect();
            if bad { l.push(2); }
            m.funcs.push(func(0, vec![], vec![RI::blk(0x02, None), c(), RI { op: 0x0E, imm: Imm::Table(l, 1) }, RI::end()]));
        }
        14 => {
            for _ in 0..3 { m.funcs.push(func(0, vec![], vec![])); }
            m.tables.push(Lim { min: 1, max: None });
            let mut init: Vec<u32> = (0..n).map(|i| pat(i) as u32 % 3).collect();
            if bad { init.push(3); }
            m.elems.push(RElem { table: 0, offset: vec![c(), RI::end()], init });
        }
        15 => {
            if !bad { m.mems.push(Lim { min: 1, max: None }); }
            m.datas.push(RData { mem: 0, offset: vec![c(), RI::end()], init: (0..n).map(|i| pat(i) as u8).collect() });
        }
        16 => {
            for _ in 0..3 { m.funcs.push(func(0, vec![], vec![])); }
            m.tables.push(Lim { min: 1, max: None });
            for i in 0..n { m.elems.push(RElem { table: 0, offset: vec![RI::i32c(pat(i) as i32), RI::end()], init: vec![pat(i) as u32 % 3; i % 3] }); }
            if bad { m.elems.push(RElem { table: 0, offset: vec![RI::konst(I64), RI::end()], init: vec![0] }); }
        }
        17 => {
            m.mems.push(Lim { min: 1, max: None });
            for i in 0..n { m.datas.push(RData { mem: 0, offset: vec![RI::i32c(pat(i) as i32), RI::end()], init: vec![pat(i) as u8; i % 3] }); }
            if bad { m.datas.push(RData { mem: 0, offset: vec![RI::konst(F32), RI::end()], init: vec![] }); }
        }
        18 => {
            m.imports.push(RImport { module: text(0, n), name: text(1, n), desc: IDesc::Func(b as u32) });
            m.exports.push(RExport { name: text(2, n), kind: 0, idx: 0 });
        }
        19 => {
            let mut e = Enc::plain();
            m.funcs.push(func(b as u32, vec![], vec![]));
            let mut secs: Vec<(u8, Vec<u8>)> = e.sections(&m);
            let at = r.below(secs.len() + 1);
            secs.splice(at..at, (0..n).map(|i| (0u8, vec![1, b'c', i as u8])));
            return e.assemble(&secs);
        }
        20 => {
            let mut e = Enc::plain();
            m.funcs.push(func(b as u32, vec![], vec![]));
            let mut secs = e.sections(&m);
            let at = r.below(secs.len() + 1);
            let mut p = vec![1, b'c'];
            p.extend((0..n).map(|i| (i * 7) as u8));
            secs.insert(at, (0, p));
            return e.assemble(&secs);
        }
        21 => { let mut v = vec![RI::op(0x01); n]; if bad { v.push(drop_()); } m.funcs.push(func(0, vec![], v)); }
        22 => {
            let mut v = vec![];
            for _ in 0..n { v.extend([RI::blk(0x02, Some(t)), RI::konst(t), RI::end(), drop_()]); }
            if bad { v.push(drop_()); }
            m.funcs.push(func(0, vec![], v));
        }
        23 => {
            m.types.push(FT { params: vec![t], results: vec![t] });
            m.imports.push(imp(0, IDesc::Func(1)));
            let mut v = vec![RI::konst(t)];
            v.extend(vec![RI::idx(0x10, 0); n]);
            v.push(drop_());
            if bad { v.push(drop_()); }
            m.funcs.push(func(0, vec![], v));
        }
        24 => {
            let mut v = vec![];
            for i in 0..n { v.extend([RI::i32c((i as i32).wrapping_mul(0x9E3779B1u32 as i32)), drop_()]); }
            if bad { v.push(c()); }
            m.funcs.push(func(0, vec![], v));
        }
        25 => {
            let mut v = vec![];
            for _ in 0..n { v.extend([c(), RI::blk(0x04, Some(t)), RI::konst(t), RI::op(0x05), RI::konst(t), RI::end(), drop_()]); }
            if bad { v.extend([c(), RI::blk(0x04, Some(t)), RI::konst(t), RI::end(), drop_()]); }
            m.funcs.push(func(0, vec![], v));
        }
        26 => {
            m.types.push(FT { params: vec![t], results: vec![] });
            let (mut nf, mut ng) = (0u32, 0u32);
            for i in 0..n {
                if i % 2 == 0 { m.imports.push(imp(i, IDesc::Func((pat(i) % 2) as u32))); nf += 1 } else { m.imports.push(imp(i, IDesc::Global(pvt(i), false))); ng += 1 }
            }
            m.imports.push(imp(n, IDesc::Mem(Lim { min: 0, max: None })));
            m.imports.push(imp(n, IDesc::Table(Lim { min: 0, max: None })));
            m.globals.push(RGlobal { vt: t, mutable: true, init: vec![RI::konst(t), RI::end()] });
            m.funcs.push(func(0, vec![], vec![RI::idx(0x10, nf + b as u32), RI::konst(t), RI::idx(0x24, ng)]));
            m.exports.push(RExport { name: b"f".to_vec(), kind: 0, idx: nf });
            m.exports.push(RExport { name: b"g".to_vec(), kind: 3, idx: ng });
        }
        27 => {
            let mut v = vec![RI::op(0x00)];
            for i in 0..n { v.push(RI::op([0x6A, 0x1B, 0x1A, 0x50][i % 4])); }
            if bad { v.extend([RI::konst(I64), RI::op(0x45)]); }
            v.push(RI::op(0x00));
            m.funcs.push(func(0, vec![], v));
        }
        28 => {
            // the local index of one local.get carries n redundant bytes
            let mut code = vec![1, 1, t.byte(), 0x20];
            let st = code.len();
            code.push(b as u8);
            let mut tmp = code.split_off(st);
            crate::leb::pad(&mut tmp, n, false);
            code.extend(tmp);
            code.extend([0x1A, 0x0B]);
            let mut e = Enc::plain();
            m.funcs.push(func(0, vec![], vec![]));
            let mut secs = e.sections(&m);
            let mut body = vec![1];
            crate::leb::enc_u(code.len() as u64, &mut body);
            body.extend(code);
            secs.last_mut().unwrap().1 = body;
            return e.assemble(&secs);
        }
        29 => {
            m.funcs.push(func(0, vec![], vec![]));
            // long names differing late
            let cnt = 40.min(n.max(2));
            for i in 0..cnt { let mut s = vec![b'a'; n]; s.extend(name(i)); m.exports.push(RExport { name: s, kind: 0, idx: 0 }); }
            if bad { let x = m.exports[r.below(cnt)].name.clone(); m.exports.push(RExport { name: x, kind: 0, idx: 0 }); }
        }
        30 => {
            let mut v = vec![RI::blk(0x02, Some(t)), RI::konst(t)];
            for i in 0..n { v.extend([c(), RI::idx(0x0D, 0)]); if i % 7 == 0 { v.push(RI::op(0x01)); } }
            if bad { v.extend([c(), RI::idx(0x0D, 2)]); }
            v.extend([RI::end(), drop_()]);
            m.funcs.push(func(0, vec![], v));
        }
        31 => {
            let mut v = vec![RI::konst(t)];
            for _ in 0..n { v.extend([RI::konst(t), c(), RI::op(0x1B)]); }
            if bad { v.extend([RI::konst(VTS[(n + 1) % 4]), c(), RI::op(0x1B)]); }
            v.push(drop_());
            m.funcs.push(func(0, vec![], v));
        }
        32 => {
            for i in 0..n { m.imports.push(imp(i, IDesc::Global(pvt(i), bad && i + 1 == n))); }
            for i in 0..n { m.globals.push(RGlobal { vt: pvt(i), mutable: false, init: vec![RI::idx(0x23, i as u32), RI::end()] }); }
        }
        33 => {
            let mut v = vec![];
            for i in 0..n { v.extend([RI::konst(pvt(i)), RI::idx(0x21, i as u32)]); }
            if bad { v.extend([RI::konst(VTS[0]), RI::idx(0x21, n as u32)]); }
            m.funcs.push(func(0, (0..n).map(|i| (1, pvt(i))).collect(), v));
        }
        34 => {
            let mut v = vec![];
            for _ in 0..n { v.extend([c(), RI::blk(0x04, Some(t)), RI::konst(t), RI::op(0x05)]); }
            v.push(RI::konst(if bad { VTS[(n + 1) % 4] } else { t }));
            v.extend(vec![RI::end(); n]);
            v.push(drop_());
            if n == 0 && bad { v.push(drop_()); }
            m.funcs.push(func(0, vec![], v));
        }
        35 => {
            m.mems.push(Lim { min: 1, max: Some(2) });
            let mut v = vec![];
            for i in 0..n { v.extend([c(), c(), RI { op: 0x28, imm: Imm::Mem(2, i as u32) }, RI { op: 0x36, imm: Imm::Mem(0, u32::MAX - i as u32) }]); }
            if bad { v.extend([c(), RI { op: 0x28, imm: Imm::Mem(3, 0) }, drop_()]); }
            m.funcs.push(func(0, vec![], v));
        }
        36 => {
            // n nested blocks, each conditionally leaving all of them
            let mut v = vec![];
            for i in 0..n { v.extend([RI::blk(0x02, None), c(), RI::idx(0x0D, i as u32 + 1)]); }
            if bad { v.extend([c(), RI::idx(0x0D, n as u32 + 1)]); }
            v.extend(vec![RI::end(); n]);
            m.funcs.push(func(0, vec![], v));
        }
        37 => {
            m.types.push(FT { params: vec![t], results: vec![t] });
            for i in 0..n { m.imports.push(imp(i, if i % 2 == 0 { IDesc::Func((pat(i) % 2) as u32) } else { IDesc::Global(pvt(i / 2), false) })); }
            for i in 0..n { m.exports.push(RExport { name: name(i), kind: if i % 2 == 0 { 0 } else { 3 }, idx: (i / 2) as u32 }); }
            if bad { m.exports.push(RExport { name: b"x".to_vec(), kind: 3, idx: (n / 2) as u32 }); }
        }
        38 => {
            m.tables.push(Lim { min: 0, max: None });
            m.types.push(FT { params: vec![t, I32], results: vec![] });
            let mut v = vec![];
            for _ in 0..n { v.extend([RI::konst(t), c(), c(), RI { op: 0x11, imm: Imm::Idx2(1, 0) }]); }
            if bad { v.extend([RI::konst(t), c(), RI { op: 0x11, imm: Imm::Idx2(1, 0) }]); }
            m.funcs.push(func(0, vec![], v));
        }
        39 => {
            let mut v = vec![RI::konst(t)];
            v.extend(vec![RI::idx(0x22, 0); n]);
            if bad { v.push(RI::idx(0x22, 1)); }
            v.push(drop_());
            m.funcs.push(func(0, vec![(1, t)], v));
        }
        40 => {
            let mut v = vec![];
            for _ in 0..n { v.extend([RI::blk(0x02, Some(t)), RI::idx(0x0C, 1), RI::end(), drop_()]); }
            if bad { v.extend([RI::blk(0x02, Some(t)), RI::end(), drop_()]); }
            let mut w = vec![RI::blk(0x02, None)];
            w.extend(v);
            w.push(RI::end());
            m.funcs.push(func(0, vec![], w));
        }
        41 => {
            // n of everything countable, each function using the last of each
            m.types.clear();
            for i in 0..n + 1 { m.types.push(FT { params: vec![pvt(i); i % 2], results: vec![] }); }
            for i in 0..n { m.imports.push(imp(i, IDesc::Func(2 * (pat(i) as u32 % (n as u32 / 2 + 1))))); }
            for i in 0..n { m.imports.push(imp(n + i, IDesc::Global(I32, false))); }
            m.tables.push(Lim { min: 0, max: None });
            m.mems.push(Lim { min: 0, max: None });
            for i in 0..n { m.globals.push(RGlobal { vt: I32, mutable: true, init: vec![RI::idx(0x23, i as u32), RI::end()] }); }
            for i in 0..n {
                let f = (n + pat(i) % n) as u32;
                let bad = bad && i + 1 == n;
                m.funcs.push(func(0, vec![(i as u32 % 3, pvt(i))], vec![
                    RI::blk(0x02, None), RI::idx(0x10, f), RI::idx(0x10, if bad { 2 * n as u32 } else { 0 }), RI::idx(0x23, last - bad as u32), RI::idx(0x24, (2 * n - 1) as u32), RI::end(),
                    c(), RI::blk(0x04, None), RI::op(0x01), RI::end(), c(), RI { op: 0x11, imm: Imm::Idx2(0, 0) }, c(), RI { op: 0x28, imm: Imm::Mem(2, i as u32) }, drop_(),
                ]));
                m.exports.push(RExport { name: name(i), kind: 0, idx: f });
                m.elems.push(RElem { table: 0, offset: vec![RI::idx(0x23, i as u32), RI::end()], init: vec![f] });
                m.datas.push(RData { mem: 0, offset: vec![c(), RI::end()], init: vec![i as u8] });
            }
        }
        42 => {
            let d = n / 8;
            let mut v = vec![];
            for i in 0..d { v.push(RI::blk(if pat(i) % 2 == 0 { 0x02 } else { 0x03 }, None)); }
            for i in 0..n { v.extend(match pat(i) % 4 { 0 => vec![c(), RI::idx(0x0D, (pat(i + 1) % (d + 1)) as u32)], 1 => vec![c(), drop_()], 2 => vec![RI::blk(0x02, None), RI::end()], _ => vec![RI::op(0x01)] }); }
            if bad { v.push(c()); }
            for _ in 0..d { v.push(RI::end()); }
            m.funcs.push(func(0, vec![], v));
        }
        43 => {
            let mut v = vec![];
            for i in 0..n { v.push(RI::konst(pvt(i))); }
            for i in 0..n { v.extend(match pat(i) % 3 { 0 => vec![RI::blk(0x02, None), RI::end()], 1 => vec![RI::blk(0x03, None), RI::op(0x01), RI::end()], _ => vec![c(), RI::blk(0x04, None), RI::op(0x00), RI::op(0x05), RI::end()] }); }
            for _ in 0..n + b { v.push(drop_()); }
            m.funcs.push(func(0, vec![], v));
        }
        44 => {
            let locals = (0..n).map(|i| (1, pvt(i))).collect();
            let mut v = vec![];
            for i in 0..n { v.extend([RI::blk(0x02, None), RI::idx(0x20, (pat(i) % n) as u32), RI::idx(0x21, (pat(i) % n) as u32), RI::end()]); }
            if bad { v.extend([RI::idx(0x20, n as u32), drop_()]); }
            m.funcs.push(func(0, locals, v));
        }
        45 => {
            let d = n / 8 + 1;
            let mut v = vec![];
            for _ in 0..d { v.push(RI::blk(0x02, None)); }
            v.extend([c(), RI { op: 0x0E, imm: Imm::Table((0..n).map(|i| (pat(i) % (d + 1)) as u32).collect(), (d + b) as u32) }]);
            for _ in 0..d { v.push(RI::end()); }
            m.funcs.push(func(0, vec![], v));
        }
        _ => {
            // imports and exports with long names that all begin alike
            let long = |i: usize| { let mut x = text(0, 40); x.extend(format!("{:06}", i).bytes()); x };
            for i in 0..n { m.imports.push(RImport { module: long(0), name: long(i), desc: IDesc::Func(0) }); }
            for i in 0..n { m.exports.push(RExport { name: long(if bad && i + 1 == n { 0 } else { i }), kind: 0, idx: i as u32 }); }
        }
    }
    encode(&m)
}

/// Largest sensible size of a family (keeps each member within a few hundred kB).
pub fn max(k: usize) -> usize {
    match NAMES[k] { "similar export names" => 5000, "everything" => 9_000, "width at depth" | "branch table at depth" => 16_000, "names and exports" => 9_000, "name length" => 70_000, _ => 70_000 }
}
