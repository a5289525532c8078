//! C25: modules built or edited in memory; C26: equality and debug text; C27: small values.
use crate::back;
use crate::imp::{self, PErr};
use crate::judge::J;
use crate::mon::{count, guard};
use crate::pool::Pool;
use crate::rast::*;
use crate::rng::Rng;
use crate::val;
use whasm::structure::module::Module;

/// Modules, each prefixed by its length (u32 le), that are well-formed and of ordinary size.
fn unbundle(d: &[u8]) -> Vec<(&[u8], RModule, usize)> {
    let mut v = vec![];
    let mut p = 0;
    while p + 4 <= d.len() {
        let n = u32::from_le_bytes([d[p], d[p + 1], d[p + 2], d[p + 3]]) as usize;
        if p + 4 + n > d.len() { break; }
        let b = &d[p + 4..p + 4 + n];
        p += 4 + n;
        let mut c = crate::dec::Cur::new(b);
        let r = c.module();
        if c.locals > 200_000 || c.depth > 3000 { count("skipped: too large to expand", 1); continue; }
        let depth = c.depth as usize;
        if let Ok(m) = r { v.push((b, m, depth)); }
    }
    v
}
pub fn bundle(v: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for b in v { o.extend((b.len() as u32).to_le_bytes()); o.extend(b); }
    o
}

fn verdict(m: &Module, r: &RModule, how: &str) -> Option<String> {
    let got = match guard(|| imp::validate(m)) { Ok(g) => g, Err(e) => return Some(format!("validating a module {}: {}", how, e)) };
    match (val::validate(r), got) {
        (Ok(x), Ok(y)) => { count("valid", 1); if x != y { Some(format!("the external types of a module {} are not those of its content", how)) } else { None } }
        (Ok(_), Err(e)) => { count("valid", 1); Some(format!("a valid module {} is rejected: {}", how, e)) }
        (Err(w), Ok(_)) => { count(&format!("invalid: {}", w), 1); Some(format!("an invalid module {} is accepted: {}", how, w)) }
        (Err(w), Err(_)) => { count(&format!("invalid: {}", w), 1); None }
    }
}

/// data: one module's bytes
pub fn built(b: &[u8]) -> J {
    let mut c = crate::dec::Cur::new(b);
    let r = match c.module() { Ok(r) if c.locals <= 200_000 && c.depth <= 3000 => r, _ => return J::ok(false) };
    let mut m = match back::module(&r) { Some(m) => m, None => return J::ok(false) };
    if let Some(e) = verdict(&m, &r, "built in memory") { return J::bad(e); }
    back::capacities(&mut m, false);
    if let Some(e) = verdict(&m, &r, "built in memory without spare room") { return J::bad(e); }
    back::capacities(&mut m, true);
    match verdict(&m, &r, "built in memory with spare room") { Some(e) => J::bad(e), None => J::ok(true) }
}
/// data: a bundle; the first is parsed, the rest are reached by editing in memory
pub fn edits(d: &[u8]) -> J {
    let v = unbundle(d);
    if v.is_empty() { return J::ok(false); }
    let mut m = match guard(|| imp::parse(v[0].0)) { Ok(Ok(m)) => m, _ => return J::ok(false) };
    // what was parsed may differ from what the bytes say: that is another property's business
    if diff(&v[0].1, &imp::conv(&m)).is_some() { return J::ok(false); }
    if let Some(e) = verdict(&m, &v[0].1, "as parsed") { return J::bad(e); }
    for w in v.windows(2) {
        if back::edit(&mut m, &w[0].1, &w[1].1).is_none() { return J::ok(false); }
        for _ in 0..2 { if let Some(e) = verdict(&m, &w[1].1, "edited in memory") { return J::bad(e); } }
        count("edits between validations", 1);
    }
    J::ok(v.len() > 1)
}

fn map_floats(m: &RModule, f32f: fn(u32) -> u32, f64f: fn(u64) -> u64) -> RModule {
    let mut m = m.clone();
    let bodies = m.funcs.iter_mut().map(|f| &mut f.body).chain(m.globals.iter_mut().map(|g| &mut g.init)).chain(m.elems.iter_mut().map(|e| &mut e.offset)).chain(m.datas.iter_mut().map(|d| &mut d.offset));
    for b in bodies { for i in b.iter_mut() { match &mut i.imm { Imm::F32(x) => *x = f32f(*x), Imm::F64(x) => *x = f64f(*x), _ => {} } } }
    m
}
fn has_nan(m: &RModule) -> bool {
    let bodies = m.funcs.iter().map(|f| &f.body).chain(m.globals.iter().map(|g| &g.init)).chain(m.elems.iter().map(|e| &e.offset)).chain(m.datas.iter().map(|d| &d.offset));
    bodies.flatten().any(|i| match i.imm { Imm::F32(x) => f32::from_bits(x).is_nan(), Imm::F64(x) => f64::from_bits(x).is_nan(), _ => false })
}

/// The atoms a complete rendering must show: numbers, names, value types, as counted text.
fn atoms(m: &RModule) -> std::collections::BTreeMap<String, i64> {
    let mut c = std::collections::BTreeMap::new();
    let mut add = |s: String, n: i64| *c.entry(s).or_insert(0) += n;
    fn body(b: &[RI], add: &mut dyn FnMut(String, i64)) {
        for i in b {
            match &i.imm {
                Imm::None | Imm::Alien(_) => {}
                Imm::Block(t) => for v in t { add(format!("{:?}", v), 1) },
                Imm::Idx(x) => add(x.to_string(), 1),
                Imm::Idx2(x, y) | Imm::Mem(x, y) => { add(x.to_string(), 1); add(y.to_string(), 1) }
                Imm::Table(v, d) => { for x in v { add(x.to_string(), 1) } add(d.to_string(), 1) }
                Imm::I32(x) => add(x.to_string(), 1),
                Imm::I64(x) => add(x.to_string(), 1),
                Imm::F32(x) => add(format!("{:?}", f32::from_bits(*x)), 1),
                Imm::F64(x) => add(format!("{:?}", f64::from_bits(*x)), 1),
            }
        }
    }
    let name = |n: &[u8]| format!("{:?}", String::from_utf8_lossy(n));
    let lim = |l: &Lim, add: &mut dyn FnMut(String, i64)| { add(l.min.to_string(), 1); if let Some(x) = l.max { add(x.to_string(), 1) } };
    for t in &m.types { for v in t.params.iter().chain(&t.results) { add(format!("{:?}", v), 1) } }
    for i in &m.imports {
        add(name(&i.module), 1);
        add(name(&i.name), 1);
        match &i.desc { IDesc::Func(t) => add(t.to_string(), 1), IDesc::Table(l) | IDesc::Mem(l) => lim(l, &mut add), IDesc::Global(t, _) => add(format!("{:?}", t), 1) }
    }
    for f in &m.funcs { add(f.ty.to_string(), 1); for (n, t) in &f.locals { add(format!("{:?}", t), *n as i64) } body(&f.body, &mut add); }
    for l in m.tables.iter().chain(&m.mems) { lim(l, &mut add) }
    for g in &m.globals { add(format!("{:?}", g.vt), 1); body(&g.init, &mut add); }
    for e in &m.exports { add(name(&e.name), 1); add(e.idx.to_string(), 1); }
    if let Some(s) = m.start { add(s.to_string(), 1) }
    for e in &m.elems { add(e.table.to_string(), 1); body(&e.offset, &mut add); for f in &e.init { add(f.to_string(), 1) } }
    for d in &m.datas { add(d.mem.to_string(), 1); body(&d.offset, &mut add); for b in &d.init { add(b.to_string(), 1) } }
    c.retain(|_, n| *n != 0);
    c
}
/// Atoms found in a text.
fn lex(t: &str) -> std::collections::BTreeMap<String, i64> {
    let mut c = std::collections::BTreeMap::new();
    let b = t.as_bytes();
    let mut i = 0;
    let word = |x: u8| x.is_ascii_alphanumeric() || x == b'_' || x == b'.' || x == b'-' || x == b'+';
    while i < b.len() {
        if b[i] == b'"' {
            let s = i;
            i += 1;
            while i < b.len() && b[i] != b'"' { i += if b[i] == b'\\' { 2 } else { 1 }; }
            i += 1;
            *c.entry(t[s..i.min(t.len())].to_string()).or_insert(0) += 1;
        } else if word(b[i]) {
            let s = i;
            while i < b.len() && word(b[i]) { i += 1; }
            let w = &t[s..i];
            let f = w.as_bytes()[0];
            if f.is_ascii_digit() || f == b'-' || ["NaN", "inf", "I32", "I64", "F32", "F64"].contains(&w) { *c.entry(w.to_string()).or_insert(0) += 1; }
        } else { i += 1; }
    }
    c
}
/// What a rendering of the module lacks.
pub fn lacking(m: &RModule, text: &str) -> Option<String> {
    let (want, got) = (atoms(m), lex(text));
    for (k, n) in &want { if got.get(k).copied().unwrap_or(0) < *n { return Some(format!("the text shows {} {} times, the module has it {} times", k.chars().take(80).collect::<String>(), got.get(k).unwrap_or(&0), n)); } }
    None
}

/// data: a bundle of modules compared pairwise (first with each, and neighbours)
pub fn equality(d: &[u8]) -> J {
    let v = unbundle(d);
    let mut j = J::batch();
    let r = guard(|| {
        let mut parsed = vec![];
        for (b, r, _) in &v {
            let m = match imp::parse(b) { Ok(m) => m, Err(_) => return Ok((0, 0)) };
            if diff(r, &imp::conv(&m)).is_some() { return Ok((0, 0)); }
            parsed.push(m);
        }
        let built: Vec<Option<Module>> = v.iter().map(|x| back::module(&x.1)).collect();
        let btexts: Vec<Option<String>> = built.iter().map(|m| m.as_ref().map(|m| format!("{:?}", m))).collect();
        let texts: Vec<String> = parsed.iter().map(|m| format!("{:?}", m)).collect();
        for (k, t) in texts.iter().enumerate() {
            if let Some(e) = lacking(&v[k].1, t) { return Err(e); }
            // every level of nesting indents every character again
            if v[k].2 > 30 { continue; }
            let long: String = format!("{:#?}", parsed[k]);
            if let Some(e) = lacking(&v[k].1, &long) { return Err(format!("in the long form, {}", e)); }
        }
        let zero = |m: &RModule| map_floats(m, |x| if x == 1 << 31 { 0 } else { x }, |x| if x == 1 << 63 { 0 } else { x });
        let nan = |m: &RModule| map_floats(m, |x| if f32::from_bits(x).is_nan() { 0x7FC00000 } else { x }, |x| if f64::from_bits(x).is_nan() { 0x7FF8000000000000 } else { x });
        let (mut n, mut pairs) = (0, vec![]);
        for i in 0..v.len() { for k in [0, i, (i + 1) % v.len()] { pairs.push((i, k)); } }
        let mut eq = 0;
        for (i, k) in pairs {
            let same = !has_nan(&v[i].1) && !has_nan(&v[k].1) && diff(&zero(&v[i].1), &zero(&v[k].1)).is_none();
            let look = diff(&nan(&v[i].1), &nan(&v[k].1)).is_none();
            if (parsed[i] == parsed[k]) != same { return Err(format!("two modules {} but compare as {}", if same { "with the same content" } else { "with different content" }, if same { "different" } else { "equal" })); }
            if (parsed[i] != parsed[k]) == same { return Err("== and != agree".into()); }
            if let Some(m) = &built[k] {
                if (parsed[i] == *m) != same || (*m == parsed[i]) != same { return Err("a parsed module and one built in memory do not compare as their content does".into()); }
                if (btexts[k].as_ref() == Some(&texts[i])) != look { return Err("a parsed module and one built in memory do not print as their content does".into()); }
            }
            if (texts[i] == texts[k]) != look { return Err(format!("two modules {} but their debug texts are {}", if look { "with the same content" } else { "with different content" }, if look { "different" } else { "the same" })); }
            n += 1;
            eq += same as u64;
        }
        count("pairs equal", eq);
        count("pairs different", n - eq);
        Ok((n, n))
    });
    match r {
        Err(e) => return J::bad(e),
        Ok(Err(e)) => return J::bad(e),
        Ok(Ok((n, t))) => { j.evals = n.max(1); j.nontrivial = t; }
    }
    j
}

/// A module and a chain of modules that differ from it in little.
pub fn chain(p: &Pool, r: &mut Rng, small: bool) -> Vec<u8> {
    use crate::gen::{self, Aim, Cfg};
    let c = if !small && r.chance(1, 8) { Cfg::stretched(p, r) } else if r.chance(1, 10) { Cfg::medium() } else { Cfg::small() };
    let m0 = if r.chance(1, 4) { crate::work::index_rich(p, r) } else { gen::module(p, r, &c) };
    let mut v = vec![crate::work::dress(p, r, &m0)];
    let n = r.range(1, 4);
    let mut last = m0.clone();
    for _ in 0..n {
        let mut m = if r.chance(1, 2) { m0.clone() } else { last.clone() };
        match r.below(8) {
            0 => gen::mutate_module(p, r, &mut m, Aim::Index),
            1 => gen::mutate_module(p, r, &mut m, Aim::Const),
            2 => gen::mutate_module(p, r, &mut m, Aim::Limits),
            3 | 4 => { gen::mutate_body(p, r, &mut m); }
            5 => {}
            _ => tweak(p, r, &mut m),
        }
        v.push(crate::enc::encode(&m));
        last = m;
    }
    bundle(&v)
}
/// Change one thing that need not matter for validity.
fn tweak(p: &Pool, r: &mut Rng, m: &mut RModule) {
    for _ in 0..20 {
        match r.below(14) {
            0 if !m.imports.is_empty() => { let k = r.below(m.imports.len()); m.imports[k].module = p.name(r); return; }
            1 if !m.imports.is_empty() => { let k = r.below(m.imports.len()); m.imports[k].name.push(b'x'); return; }
            2 if !m.exports.is_empty() => { let k = r.below(m.exports.len()); m.exports[k].name = p.name(r); return; }
            3 if !m.exports.is_empty() => { let k = r.below(m.exports.len()); m.exports.remove(k); return; }
            4 if m.exports.len() > 1 => { let k = r.below(m.exports.len() - 1); m.exports.swap(k, k + 1); return; }
            5 if !m.datas.is_empty() => { let k = r.below(m.datas.len()); let n = m.datas[k].init.len(); if n > 0 { let at = r.below(n); m.datas[k].init[at] ^= 1 << r.below(8); return; } }
            6 if !m.datas.is_empty() => { let k = r.below(m.datas.len()); let x = r.byte(); m.datas[k].init.push(x); return; }
            7 if !m.elems.is_empty() => { let k = r.below(m.elems.len()); m.elems[k].init.pop(); return; }
            8 if !m.funcs.is_empty() => { let k = r.below(m.funcs.len()); let t = crate::gen::rvt(r); m.funcs[k].locals.push((r.below(3) as u32, t)); return; }
            9 if !m.globals.is_empty() => { let k = r.below(m.globals.len()); m.globals[k].mutable ^= true; return; }
            10 => { m.types.push(FT { params: vec![crate::gen::rvt(r)], results: vec![] }); return; }
            11 if !m.types.is_empty() => { let k = r.below(m.types.len()); let t = crate::gen::rvt(r); m.types[k].params.push(t); return; }
            12 => { m.start = match m.start { Some(_) => None, None => Some(r.below(3) as u32) }; return; }
            13 if !m.funcs.is_empty() => {
                // one bit of one immediate
                let k = r.below(m.funcs.len());
                let b = &mut m.funcs[k].body;
                let at = r.below(b.len().max(1));
                if let Some(i) = b.get_mut(at) {
                    match &mut i.imm {
                        Imm::I32(x) => { *x ^= 1 << r.below(32); return; }
                        Imm::I64(x) => { *x ^= 1 << r.below(64); return; }
                        Imm::F32(x) => { *x ^= 1 << r.below(32); return; }
                        Imm::F64(x) => { *x ^= 1 << r.below(64); return; }
                        Imm::Mem(_, o) => { *o ^= 1 << r.below(32); return; }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

/// Change one entry of the longest list (or of some list), mostly near its end.
pub fn alter(r: &mut Rng, m: &mut RModule) -> bool {
    fn other(t: VT, r: &mut Rng) -> VT { loop { let x = crate::gen::rvt(r); if x != t { return x; } } }
    fn longest<T>(v: &[T], len: impl Fn(&T) -> usize) -> usize { let mut k = 0; for (i, x) in v.iter().enumerate() { if len(x) > len(&v[k]) { k = i; } } k }
    let (ty, fl, fb, el, da) = (longest(&m.types, |t| t.params.len()), longest(&m.funcs, |f| f.locals.len()), longest(&m.funcs, |f| f.body.len()), longest(&m.elems, |e| e.init.len()), longest(&m.datas, |d| d.init.len()));
    let (im, ex) = (longest(&m.imports, |i| i.name.len() + i.module.len()), longest(&m.exports, |e| e.name.len()));
    let tb = m.funcs.get(fb).map_or(0, |f| longest(&f.body, |i| if let Imm::Table(v, _) = &i.imm { v.len() } else { 0 }));
    let lens = [
        m.types.len(), m.types.get(ty).map_or(0, |t| t.params.len()), m.imports.len(), m.imports.get(im).map_or(0, |i| i.name.len()), m.imports.get(im).map_or(0, |i| i.module.len()), m.funcs.len(),
        m.funcs.get(fl).map_or(0, |f| f.locals.len()), m.funcs.get(fb).map_or(0, |f| f.body.len()), m.funcs.get(fb).map_or(0, |f| if let Some(RI { imm: Imm::Table(v, _), .. }) = f.body.get(tb) { v.len() } else { 0 }),
        m.globals.len(), m.exports.len(), m.exports.get(ex).map_or(0, |e| e.name.len()), m.elems.len(), m.elems.get(el).map_or(0, |e| e.init.len()), m.datas.len(), m.datas.get(da).map_or(0, |d| d.init.len()),
    ];
    let top = *lens.iter().max().unwrap();
    let pick: Vec<usize> = (0..lens.len()).filter(|k| lens[*k] > 0 && (lens[*k] == top || r.chance(1, 6))).collect();
    if pick.is_empty() { return false; }
    let w = pick[r.below(pick.len())];
    let n = lens[w];
    let at = match r.below(4) { 0 | 1 => n - 1, 2 => n - 1 - r.below(n.min(4)), _ => r.below(n) };
    let swap = |b: &mut u8| *b = if *b == b'q' { b'r' } else { b'q' };
    match w {
        0 => m.types[at].params.push(VT::F64),
        1 => { let x = m.types[ty].params[at]; m.types[ty].params[at] = other(x, r) }
        2 => m.imports[at].name.push(b'x'),
        3 => swap(&mut m.imports[im].name[at]),
        4 => swap(&mut m.imports[im].module[at]),
        5 => m.funcs[at].ty ^= 1,
        6 => { let x = m.funcs[fl].locals[at].1; m.funcs[fl].locals[at].1 = other(x, r) }
        7 => {
            let b = &mut m.funcs[fb].body;
            for k in (0..=at).rev() {
                let RI { op, imm } = &mut b[k];
                match imm {
                    Imm::I32(x) => *x ^= 1, Imm::I64(x) => *x ^= 1, Imm::F32(x) => *x ^= 1, Imm::F64(x) => *x ^= 1,
                    Imm::Idx(x) => *x ^= 1, Imm::Idx2(x, _) => *x ^= 1, Imm::Mem(_, x) => *x ^= 1, Imm::Table(_, x) => *x ^= 1,
                    Imm::None if *op == 0x01 => *op = 0x00, Imm::None if *op == 0x1A => *op = 0x1B,
                    _ => continue,
                }
                return true;
            }
            return false;
        }
        8 => if let Imm::Table(v, _) = &mut m.funcs[fb].body[tb].imm { v[at] ^= 1 },
        9 => m.globals[at].mutable ^= true,
        10 => m.exports[at].idx ^= 1,
        11 => swap(&mut m.exports[ex].name[at]),
        12 => m.elems[at].table ^= 1,
        13 => m.elems[el].init[at] ^= 1,
        14 => m.datas[at].mem ^= 1,
        _ => m.datas[da].init[at] ^= 1 << r.below(8),
    }
    true
}
/// A long module and two that differ from it in one entry.
pub fn tails(b: &[u8], r: &mut Rng) -> Vec<u8> {
    let m = match crate::dec::decode(b) { Ok(m) => m, Err(_) => return bundle(&[]) };
    let mut v = vec![b.to_vec()];
    for _ in 0..2 { let mut x = m.clone(); if alter(r, &mut x) { v.push(crate::enc::encode(&x)); } }
    bundle(&v)
}

/// Every immediate-free instruction prints a text of its own and equals only itself.
pub fn instructions() -> J {
    let ops: Vec<RI> = (0..=0xBFu8).map(RI::op).chain((0x28..=0x3E).map(|o| RI { op: o, imm: Imm::Mem(0, 0) })).chain([0x0C, 0x0D, 0x10, 0x20, 0x21, 0x22, 0x23, 0x24, 0x3F, 0x40].iter().map(|o| RI::idx(*o, 0))).collect();
    let v: Vec<_> = ops.iter().filter_map(back::simple).collect();
    let mut j = J::batch();
    for (i, a) in v.iter().enumerate() {
        for (k, b) in v.iter().enumerate() {
            j.evals += 1;
            j.nontrivial += 1;
            if (a == b) != (i == k) { return J::bad(format!("{:?} == {:?} is {}", a, b, a == b)); }
            if (format!("{:?}", a) == format!("{:?}", b)) != (i == k) { return J::bad(format!("instructions {:02x} and {:02x} print the same text {:?}", ops[i].op, ops[k].op, a)); }
        }
    }
    j
}

/// data: one byte value
pub fn byte_values(d: &[u8]) -> J {
    use whasm::binary::{Byte, WasmBinaryParseProxy};
    let x = d[0];
    let mut j = J::batch();
    macro_rules! must { ($c:expr, $($m:tt)*) => {{ j.evals += 1; j.nontrivial += 1; if !$c { return J::bad(format!($($m)*)); } }}; }
    must!(Byte(x).unwrap() == x, "unwrapping Byte({}) gives {}", x, Byte(x).unwrap());
    must!(u8::from(Byte(x)) == x, "Byte({}) as u8 is {}", x, u8::from(Byte(x)));
    must!(char::from(Byte(x)) == char::from(x), "Byte({}) as char is {:?}", x, char::from(Byte(x)));
    for y in 0..=255u8 {
        must!((Byte(x) == y) == (x == y), "Byte({}) == {} is {}", x, y, Byte(x) == y);
        must!((Byte(x) == Byte(y)) == (x == y), "Byte({}) == Byte({}) is {}", x, y, Byte(x) == Byte(y));
        must!((Byte(x) != Byte(y)) == (x != y), "Byte({}) != Byte({}) is wrong", x, y);
    }
    for c in (0..0x800u32).chain([0xD7FF, 0xE000, 0xFFFD, 0x10000 + x as u32, 0x10FFFF]) {
        if let Some(c) = char::from_u32(c) { must!((Byte(x) == c) == (x as u32 == c as u32), "Byte({}) == {:?} is {}", x, c, Byte(x) == c); }
    }
    for t in [format!("{}", Byte(x)), format!("{:?}", Byte(x))] {
        must!(t.len() == 4 && t.starts_with("0x") && u8::from_str_radix(&t[2..], 16) == Ok(x), "Byte({}) prints as {}", x, t);
    }
    j
}

fn all_errors(x: u8) -> Vec<(PErr, &'static [&'static str], Option<u8>)> {
    use whasm::binary::Byte;
    vec![
        (PErr::UnexpectedEndOfFile, &["end"], None),
        (PErr::InvalidVariantId { id: x, ty: "limits" }, &["limits"], Some(x)),
        (PErr::InvalidVariantId { id: x, ty: "valtype" }, &["valtype"], Some(x)),
        (PErr::OutOfRangeSignedInteger, &["range", " signed"], None),
        (PErr::OutOfRangeUnsignedInteger, &["range", "unsigned"], None),
        (PErr::InvalidUtf8Encoding, &["utf"], None),
        (PErr::UnexpectedOpcode { instr: "else" }, &["else"], None),
        (PErr::UnexpectedOpcode { instr: "end" }, &["end"], None),
        (PErr::InvalidPreambleMagic, &["magic"], None),
        (PErr::InvalidPreambleVersion, &["version"], None),
        (PErr::UnexpectedSectionId { id: Byte(x) }, &["section"], Some(x)),
        (PErr::InvalidSectionId { id: Byte(x) }, &["section"], Some(x)),
        (PErr::SectionSizeMissmatch { id: Byte(x) }, &["section", "size"], Some(x)),
        (PErr::FunctionSizeMissmatch, &["function", "size"], None),
        (PErr::SizeMissmatch, &["size"], None),
    ]
}
fn shows(t: &str, x: u8) -> bool {
    t.split(|c: char| !c.is_ascii_alphanumeric()).any(|w| w.parse() == Ok(x as u32) || w.strip_prefix("0x").or(w.strip_prefix("0X")).map_or(false, |h| u32::from_str_radix(h, 16) == Ok(x as u32)))
}
/// data: two byte values: errors carrying them
pub fn error_values(d: &[u8]) -> J {
    let (x, y) = (d[0], d[1]);
    let (a, b) = (all_errors(x), all_errors(y));
    let mut j = J::batch();
    macro_rules! must { ($c:expr, $($m:tt)*) => {{ j.evals += 1; j.nontrivial += 1; if !$c { return J::bad(format!($($m)*)); } }}; }
    for (i, (e, words, id)) in a.iter().enumerate() {
        let t = format!("{}", e);
        let low = t.to_lowercase();
        for w in *words { must!(low.contains(w), "the message {:?} of {:?} does not mention {:?}", t, e, w); }
        if let Some(x) = id { must!(shows(&t, *x), "the message {:?} of {:?} does not show {}", t, e, x); must!(shows(&format!("{:?}", e), *x), "{:?} does not show {}", e, x); }
        for (k, (f, _, fid)) in b.iter().enumerate() {
            let same = i == k && id == fid;
            must!((e == f) == same, "{:?} == {:?} is {}", e, f, e == f);
            must!((e != f) != same, "{:?} != {:?} is {}", e, f, e != f);
            must!((t == format!("{}", f)) == same, "{:?} and {:?} have messages {:?} and {:?}", e, f, t, format!("{}", f));
        }
    }
    let _: &dyn std::error::Error = &a[0].0;
    j
}
/// data: two size-prefixed elements: the wrapper compares and prints as what it holds
pub fn sized_values(d: &[u8]) -> J {
    use whasm::binary::{Sized, WasmBinary, WasmBinaryParseProxy};
    fn one<T: whasm::binary::WasmBinaryParse + PartialEq + std::fmt::Debug>(d: &[u8], n: &mut u64) -> Result<(), String> {
        let it = || d.iter().copied();
        let (mut a, mut b, mut c) = (it(), it(), it());
        let (x, y) = match (a.parse::<Sized<T>>(), a.parse::<Sized<T>>()) { (Ok(x), Ok(y)) => (x, y), _ => return Ok(()) };
        let (u, v) = (b.parse::<Sized<T>>().map_err(|e| e.to_string())?.unwrap(), b.parse::<Sized<T>>().map_err(|e| e.to_string())?.unwrap());
        let x2 = c.parse::<Sized<T>>().map_err(|e| e.to_string())?;
        if (x == v) != (u == v) || (y == u) != (v == u) || (x == u) != (u == u) { return Err(format!("{:?} and {:?}, one of them size-prefixed, do not compare as the values do", u, v)); }
        if (x == y) != (u == v) || (y == x) != (v == u) || (x == x2) != (u == u) { return Err(format!("{:?} and {:?}, both size-prefixed, do not compare as the values do", u, v)); }
        let t = format!("{:?}", x);
        if !t.contains(&format!("{:?}", u)) { return Err(format!("size-prefixed {:?} prints as {}", u, t)); }
        *n += 1;
        Ok(())
    }
    let mut n = 0;
    let r = guard(|| -> Result<(), String> {
        one::<Vec<u8>>(d, &mut n)?;
        one::<u32>(d, &mut n)?;
        one::<i64>(d, &mut n)?;
        one::<String>(d, &mut n)?;
        one::<f32>(d, &mut n)?;
        one::<[whasm::binary::Byte; 3]>(d, &mut n)?;
        one::<Sized<u16>>(d, &mut n)?;
        one::<whasm::structure::ty::Func>(d, &mut n)
    });
    match r { Err(e) => J::bad(e), Ok(Err(e)) => J::bad(e), Ok(Ok(())) => { let mut j = J::ok(n > 0); j.evals = n.max(1); j } }
}
pub fn sized_random(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    let kind = r.below(8);
    let mut last: Vec<u8> = vec![];
    for k in 0..2 {
        let mut e = crate::enc::Enc::plain();
        let mut i = vec![];
        if k == 1 && r.chance(1, 3) { i = last.clone(); } else {
            match kind {
                0 => { let n = r.below(5); e.u(n as u64, &mut i); for _ in 0..n { i.push(r.byte() & 0x7F); } }
                1 => e.u(p.u32(r) as u64, &mut i),
                2 => e.s(p.i64(r), &mut i),
                3 => { let n = p.name(r); e.name(&n, &mut i) }
                4 => i.extend(p.f32(r).to_le_bytes()),
                5 => for _ in 0..3 { i.push(r.byte()) },
                6 => { let mut q = vec![]; e.u(r.below(65536) as u64, &mut q); e.u(q.len() as u64, &mut i); i.extend(q) }
                _ => e.ft(&FT { params: (0..r.below(4)).map(|_| crate::gen::rvt(r)).collect(), results: (0..r.below(2)).map(|_| crate::gen::rvt(r)).collect() }, &mut i),
            }
            if k == 1 && r.chance(1, 3) && !last.is_empty() && i.len() == last.len() { i = last.clone(); let at = i.len() - 1; i[at] ^= 1; }
        }
        e.u(i.len() as u64, &mut o);
        o.extend(&i);
        last = i;
    }
    o
}
