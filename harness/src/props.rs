//! Which workload and which judge decide which property.
use crate::api;
use crate::det;
use crate::mem;
use crate::fam;
use crate::gen::{self, Aim, Cfg};
use crate::heap;
use crate::judge::{asp, module, survives, J};
use crate::pool::Pool;
use crate::rng::Rng;
use crate::work as w;

pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub make: Box<dyn Fn(u64, &mut Rng, &Pool) -> Vec<u8>>,
    pub judge: Box<dyn Fn(&[u8], &Pool) -> J>,
}
fn st(name: &'static str, quick: u64, thorough: u64, make: impl Fn(u64, &mut Rng, &Pool) -> Vec<u8> + 'static, judge: impl Fn(&[u8], &Pool) -> J + 'static) -> Stream {
    Stream { name, quick, thorough, make: Box::new(make), judge: Box::new(judge) }
}
fn seed(r: &mut Rng) -> Vec<u8> { r.u64().to_le_bytes().to_vec() }
fn from(d: &[u8]) -> Rng { let mut b = [0u8; 8]; let n = d.len().min(8); b[..n].copy_from_slice(&d[..n]); Rng::new(u64::from_le_bytes(b)) }

type Mk = fn(&Pool, &mut Rng) -> Vec<u8>;
/// Whole-module stream judged under the given aspects.
fn m(name: &'static str, q: u64, t: u64, mk: Mk, a: u32) -> Stream { st(name, q, t, move |_, r, p| mk(p, r), move |b, _| module(b, a)) }
/// Members of the size families, smallest sizes first; `only`: all, valid or faulty ones.
fn fams(p: &Pool, cap: usize, only: Option<bool>, a: u32) -> Stream {
    let f = fam_make(cap, only);
    let n = fam_count(p, cap, only);
    st("size families", n, n * 4, f, move |b, _| module(b, a))
}
fn fam_sizes(p: &Pool, cap: usize) -> usize { p.sizes.iter().filter(|s| **s <= cap).count() }
fn fam_count(p: &Pool, cap: usize, only: Option<bool>) -> u64 { (fam::NAMES.len() * fam_sizes(p, cap) * if only.is_some() { 1 } else { 2 }) as u64 }
fn fam_make(cap: usize, only: Option<bool>) -> impl Fn(u64, &mut Rng, &Pool) -> Vec<u8> {
    move |idx, r, p| {
        let nf = fam::NAMES.len() as u64;
        let k = (idx % nf) as usize;
        let mut j = idx / nf;
        let bad = match only { Some(b) => b, None => { let b = j % 2 == 1; j /= 2; b } };
        let ns = fam_sizes(p, cap) as u64;
        // beyond one full pass: sizes in between
        let n = if j < ns { p.sizes[j as usize] } else { (r.u64() % (cap as u64 + 1)) as usize };
        fam::build(k, n.min(fam::max(k)), bad, r)
    }
}
/// Sizes beyond the pool, for families that stay cheap.
const HUGE: [usize; 6] = [131_071, 131_073, 262_145, 1_000_001, 1 << 20, (1 << 20) + 1];
const HUGE_FAMS: [&str; 9] = ["data bytes", "custom section bytes", "name length", "nops", "one run of locals", "integer padding", "branch table", "element entries", "params"];
fn huge_count(only: Option<bool>) -> u64 { (HUGE.len() * HUGE_FAMS.len() * if only.is_some() { 1 } else { 2 }) as u64 }
fn huge(only: Option<bool>) -> impl Fn(u64, &mut Rng, &Pool) -> Vec<u8> {
    move |i, r, _| {
        let f = HUGE_FAMS[i as usize % HUGE_FAMS.len()];
        let i = i as usize / HUGE_FAMS.len();
        let k = fam::NAMES.iter().position(|n| *n == f).unwrap();
        fam::build(k, HUGE[i % HUGE.len()], only.unwrap_or(i / HUGE.len() == 1), r)
    }
}
fn any_mix(p: &Pool, r: &mut Rng) -> Vec<u8> { match r.below(6) { 0 => w::valid(p, r), 1 => w::any_fault(p, r), 2 => w::edited(p, r), 3 => w::section_edited(p, r), 4 => w::faulted(p, r), _ => w::soup(p, r) } }
fn rich(p: &Pool, r: &mut Rng) -> Vec<u8> { let m = w::index_rich(p, r); w::dress(p, r, &m) }
fn ctl(_: &Pool, r: &mut Rng) -> Vec<u8> { w::ctl_random(r) }
fn fault_index(p: &Pool, r: &mut Rng) -> Vec<u8> { w::module_fault(p, r, Aim::Index) }
fn fault_const(p: &Pool, r: &mut Rng) -> Vec<u8> { w::module_fault(p, r, Aim::Const) }
fn fault_limits(p: &Pool, r: &mut Rng) -> Vec<u8> { w::module_fault(p, r, Aim::Limits) }

/// All prefixes and all single-byte substitutions of small modules, cut into pieces of one module each.
fn sweeps(q: u64, t: u64, a: u32) -> Vec<Stream> {
    vec![
        st("all substitutions", q, t, |_, r, p| w::small_module(p, r), move |b, _| w::substitutions(b, |x| module(x, a))),
        st("all truncations", q * 20, t * 20, |_, r, p| w::small_module(p, r), move |b, _| w::truncations(b, |x| module(x, a))),
    ]
}
/// Sections or bodies whose declared size is wrong in one place.
fn misframed(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut cfg = Cfg::small();
    cfg.body = 10;
    let m = gen::module(p, r, &cfg);
    let mut e = if r.chance(1, 4) { crate::enc::Enc::padded(r.u64(), 16, 4) } else { crate::enc::Enc::plain() };
    let mut secs = e.sections(&m);
    if r.chance(1, 3) { let at = r.below(secs.len() + 1); let c = w::custom(p, r); secs.insert(at, (0, c)); }
    let delta = |r: &mut Rng, n: usize| -> usize { match r.below(7) { 0 | 1 => n + 1, 2 | 3 => n.saturating_sub(1), 4 => n + r.below(200), 5 => r.below(n + 1), _ => p.u32(r) as usize } };
    let what = r.below(10);
    if what < 4 && !m.funcs.is_empty() {
        let k = r.below(m.funcs.len());
        let mut c = vec![];
        e.u(m.funcs.len() as u64, &mut c);
        for (i, f) in m.funcs.iter().enumerate() {
            let mut x = e.code(f);
            let n = if i == k { match r.below(4) { 0 => { x.push(0x0B); x.len() } 1 => { x.extend([1, 0x0B]); x.len() } _ => delta(r, x.len()) } } else { x.len() };
            e.u(n as u64, &mut c);
            c.extend(x);
        }
        for s in secs.iter_mut() { if s.0 == 10 { s.1 = c.clone(); } }
        return e.assemble(&secs);
    }
    let k = if secs.is_empty() { usize::MAX } else if what < 9 { r.below(secs.len()) } else { usize::MAX };
    let mut o = vec![0, 0x61, 0x73, 0x6D, 1, 0, 0, 0];
    for (i, (id, c)) in secs.iter().enumerate() {
        let mut c = c.clone();
        let mut n = c.len();
        if i == k { if r.chance(1, 3) { for _ in 0..r.range(1, 3) { c.push(r.below(3) as u8); } n = c.len(); } else { n = delta(r, n); } }
        o.push(*id);
        e.u(n as u64, &mut o);
        o.extend(c);
    }
    o
}
/// A module with and without further custom sections: same content, same verdict.
fn transparent(b: &[u8], p: &Pool) -> J {
    let mut r = from(b);
    let base = if r.chance(1, 3) { let m = w::body_fault(p, &mut r); m } else { let m = gen::module(p, &mut r, &w::cfg(&mut Rng::new(1))); crate::enc::encode(&m) };
    let parts = match split(&base) { Some(x) => x, None => return J::ok(false) };
    let plain: Vec<_> = parts.into_iter().filter(|s| s.0 != 0).collect();
    let mut e = crate::enc::Enc::plain();
    let b0 = e.assemble(&plain);
    let o0 = match crate::judge::observe(&b0, true) { Ok(o) => o, Err(e) => return J::bad(e) };
    let mut j = J::batch();
    for _ in 0..4 {
        let mut v = plain.clone();
        for _ in 0..r.range(1, 5) { let at = r.below(v.len() + 1); let c = if r.chance(1, 6) { let mut c = vec![4]; c.extend(b"name"); for _ in 0..r.below(20) { c.push(r.byte()); } c } else { w::custom(p, &mut r) }; v.insert(at, (0, c)); }
        let b1 = e.assemble(&v);
        let x = match crate::judge::observe(&b1, true) {
            Err(e) => J::bad(e),
            Ok(o1) => {
                let same = match (&o0.parsed, &o1.parsed) { (Ok(x), Ok(y)) => x == y, (Err(x), Err(y)) => format!("{:?}", x) == format!("{:?}", y), _ => false };
                let v = |o: &crate::judge::Obs| o.valid.as_ref().map(|v| v.as_ref().ok().cloned());
                if !same { J::bad(format!("adding custom sections changed the parsed module: {} became {}", crate::mon::hex(&b0), crate::mon::hex(&b1))) }
                else if v(&o0) != v(&o1) { J::bad(format!("adding custom sections changed the verdict: {} became {}", crate::mon::hex(&b0), crate::mon::hex(&b1))) }
                else { J::ok(true) }
            }
        };
        j.add("transparency", b, x);
    }
    j
}
fn split(b: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    let mut c = crate::dec::Cur::new(b);
    c.p = 8;
    let mut v = vec![];
    while c.p < b.len() { let id = c.byte().ok()?; let n = c.u32().ok()? as usize; if c.p + n > b.len() { return None; } v.push((id, b[c.p..c.p + n].to_vec())); c.p += n; }
    Some(v)
}
fn modest(b: &[u8]) -> bool { let mut c = crate::dec::Cur::new(b); let _ = c.module(); c.depth <= 500 && c.locals <= MANY }
/// Inputs that declare more locals than this are left to the probes: they are stored one by one.
const MANY: u64 = crate::judge::MANY;
/// C04: ordinary inputs get an ordinary stack, deeply nested ones a large one.
fn survive(b: &[u8]) -> J {
    let mut c = crate::dec::Cur::new(b);
    let _ = c.module();
    if c.locals > MANY { return J::ok(false); }
    let stack = if c.depth <= 1000 { 8 << 20 } else { 900 << 20 };
    let h = std::thread::scope(|s| std::thread::Builder::new().stack_size(stack).spawn_scoped(s, || { let j = survives(b); (j, crate::mon::take_counts()) }).unwrap().join());
    match h { Ok((j, c)) => { for (k, v) in c { crate::mon::count(&k, v); } j } Err(_) => J::bad("the thread died") }
}
/// C06: execution alone; what counts is what the sanitizers say of it
fn execute(b: &[u8]) -> J {
    let mut c = crate::dec::Cur::new(b);
    let _ = c.module();
    // instrumented frames are large; depths beyond this are C04's
    if c.locals > MANY || c.depth > 10_000 { return J::ok(false); }
    let mut j = survives(b);
    if let Some(m) = j.bad.take() { crate::mon::count(&format!("ended in a {}", m.split(" at ").next().unwrap_or("panic")), 1); }
    j
}
/// data: length-prefixed modules
fn bundle(p: &Pool, r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..r.range(2, 6) { let b = any_mix(p, r); o.extend((b.len() as u32).to_le_bytes()); o.extend(b); }
    o
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "a case is an integer width and a byte stream; non-trivial: every stream, since each has one correct outcome (value and bytes consumed, or one error)",
        "C02" => "a case is a byte stream read as a module; non-trivial: every stream, judged well-formed or not by the reference decoder",
        "C03" => "a case is a byte stream; non-trivial: it is well-formed, so its whole content was compared with the reference decoder's",
        "C04" => "a case is a byte stream parsed and validated on a bounded stack; non-trivial: every stream that was executed to its end",
        "C05" => "a case is a byte stream whose heap peak, or a size series whose instruction counts, were measured; non-trivial: every measured one",
        "C06" => "a case is an input executed under Miri or AddressSanitizer to its end; non-trivial: the input made the parser read at least a preamble, or is a float or container read",
        "C07" => "a case is a stream given to one framed or plain reader, or a module with one wrong size; non-trivial: every one whose outcome and position were compared",
        "C08" => "a case is a byte stream; non-trivial: it is well-formed and breaks at least one validation rule according to the reference validator",
        "C09" => "a case is a byte stream; non-trivial: it is a valid module according to the reference validator",
        "C10" => "a case is a module with one index set to a chosen value; non-trivial: it is well-formed, so the verdict was compared",
        "C11" => "a case is a module with one initialiser or offset chosen; non-trivial: it is well-formed, so the verdict was compared",
        "C12" => "a case is a module with one limit, count, alignment, export list, start function or function type chosen; non-trivial: it is well-formed, so the verdict was compared",
        "C13" => "a case is a valid module; non-trivial: it has at least one import or export whose reported type was compared",
        "C14" => "a case is a byte stream run through all iterator kinds, or a history of several; non-trivial: every one whose results were compared",
        "C15" => "a case is one run of the command-line tool on a file; non-trivial: every run whose exit status and output were compared",
        "C16" => "a case is a bit pattern read as a float on its own, truncated, in a list or in instructions; non-trivial: every one compared",
        "C17" => "a case is a byte string read as a name; non-trivial: every one compared",
        "C18" => "a case is a sequence of sections; non-trivial: every one whose acceptance, error or content was compared",
        "C19" => "a case is a module with chosen numbers of declarations, bodies and runs of locals; non-trivial: every one compared",
        "C20" => "a case is one instruction with one operand stack, one result type and one context; non-trivial: it is well-formed, so the verdict was compared",
        "C21" => "a case is a malformed byte stream; non-trivial: its error was compared with the first fault found by the reference decoder",
        "C22" => "a case is a container reader over user-defined elements with a stream; non-trivial: every one whose values, order, calls and drops were compared",
        "C23" => "a case is a sequence of control instructions; non-trivial: it is well-formed, so the verdict was compared",
        "C25" => "a case is a module built in memory, or a parsed module and a chain of edits of it in memory; non-trivial: every one whose verdict and external types were compared",
        "C26" => "a case is a pair of modules; non-trivial: every pair whose comparison and debug texts were compared with those of their content",
        "C27" => "a case is a comparison, conversion or text of one byte, error or size-prefixed value (or a pair); non-trivial: every one",
        _ => "a case is an opcode or tag byte with a continuation; non-trivial: every one whose outcome and position were compared",
    }
}

pub fn streams(prop: &str, p: &Pool) -> Vec<Stream> {
    use asp::*;
    let mut v: Vec<Stream> = match prop {
        "C01" => vec![
            st("short streams", 2048, 2048, |i, _, _| vec![(i % 8) as u8, (i / 8) as u8], |d, _| api::int_short(d)),
            st("tails", 8 * 14 * 3, 8 * 24 * 8, |i, r, _| { let f = [0x80u8, 0xFF]; let k = i / 8; vec![(i % 8) as u8, (k % 24) as u8, if k / 24 < 2 { f[(k / 24) as usize] } else { r.byte() }] }, |d, _| api::int_tail(d)),
            st("int", 4_000_000, 60_000_000, |_, r, p| api::int_random(p, r), |d, _| api::int_case(d)),
        ],
        "C02" => {
            let a = ACC;
            let mut v = sweeps(120, 1500, a);
            v.extend([m("valid", 150_000, 2_000_000, w::valid, a), m("edited", 500_000, 8_000_000, w::edited, a), m("sections edited", 300_000, 4_000_000, w::section_edited, a), m("soup", 300_000, 4_000_000, w::soup, a), m("one fault", 200_000, 3_000_000, w::faulted, a), m("sections", 100_000, 1_000_000, w::section_random, a), m("body faults", 50_000, 500_000, w::body_fault, a)]);
            v.push(st("declared counts", w::HOSTILE, w::HOSTILE, |i, _, p| w::hostile(i, p), move |b, _| module(b, a)));
            v.push(fams(p, 70_000, None, a));
            v
        }
        "C03" => vec![m("valid", 600_000, 8_000_000, w::valid, CONTENT), m("body faults", 200_000, 2_000_000, w::body_fault, CONTENT), m("module faults", 200_000, 2_000_000, w::any_fault, CONTENT), m("edited", 200_000, 4_000_000, w::edited, CONTENT), m("locals", 20_000, 200_000, w::locals, CONTENT), fams(p, 70_000, None, CONTENT)],
        "C04" => vec![
            st("soup", 150_000, 3_000_000, |_, r, p| w::soup(p, r), |b, _| survive(b)),
            st("edited", 250_000, 6_000_000, |_, r, p| w::edited(p, r), |b, _| survive(b)),
            st("sections edited", 150_000, 3_000_000, |_, r, p| w::section_edited(p, r), |b, _| survive(b)),
            st("valid", 60_000, 1_000_000, |_, r, p| w::valid(p, r), |b, _| survive(b)),
            st("faults", 150_000, 3_000_000, |_, r, p| w::any_fault(p, r), |b, _| survive(b)),
            st("control", 100_000, 2_000_000, |_, r, _| w::ctl_random(r), |b, _| survive(b)),
            st("locals", 20_000, 200_000, |_, r, p| w::locals(p, r), |b, _| survive(b)),
            st("declared counts", w::HOSTILE, w::HOSTILE, |i, _, p| w::hostile(i, p), |b, _| survive(b)),
            st("size families", fam_count(p, 70_000, None), 4 * fam_count(p, 70_000, None), fam_make(70_000, None), |b, _| survive(b)),
            st("substitutions", 40, 600, |_, r, p| w::small_module(p, r), |b, _| w::substitutions(b, |x| if modest(x) { survives(x) } else { J::ok(false) })),
        ],
        "C05" => vec![
            st("soup", 50_000, 800_000, |_, r, p| w::soup(p, r), |b, _| heap::judge(b)),
            st("edited", 150_000, 2_000_000, |_, r, p| w::edited(p, r), |b, _| heap::judge(b)),
            st("sections edited", 100_000, 1_000_000, |_, r, p| w::section_edited(p, r), |b, _| heap::judge(b)),
            st("valid", 50_000, 800_000, |_, r, p| w::valid(p, r), |b, _| heap::judge(b)),
            st("misframed", 50_000, 800_000, |_, r, p| misframed(p, r), |b, _| heap::judge(b)),
            st("declared counts", w::HOSTILE, w::HOSTILE, |i, _, p| w::hostile(i, p), |b, _| heap::judge(b)),
            st("size families", fam_count(p, 70_000, None), 4 * fam_count(p, 70_000, None), fam_make(70_000, None), |b, _| heap::judge(b)),
            st("truncated families", fam_count(p, 5_000, None), 4 * fam_count(p, 5_000, None), |i, r, p| { let mut b = fam_make(5_000, None)(i, r, p); let k = r.below(b.len() + 1); b.truncate(k); b }, |b, _| heap::judge(b)),
        ],
        "C06" => vec![
            st("faults", 150_000, 3_000_000, |_, r, p| w::any_fault(p, r), |b, _| execute(b)),
            st("edited", 100_000, 3_000_000, |_, r, p| w::edited(p, r), |b, _| execute(b)),
            st("sections edited", 50_000, 1_000_000, |_, r, p| w::section_edited(p, r), |b, _| execute(b)),
            st("soup", 50_000, 1_000_000, |_, r, p| w::soup(p, r), |b, _| execute(b)),
            st("control", 80_000, 2_000_000, |_, r, _| w::ctl_random(r), |b, _| execute(b)),
            st("valid", 50_000, 1_000_000, |_, r, p| w::valid(p, r), |b, _| execute(b)),
            st("declared counts", w::HOSTILE, w::HOSTILE, |i, _, p| w::hostile(i, p), |b, _| execute(b)),
            st("size families", fam_count(p, 70_000, None), 4 * fam_count(p, 70_000, None), fam_make(70_000, None), |b, _| execute(b)),
            st("index sweeps", 100, 3_000, |_, r, _| seed(r), |d, p| { let mut r = from(d); let m = w::index_rich(p, &mut r); w::index_sweep(p, &mut r, &m, |b| execute(b)) }),
            st("readers", 200_000, 4_000_000, |i, r, p| { let k = i as usize % api::n_elems(); api::element_random(p, r, k) }, |d, _| { let mut j = api::element(d); j.bad = None; j }),
            st("containers", 100_000, 3_000_000, |_, r, p| api::container_random(p, r), |d, _| { let mut j = api::container(d); j.bad = None; j }),
            st("names", 50_000, 1_000_000, |_, r, p| api::name_random(p, r), |d, _| { let mut j = api::name(d); j.bad = None; j.replay = None; j }),
        ],
        "C07" => {
            let n = api::n_elems() as u64;
            vec![
                st("element", 1_500_000, 30_000_000, move |i, r, p| api::element_random(p, r, (i % n) as usize), |d, _| api::element(d)),
                st("sequences", 200_000, 4_000_000, |_, r, p| api::sequence_random(p, r), |d, _| api::sequence(d)),
                m("misframed", 300_000, 5_000_000, misframed, ACC | ERR),
                m("sections edited", 100_000, 2_000_000, w::section_edited, ACC | ERR),
                st("all truncations", 1500, 20_000, |_, r, p| w::small_module(p, r), |b, _| w::truncations(b, |x| module(x, ACC | ERR))),
                st("cut elements", 20_000, 400_000, move |i, r, p| api::element_random(p, r, (i % n) as usize), |d, _| { let mut j = J::batch(); for k in 1..=d.len() { let x = api::element(&d[..k]); j.add("element", &d[..k], x); if j.bad.is_some() { break; } } j }),
                fams(p, 5000, None, ACC | ERR),
            ]
        }
        "C08" => vec![m("body faults", 400_000, 6_000_000, w::body_fault, SOUND), m("index faults", 150_000, 2_000_000, fault_index, SOUND), m("constant faults", 100_000, 1_500_000, fault_const, SOUND), m("limit faults", 100_000, 1_500_000, fault_limits, SOUND), m("control", 300_000, 5_000_000, ctl, SOUND), m("dead code", 200_000, 3_000_000, w::dead_random, SOUND), m("edited", 200_000, 4_000_000, w::edited, SOUND), m("exports", 4_000, 60_000, w::exports, SOUND), m("imports and indices", 30_000, 500_000, rich, SOUND), fams(p, 70_000, Some(true), SOUND)],
        "C09" => vec![m("valid", 700_000, 10_000_000, w::valid, COMPLETE), m("control", 300_000, 5_000_000, ctl, COMPLETE), m("dead code", 200_000, 3_000_000, w::dead_random, COMPLETE), m("body faults", 100_000, 2_000_000, w::body_fault, COMPLETE), m("index faults", 60_000, 1_000_000, fault_index, COMPLETE), m("constant faults", 60_000, 1_000_000, fault_const, COMPLETE), m("limit faults", 60_000, 1_000_000, fault_limits, COMPLETE), m("imports and indices", 60_000, 1_000_000, rich, COMPLETE), m("exports", 4_000, 60_000, w::exports, COMPLETE), m("locals", 10_000, 100_000, w::locals, COMPLETE), fams(p, 70_000, Some(false), COMPLETE)],
        "C10" => vec![
            st("sweep", 900, 15_000, |_, r, _| seed(r), |d, p| { let mut r = from(d); let m = w::index_rich(p, &mut r); w::index_sweep(p, &mut r, &m, |b| module(b, BOTH | EXT)) }),
            st("sweep of ordinary modules", 900, 15_000, |_, r, _| seed(r), |d, p| { let mut r = from(d); let m = gen::module(p, &mut r, &Cfg::small()); w::index_sweep(p, &mut r, &m, |b| module(b, BOTH | EXT)) }),
            m("index faults", 200_000, 4_000_000, fault_index, BOTH | EXT),
            m("imports and indices", 60_000, 1_000_000, rich, BOTH | EXT),
            m("locals", 10_000, 200_000, w::locals, BOTH | EXT),
            fams(p, 70_000, None, BOTH | EXT),
        ],
        "C11" => {
            let n = w::const_tokens().len() as u64;
            vec![
                st("matrix", 6 * n, 6 * n, move |i, _, _| vec![(i % 6) as u8, (i / 6) as u8], |d, _| w::const_matrix(d[0] as usize, d[1] as usize, |b| module(b, BOTH))),
                m("constant faults", 300_000, 5_000_000, fault_const, BOTH),
                m("valid", 100_000, 1_000_000, w::valid, BOTH),
                m("imports and indices", 60_000, 1_000_000, rich, BOTH),
                fams(p, 20_000, None, BOTH),
            ]
        }
        "C12" => {
            let l = w::limit_values(p);
            let n = l.len() as u64;
            vec![
                st("limits", n, n, move |i, _, _| l[i as usize].to_le_bytes().to_vec(), |d, p| w::limits_batch(p, u32::from_le_bytes([d[0], d[1], d[2], d[3]]), |b| module(b, BOTH))),
                st("alignments", 23, 23, |i, _, _| vec![0x28 + i as u8], |d, p| w::align_batch(p, d[0], |b| module(b, BOTH))),
                st("counts", 1, 1, |_, _, _| vec![], |_, _| w::counts_batch(|b| module(b, BOTH))),
                st("start and function types", 1, 1, |_, _, _| vec![], |_, _| w::start_batch(|b| module(b, BOTH))),
                m("exports", 20_000, 300_000, w::exports, BOTH),
                m("limit faults", 200_000, 4_000_000, fault_limits, BOTH),
                m("valid", 100_000, 1_000_000, w::valid, BOTH),
                m("imports and indices", 60_000, 1_000_000, rich, BOTH),
                fams(p, 70_000, None, BOTH),
            ]
        }
        "C13" => vec![m("valid", 400_000, 6_000_000, w::valid, EXT), m("imports and indices", 300_000, 5_000_000, rich, EXT), m("exports", 10_000, 200_000, w::exports, EXT), m("index faults", 100_000, 2_000_000, fault_index, EXT), m("limit faults", 50_000, 1_000_000, fault_limits, EXT), fams(p, 70_000, Some(false), EXT)],
        "C14" => vec![
            st("mixed", 60_000, 1_000_000, |_, r, p| any_mix(p, r), |b, _| det::judge(b)),
            st("valid", 20_000, 300_000, |_, r, p| w::valid(p, r), |b, _| det::judge(b)),
            st("control", 10_000, 200_000, |_, r, _| w::ctl_random(r), |b, _| det::judge(b)),
            st("histories", 3_000, 60_000, |_, r, p| bundle(p, r), |d, _| det::history(d)),
            st("size families", fam_count(p, 3_000, None), 2 * fam_count(p, 3_000, None), fam_make(3_000, None), |b, _| det::judge(b)),
        ],
        "C16" => vec![
            st("sweep of f32", 256, 256 * 16, |i, r, _| { let mut v = vec![(i % 256) as u8]; v.extend(1021u32.to_le_bytes()); v.extend(r.u32().to_le_bytes()); v }, |d, _| api::float_sweep(d)),
            st("float", 150_000, 3_000_000, |_, r, p| api::float_random(p, r), |d, _| api::float(d)),
            st("all f32", 0, 256, |i, _, _| { let mut v = vec![i as u8]; v.extend(1u32.to_le_bytes()); v.extend(0u32.to_le_bytes()); v }, |d, _| api::float_sweep(d)),
        ],
        "C17" => {
            let sizes: Vec<usize> = p.sizes.clone();
            let n = sizes.len() as u64;
            vec![
                st("short strings", 256, 256, |i, _, _| vec![i as u8], |d, _| api::name_short(d)),
                st("name", 300_000, 5_000_000, |_, r, p| api::name_random(p, r), |d, _| api::name(d)),
                st("name long", 3 * n, 30 * n, move |i, r, _| { let k = sizes[(i % n) as usize] as u32; let mut v = k.to_le_bytes().to_vec(); let pos = match i / n { 0 => k.saturating_sub(1), 1 => k.saturating_sub(3), _ => r.u32() }; v.extend(pos.to_le_bytes()); v }, |d, _| api::name_long(d)),
            ]
        }
        "C18" => {
            let a = ACC | CONTENT | ERR;
            vec![
                st("short sequences", 14, 14, |i, _, _| vec![i as u8], move |d, _| w::section_seqs(d[0], |b| module(b, a))),
                st("unknown numbers", 244, 244, |i, _, _| { let mut o = vec![0, 0x61, 0x73, 0x6D, 1, 0, 0, 0]; let id = 12 + i as u8; o.extend([0, 1, 0, id, 1, 0]); o }, move |b, _| { let mut j = J::batch(); let mut c = b.to_vec(); j.add("m", &c, module(&c, a)); c.drain(8..11); j.add("m", &c, module(&c, a)); c.extend([1, 1, 0]); j.add("m", &c, module(&c, a)); let id = c[8]; let c = [&b[..8], &[11, 1, 0, id, 1, 0][..]].concat(); j.add("m", &c, module(&c, a)); j }),
                m("sections", 400_000, 6_000_000, w::section_random, a),
                st("transparency", 60_000, 1_000_000, |_, r, _| seed(r), |d, p| transparent(d, p)),
                m("sections edited", 100_000, 2_000_000, w::section_edited, a),
                fams(p, 20_000, None, a),
            ]
        }
        "C19" => {
            let s: Vec<usize> = p.sizes.iter().copied().filter(|x| *x <= 6000).collect();
            let n = s.len() as u64;
            vec![
                st("numbers", 20 * 20 * 2, 20 * 20 * 2, |i, _, _| w::pairing(dec((i % 20) as usize), dec(((i / 20) % 20) as usize), i >= 400), |b, _| module(b, ACC | CONTENT)),
                st("larger numbers", n * 5, n * 5, move |i, _, _| { let k = s[(i % n) as usize]; match i / n { 0 => w::pairing(Some(k), Some(k), true), 1 => w::pairing(Some(k), Some(k + 1), true), 2 => w::pairing(Some(k + 1), Some(k), true), 3 => w::pairing(Some(k), None, true), _ => w::pairing(None, Some(k), true) } }, |b, _| module(b, ACC | CONTENT)),
                m("locals", 150_000, 2_000_000, w::locals, ACC | CONTENT),
                m("valid", 100_000, 2_000_000, w::valid, ACC | CONTENT),
                fams(p, 70_000, None, ACC | CONTENT),
            ]
        }
        "C20" => {
            let n = w::matrix_ops().len() as u64;
            let d = w::dead_tokens().len() as u64;
            vec![
                st("matrix", n, n * 2, move |i, _, _| vec![(i % n) as u8, ((i % n) >> 8) as u8, if i < n { 3 } else { 4 }], |d, _| { let ops = w::matrix_ops(); w::matrix(&ops[d[0] as usize + 256 * d[1] as usize], d[2] as usize, |b| module(b, BOTH)) }),
                st("dead code", d * d * 5, d * d * 5, move |i, _, _| vec![(i % d) as u8, (i / d % d) as u8, (i / d / d) as u8], |d, _| w::dead(d[0] as usize, d[1] as usize, d[2] as usize, |b| module(b, BOTH))),
                m("longer dead code", 300_000, 6_000_000, w::dead_random, BOTH),
                m("body faults", 200_000, 4_000_000, w::body_fault, BOTH),
                m("valid", 100_000, 2_000_000, w::valid, BOTH),
                fams(p, 20_000, None, BOTH),
            ]
        }
        "C21" => {
            let a = ERR;
            let mut v = sweeps(120, 1500, a);
            v.extend([m("one fault", 500_000, 8_000_000, w::faulted, a), m("sections", 150_000, 2_000_000, w::section_random, a), m("edited", 300_000, 5_000_000, w::edited, a), m("misframed", 200_000, 3_000_000, misframed, a), m("soup", 100_000, 2_000_000, w::soup, a)]);
            v.push(st("declared counts", w::HOSTILE, w::HOSTILE, |i, _, p| w::hostile(i, p), move |b, _| module(b, a)));
            v.push(st("truncated families", fam_count(p, 20_000, None), 4 * fam_count(p, 20_000, None), |i, r, p| { let mut b = fam_make(20_000, None)(i, r, p); let k = r.below(b.len() + 1); b.truncate(k); b }, move |b, _| module(b, a)));
            v
        }
        "C22" => vec![
            st("container", 1_500_000, 30_000_000, |_, r, p| api::container_random(p, r), |d, _| api::container(d)),
            st("cut containers", 30_000, 500_000, |_, r, p| api::container_random(p, r), |d, _| { let mut j = J::batch(); if d.len() > 300 { return j; } for k in 1..=d.len() { let x = api::container(&d[..k]); j.add("container", &d[..k], x); if j.bad.is_some() { break; } } j }),
            st("failing elements", 10_000, 200_000, |_, r, p| api::container_random(p, r), |d, _| { let mut j = J::batch(); if d.len() > 120 { return j; } let mut c = d.to_vec(); for k in 1..d.len() { for v in [0xEE, 0xDD] { let o = c[k]; c[k] = v; let x = api::container(&c); j.add("container", &c, x); c[k] = o; } } j }),
        ],
        "C23" => {
            let n = w::CTL_CORE as u64;
            vec![
                st("short sequences", n * n * 3, n * n * 3, move |i, _, _| vec![(i % n) as u8, (i / n % n) as u8, (i / n / n) as u8, 4], |d, _| w::ctl_exhaustive(d[0] as usize, d[1] as usize, d[3] as usize, d[2] as u32, |b| module(b, BOTH))),
                st("sequences of five", 60, n * n * 3, move |i, r, _| { let k = if i < 60 { r.u64() % (n * n * 3) } else { i }; vec![(k % n) as u8, (k / n % n) as u8, (k / n / n) as u8, 5] }, |d, _| w::ctl_exhaustive(d[0] as usize, d[1] as usize, d[3] as usize, d[2] as u32, |b| module(b, BOTH))),
                m("control", 1_500_000, 30_000_000, ctl, BOTH),
                m("dead code", 300_000, 5_000_000, w::dead_random, BOTH),
                m("valid", 100_000, 2_000_000, w::valid, BOTH),
                m("body faults", 200_000, 4_000_000, w::body_fault, BOTH),
                fams(p, 70_000, None, BOTH),
            ]
        }
        "C24" => {
            let n = api::n_elems() as u64;
            vec![
                st("opcodes", 256, 256, |i, _, _| vec![i as u8], |d, _| api::opcode(d)),
                st("tag bytes", 60_000, 1_000_000, move |i, r, p| { let k = i % n; let b = api::element_random(p, r, k as usize); let at = if b.len() > 1 { r.below((b.len() - 1).min(40)) } else { 0 }; let mut v = vec![k as u8, at as u8]; v.extend(&b[1..b.len().min(80)]); v }, |d, _| api::tag_sweep(d)),
                st("element", 500_000, 10_000_000, move |i, r, p| api::element_random(p, r, (i % n) as usize), |d, _| api::element(d)),
                st("all substitutions", 60, 1000, |_, r, p| w::small_module(p, r), |b, _| w::substitutions(b, |x| module(x, ACC | CONTENT | ERR))),
            ]
        }
        "C25" => vec![
            st("built valid", 200_000, 3_000_000, |_, r, p| w::valid(p, r), |b, _| mem::built(b)),
            st("built with faults", 300_000, 5_000_000, |_, r, p| w::any_fault(p, r), |b, _| mem::built(b)),
            st("built control", 200_000, 3_000_000, |_, r, _| w::ctl_random(r), |b, _| mem::built(b)),
            st("built imports and indices", 60_000, 1_000_000, |_, r, p| rich(p, r), |b, _| mem::built(b)),
            st("built exports", 5_000, 60_000, |_, r, p| w::exports(p, r), |b, _| mem::built(b)),
            st("built stretched", 40_000, 800_000, |_, r, p| w::stretched_any(p, r), |b, _| mem::built(b)),
            st("built families", fam_count(p, 70_000, None), fam_count(p, 70_000, None), fam_make(70_000, None), |b, _| mem::built(b)),
            st("edits", 200_000, 4_000_000, |_, r, p| mem::chain(p, r, false), |d, _| mem::edits(d)),
        ],
        "C26" => vec![
            st("instructions", 1, 1, |_, _, _| vec![], |_, _| mem::instructions()),
            st("variants", 40_000, 800_000, |_, r, p| mem::chain(p, r, true), |d, _| mem::equality(d)),
            st("families", fam_count(p, 1_100, None), fam_count(p, 1_100, None), |i, r, p| { let a = fam_make(1_100, None)(i, r, p); let mut b = a.clone(); if r.chance(2, 3) { w::edit(p, r, &mut b); } mem::bundle(&[a, b]) }, |d, _| mem::equality(d)),
            st("tails", fam_count(p, 5_000, Some(false)), 4 * fam_count(p, 5_000, Some(false)), |i, r, p| { let a = fam_make(5_000, Some(false))(i, r, p); mem::tails(&a, r) }, |d, _| mem::equality(d)),
            st("edited", 20_000, 400_000, |_, r, p| { let a = w::valid(p, r); let mut b = a.clone(); w::edit(p, r, &mut b); mem::bundle(&[a, b]) }, |d, _| mem::equality(d)),
            st("stretched", 4_000, 80_000, |_, r, p| { let a = w::stretched_any(p, r); let mut b = a.clone(); w::edit(p, r, &mut b); mem::bundle(&[a, b]) }, |d, _| mem::equality(d)),
        ],
        "C27" => vec![
            st("bytes", 256, 256, |i, _, _| vec![i as u8], |d, _| mem::byte_values(d)),
            st("errors", 65536, 65536, |i, _, _| vec![i as u8, (i >> 8) as u8], |d, _| mem::error_values(d)),
            st("size-prefixed", 200_000, 3_000_000, |_, r, p| mem::sized_random(p, r), |d, _| mem::sized_values(d)),
        ],
        _ => vec![],
    };
    // inner cases of batches, for replaying
    let a = match prop { "C02" => ACC, "C03" => CONTENT, "C08" => SOUND, "C09" => COMPLETE, "C10" => BOTH | EXT, "C13" => EXT, "C07" => ACC | ERR, "C11" | "C12" | "C20" | "C23" => BOTH, "C18" | "C24" => ACC | CONTENT | ERR, "C19" => ACC | CONTENT, "C21" => ERR, _ => 0 };
    let (mk, only): (Mk, Option<bool>) = match prop { "C09" | "C13" => (w::stretched, Some(false)), "C08" => (w::stretched_fault, Some(true)), _ => (w::stretched_any, None) };
    let (q, t) = (40_000, 800_000);
    if a != 0 {
        v.push(m("stretched", q, t, mk, a));
        v.push(st("huge", huge_count(only), huge_count(only), huge(only), move |b, _| module(b, a)));
    }
    match prop {
        "C04" => {
            v.push(st("stretched", q, t, move |_, r, p| mk(p, r), |b, _| survive(b)));
            v.push(st("huge", huge_count(only), huge_count(only), huge(only), |b, _| survive(b)));
        }
        "C05" => {
            v.push(st("stretched", q, t, move |_, r, p| mk(p, r), |b, _| heap::judge(b)));
            v.push(st("huge", huge_count(only), huge_count(only), huge(only), |b, _| heap::judge(b)));
        }
        "C06" => v.push(st("stretched", q / 2, t, move |_, r, p| mk(p, r), |b, _| execute(b))),
        "C14" => v.push(st("stretched", q / 8, t / 8, move |_, r, p| mk(p, r), |b, _| det::judge(b))),
        _ => {}
    }
    if a != 0 { v.push(st("m", 0, 0, |_, _, _| vec![], move |b, _| module(b, a))); }
    else if prop == "C06" { v.push(st("m", 0, 0, |_, _, _| vec![], |b, _| execute(b))); }
    else if prop == "C04" { v.push(st("m", 0, 0, |_, _, _| vec![], |b, _| survive(b))); }
    if prop == "C24" || prop == "C07" { if !v.iter().any(|s| s.name == "element") { v.push(st("element", 0, 0, |_, _, _| vec![], |b, _| api::element(b))); } }
    v
}
/// 0: no section; otherwise the number of entries, larger towards the end
fn dec(k: usize) -> Option<usize> { if k == 0 { None } else { Some([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 100][k]) } }
