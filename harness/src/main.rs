//! Worker commands; the supervisor is ../check.py.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};
use wh::mon::{self, fnv, hex, unhex};
use wh::pool::Pool;
use wh::props;
use wh::rng::Rng;

#[global_allocator]
static A: mon::Track = mon::Track;

fn pool() -> Pool { let r = std::env::var("WH_REPO").unwrap_or("/repo".into()); Pool::build(Some(&r)) }
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 || (c as u32) > 0x7e => for u in c.encode_utf16(&mut [0; 2]) { o.push_str(&format!("\\u{:04x}", u)) }, c => o.push(c) } }
    o.push('"');
    o
}
fn rng(seed: u64, stream: &str, idx: u64) -> Rng { Rng::new(fnv(format!("{}/{}/{}", seed, stream, idx).as_bytes())) }

/// worker PROP SEED TIER SHARD OF NTH fwd|rev CAP_S OUT: run every NTH case of this shard.
fn worker(a: &[String]) {
    let (prop, seed, tier) = (a[0].as_str(), a[1].parse::<u64>().unwrap(), a[2].as_str());
    let (shard, of, nth): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let rev = a[6] == "rev";
    let cap = Duration::from_secs_f64(a[7].parse().unwrap());
    let out = &a[8];
    let p = pool();
    let ss = props::streams(prop, &p);
    let cur = std::fs::File::create(format!("{}.cur", out)).unwrap();
    let mut hashes = std::io::BufWriter::new(std::fs::File::create(format!("{}.hash", out)).unwrap());
    let mut notes = std::io::BufWriter::new(std::fs::File::create(format!("{}.note", out)).unwrap());
    let mut res = std::fs::File::create(format!("{}.out", out)).unwrap();
    let start = Instant::now();
    let (mut evals, mut cases, mut bad) = (0u64, 0u64, 0);
    let mut ratio = 0f64;
    let mut done: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut capped = false;
    let steps = 500u64;
    // the k-th case of this shard in a stream of n cases is number shard + k*of*nth
    'all: for step in 0..steps {
        let step = if rev { steps - 1 - step } else { step };
        for (si, s) in ss.iter().enumerate() {
            let n = if tier == "thorough" { s.thorough } else { s.quick };
            let stride = of * nth;
            let mine = if n > shard { (n - shard + stride - 1) / stride } else { 0 };
            let (lo, hi) = (mine * step / steps, mine * (step + 1) / steps);
            for k in lo..hi {
                let k = if rev { lo + hi - 1 - k } else { k };
                let idx = shard + k * stride;
                if start.elapsed() > cap { capped = true; break 'all; }
                let mut rec = [0u8; 16];
                rec[..8].copy_from_slice(&(si as u64).to_le_bytes());
                rec[8..].copy_from_slice(&idx.to_le_bytes());
                let _ = cur.write_at(&rec, 0);
                let mut r = rng(seed, s.name, idx);
                let data = (s.make)(idx, &mut r, &p);
                let j = (s.judge)(&data, &p);
                evals += j.evals;
                cases += 1;
                if j.ratio > ratio { ratio = j.ratio; }
                let d = done.entry(s.name).or_default();
                d.0 += 1;
                d.1 += j.evals;
                if j.nontrivial > 0 {
                    let h = fnv(s.name.as_bytes()).rotate_left(17) ^ fnv(&data);
                    let _ = hashes.write_all(&h.to_le_bytes());
                    let _ = hashes.write_all(&j.nontrivial.to_le_bytes());
                    if d.0 == 1 { let mut h = hex(&data); if h.len() > 160 { h.truncate(157); h.push_str("..."); } samples.push(format!("{{\"stream\":{},\"index\":{},\"bytes\":{},\"evaluations\":{}}}", esc(s.name), idx, esc(&h), j.evals)); }
                }
                if let Some(x) = &j.note { let _ = writeln!(notes, "{}/{} {}", si, idx, x); }
                if let Some(b) = j.bad {
                    let (st, da) = j.replay.unwrap_or((s.name, data));
                    let _ = writeln!(res, "{{\"violation\":{},\"stream\":{},\"data\":\"{}\"}}", esc(&b), esc(st), hex(&da));
                    bad += 1;
                    if bad >= 2 { break 'all; }
                }
            }
        }
    }
    let _ = hashes.flush();
    let _ = notes.flush();
    let per: Vec<String> = done.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, v.1)).collect();
    let counts: Vec<String> = mon::take_counts().iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = writeln!(res, "{{\"done\":true,\"capped\":{},\"evals\":{},\"cases\":{},\"ratio\":{:.2},\"streams\":{{{}}},\"counts\":{{{}}},\"samples\":[{}],\"harvested\":{},\"sizes\":{}}}", capped, evals, cases, ratio, per.join(","), counts.join(","), samples.join(","), p.harvested, p.sizes.len());
}

fn read_case(f: &str) -> (String, String, Vec<u8>) {
    let t = std::fs::read_to_string(f).expect("replay file");
    let mut l = t.lines();
    let head = l.next().unwrap_or("");
    let (p, s) = head.split_once(' ').expect("header");
    (p.to_string(), s.to_string(), unhex(l.next().unwrap_or("")).expect("hex"))
}
/// judge FILE: 0 held, 1 violated
fn judge(a: &[String]) -> i32 {
    let (p, s, d) = read_case(&a[0]);
    let pool = pool();
    let ss = props::streams(&p, &pool);
    let st = ss.iter().find(|x| x.name == s).expect("stream");
    match (st.judge)(&d, &pool).bad { Some(b) => { println!("violated: {}", b); 1 } None => { println!("held"); 0 } }
}
/// gen PROP SEED STREAM_NUMBER IDX FILE
fn gen(a: &[String]) {
    let pool = pool();
    let ss = props::streams(&a[0], &pool);
    let s = &ss[a[2].parse::<usize>().unwrap()];
    let idx: u64 = a[3].parse().unwrap();
    let d = (s.make)(idx, &mut rng(a[1].parse().unwrap(), s.name, idx), &pool);
    std::fs::write(&a[4], format!("{} {}\n{}\n", a[0], s.name, hex(&d))).unwrap();
}
/// distinct FILES: number of distinct non-trivial cases
fn distinct(a: &[String]) {
    let mut v: Vec<(u64, u64)> = vec![];
    for f in a {
        let mut b = vec![];
        if let Ok(mut f) = std::fs::File::open(f) { let _ = f.read_to_end(&mut b); }
        for c in b.chunks_exact(16) { v.push((u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap()))); }
    }
    v.sort_unstable();
    let mut n = 0;
    let mut i = 0;
    while i < v.len() { let mut j = i; while j < v.len() && v[j].0 == v[i].0 { j += 1; } n += v[j - 1].1; i = j; }
    println!("{}", n);
}
/// corpus SEED N DIR: small inputs and, per input, what the oracle says of it
fn corpus(a: &[String]) {
    let (seed, n, dir) = (a[0].parse::<u64>().unwrap(), a[1].parse::<u64>().unwrap(), &a[2]);
    let p = pool();
    let mut list = String::new();
    for i in 0..n {
        let mut r = rng(seed, "corpus", i);
        let b = match i % 12 {
            0..=2 => wh::work::valid(&p, &mut r),
            3 => wh::work::any_fault(&p, &mut r),
            4 => wh::work::edited(&p, &mut r),
            5 => wh::work::section_edited(&p, &mut r),
            6 => wh::work::body_fault(&p, &mut r),
            7 => wh::work::faulted(&p, &mut r),
            8 => { let m = wh::work::index_rich(&p, &mut r); wh::work::dress(&p, &mut r, &m) }
            9 => { let k = r.below(wh::fam::NAMES.len()); let n = *r.pick(&p.sizes); let cap = a.get(3).map_or(200, |x| x.parse().unwrap()); wh::fam::build(k, n.min(cap), r.chance(1, 3), &mut r) }
            10 => wh::work::ctl_random(&mut r),
            _ => wh::work::soup(&p, &mut r),
        };
        let mut c = wh::dec::Cur::new(&b);
        let v = match c.module() { Err(d) => format!("malformed {:?}", d), Ok(m) => match wh::val::validate(&m) { Ok(_) => "valid".into(), Err(e) => format!("invalid {}", e) } };
        std::fs::write(format!("{}/{}.wasm", dir, i), &b).unwrap();
        list.push_str(&format!("{}\t{}\t{}\t{}\n", i, c.depth, c.locals, v.replace('\n', " ")));
    }
    std::fs::write(format!("{}/list", dir), list).unwrap();
}
/// mini SEED N DIR: small inputs for slow execution under Miri, the most varied first
fn mini(a: &[String]) {
    let (seed, n, dir) = (a[0].parse::<u64>().unwrap(), a[1].parse::<u64>().unwrap(), &a[2]);
    let p = pool();
    let ops = wh::work::matrix_ops();
    let chunk = 12;
    let nops = (ops.len() as u64 + chunk - 1) / chunk;
    let nf = wh::fam::NAMES.len() as u64;
    for i in 0..n {
        let mut r = rng(seed, "mini", i);
        let b = if i < nops {
            // every instruction, each in code that accepts any operands
            let mut m = wh::work::matrix_base();
            let mut body = vec![];
            for o in ops.iter().skip((i * chunk) as usize).take(chunk as usize) { body.push(wh::rast::RI::op(0)); body.push(o.clone()); }
            body.push(wh::rast::RI::op(0));
            body.push(wh::rast::RI::end());
            m.funcs.push(wh::rast::RFunc { ty: 0, locals: vec![(1, wh::rast::VT::I32), (2, wh::rast::VT::I64), (1, wh::rast::VT::F32), (1, wh::rast::VT::F64), (1, wh::rast::VT::I32), (1, wh::rast::VT::F32)], body });
            wh::enc::encode(&m)
        } else if i < nops + 2 * nf {
            let k = ((i - nops) % nf) as usize;
            let n = [3, 9, 17, 33][r.below(4)];
            wh::fam::build(k, n, i >= nops + nf, &mut r)
        } else {
            loop {
                let b = match i % 10 {
                    0 => wh::work::small_module(&p, &mut r),
                    1 | 2 => wh::work::any_fault(&p, &mut r),
                    3 => wh::work::edited(&p, &mut r),
                    4 => wh::work::section_edited(&p, &mut r),
                    5 => wh::work::body_fault(&p, &mut r),
                    6 => wh::work::faulted(&p, &mut r),
                    7 => wh::work::ctl_random(&mut r),
                    8 => wh::work::soup(&p, &mut r),
                    _ => { let k = r.below(nf as usize); let n = *r.pick(&p.sizes); wh::fam::build(k, n.min(130), r.chance(1, 2), &mut r) }
                };
                if b.len() <= if i % 10 == 9 { 1200 } else { 150 } { break b; }
            }
        };
        std::fs::write(format!("{}/{}.wasm", dir, i), &b).unwrap();
    }
}
/// debug FILE: what the library makes of it
/// debug: the library's rendering of the module on the standard input
fn debug() {
    let mut b = vec![];
    std::io::Read::read_to_end(&mut std::io::stdin(), &mut b).unwrap();
    match wh::imp::parse(&b) { Ok(m) => { println!("{:#?}", m); } Err(e) => println!("error {:?}", e) }
}
/// shown LIST: pairs of a module's file and a text that should show all of it
fn shown(a: &[String]) {
    use std::os::unix::ffi::OsStrExt;
    let list = std::fs::read(&a[0]).unwrap();
    let names: Vec<&[u8]> = list.split(|b| *b == 0).collect();
    for c in names.chunks_exact(2) {
        let read = |n: &[u8]| std::fs::read(std::ffi::OsStr::from_bytes(n)).unwrap();
        let text = String::from_utf8_lossy(&read(c[1])).into_owned();
        match wh::dec::decode(&read(c[0])) {
            Ok(m) => match wh::mem::lacking(&m, &text) { Some(e) => println!("{}", e.replace('\n', " ")), None => println!("complete") },
            Err(_) => println!("complete"),
        }
    }
}
fn oracle(a: &[String]) {
    for f in a {
        let b = std::fs::read(f).unwrap();
        let v = match wh::dec::decode(&b) { Err(d) => format!("malformed {:?}", d), Ok(m) => match wh::val::validate(&m) { Ok(_) => "valid".into(), Err(e) => format!("invalid {}", e) } };
        println!("{}", v);
    }
}
/// family K N BAD FILE: prints the name and how deep it nests
fn family(a: &[String]) {
    let k: usize = a[0].parse().unwrap();
    if k >= wh::fam::NAMES.len() { std::process::exit(9); }
    let b = wh::fam::build(k, a[1].parse().unwrap(), a[2] == "1", &mut Rng::new(7));
    std::fs::write(&a[3], &b).unwrap();
    let mut c = wh::dec::Cur::new(&b);
    let _ = c.module();
    println!("{}\n{}", wh::fam::NAMES[k], c.depth);
}
/// measure FILE: parse and validate inside wh_measured (for instruction counting)
fn measure(a: &[String]) {
    let b = std::fs::read(&a[0]).unwrap();
    println!("outcome {}", wh::heap::wh_measured(b.as_ptr(), b.len()));
}
/// probe FILE STACK_MB: parse and validate on a stack of that size
fn probe(a: &[String]) {
    let b = std::fs::read(&a[0]).unwrap();
    let j = wh::judge::survives(&b);
    match j.bad { Some(b) => { println!("{}", b); std::process::exit(1) } None => println!("finished") }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    mon::install_hook();
    let stack = match a.first().map(|s| s.as_str()) { Some("probe") => a[2].parse::<usize>().unwrap() << 20, _ => 1 << 30 };
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || -> i32 {
        let r = &a[1..];
        match a[0].as_str() {
            "worker" => worker(r),
            "judge" => return judge(r),
            "gen" => gen(r),
            "distinct" => distinct(r),
            "corpus" => corpus(r),
            "mini" => mini(r),
            "debug" => debug(),
            "shown" => shown(r),
            "oracle" => oracle(r),
            "family" => family(r),
            "measure" => measure(r),
            "probe" => probe(r),
            "rule" => println!("{}", props::rule(&r[0])),
            _ => return 2,
        }
        0
    }).unwrap();
    match h.join() { Ok(c) => std::process::exit(c), Err(_) => std::process::exit(2) }
}
