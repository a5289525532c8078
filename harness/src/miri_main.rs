//! Driver for runs under Miri or AddressSanitizer: executes inputs, judges nothing
//! but (in the float and container modes) the values read.
use wh::{api, det, mon};
use wh::pool::Pool;
use wh::rng::Rng;

fn run(kind: usize, b: &[u8]) -> bool {
    match det::via(kind, b) {
        Ok(m) => {
            let v = whasm::validation::ValidationEntry::validate(&m);
            let n = match &v { Ok(r) => r.imports.len() + r.exports.len(), Err(_) => 0 };
            std::hint::black_box(n);
            std::hint::black_box(m == m);
            v.is_ok()
        }
        Err(e) => { std::hint::black_box(format!("{}", e)); false }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    mon::install_hook();
    let t0 = std::time::Instant::now();
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    match a[0].as_str() {
        // modules DIR FROM STEP END ALLKINDS SECONDS
        "modules" => {
            let (mut ok, mut n) = (0, 0);
            let mut i = num(2);
            while i < num(4) && t0.elapsed().as_secs() < num(6) {
                let b = std::fs::read(format!("{}/{}.wasm", a[1], i)).unwrap();
                let kinds: Vec<usize> = if a[5] == "1" { (0..det::KINDS).collect() } else { vec![i as usize % det::KINDS] };
                for k in kinds { match mon::guard(|| run(k, &b)) { Ok(v) => ok += v as u64, Err(e) => println!("panic {} {}", i, e) } n += 1; }
                println!("done {}", i);
                i += num(3);
            }
            println!("summary {} {}", n, ok);
        }
        // threads DIR FROM END: three threads on the same inputs, one module shared
        "threads" => {
            let ms: Vec<Vec<u8>> = (num(2)..num(3)).map(|i| std::fs::read(format!("{}/{}.wasm", a[1], i)).unwrap()).collect();
            let n = ms.len();
            let ms = std::sync::Arc::new(ms);
            let h: Vec<_> = (0..3usize).map(|t| { let ms = ms.clone(); std::thread::spawn(move || for i in 0..ms.len() { let k = (i + t * 2) % ms.len(); let _ = mon::guard(|| run(t, &ms[k])); }) }).collect();
            for x in h { x.join().unwrap(); }
            for b in ms.iter().take(8) {
                if let Ok(Ok(m)) = mon::guard(|| det::via(0, b)) {
                    std::thread::scope(|s| { for _ in 0..2 { s.spawn(|| { let _ = mon::guard(|| whasm::validation::ValidationEntry::validate(&m).is_ok()); }); } });
                }
            }
            println!("summary {} {}", 3 * n, n);
        }
        // readers SEED N SECONDS: floats, element readers and containers
        "readers" => {
            let p = Pool::build(None);
            let (mut n, mut bad) = (0, 0);
            for i in 0..num(2) {
                if t0.elapsed().as_secs() >= num(3) { break; }
                let mut r = Rng::new(num(1).wrapping_mul(1_000_003).wrapping_add(i));
                let j = match i % 3 {
                    0 => { let d = api::float_random(&p, &mut r); api::float(&d) }
                    1 => { let mut d = api::container_random(&p, &mut r); d.truncate(120); api::container(&d) }
                    _ => { let k = (i / 3) as usize % api::n_elems(); let mut d = api::element_random(&p, &mut r, k); d.truncate(120); api::element(&d) }
                };
                n += j.evals;
                if let Some(b) = j.bad { bad += 1; println!("bad {} {}", i, b); }
            }
            println!("summary {} {}", n, bad);
        }
        // floats SEED N SECONDS
        "floats" => {
            let p = Pool::build(None);
            let (mut n, mut bad) = (0, 0);
            for i in 0..num(2) {
                if t0.elapsed().as_secs() >= num(3) { break; }
                let mut r = Rng::new(num(1).wrapping_mul(1_000_003).wrapping_add(i));
                let d = if i < 12 { let mut d = vec![0u8; 12]; d[i as usize] = 0x80 | i as u8; d } else { api::float_random(&p, &mut r) };
                let j = api::float(&d);
                n += j.evals;
                if let Some(b) = j.bad { bad += 1; println!("bad {} {}", i, b); }
            }
            println!("summary {} {}", n, bad);
        }
        _ => std::process::exit(2),
    }
}
