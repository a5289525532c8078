//! Interesting values for the workloads: boundaries, plus the literals that
//! occur in the source of the code under test (a workload dictionary only;
//! no verdict depends on it).
use crate::rng::Rng;

#[derive(Clone, Default)]
pub struct Pool {
    /// counts, lengths and depths worth trying
    pub sizes: Vec<usize>,
    pub u32s: Vec<u32>,
    pub i64s: Vec<i64>,
    pub names: Vec<Vec<u8>>,
    pub harvested: usize,
}

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                if p.file_name().map_or(false, |n| n == "grammar" || n == "target") { continue; }
                files(&p, out);
            } else if p.extension().map_or(false, |e| e == "rs") { out.push(p); }
        }
    }
}

fn literals(src: &str, nums: &mut Vec<u64>, strs: &mut Vec<Vec<u8>>) {
    // doc comments and unit tests hold no decisions
    let src = src.split("#[cfg(test)]").next().unwrap();
    for line in src.lines() {
        let line = line.trim_start();
        if line.starts_with("//") { continue; }
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'"' {
                let mut j = i + 1;
                while j < b.len() && b[j] != b'"' { if b[j] == b'\\' { j += 1; } j += 1; }
                if j <= b.len() && j - i < 80 { strs.push(b[(i + 1).min(b.len())..j.min(b.len())].to_vec()); }
                i = j + 1;
            } else if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') { j += 1; }
                let t: String = line[i..j].replace('_', "");
                let mut t = t.to_ascii_lowercase();
                for suf in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
                    if !t.starts_with("0x") || suf.starts_with('u') || suf.starts_with('i') {
                        if let Some(s) = t.strip_suffix(suf) { t = s.to_string(); break; }
                    }
                }
                let v = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16).ok() }
                    else if let Some(h) = t.strip_prefix("0b") { u64::from_str_radix(h, 2).ok() }
                    else if let Some(h) = t.strip_prefix("0o") { u64::from_str_radix(h, 8).ok() }
                    else { t.parse().ok() };
                if let Some(v) = v { nums.push(v); }
                i = j;
            } else { i += 1; }
        }
    }
}

pub const MAX_SIZE: usize = 70_000;

impl Pool {
    pub fn build(repo: Option<&str>) -> Pool {
        let mut p = Pool::default();
        let mut s: Vec<u64> = (0..=20).collect();
        for k in 4..=16u32 {
            let x = 1u64 << k;
            s.extend([x - 1, x, x + 1]);
        }
        s.extend([24, 40, 48, 50, 60, 80, 96, 99, 100, 101, 200, 300, 500, 999, 1000, 1001, 2000, 5000, 9999, 10000, 10001, 20000, 50000, 50001, 65534, 65535, 65536, 65537, 65538]);
        let mut nums = vec![];
        let mut strs = vec![];
        if let Some(r) = repo {
            let mut fs = vec![];
            files(std::path::Path::new(r), &mut fs);
            for f in fs { if let Ok(t) = std::fs::read_to_string(&f) { literals(&t, &mut nums, &mut strs); } }
        }
        nums.sort();
        nums.dedup();
        p.harvested = nums.len();
        for n in &nums { s.extend([n.saturating_sub(1), *n, n.saturating_add(1)]); }
        s.sort();
        s.dedup();
        p.sizes = s.iter().filter(|x| **x <= MAX_SIZE as u64).map(|x| *x as usize).collect();
        let mut u: Vec<u32> = s.iter().filter(|x| **x <= u32::MAX as u64).map(|x| *x as u32).collect();
        for k in 16..32 { let x = 1u32 << k; u.extend([x - 1, x, x + 1]); }
        u.extend([u32::MAX, u32::MAX - 1]);
        u.sort();
        u.dedup();
        p.u32s = u;
        let mut i: Vec<i64> = s.iter().map(|x| *x as i64).collect();
        for k in 0..64 { let x = 1i64.wrapping_shl(k); i.extend([x.wrapping_sub(1), x, x.wrapping_add(1), x.wrapping_neg(), x.wrapping_neg().wrapping_sub(1)]); }
        i.sort();
        i.dedup();
        p.i64s = i;
        let mut names: Vec<Vec<u8>> = ["", "a", "b", "env", "memory", "name", "start", "_start", "main", "a\0b", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{feff}", "é", "e\u{301}", "💖", "A", "name ", " name"]
            .iter().map(|s| s.as_bytes().to_vec()).collect();
        strs.retain(|s| crate::utf8::valid(s));
        strs.sort();
        strs.dedup();
        names.extend(strs);
        p.names = names;
        p
    }
    /// a small random size, sometimes a boundary up to `max`
    pub fn size(&self, r: &mut Rng, small: usize, max: usize) -> usize {
        if r.chance(1, 24) {
            let hi = self.sizes.partition_point(|x| *x <= max);
            if hi > 0 { return self.sizes[r.below(hi)]; }
        }
        r.below(small + 1)
    }
    pub fn u32(&self, r: &mut Rng) -> u32 { if r.chance(1, 4) { r.u32() >> r.below(32) } else { *r.pick(&self.u32s) } }
    pub fn i32(&self, r: &mut Rng) -> i32 {
        match r.below(4) { 0 => r.u32() as i32, 1 => (r.u32() as i32) >> r.below(31), _ => *r.pick(&self.i64s) as i32 }
    }
    pub fn i64(&self, r: &mut Rng) -> i64 {
        match r.below(4) { 0 => r.u64() as i64, 1 => (r.u64() as i64) >> r.below(63), _ => *r.pick(&self.i64s) }
    }
    pub fn f32(&self, r: &mut Rng) -> u32 {
        match r.below(6) {
            0 => 0x7F80_0000 | (r.u32() & 0x807F_FFFF),          // NaN / inf with payload
            1 => 0x7F80_0001 | ((r.u32() & 1) << 31),            // signalling NaN
            2 => r.u32() & 0x807F_FFFF,                          // subnormal / zero
            3 => *r.pick(&[0, 0x8000_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0xFFC0_0000, 0x7FFF_FFFF, 1, 0x3F80_0000]),
            _ => r.u32(),
        }
    }
    pub fn f64(&self, r: &mut Rng) -> u64 {
        match r.below(6) {
            0 => 0x7FF0_0000_0000_0000 | (r.u64() & 0x800F_FFFF_FFFF_FFFF),
            1 => 0x7FF0_0000_0000_0001 | ((r.u64() & 1) << 63),
            2 => r.u64() & 0x800F_FFFF_FFFF_FFFF,
            3 => *r.pick(&[0, 1 << 63, 0x7FF0_0000_0000_0000, 0xFFF0_0000_0000_0000, 0x7FF8_0000_0000_0000, u64::MAX, 1, 0x3FF0_0000_0000_0000]),
            _ => r.u64(),
        }
    }
    pub fn name(&self, r: &mut Rng) -> Vec<u8> {
        match r.below(8) {
            0..=3 => r.pick(&self.names).clone(),
            4 | 5 => { let n = r.below(12); (0..n).map(|_| 0x20 + r.below(95) as u8).collect() }
            6 => {
                let n = r.below(6);
                let mut s = String::new();
                for _ in 0..n {
                    let c = loop { if let Some(c) = char::from_u32(r.u32() >> r.range(11, 31)) { break c; } };
                    s.push(c);
                }
                s.into_bytes()
            }
            _ => { let n = self.size(r, 200, 300); vec![b'x'; n] }
        }
    }
}
