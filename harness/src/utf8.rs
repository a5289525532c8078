//! Independent UTF-8 well-formedness check (Unicode table 3-7), not using std.
pub fn valid(b: &[u8]) -> bool {
    let mut i = 0;
    let cont = |k: usize, lo: u8, hi: u8| k < b.len() && b[k] >= lo && b[k] <= hi;
    while i < b.len() {
        let c = b[i];
        let n = if c <= 0x7F { 1 }
            else if (0xC2..=0xDF).contains(&c) { if !cont(i + 1, 0x80, 0xBF) { return false; } 2 }
            else if (0xE0..=0xEF).contains(&c) {
                let (lo, hi) = match c { 0xE0 => (0xA0, 0xBF), 0xED => (0x80, 0x9F), _ => (0x80, 0xBF) };
                if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xBF) { return false; }
                3
            }
            else if (0xF0..=0xF4).contains(&c) {
                let (lo, hi) = match c { 0xF0 => (0x90, 0xBF), 0xF4 => (0x80, 0x8F), _ => (0x80, 0xBF) };
                if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xBF) || !cont(i + 3, 0x80, 0xBF) { return false; }
                4
            }
            else { return false };
        i += n;
    }
    true
}
