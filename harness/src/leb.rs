//! Reference LEB128 arithmetic on explicit bit vectors (no shifting tricks).

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Leb {
    /// (two's complement value in the low `bits`, bytes consumed)
    Ok(u64, usize),
    /// terminated, but the encoded value is not representable
    OutOfRange,
    /// the stream ends before the terminating byte, and the value could still be in range
    Eof,
    /// the stream ends before the terminating byte, after at least `ceil(bits/7)` bytes:
    /// whether truncation or range is reported first is not specified
    EofOrRange,
}

/// Decode a LEB128 integer of `bits` width from the front of `b`.
pub fn decode(b: &[u8], bits: usize, signed: bool) -> Leb {
    // find the terminator
    let n = match b.iter().position(|x| x & 0x80 == 0) {
        Some(p) => p + 1,
        None => {
            let full = (bits + 6) / 7;
            return if b.len() < full { Leb::Eof } else { Leb::EofOrRange };
        }
    };
    // mathematical bits of the encoding, least significant first
    let bit = |i: usize| -> bool {
        let byte = i / 7;
        if byte < n { (b[byte] >> (i % 7)) & 1 == 1 } else { signed && (b[n - 1] >> 6) & 1 == 1 }
    };
    let total = (7 * n).max(bits + 1);
    if signed {
        // representable iff every bit from the sign position upwards is equal
        let s = bit(bits - 1);
        for i in bits..total { if bit(i) != s { return Leb::OutOfRange; } }
    } else {
        for i in bits..total { if bit(i) { return Leb::OutOfRange; } }
    }
    let mut v = 0u64;
    for i in 0..bits { if bit(i) { v += 1u64 << i; } }
    Leb::Ok(v, n)
}

pub fn enc_u(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v % 128) as u8;
        v /= 128;
        if v == 0 { out.push(b); return; }
        out.push(b + 128);
    }
}

pub fn enc_s(mut v: i64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        let done = (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0);
        if done { out.push(b); return; }
        out.push(b | 0x80);
    }
}

/// Lengthen the LEB in out[start..] by `extra` redundant bytes.
pub fn pad(out: &mut Vec<u8>, extra: usize, signed: bool) {
    if extra == 0 { return; }
    let last = out.len() - 1;
    let fill = if signed && out[last] & 0x40 != 0 { 0x7F } else { 0x00 };
    out[last] |= 0x80;
    for _ in 0..extra - 1 { out.push(fill | 0x80); }
    out.push(fill);
}
