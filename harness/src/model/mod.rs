//! Reference models, written from the specifications on plain vectors of trits.
//! Nothing here calls the code under test.

pub mod mss;
pub mod ntru;
pub mod rc;
pub mod ring;
pub mod spongos;
pub mod troika;
pub mod wots;

/// Balanced value of one trit (0, 1, 2 stand for 0, 1, -1).
pub fn bal1(t: u8) -> i64 {
    match t {
        0 => 0,
        1 => 1,
        2 => -1,
        _ => panic!("trit out of range: {}", t),
    }
}

/// Value of little-endian balanced trits.
pub fn value(ts: &[u8]) -> i64 {
    let mut v = 0i64;
    for t in ts.iter().rev() {
        v = v * 3 + bal1(*t);
    }
    v
}

/// Little-endian balanced trits of a value.
pub fn trits_of(mut v: i64, n: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(n);
    for _ in 0..n {
        let r = v.rem_euclid(3);
        out.push(r as u8);
        v = (v - if r == 2 { -1 } else { r }) / 3;
    }
    out
}

/// Text of one tryte, given as balanced value.
pub fn char_of(v: i64) -> char {
    const A: &[u8] = b"NOPQRSTUVWXYZ9ABCDEFGHIJKLM";
    A[(v + 13) as usize] as char
}
pub fn value_of_char(c: char) -> Option<i64> {
    (-13..=13).find(|v| char_of(*v) == c)
}
/// Text of trits, an incomplete last tryte padded with zeros.
pub fn text(ts: &[u8]) -> String {
    ts.chunks(3).map(|c| char_of(value(c))).collect()
}
/// Trits of a valid text.
pub fn parse(s: &str) -> Option<Vec<u8>> {
    let mut v = Vec::new();
    for c in s.chars() {
        v.extend(trits_of(value_of_char(c)?, 3));
    }
    Some(v)
}
