//! Winternitz one-time signatures: 81 chains of 26 steps over 162-trit values.

use super::spongos::{hash, prng, Sp};
use super::{trits_of, value};

pub const PART: usize = 162;
pub const PARTS: usize = 81;
pub const SIG: usize = PART * PARTS;
pub const HASH: usize = 234;
pub const PK: usize = 243;

pub fn sk(key: &[u8], nonce: &[u8]) -> Vec<u8> {
    prng(key, nonce, SIG)
}
/// The 81 digits of a hash: 78 trytes and three trytes of the negated sum.
pub fn digits(h: &[u8]) -> Vec<i64> {
    let mut d: Vec<i64> = h.chunks(3).map(value).collect();
    let sum: i64 = d.iter().sum();
    d.extend(trits_of(-sum, 9).chunks(3).map(value));
    d
}
pub fn chain(part: &[u8], n: usize) -> Vec<u8> {
    let mut v = part.to_vec();
    for _ in 0..n {
        v = hash(&v, PART);
    }
    v
}
pub fn pk_of_ends(ends: &[u8]) -> Vec<u8> {
    let mut s = Sp::new();
    s.absorb(ends);
    s.commit();
    s.squeeze(PK)
}
/// Signature and public key from a secret key.
pub fn sign(sk: &[u8], h: &[u8]) -> Vec<u8> {
    let d = digits(h);
    sk.chunks(PART).zip(&d).flat_map(|(p, d)| chain(p, (13 + d) as usize)).collect()
}
pub fn recover(h: &[u8], sig: &[u8]) -> Vec<u8> {
    let d = digits(h);
    let ends: Vec<u8> = sig.chunks(PART).zip(&d).flat_map(|(p, d)| chain(p, (13 - d) as usize)).collect();
    pk_of_ends(&ends)
}
pub fn pk(sk: &[u8]) -> Vec<u8> {
    let ends: Vec<u8> = sk.chunks(PART).flat_map(|p| chain(p, 26)).collect();
    pk_of_ends(&ends)
}
