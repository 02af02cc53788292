//! NTRU key encapsulation over the ring, with a sponge as random oracle.

use super::ring::*;
use super::spongos::{prng, Sp};

pub const PK: usize = 9216;
pub const KEY: usize = 243;

pub struct Key {
    pub f: Vec<u8>,
    /// NTT(1+3f)
    pub tf: P,
    pub pk: Vec<u8>,
    /// NTT(pk)
    pub th: P,
    /// Number of candidates refused before this one.
    pub tries: usize,
}
/// The i-th candidate; None if it is not suitable.
pub fn candidate(key: &[u8], nonce: &[u8], i: usize) -> Option<Key> {
    let mut n = nonce.to_vec();
    let mut c = i;
    for _ in 0..81 {
        n.push((c % 3) as u8);
        c /= 3;
    }
    let r = prng(key, &n, 2 * N);
    let (f, g) = r.split_at(N);
    let mut f1 = map(&small(f), |v| 3 * v);
    f1[0] = red(f1[0] + 1);
    let tf = ntt(&f1);
    let tg = ntt(&map(&small(g), |v| 3 * v));
    if tf.contains(&0) || tg.contains(&0) {
        return None;
    }
    let th = zip(&tg, &tf, |g, f| g * inv1(f));
    let pk = to_trits(&intt(&th));
    Some(Key { f: f.to_vec(), tf, pk, th, tries: i })
}
pub fn gen(key: &[u8], nonce: &[u8]) -> Key {
    (0..).find_map(|i| candidate(key, nonce, i)).unwrap()
}
pub fn encr(s: &mut Sp, key: &[u8], nonce: &[u8], pk: &[u8], th: &P, k: &[u8]) -> Vec<u8> {
    let mut n = pk.to_vec();
    n.extend_from_slice(k);
    n.extend_from_slice(nonce);
    let r = small(&prng(key, &n, N));
    let t = intt(&zip(&ntt(&r), th, |a, b| a * b));
    s.absorb(&to_trits(&t));
    s.commit();
    let mut m = s.encr(k);
    m.extend(s.squeeze(N - KEY));
    to_trits(&zip(&t, &small(&m), |a, b| a + b))
}
/// The session key, if the capsule is authentic.
pub fn decr(s: &mut Sp, tf: &P, y: &[u8]) -> Option<Vec<u8>> {
    let y = from_trits(y)?;
    let m = round(&intt(&zip(&ntt(&y), tf, |a, b| a * b)));
    let t = zip(&y, &small(&m), |a, b| a - b);
    s.absorb(&to_trits(&t));
    s.commit();
    let k = s.decr(&m[..KEY]);
    (s.squeeze(N - KEY) == m[KEY..]).then_some(k)
}
/// The transform of an importable public key.
pub fn import(pk: &[u8]) -> Option<P> {
    if pk.len() != PK {
        return None;
    }
    let th = ntt(&from_trits(pk)?);
    (!th.contains(&0)).then_some(th)
}
