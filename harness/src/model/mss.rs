//! Merkle signatures: height(4) || slot(14) || one-time signature || path.

use super::spongos::hash;
use super::{trits_of, value, wots};

pub const SKN: usize = 18;

pub fn sig_size(d: usize) -> usize {
    SKN + wots::SIG + d * wots::PK
}
pub fn leaf_nonce(nonce: &[u8], i: usize) -> Vec<u8> {
    let mut n = nonce.to_vec();
    n.extend(trits_of(i as i64, 18));
    n
}
pub fn node(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut x = a.to_vec();
    x.extend_from_slice(b);
    hash(&x, wots::PK)
}
pub fn head(height: usize, skn: i64) -> Vec<u8> {
    let mut v = trits_of(height as i64, 4);
    v.extend(trits_of(skn, 14));
    v
}
/// Levels of the tree, leaves first.
pub fn tree(leaves: Vec<Vec<u8>>) -> Vec<Vec<Vec<u8>>> {
    let mut levels = vec![leaves];
    while levels.last().unwrap().len() > 1 {
        let l = levels.last().unwrap();
        let up = l.chunks(2).map(|p| node(&p[0], &p[1])).collect();
        levels.push(up);
    }
    levels
}
pub fn path(levels: &[Vec<Vec<u8>>], i: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for (k, l) in levels[..levels.len() - 1].iter().enumerate() {
        v.extend_from_slice(&l[(i >> k) ^ 1]);
    }
    v
}
/// The header of a signature, if it is one.
pub fn parse_head(sig: &[u8]) -> Option<(usize, usize)> {
    if sig.len() < SKN {
        return None;
    }
    let (d, skn) = (value(&sig[..4]), value(&sig[4..18]));
    if d < 0 || skn < 0 || skn >= 1i64 << d {
        return None;
    }
    Some((d as usize, skn as usize))
}
/// Recovered key and signature size.
pub fn recover(h: &[u8], sig: &[u8]) -> Option<(Vec<u8>, usize)> {
    if h.len() != wots::HASH {
        return None;
    }
    let (d, mut skn) = parse_head(sig)?;
    let n = sig_size(d);
    if sig.len() < n {
        return None;
    }
    let mut x = wots::recover(h, &sig[SKN..SKN + wots::SIG]);
    for p in sig[SKN + wots::SIG..n].chunks(wots::PK) {
        x = if skn % 2 == 0 { node(&x, p) } else { node(p, &x) };
        skn /= 2;
    }
    Some((x, n))
}
