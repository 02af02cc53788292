//! C11 - C16: one-time signatures, Merkle trees, Merkle signatures.

use crate::engine::*;
use crate::model::{self, mss as mm, wots as mw};
use crate::util::*;
use crate::{ensure, ensure_eq, ensure_trits};
use iota_mam::mss::mt::{APath, GenLeaf, Height, Idx, MergeNodes, TraversableMerkleTree};
use iota_mam::mss::{self, mtcomplete, mttraversal, PrivateKeyT};
use iota_mam::prng::PRNG;
use iota_mam::trits::*;
use iota_mam::wots;
use std::cell::RefCell;
use std::rc::Rc;

// ---------------------------------------------------------------- C11

/// A hash to sign: random, structured, or with extreme digits.
pub fn gen_hash(src: &mut Src) -> Vec<u8> {
    match src.below(5) {
        0 => src.trits(mw::HASH),
        1 => {
            // Every digit extreme or zero.
            let mut r = Rng::new(src.raw());
            (0..78).flat_map(|_| model::trits_of([-13i64, 13, 0][r.below(3) as usize], 3)).collect()
        }
        2 => {
            // A chosen digit sum, up to the extremes.
            let target = src.irange(-1014, 1014);
            let mut d = vec![target / 78; 78];
            let rest = target - 78 * (target / 78);
            for i in 0..rest.unsigned_abs() as usize {
                d[i] += rest.signum();
            }
            d.iter().flat_map(|v| model::trits_of(*v, 3)).collect()
        }
        _ => src.rtrits(mw::HASH),
    }
}

struct Wk {
    sk: Vec<u8>,
    real: wots::PrivateKey,
}
fn gen_wots(src: &mut Src) -> Wk {
    let key = src.trits(243);
    let n = src.any_size(300);
    let nonce = src.trits(n);
    let k = if n == 0 { src.upto(1) } else if src.chance(15) { src.range(4, 70) } else { src.range(1, 3) };
    let mut cuts: Vec<usize> = (1..k.max(1)).map(|_| src.upto(n)).collect();
    cuts.sort();
    cuts.push(n);
    let t = tr(&nonce);
    let mut nonces = Vec::new();
    let mut at = 0;
    if k > 0 {
        for c in cuts {
            nonces.push(t.slice().drop(at).take(c - at));
            at = c;
        }
    }
    src.note(|| format!("key {}, nonce {} in {} pieces", show(&key), show(&nonce), nonces.len()));
    let p = PRNG::init_trits(&tr(&key));
    Wk { sk: mw::sk(&key, &nonce), real: wots::PrivateKey::gen(&p, &nonces) }
}

fn c11_wots(src: &mut Src) -> Res {
    let k = gen_wots(src);
    let mut pk = {
        let junk = src.rtrits(mw::PK);
        Frame::new(src, &junk)
    };
    k.real.calc_pk(pk.slice_mut());
    let expect_pk = mw::pk(&k.sk);
    pk.check(&expect_pk, "public key")?;
    let wpk = wots::PublicKey::gen(&k.real);
    let m = src.range(1, 3);
    let mut first: Option<(Vec<u8>, Vec<u8>)> = None;
    for _ in 0..m {
        let h = gen_hash(src);
        src.nontrivial();
        src.note(|| format!("sign {}", show(&h)));
        let hf = Frame::new(src, &h);
        let mut sig = {
            let junk = src.rtrits(mw::SIG);
            Frame::new(src, &junk)
        };
        k.real.sign(hf.slice(), sig.slice_mut());
        let expect = mw::sign(&k.sk, &h);
        sig.check(&expect, "signature")?;
        hf.check(&h, "hash after signing")?;
        ensure!(wpk.verify(hf.slice(), sig.slice()), "the signature does not verify");
        let mut r = {
            let junk = src.rtrits(mw::PK);
            Frame::new(src, &junk)
        };
        wots::recover(hf.slice(), sig.slice(), r.slice_mut());
        r.check(&expect_pk, "recovered public key")?;
        sig.check(&expect, "signature after verification")?;
        if let Some((h0, s0)) = &first {
            let mut again = tr(&vec![0; mw::SIG]);
            k.real.sign(tr(h0).slice(), again.slice_mut());
            ensure_trits!(ve(&again), s0, "signature of the first hash made again");
        } else {
            first = Some((h, expect));
        }
    }
    let mut again = tr(&vec![0; mw::PK]);
    k.real.calc_pk(again.slice_mut());
    ensure_trits!(ve(&again), expect_pk, "public key after signing");
    Ok(())
}
/// Recovery is a function of arbitrary signature trits.
/// One key that signs far more often than it should: what it gives depends on the hash alone.
fn c11_long(src: &mut Src) -> Res {
    let k = gen_wots(src);
    let pk = mw::pk(&k.sk);
    let hs: Vec<(Vec<u8>, Vec<u8>)> = (0..4).map(|_| { let h = gen_hash(src); let s = mw::sign(&k.sk, &h); (h, s) }).collect();
    let n = src.range(258, 330);
    src.nontrivial();
    src.note(|| format!("{} signatures by one key", n));
    for i in 0..n {
        let (h, s) = &hs[i % 4];
        let mut sig = Trits::zero(mw::SIG);
        k.real.sign(tr(h).slice(), sig.slice_mut());
        ensure_trits!(ve(&sig), s, "signature {} of one key", i);
        if i % 16 == 15 || i + 4 > n {
            let w = wots::PublicKey::gen(&k.real);
            ensure!(w.verify(tr(h).slice(), sig.slice()), "signature {} of one key does not verify", i);
            let mut r = Trits::zero(mw::PK);
            k.real.calc_pk(r.slice_mut());
            ensure_trits!(ve(&r), pk, "public key after {} signatures", i + 1);
        }
    }
    let (h, s) = &hs[0];
    let w = wots::PublicKey::gen(&k.real);
    let (h, s) = (tr(h), tr(s));
    for i in 0..n {
        ensure!(w.verify(h.slice(), s.slice()), "verification {} by one key", i);
    }
    Ok(())
}
fn c11_recover(src: &mut Src) -> Res {
    let h = gen_hash(src);
    let sig = src.trits(mw::SIG);
    src.nontrivial();
    src.note(|| format!("recover from {} and {}", show(&h), show(&sig)));
    let mut r = {
        let junk = src.rtrits(mw::PK);
        Frame::new(src, &junk)
    };
    wots::recover(tr(&h).slice(), tr(&sig).slice(), r.slice_mut());
    r.check(&mw::recover(&h, &sig), "key recovered from arbitrary trits")
}

// ---------------------------------------------------------------- C12

fn bump(src: &mut Src, v: &mut [u8], i: usize) {
    v[i] = (v[i] + 1 + src.below(2) as u8) % 3;
}
/// Every single trit of the hash, changed both ways.
fn c12_hash_trits(src: &mut Src) -> Res {
    let i = src.below(mw::HASH as u64 * 2) as usize;
    let k = gen_wots(src);
    let h = gen_hash(src);
    let pk = wots::PublicKey::gen(&k.real);
    let mut sig = tr(&vec![0; mw::SIG]);
    k.real.sign(tr(&h).slice(), sig.slice_mut());
    src.nontrivial();
    ensure!(pk.verify(tr(&h).slice(), sig.slice()), "the unchanged signature does not verify");
    let mut h2 = h.clone();
    h2[i / 2] = (h2[i / 2] + 1 + (i % 2) as u8) % 3;
    src.note(|| format!("hash trit {} changed from {} to {}", i / 2, h[i / 2], h2[i / 2]));
    ensure!(!pk.verify(tr(&h2).slice(), sig.slice()), "accepted with hash trit {} changed", i / 2);
    Ok(())
}
fn c12_reject(src: &mut Src) -> Res {
    let k = gen_wots(src);
    let h = gen_hash(src);
    let pk = wots::PublicKey::gen(&k.real);
    let mut t = tr(&vec![0; mw::SIG]);
    k.real.sign(tr(&h).slice(), t.slice_mut());
    let sig = ve(&t);
    ensure!(pk.verify(tr(&h).slice(), t.slice()), "the unchanged signature does not verify");
    src.nontrivial();
    for _ in 0..src.range(3, 6) {
        let (mut h2, mut s2) = (h.clone(), sig.clone());
        let kind = src.below(6);
        let what;
        match kind {
            0 => {
                let i = src.below(mw::SIG as u64) as usize;
                bump(src, &mut s2, i);
                what = format!("signature trit {} changed", i);
            }
            1 => {
                // First or last trit of a part.
                let p = src.below(81) as usize;
                let i = p * mw::PART + if src.bool() { mw::PART - 1 } else { 0 };
                bump(src, &mut s2, i);
                what = format!("signature trit {} changed", i);
            }
            2 => {
                // A whole part replaced by another, or two parts swapped.
                let (p, q) = (src.below(81) as usize, src.below(81) as usize);
                for j in 0..mw::PART {
                    s2.swap(p * mw::PART + j, q * mw::PART + j);
                }
                what = format!("parts {} and {} swapped", p, q);
            }
            3 => {
                let n = src.range(1, 4);
                for _ in 0..n {
                    let i = src.below(mw::HASH as u64) as usize;
                    bump(src, &mut h2, i);
                }
                what = "hash changed".to_string();
            }
            4 => {
                let k2 = gen_wots(src);
                if k2.sk == k.sk {
                    continue;
                }
                let other = wots::PublicKey::gen(&k2.real);
                src.note(|| "verified with another key".into());
                ensure!(!other.verify(tr(&h).slice(), t.slice()), "accepted under another key");
                continue;
            }
            _ => {
                s2 = src.trits(mw::SIG);
                what = "arbitrary signature".to_string();
            }
        }
        if h2 == h && s2 == sig {
            continue;
        }
        src.note(|| what.clone());
        ensure!(!pk.verify(tr(&h2).slice(), tr(&s2).slice()), "accepted: {}", what);
        if h2 == h {
            ensure!(pk.verify(tr(&h).slice(), t.slice()), "the true signature is refused after a false one");
        }
    }
    Ok(())
}
/// Advance the chains of a valid signature towards the digits of another hash.
fn c12_forge(src: &mut Src) -> Res {
    let k = gen_wots(src);
    // Message digits, low enough to raise.
    let lo = src.irange(-13, 8);
    let mut r = Rng::new(src.raw());
    let mut d: Vec<i64> = (0..78).map(|_| lo + r.below(3) as i64).collect();
    if src.chance(25) {
        d = (0..78).map(|_| r.below(27) as i64 - 13).collect();
    }
    let h: Vec<u8> = d.iter().flat_map(|v| model::trits_of(*v, 3)).collect();
    let pk = wots::PublicKey::gen(&k.real);
    let mut t = tr(&vec![0; mw::SIG]);
    k.real.sign(tr(&h).slice(), t.slice_mut());
    let sig = ve(&t);
    ensure!(pk.verify(tr(&h).slice(), t.slice()), "the unchanged signature does not verify");
    let from = mw::digits(&h);
    for _ in 0..src.range(1, 3) {
        let mut e = d.clone();
        let kind = src.below(4);
        match kind {
            0 => {
                // Raise by a total that hides from some of the checksum digits.
                let total = *src.pick(&[27i64, 729, 54, 756, 1, 26, 28, 243, 81, 9, 3, 728, 702]);
                let mut left = total;
                let mut guard = 0;
                while left > 0 && guard < 100_000 {
                    let i = r.below(78) as usize;
                    if e[i] < 13 {
                        e[i] += 1;
                        left -= 1;
                    }
                    guard += 1;
                }
            }
            1 => {
                // Same sum, other digits.
                let (i, j) = (src.below(78) as usize, src.below(78) as usize);
                e.swap(i, j);
            }
            2 => {
                let n = src.range(1, 4);
                for _ in 0..n {
                    let i = src.below(78) as usize;
                    let up = src.irange(0, 13 - e[i]);
                    e[i] += up;
                }
            }
            _ => {
                let n = src.range(1, 3);
                for _ in 0..n {
                    let i = src.below(78) as usize;
                    let down = src.irange(0, e[i] + 13);
                    e[i] -= down;
                }
            }
        }
        let h2: Vec<u8> = e.iter().flat_map(|v| model::trits_of(*v, 3)).collect();
        if h2 == h {
            continue;
        }
        src.nontrivial();
        let to = mw::digits(&h2);
        let forged: Vec<u8> = sig
            .chunks(mw::PART)
            .enumerate()
            .flat_map(|(i, p)| mw::chain(p, (to[i] - from[i]).max(0) as usize))
            .collect();
        let down = (0..81).filter(|i| to[*i] < from[*i]).count();
        src.note(|| format!("digit sum from {} to {}, chains short of the target: {}", d.iter().sum::<i64>(), e.iter().sum::<i64>(), down));
        assert!(down > 0, "harness: a forgery without inversion");
        ensure!(!pk.verify(tr(&h2).slice(), tr(&forged).slice()), "a signature with advanced chains is accepted for another hash (digit sums {} and {})", d.iter().sum::<i64>(), e.iter().sum::<i64>());
    }
    Ok(())
}
/// Every pair of digits on some chain: the chain advanced (or left short), alone or with the
/// digit sum kept by another chain.
fn c12_steps(src: &mut Src) -> Res {
    let x = src.below(2 * 27 * 27);
    let (keep, a, b) = (x % 2 == 1, (x / 2 % 27) as i64 - 13, (x / 54) as i64 - 13);
    let k = gen_wots(src);
    let mut r = Rng::new(src.raw());
    let i = src.below(78) as usize;
    let mut d: Vec<i64> = match src.below(3) {
        0 => vec![src.irange(-13, 13); 78],
        _ => (0..78).map(|_| r.below(27) as i64 - 13).collect(),
    };
    d[i] = a;
    let mut e = d.clone();
    e[i] = b;
    if keep && a != b {
        // Others move against it.
        let mut left = b - a;
        let mut guard = 0;
        while left != 0 && guard < 100_000 {
            let j = r.below(78) as usize;
            let s = left.signum();
            if j != i && (-13..=13).contains(&(e[j] - s)) {
                e[j] -= s;
                left -= s;
            }
            guard += 1;
        }
    }
    let trits = |d: &[i64]| -> Vec<u8> { d.iter().flat_map(|v| model::trits_of(*v, 3)).collect() };
    let (h, h2) = (trits(&d), trits(&e));
    let pk = wots::PublicKey::gen(&k.real);
    let mut t = tr(&vec![0; mw::SIG]);
    k.real.sign(tr(&h).slice(), t.slice_mut());
    ensure!(pk.verify(tr(&h).slice(), t.slice()), "the unchanged signature does not verify");
    src.nontrivial();
    let (from, to) = (mw::digits(&h), mw::digits(&h2));
    let sig = ve(&t);
    let advance = |by: &dyn Fn(usize) -> usize| -> Vec<u8> { sig.chunks(mw::PART).enumerate().flat_map(|(i, p)| mw::chain(p, by(i))).collect() };
    if a == b {
        // The same hash, one chain one or more steps further.
        let n = src.range(1, 27);
        src.note(|| format!("chain {} with digit {} advanced by {}", i, a, n));
        let s2 = advance(&|j| if j == i { n } else { 0 });
        ensure!(!pk.verify(tr(&h).slice(), tr(&s2).slice()), "accepted with the chain of digit {} advanced by {}", a, n);
        return Ok(());
    }
    src.note(|| format!("chain {} from digit {} to {}, digit sum {}", i, a, b, if keep { "kept" } else { "changed" }));
    let forged = advance(&|j| (to[j] - from[j]).max(0) as usize);
    ensure!(!pk.verify(tr(&h2).slice(), tr(&forged).slice()), "a signature of digit {} serves for digit {} (chain {})", a, b, i);
    // Only the chain in question, without those of the digit sum.
    let forged = advance(&|j| if j == i { (to[j] - from[j]).max(0) as usize } else { 0 });
    ensure!(!pk.verify(tr(&h2).slice(), tr(&forged).slice()), "a signature of digit {} with one chain advanced serves for digit {} (chain {})", a, b, i);
    Ok(())
}

// ---------------------------------------------------------------- C13, C14

/// Leaf function and merge function of a case.
#[derive(Clone, Copy)]
pub struct Fun {
    pub seed: u64,
    pub kind: u64,
}
impl Fun {
    pub fn gen(src: &mut Src) -> Fun {
        Fun { seed: src.raw(), kind: src.below(5) }
    }
    pub fn leaf(&self, i: usize) -> u64 {
        match self.kind {
            1 => i as u64,
            2 => 1u64 << (i % 64),
            3 => (i as u64) / 2,
            _ => mix(self.seed ^ mix(i as u64)),
        }
    }
    pub fn merge(&self, a: u64, b: u64) -> u64 {
        match self.kind {
            4 => a.wrapping_add(b), // commutative
            2 => (a.wrapping_mul(3).wrapping_add(b)) ^ 11,
            _ => mix(mix(a ^ self.seed).wrapping_add(b.rotate_left(17))),
        }
    }
    pub fn levels(&self, height: usize) -> Vec<Vec<u64>> {
        let mut l = vec![(0..1usize << height).map(|i| self.leaf(i)).collect::<Vec<_>>()];
        for d in 0..height {
            let up = l[d].chunks(2).map(|p| self.merge(p[0], p[1])).collect();
            l.push(up);
        }
        l
    }
}
pub struct Leaf(pub Fun);
impl GenLeaf<u64> for Leaf {
    fn gen_leaf(&self, i: Idx) -> u64 {
        self.0.leaf(i)
    }
}
pub struct Merge(pub Fun);
impl MergeNodes<u64> for Merge {
    fn merge_nodes(&self, a: &u64, b: &u64) -> u64 {
        self.0.merge(*a, *b)
    }
}

/// Check everything observable at the current position.
fn at_position<T: TraversableMerkleTree<u64>>(t: &T, f: Fun, lv: &[Vec<u64>], height: usize, i: usize) -> Res {
    ensure_eq!(t.height(), height, "height at position {}", i);
    ensure_eq!(t.skn(), i, "position");
    ensure_eq!(*t.root(), lv[height][0], "root at position {} of height {}", i, height);
    let ap: APath<u64> = t.apath();
    ensure_eq!(ap.skn(), i, "position named by the path");
    let seen = RefCell::new(Vec::new());
    let rec = |a: &u64, b: &u64| {
        seen.borrow_mut().push((*a, *b));
        f.merge(*a, *b)
    };
    let mut h = f.leaf(i);
    ensure!(ap.fold_mut(&rec, &mut h), "folding the path of position {} does not consume the position", i);
    let seen = seen.into_inner();
    ensure_eq!(seen.len(), height, "length of the path at position {}", i);
    for (d, p) in seen.iter().enumerate() {
        let j = (i >> d) & !1;
        ensure_eq!(*p, (lv[d][j], lv[d][j + 1]), "pair merged at level {} of the path of position {}", d, i);
    }
    ensure_eq!(h, lv[height][0], "root folded from position {}", i);
    ensure_eq!(ap.fold(&Merge(f), &f.leaf(i)), lv[height][0], "root from fold at position {}", i);
    Ok(())
}
fn at_end<T: TraversableMerkleTree<u64>>(t: &T, lv: &[Vec<u64>], height: usize) -> Res {
    ensure_eq!(t.height(), height, "height after the end");
    ensure_eq!(t.skn(), 1usize << height, "position after the end");
    ensure_eq!(*t.root(), lv[height][0], "root after the end");
    Ok(())
}
fn walk<T: TraversableMerkleTree<u64>>(f: Fun, lv: &[Vec<u64>], height: usize, rc: bool) -> Res {
    let n = 1usize << height;
    let mut t = if rc { T::gen(&Rc::new(Leaf(f)), &Rc::new(Merge(f)), height) } else { T::gen(&Leaf(f), &Merge(f), height) };
    for i in 0..n {
        at_position(&t, f, lv, height, i)?;
        let more = if rc { t.next(&|i: Idx| f.leaf(i), &|a: &u64, b: &u64| f.merge(*a, *b)) } else { t.next(&Leaf(f), &Merge(f)) };
        ensure_eq!(more, i + 1 < n, "next after position {} of {}", i, n);
    }
    at_end(&t, lv, height)?;
    for k in 0..3 {
        ensure!(!t.next(&Leaf(f), &Merge(f)), "next after the end, call {}, reports more leaves", k);
        at_end(&t, lv, height)?;
    }
    Ok(())
}
const CPL: &str = "complete tree";
const TRV: &str = "traversal tree";

fn c13_walk(src: &mut Src) -> Res {
    let height = if src.thorough { src.upto(13) } else { src.upto(9) };
    let f = Fun::gen(src);
    let rc = src.bool();
    src.note(|| format!("height {}, functions {} (seed {:x})", height, f.kind, f.seed));
    if height > 1 {
        src.nontrivial();
    }
    let lv = f.levels(height);
    walk::<mtcomplete::MT<u64>>(f, &lv, height, rc).map_err(|e| format!("{}: {}", CPL, e))?;
    walk::<mttraversal::MT<u64>>(f, &lv, height, rc).map_err(|e| format!("{}: {}", TRV, e))
}
fn c13_high(src: &mut Src) -> Res {
    let i = src.below(HIGH) as usize;
    let height = i / 2;
    let f = Fun { seed: src.raw(), kind: 0 };
    src.nontrivial();
    src.note(|| format!("height {}, implementation {}", height, i % 2));
    let lv = f.levels(height);
    if i % 2 == 0 {
        walk::<mtcomplete::MT<u64>>(f, &lv, height, false).map_err(|e| format!("{}: {}", CPL, e))
    } else {
        walk::<mttraversal::MT<u64>>(f, &lv, height, false).map_err(|e| format!("{}: {}", TRV, e))
    }
}
/// Heights to 20 in both implementations; the quick tier stops at 18.
const HIGH: u64 = 2 * 21;

/// Trees over a node type that is not Copy and spells out its whole derivation.
fn c13_symbolic(src: &mut Src) -> Res {
    let height = src.upto(6);
    let n = 1usize << height;
    src.note(|| format!("height {}", height));
    if height > 0 {
        src.nontrivial();
    }
    let g = |i: Idx| i.to_string();
    let m = |a: &String, b: &String| format!("({}{})", a, b);
    let mut lv = vec![(0..n).map(|i| g(i)).collect::<Vec<String>>()];
    for d in 0..height {
        let up = lv[d].chunks(2).map(|p| m(&p[0], &p[1])).collect();
        lv.push(up);
    }
    let mut c = mtcomplete::MT::<String>::gen(&g, &m, height);
    let mut t = mttraversal::MT::<String>::gen(&g, &m, height);
    for i in 0..n {
        ensure_eq!(c.root(), &lv[height][0], "{}: root at {}", CPL, i);
        ensure_eq!(t.root(), &lv[height][0], "{}: root at {}", TRV, i);
        let (a, b) = (c.apath(), t.apath());
        ensure_eq!(a, b, "paths of the two implementations at {}", i);
        ensure_eq!(a.fold(&m, &g(i)), lv[height][0], "{}: fold at {}", CPL, i);
        ensure_eq!(b.fold(&m, &g(i)), lv[height][0], "{}: fold at {}", TRV, i);
        // A path proves nothing else.
        let j = src.below(n as u64) as usize;
        if j != i {
            ensure!(a.fold(&m, &g(j)) != lv[height][0], "the path of {} proves leaf {}", i, j);
        }
        let (x, y) = (c.next(&g, &m), t.next(&g, &m));
        ensure_eq!((x, y), (i + 1 < n, i + 1 < n), "next after {} of {} in both implementations", i, n);
    }
    ensure_eq!(c.root(), &lv[height][0], "{}: root after the end", CPL);
    ensure_eq!(t.root(), &lv[height][0], "{}: root after the end", TRV);
    Ok(())
}
/// A path shorter or longer than the position needs does not fold completely.
fn c13_fold(src: &mut Src) -> Res {
    let height = src.range(1, 10);
    let f = Fun { seed: src.raw(), kind: 0 };
    let mut t = mttraversal::MT::<u64>::gen(&Leaf(f), &Merge(f), height);
    let i = src.below(1 << height) as usize;
    for _ in 0..i {
        t.next(&Leaf(f), &Merge(f));
    }
    // Rebuild the path from what folding reveals and extend it.
    let mut ap = t.apath();
    let extra = src.range(0, 3);
    let nodes: Vec<u64> = (0..extra).map(|_| src.raw()).collect();
    let mut expect = f.levels(height)[height][0];
    for n in &nodes {
        ap.push(*n);
        expect = f.merge(expect, *n);
    }
    src.nontrivial();
    src.note(|| format!("height {} position {} with {} extra nodes", height, i, extra));
    let mut h = f.leaf(i);
    ensure!(ap.fold_mut(&Merge(f), &mut h), "folding a longer path");
    ensure_eq!(h, expect, "result of folding a path extended by {}", extra);
    let empty: APath<u64> = APath::new(height);
    let mut h = f.leaf(0);
    ensure!(empty.fold_mut(&Merge(f), &mut h), "folding an empty path at position 0");
    ensure_eq!(h, f.leaf(0), "result of an empty path");
    Ok(())
}

fn store_load<T: TraversableMerkleTree<u64> + PartialEq + Clone + std::fmt::Debug>(src: &mut Src, t: &T, f: Fun, lv: &[Vec<u64>], height: usize, i: usize, name: &str) -> Result<T, String> {
    let n = 1usize << height;
    let (h, s, nodes) = t.store();
    ensure_eq!((h, s), (height, i), "{}: stored height and position", name);
    let l = T::load(h, s, nodes.clone()).ok_or_else(|| format!("{}: stored tree of height {} at {} does not load", name, height, i))?;
    ensure!(&l == t, "{}: loaded tree differs at position {} of height {}", name, i, height);
    if i < n {
        at_position(&l, f, lv, height, i).map_err(|e| format!("{} loaded: {}", name, e))?;
        ensure_eq!(l.apath(), t.apath(), "{}: path after loading", name);
    } else {
        at_end(&l, lv, height).map_err(|e| format!("{} loaded: {}", name, e))?;
    }
    let (h2, s2, n2) = l.store();
    ensure!((h2, s2, &n2) == (h, s, &nodes), "{}: storing the loaded tree gives other data", name);
    // Data that do not belong to this position.
    let len = nodes.len();
    let wrong = match src.below(6) {
        0 => len + 1,
        1 => len.wrapping_sub(1),
        2 => 0,
        3 => 1,
        4 => len + src.range(1, 40),
        _ => src.upto(2 * len + 3),
    };
    if wrong != len && wrong < 100_000 {
        let v: Vec<u64> = (0..wrong).map(|k| nodes.get(k).copied().unwrap_or(7)).collect();
        src.label("wrong node count");
        ensure!(T::load(height, i, v).is_none(), "{}: height {} position {} loads with {} nodes instead of {}", name, height, i, wrong, len);
    }
    if src.chance(30) {
        let bad = match src.below(4) {
            0 => n + 1,
            1 => n + src.range(1, 1000),
            2 => usize::MAX,
            _ => src.raw() as usize | 1 << 40,
        };
        src.label("position out of range");
        ensure!(T::load(height, bad, nodes.clone()).is_none(), "{}: height {} loads at position {}", name, height, bad);
    }
    Ok(l)
}
fn resume<T: TraversableMerkleTree<u64> + PartialEq + Clone + std::fmt::Debug>(src: &mut Src, f: Fun, lv: &[Vec<u64>], height: usize, name: &str) -> Res {
    let n = 1usize << height;
    let mut t = T::gen(&Leaf(f), &Merge(f), height);
    // Up to a few stops; at each one continue either with the original or with the loaded tree.
    let all = height <= 5 || src.chance(5);
    let mut stops: Vec<usize> = if all { (0..=n).collect() } else { (0..src.range(1, 5)).map(|_| src.upto(n)).collect() };
    stops.sort();
    stops.dedup();
    if all {
        src.label("every position");
    }
    let mut i = 0;
    let mut side: Option<T> = None;
    for s in stops {
        while i < s {
            let more = t.next(&Leaf(f), &Merge(f));
            i += 1;
            ensure_eq!(more, i < n, "{}: next to {} of {}", name, i, n);
            if let Some(o) = side.as_mut() {
                ensure_eq!(o.next(&Leaf(f), &Merge(f)), more, "{}: next of the other copy to {}", name, i);
                ensure!(*o == t, "{}: original and loaded tree differ after continuing to {} of height {}", name, i, height);
                if i < n && (height <= 7 || i % 13 == 0) {
                    at_position(o, f, lv, height, i).map_err(|e| format!("{} continued: {}", name, e))?;
                }
            }
        }
        let l = store_load(src, &t, f, lv, height, i, name)?;
        if src.bool() {
            // Go on with the loaded tree; the original comes along.
            side = Some(std::mem::replace(&mut t, l));
        } else {
            side = Some(l);
        }
    }
    while i < n {
        let more = t.next(&Leaf(f), &Merge(f));
        i += 1;
        ensure_eq!(more, i < n, "{}: next to {} of {}", name, i, n);
        if let Some(o) = side.as_mut() {
            ensure_eq!(o.next(&Leaf(f), &Merge(f)), more, "{}: next of the other copy to {}", name, i);
        }
        if i < n {
            at_position(&t, f, lv, height, i).map_err(|e| format!("{} continued: {}", name, e))?;
        }
    }
    at_end(&t, lv, height).map_err(|e| format!("{}: {}", name, e))?;
    store_load(src, &t, f, lv, height, n, name)?;
    ensure!(!t.next(&Leaf(f), &Merge(f)), "{}: more leaves after the end", name);
    if let Some(o) = side {
        ensure!(o == t, "{}: the two copies differ after the end", name);
    }
    Ok(())
}
/// High trees, stored and loaded around the edges of large sub-trees.
fn resume_high<T: TraversableMerkleTree<u64> + PartialEq + Clone + std::fmt::Debug>(src: &mut Src, f: Fun, height: usize, name: &str) -> Res {
    let lv = f.levels(height);
    let n = 1usize << height;
    let mut t = T::gen(&Leaf(f), &Merge(f), height);
    let mut stops: Vec<usize> = (0..src.range(1, 4))
        .map(|_| {
            let d = src.upto(height);
            let at = src.below((n >> d) as u64 + 1) as usize * (1 << d);
            (at + src.upto(6)).saturating_sub(3).min(n)
        })
        .collect();
    stops.sort();
    let mut i = 0;
    for s in stops {
        src.note(|| format!("stored at {} of height {}", s, height));
        while i < s {
            i += 1;
            ensure_eq!(t.next(&Leaf(f), &Merge(f)), i < n, "{}: next to {} of {}", name, i, n);
        }
        let mut l = store_load(src, &t, f, &lv, height, i, name)?;
        for _ in 0..src.upto(30) {
            if i >= n {
                break;
            }
            i += 1;
            ensure_eq!(t.next(&Leaf(f), &Merge(f)), i < n, "{}: next to {} of {}", name, i, n);
            ensure_eq!(l.next(&Leaf(f), &Merge(f)), i < n, "{}: next of the loaded tree to {} of {}", name, i, n);
            if i < n {
                at_position(&l, f, &lv, height, i).map_err(|e| format!("{} loaded at {}: {}", name, s, e))?;
            } else {
                at_end(&l, &lv, height)?;
            }
        }
        ensure!(l == t, "{}: original and loaded tree differ at {} of height {}, loaded at {}", name, i, height, s);
        t = l;
    }
    Ok(())
}
fn c14_high(src: &mut Src) -> Res {
    let height = match src.below(10) {
        0 => src.range(18, 20),
        1..=3 => src.range(15, 17),
        _ => src.range(9, 14),
    };
    let f = Fun { seed: src.raw(), kind: 0 };
    src.nontrivial();
    if height > 14 {
        src.label("height above 14");
    }
    if src.bool() {
        resume_high::<mtcomplete::MT<u64>>(src, f, height, CPL)
    } else {
        resume_high::<mttraversal::MT<u64>>(src, f, height, TRV)
    }
}
fn c14_resume(src: &mut Src) -> Res {
    let height = if src.thorough { src.upto(11) } else { src.upto(9) };
    let f = Fun::gen(src);
    let which = src.below(2);
    src.note(|| format!("height {} functions {} implementation {}", height, f.kind, which));
    if height > 1 {
        src.nontrivial();
    }
    let lv = f.levels(height);
    if which == 0 {
        resume::<mtcomplete::MT<u64>>(src, f, &lv, height, CPL)
    } else {
        resume::<mttraversal::MT<u64>>(src, f, &lv, height, TRV)
    }
}
thread_local! {
    /// Number of stored nodes for each height and position, from the real trees.
    static COUNTS: RefCell<std::collections::HashMap<(bool, usize), Vec<usize>>> = Default::default();
}
fn counts(trv: bool, height: usize) -> Vec<usize> {
    COUNTS.with(|c| {
        c.borrow_mut()
            .entry((trv, height))
            .or_insert_with(|| {
                fn go<T: TraversableMerkleTree<u64>>(height: Height) -> Vec<usize> {
                    let f = Fun { seed: 1, kind: 0 };
                    let mut t = T::gen(&Leaf(f), &Merge(f), height);
                    let mut v = vec![t.store().2.len()];
                    for _ in 0..1usize << height {
                        t.next(&Leaf(f), &Merge(f));
                        v.push(t.store().2.len());
                    }
                    v
                }
                if trv {
                    go::<mttraversal::MT<u64>>(height)
                } else {
                    go::<mtcomplete::MT<u64>>(height)
                }
            })
            .clone()
    })
}
/// Loading arbitrary tuples succeeds exactly for the number of nodes of that height and position.
fn c14_load(src: &mut Src) -> Res {
    let trv = src.bool();
    let height = match src.below(10) {
        0 => src.range(9, 40),
        _ => src.upto(8),
    };
    let n = 1usize << height;
    let skn = match src.below(8) {
        0 => n,
        1 => n + 1,
        2 => n + src.range(1, 50),
        3 => usize::MAX - src.upto(1),
        4 => n - 1,
        _ => src.below(n as u64) as usize,
    };
    let expect: Option<usize> = if height > 8 {
        // Too high for the given nodes at every position in range.
        None
    } else {
        counts(trv, height).get(skn).copied()
    };
    let len = match (expect, src.below(8)) {
        (Some(e), 0..=2) => e,
        (Some(e), 3) => e + 1,
        (Some(e), 4) => e.saturating_sub(1),
        (_, 5) => 0,
        // The count of another position or height.
        (_, 6) => {
            let h2 = src.upto(8);
            let c = counts(trv, h2);
            *src.pick(&c)
        }
        _ => src.upto(40),
    };
    let len = if height > 8 { len.min(height - 1) } else { len };
    if height > 8 && skn == n {
        return Ok(());
    }
    let nodes: Vec<u64> = (0..len).map(|k| mix(k as u64)).collect();
    src.nontrivial();
    src.note(|| format!("load height {} position {} with {} nodes, belongs: {:?}, traversal: {}", height, skn, len, expect, trv));
    fn go<T: TraversableMerkleTree<u64>>(height: usize, skn: usize, nodes: Vec<u64>) -> Option<(usize, usize, Vec<u64>)> {
        T::load(height, skn, nodes).map(|t| t.store())
    }
    let r = if trv { go::<mttraversal::MT<u64>>(height, skn, nodes.clone()) } else { go::<mtcomplete::MT<u64>>(height, skn, nodes.clone()) };
    match r {
        Some(s) => {
            ensure!(expect == Some(len), "loaded height {} position {} with {} nodes, which need {:?}", height, skn, len, expect);
            ensure!(s == (height, skn, nodes), "stored data differ from what was loaded");
        }
        None => ensure!(expect != Some(len), "refused height {} position {} with the right number {} of nodes", height, skn, len),
    }
    Ok(())
}

// ---------------------------------------------------------------- C15, C16

/// A stand-in tree: one leaf at a chosen position with arbitrary siblings, so that heights and
/// positions no real tree reaches in a test are signed with.
#[derive(Clone)]
struct OnePath {
    height: usize,
    skn: usize,
    root: Trits,
    path: APath<Trits>,
}
thread_local! {
    static ONE: RefCell<(usize, Vec<u8>)> = const { RefCell::new((0, Vec::new())) };
}
impl TraversableMerkleTree<Trits> for OnePath {
    fn gen<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(g: &G, m: &M, height: Height) -> Self {
        let (skn, sib) = ONE.with(|o| o.borrow().clone());
        let mut h = g.gen_leaf(skn);
        let mut path = APath::new(height);
        for (d, n) in sib.chunks(mw::PK).enumerate() {
            let n = tr(n);
            h = if (skn >> d) % 2 == 0 { m.merge_nodes(&h, &n) } else { m.merge_nodes(&n, &h) };
            path.push(n);
        }
        OnePath { height, skn, root: h, path }
    }
    fn next<G: GenLeaf<Trits>, M: MergeNodes<Trits>>(&mut self, _: &G, _: &M) -> bool {
        false
    }
    fn root(&self) -> &Trits {
        &self.root
    }
    fn height(&self) -> Height {
        self.height
    }
    fn skn(&self) -> Idx {
        self.skn
    }
    fn apath(&self) -> APath<Trits> {
        self.path.clone()
    }
    fn store(&self) -> (Height, Idx, Vec<Trits>) {
        (self.height, self.skn, vec![])
    }
    fn load(_: Height, _: Idx, _: Vec<Trits>) -> Option<Self> {
        None
    }
}

pub fn pk_text(pk: &mss::PublicKey) -> String {
    format!("{}", pk)
}

pub struct Keys {
    pub key: Vec<u8>,
    pub nonce: Vec<u8>,
    pub sks: Vec<Vec<u8>>,
    pub levels: Vec<Vec<Vec<u8>>>,
}
pub fn gen_keys(src: &mut Src, height: usize) -> Keys {
    let key = src.trits(243);
    let n = src.any_size(120);
    let nonce = src.trits(n);
    let sks: Vec<Vec<u8>> = (0..1usize << height).map(|i| mw::sk(&key, &mm::leaf_nonce(&nonce, i))).collect();
    let levels = mm::tree(sks.iter().map(|s| mw::pk(s)).collect());
    Keys { key, nonce, sks, levels }
}
pub fn model_sig(k: &Keys, height: usize, i: usize, h: &[u8]) -> Vec<u8> {
    let mut v = mm::head(height, i as i64);
    v.extend(mw::sign(&k.sks[i], h));
    v.extend(mm::path(&k.levels, i));
    v
}
fn check_sig(src: &mut Src, pk: &mss::PublicKey, h: &[u8], sig: &[u8], root: &[u8]) -> Res {
    let hf = Frame::new(src, h);
    // Trailing trits do not disturb recovery, and are refused by verification.
    let extra = src.below(3) as usize * src.range(1, 300);
    let mut long = sig.to_vec();
    long.extend(src.rtrits(extra));
    let lf = Frame::new(src, &long);
    match mss::PublicKey::recover(hf.slice(), lf.slice()) {
        None => return Err(format!("recovery fails on a valid signature followed by {} trits", extra)),
        Some((r, n)) => {
            ensure_eq!(n, sig.len(), "recovered size");
            ensure_eq!(pk_text(&r), model::text(root), "recovered key");
            ensure!(&r == pk, "recovered key differs from the public key");
        }
    }
    let mut apk = {
        let junk = src.rtrits(mw::PK);
        Frame::new(src, &junk)
    };
    ensure_eq!(mss::recover(apk.slice_mut(), hf.slice(), lf.slice()), Some(sig.len()), "size from recover");
    apk.check(root, "key from recover")?;
    ensure_eq!(pk.verify(hf.slice(), lf.slice()), extra == 0, "verification with {} extra trits", extra);
    ensure!(pk.verify(hf.slice(), lf.slice().take(sig.len())), "a valid signature does not verify");
    ensure!(mss::verify(tr(root).slice(), hf.slice(), lf.slice().take(sig.len())), "a valid signature does not verify with the key's trits");
    Ok(())
}
fn c15_keys<T: TraversableMerkleTree<Trits> + Clone>(src: &mut Src, height: usize) -> Res {
    let k = gen_keys(src, height);
    let n = 1usize << height;
    let root = k.levels[height][0].clone();
    src.note(|| format!("height {}, key {}, nonce {}", height, show(&k.key), show(&k.nonce)));
    let p = PRNG::init_trits(&tr(&k.key));
    let nf = Frame::new(src, &k.nonce);
    let mut sk = PrivateKeyT::<T>::gen(&p, nf.slice(), height);
    ensure_eq!(mss::sig_size(height), mm::sig_size(height), "signature size of height {}", height);
    for i in 0..n {
        ensure_eq!(sk.height(), height, "height");
        ensure_eq!(sk.skn(), i, "slot");
        ensure_eq!(sk.skn_left(), n - i, "remaining slots at {}", i);
        ensure_eq!(pk_text(sk.public_key()), model::text(&root), "public key at slot {}", i);
        let times = 1 + (src.below(8) == 0) as usize;
        for _ in 0..times {
            let h = gen_hash(src);
            let mut sig = {
                let junk = src.rtrits(mm::sig_size(height));
                Frame::new(src, &junk)
            };
            sk.sign(tr(&h).slice(), sig.slice_mut());
            let expect = model_sig(&k, height, i, &h);
            sig.check(&expect, &format!("signature of slot {} of height {}", i, height))?;
            let pk = sk.public_key().clone();
            check_sig(src, &pk, &h, &expect, &root)?;
        }
        if src.chance(10) {
            // A clone of the key is independent.
            let mut c = sk.clone();
            c.next();
            ensure_eq!(sk.skn(), i, "slot after advancing a clone");
        }
        ensure_eq!(sk.next(), i + 1 < n, "next after slot {} of {}", i, n);
    }
    for _ in 0..2 {
        ensure_eq!(sk.skn_left(), 0, "remaining slots of an exhausted key");
        ensure_eq!(sk.height(), height, "height of an exhausted key");
        ensure_eq!(pk_text(sk.public_key()), model::text(&root), "public key of an exhausted key");
        let h = tr(&vec![0; mw::HASH]);
        let mut sig = tr(&vec![0; mm::sig_size(height)]);
        ensure!(catch(|| sk.sign(h.slice(), sig.slice_mut())).is_err(), "an exhausted key signs");
        ensure!(!sk.next(), "an exhausted key has a next slot");
    }
    Ok(())
}
/// One key that signs hundreds of times, most of them without moving on.
fn c15_long(src: &mut Src) -> Res {
    let height = src.range(0, 2);
    let k = gen_keys(src, height);
    let root = k.levels[height][0].clone();
    let mut sk = mss::PrivateKey::gen(&PRNG::init_trits(&tr(&k.key)), tr(&k.nonce).slice(), height);
    let n = src.range(258, 330);
    src.nontrivial();
    src.note(|| format!("{} signatures by one key of height {}", n, height));
    let slots = 1usize << height;
    let mut made = 0;
    for i in 0..slots {
        let hs: Vec<(Vec<u8>, Vec<u8>)> = (0..3).map(|_| { let h = gen_hash(src); let s = model_sig(&k, height, i, &h); (h, s) }).collect();
        // Nearly all by the last slot, or by the first.
        let times = if i + 1 == slots { n - made } else if i == 0 && src.bool() { n - 20 } else { 2 };
        for j in 0..times {
            let (h, s) = &hs[j % 3];
            let mut sig = Trits::zero(mm::sig_size(height));
            sk.sign(tr(h).slice(), sig.slice_mut());
            made += 1;
            ensure_trits!(ve(&sig), s, "signature {} of one key, number {} of slot {}", made, j, i);
            ensure_eq!(sk.skn(), i, "slot after {} signatures", made);
            if j % 16 == 15 || j + 3 > times {
                let pk = sk.public_key().clone();
                check_sig(src, &pk, h, s, &root)?;
            }
        }
        ensure_eq!(sk.next(), i + 1 < slots, "next after slot {} of {}, {} signatures", i, slots, made);
    }
    Ok(())
}
fn c15_walk(src: &mut Src) -> Res {
    let height = if src.thorough { src.weighted(&[3, 3, 3, 3, 2, 1]) } else { src.weighted(&[5, 5, 5, 2, 1]) };
    src.nontrivial();
    if src.bool() {
        src.label("traversal");
        c15_keys::<mttraversal::MT<Trits>>(src, height).map_err(|e| format!("{}: {}", TRV, e))
    } else {
        src.label("complete");
        c15_keys::<mtcomplete::MT<Trits>>(src, height).map_err(|e| format!("{}: {}", CPL, e))
    }
}
struct OneKey {
    height: usize,
    skn: usize,
    h: Vec<u8>,
    sig: Vec<u8>,
    root: Vec<u8>,
    real: Vec<u8>,
    pk: mss::PublicKey,
}
fn one_path(src: &mut Src) -> OneKey {
    let height = src.upto(20);
    let n = 1usize << height;
    let skn = match src.below(5) {
        0 => n - 1,
        1 => 0,
        2 => (n / 2).min(n - 1),
        _ => src.below(n as u64) as usize,
    };
    one_path_at(src, height, skn)
}
fn one_path_at(src: &mut Src, height: usize, skn: usize) -> OneKey {
    let key = src.trits(243);
    let len = src.any_size(60);
    let nonce = src.trits(len);
    let sib = src.rtrits(height * mw::PK);
    let sk = mw::sk(&key, &mm::leaf_nonce(&nonce, skn));
    let h = gen_hash(src);
    let mut sig = mm::head(height, skn as i64);
    sig.extend(mw::sign(&sk, &h));
    sig.extend_from_slice(&sib);
    let root = sib.chunks(mw::PK).enumerate().fold(mw::pk(&sk), |x, (d, p)| if (skn >> d) % 2 == 0 { mm::node(&x, p) } else { mm::node(p, &x) });
    ONE.with(|o| *o.borrow_mut() = (skn, sib));
    src.note(|| format!("height {} slot {} of a tree with arbitrary siblings", height, skn));
    let k = PrivateKeyT::<OnePath>::gen(&PRNG::init_trits(&tr(&key)), tr(&nonce).slice(), height);
    let mut real = tr(&vec![0; mm::sig_size(height)]);
    k.sign(tr(&h).slice(), real.slice_mut());
    OneKey { height, skn, h, sig, root, real: ve(&real), pk: k.public_key().clone() }
}
fn c15_high(src: &mut Src) -> Res {
    let k = one_path(src);
    src.nontrivial();
    if k.height > 6 {
        src.label("height above 6");
    }
    ensure_eq!(pk_text(&k.pk), model::text(&k.root), "public key of height {} slot {}", k.height, k.skn);
    ensure_trits!(k.real, k.sig, "signature of height {} slot {}", k.height, k.skn);
    check_sig(src, &k.pk, &k.h, &k.sig, &k.root)
}

fn check_recover(src: &mut Src, what: &str, h: &[u8], sig: &[u8]) -> Result<Option<(Vec<u8>, usize)>, String> {
    let (hf, sf) = (Frame::new(src, h), Frame::new(src, sig));
    let r = mss::PublicKey::recover(hf.slice(), sf.slice());
    let m = mm::recover(h, sig);
    match (&r, &m) {
        (None, None) => {}
        (Some((pk, n)), Some((root, k))) => {
            ensure_eq!(n, k, "{}: recovered size", what);
            ensure_eq!(pk_text(pk), model::text(root), "{}: recovered key", what);
        }
        (Some((_, n)), None) => return Err(format!("{}: recovery succeeds with size {}", what, n)),
        (None, Some((_, k))) => return Err(format!("{}: recovery fails, the signature has size {}", what, k)),
    }
    hf.check(h, "hash after recovery")?;
    sf.check(sig, "signature after recovery")?;
    Ok(m)
}
fn c16_modified(src: &mut Src) -> Res {
    let k = one_path(src);
    // The signature comes from the real code.
    ensure!(k.pk.verify(tr(&k.h).slice(), tr(&k.real).slice()), "a valid signature does not verify");
    src.nontrivial();
    for _ in 0..src.range(3, 6) {
        let (mut h, mut s) = (k.h.clone(), k.real.clone());
        let what;
        match src.below(10) {
            0 => {
                let i = src.below(mw::HASH as u64) as usize;
                bump(src, &mut h, i);
                what = format!("hash trit {} changed", i);
            }
            1 => {
                let i = src.below(mm::SKN as u64) as usize;
                bump(src, &mut s, i);
                what = format!("trit {} of height and slot changed", i);
            }
            2 => {
                let i = mm::SKN + src.below(mw::SIG as u64) as usize;
                bump(src, &mut s, i);
                what = format!("trit {} of the one-time signature changed", i);
            }
            3 if k.height > 0 => {
                let i = mm::SKN + mw::SIG + src.below((k.height * mw::PK) as u64) as usize;
                bump(src, &mut s, i);
                what = format!("trit {} of the path changed", i);
            }
            4 => {
                let n = if src.bool() { s.len() - 1 - src.upto(20) } else { src.upto(s.len() - 1) };
                s.truncate(n);
                what = format!("truncated to {} trits", n);
            }
            5 => {
                let n = if src.bool() { 1 } else { src.range(1, 500) };
                s.extend(src.trits(n));
                what = format!("extended by {} trits", n);
            }
            6 => {
                // Another slot of the same height.
                let j = src.below(1 << k.height);
                s[..18].copy_from_slice(&mm::head(k.height, j as i64));
                what = format!("slot {} instead of {}", j, k.skn);
            }
            7 => {
                // A lower height with the path cut to it, or a higher one with a longer path.
                let d = src.upto(20);
                s[..18].copy_from_slice(&mm::head(d, k.skn as i64));
                s.resize(mm::sig_size(d), 0);
                what = format!("height {} instead of {}", d, k.height);
            }
            8 => {
                let skn = (k.skn + 1) % (1 << k.height).max(2);
                let o = one_path_at(src, k.height, skn.min((1 << k.height) - 1));
                if o.root == k.root {
                    continue;
                }
                src.note(|| "verified with another key".into());
                ensure!(!o.pk.verify(tr(&h).slice(), tr(&s).slice()), "accepted under another key");
                ensure!(!mss::verify(tr(&o.root).slice(), tr(&h).slice(), tr(&s).slice()), "accepted under another key's trits");
                continue;
            }
            _ => {
                let n = if src.bool() { mw::HASH - 1 - src.upto(30) } else { src.upto(400) };
                h = src.trits(n);
                what = format!("hash of {} other trits", n);
            }
        }
        if h == k.h && s == k.real {
            continue;
        }
        src.note(|| what.clone());
        ensure!(!k.pk.verify(tr(&h).slice(), tr(&s).slice()), "accepted: {}", what);
        ensure!(!mss::verify(tr(&k.root).slice(), tr(&h).slice(), tr(&s).slice()), "accepted with the key's trits: {}", what);
        if let Some((root, n)) = check_recover(src, &what, &h, &s)? {
            // Only trailing trits leave the recovered key as it was.
            ensure!(root != k.root || (n < s.len() && s[..n] == k.real[..]), "harness: model recovers the signer after: {}", what);
        }
    }
    Ok(())
}
fn c16_hostile(src: &mut Src) -> Res {
    // A header of any height and slot, a body of any size.
    let d = match src.below(4) {
        0 => src.irange(-40, 40),
        1 => src.irange(0, 40),
        _ => src.irange(0, 6),
    };
    let lim = if (0..=40).contains(&d) { 1i64 << d } else { 1 };
    let top = 2391484i64;
    let skn = match src.below(8) {
        0 => src.irange(-top, top),
        1 => lim.min(top),
        2 => (lim - 1).min(top),
        3 => -1,
        4 => top,
        5 => -src.irange(1, top),
        _ => src.irange(0, (lim - 1).min(top)),
    };
    let mut head = model::trits_of(d, 4);
    head.extend(model::trits_of(skn, 14));
    let full = mm::sig_size(d.max(0) as usize);
    let n = match src.below(8) {
        0 => src.upto(40),
        1 => full - 1,
        2 => full + 1,
        3 => src.upto(full),
        4 => 18 + mw::SIG + src.upto(3),
        5 => full + src.upto(600),
        _ => full,
    };
    let mut sig = src.trits(n);
    for (i, t) in head.iter().enumerate() {
        if i < n {
            sig[i] = *t;
        }
    }
    let hn = match src.below(6) {
        0 => src.upto(500),
        1 => *src.pick(&[0usize, 1, 233, 235, 243, 3, 231, 237]),
        _ => mw::HASH,
    };
    let h = src.trits(hn);
    src.note(|| format!("height {} slot {} in {} trits (a signature of that height has {}), hash of {} trits", d, skn, n, full, hn));
    let what = format!("height {} slot {} in {} trits, hash of {} trits", d, skn, n, hn);
    if hn != mw::HASH {
        src.label("hash of a wrong size");
    }
    let m = check_recover(src, &what, &h, &sig)?;
    match &m {
        Some((root, k)) => {
            src.label("recovers");
            src.nontrivial();
            let v = mss::verify(tr(root).slice(), tr(&h).slice(), tr(&sig).slice());
            ensure_eq!(v, *k == n, "{}: verification with the recovered key", what);
            let other = src.rtrits(mw::PK);
            if other != *root {
                ensure!(!mss::verify(tr(&other).slice(), tr(&h).slice(), tr(&sig).slice()), "{}: accepted under an arbitrary key", what);
            }
        }
        None => {
            src.label("refused");
            src.nontrivial();
            let pk = src.rtrits(mw::PK);
            ensure!(!mss::verify(tr(&pk).slice(), tr(&h).slice(), tr(&sig).slice()), "{}: accepted", what);
        }
    }
    Ok(())
}
fn c16_garbage(src: &mut Src) -> Res {
    let n = src.upto(15_000);
    let sig = src.trits(n);
    let hn = if src.chance(30) { src.upto(300) } else { mw::HASH };
    let h = src.trits(hn);
    src.nontrivial();
    src.note(|| format!("{} arbitrary trits, hash of {}", n, hn));
    check_recover(src, &format!("{} arbitrary trits with a hash of {}", n, hn), &h, &sig)?;
    Ok(())
}

// ---------------------------------------------------------------- C34

thread_local! {
    /// Nodes alive, and the most at any time.
    static LIVE: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}
/// A node that knows how many of its kind there are.
struct Counted(u64);
fn born(v: u64) -> Counted {
    LIVE.with(|c| {
        let (a, b) = c.get();
        c.set((a + 1, b.max(a + 1)))
    });
    Counted(v)
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        born(self.0)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        LIVE.with(|c| {
            let (a, b) = c.get();
            c.set((a.wrapping_sub(1), b))
        })
    }
}
fn alive() -> (usize, usize) {
    LIVE.with(|c| c.get())
}
fn live_from_here() -> usize {
    LIVE.with(|c| {
        let a = c.get().0;
        c.set((a, a));
        a
    })
}
/// Most nodes the traversal tree may hold between two calls: root, path and one stack per level.
fn held(height: usize) -> usize {
    1 + height + height * (height + 1) / 2
}
fn cost<T: TraversableMerkleTree<Counted>>(f: Fun, height: usize, trv: bool, until: usize) -> Res {
    let n = 1usize << height;
    let leaves = RefCell::new(vec![0u32; n]);
    let merges = std::cell::Cell::new(0usize);
    let early = std::cell::Cell::new(usize::MAX);
    let made = std::cell::Cell::new(0usize);
    let g = |i: Idx| {
        leaves.borrow_mut()[i] += 1;
        made.set(made.get() + 1);
        early.set(early.get().min(i));
        born(f.leaf(i))
    };
    let m = |a: &Counted, b: &Counted| {
        merges.set(merges.get() + 1);
        born(f.merge(a.0, b.0))
    };
    let name = if trv { TRV } else { CPL };
    let base = live_from_here();
    let mut t = T::gen(&g, &m, height);
    ensure!(leaves.borrow().iter().all(|c| *c == 1), "{}: generating height {} does not compute every leaf exactly once", name, height);
    ensure_eq!(merges.get(), n - 1, "{}: inner nodes computed when generating height {}", name, height);
    let (now, peak) = alive();
    // Some room for another way of keeping the same nodes.
    let limit = if trv { held(height) } else { 2 * n - 1 } + height + 4;
    ensure!(now - base <= limit, "{}: {} nodes held after generating height {}, at most {} are needed", name, now - base, height, limit);
    ensure!(peak - base <= 2 * limit + 8, "{}: up to {} nodes held while generating height {}, at most {} are needed", name, peak - base, height, limit);
    let (mut nl, mut nm) = (n, n - 1);
    let often = if n <= 4096 { 7 } else { n / 600 + 7 };
    for i in 0..until {
        live_from_here();
        early.set(usize::MAX);
        let more = t.next(&g, &m);
        ensure_eq!(more, i + 1 < n, "{}: next after {} of {}", name, i, n);
        let (l, mm): (usize, usize) = (made.get(), merges.get());
        let work = (l - nl) + (mm - nm);
        let most = if trv { 2 * height + 2 } else { 0 };
        ensure!(work <= most, "{}: {} leaves and {} inner nodes computed for the step to {} of height {}, at most {} nodes are needed", name, l - nl, mm - nm, i + 1, height, most);
        ensure!(early.get() > i, "{}: leaf {} computed again in the step to {}", name, early.get(), i + 1);
        (nl, nm) = (l, mm);
        let (now, peak) = alive();
        let most = limit;
        ensure!(now - base <= most, "{}: {} nodes held at {} of height {}, at most {} are needed", name, now - base, i + 1, height, most);
        ensure!(peak - base <= 2 * limit + 8, "{}: up to {} nodes held during the step to {} of height {}, at most {} are needed", name, peak - base, i + 1, height, limit);
        if i % often == 0 || !more {
            let (_, _, nodes) = t.store();
            ensure!(nodes.len() <= most, "{}: {} nodes stored at {} of height {}, at most {} are needed", name, nodes.len(), i + 1, height, most);
        }
    }
    if until == n {
        for _ in 0..2 {
            t.next(&g, &m);
        }
        let l = made.get();
        ensure!((l, merges.get()) == (nl, nm), "{}: nodes computed after the end", name);
        ensure!(!trv || nl <= n * (height + 1), "{}: {} leaves computed over the life of height {}", name, nl, height);
    }
    Ok(())
}
fn c34_every(src: &mut Src) -> Res {
    let i = src.below(HIGH) as usize;
    let (height, trv) = (i / 2, i % 2 == 1);
    src.note(|| format!("height {}, {}", height, if trv { TRV } else { CPL }));
    if height > 1 {
        src.nontrivial();
    }
    let f = Fun { seed: 1, kind: 0 };
    if trv {
        cost::<mttraversal::MT<Counted>>(f, height, true, 1 << height)
    } else {
        cost::<mtcomplete::MT<Counted>>(f, height, false, 1 << height)
    }
}
fn c34_loaded(src: &mut Src) -> Res {
    // A loaded tree needs no more than the original.
    let height = src.upto(10);
    let n = 1usize << height;
    let f = Fun::gen(src);
    let at = src.below(n as u64) as usize;
    src.note(|| format!("height {} loaded at {}", height, at));
    if height > 2 {
        src.nontrivial();
    }
    let lv = f.levels(height);
    let leaves = RefCell::new(Vec::new());
    let merges = std::cell::Cell::new(0usize);
    let g = |i: Idx| {
        leaves.borrow_mut().push(i);
        born(f.leaf(i))
    };
    let m = |a: &Counted, b: &Counted| {
        merges.set(merges.get() + 1);
        born(f.merge(a.0, b.0))
    };
    let mut t = mttraversal::MT::<Counted>::gen(&g, &m, height);
    for _ in 0..at {
        t.next(&g, &m);
    }
    let (h, s, v) = t.store();
    drop(t);
    leaves.borrow_mut().clear();
    merges.set(0);
    let mut t = mttraversal::MT::<Counted>::load(h, s, v).ok_or("a stored tree does not load")?;
    ensure!(leaves.borrow().is_empty() && merges.get() == 0, "{}: loading computes nodes", TRV);
    for i in at..n {
        let before = (leaves.borrow().len(), merges.get());
        t.next(&g, &m);
        let work = leaves.borrow().len() - before.0 + merges.get() - before.1;
        ensure!(work <= 2 * height + 2, "{}: {} nodes computed for the step to {} of a loaded tree of height {}", TRV, work, i + 1, height);
        ensure_eq!(t.root().0, lv[height][0], "{}: root of the loaded tree", TRV);
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C11",
            rule: "a case makes a one-time key from random key and nonces and signs 1..3 hashes, everything compared with the chain model, or recovers from arbitrary trits; non-trivial: at least one hash signed or recovered",
            sections: vec![
                sec("sign and verify", 900, 20_000, c11_wots).rel(15),
                sec("recover arbitrary", 1500, 20_000, c11_recover).rel(15),
                sec("long lives", 8, 100, c11_long).rel(15),
            ],
        },
        Property {
            id: "C12",
            rule: "a case makes a key and a valid signature and tries changed hashes, changed signatures, other keys or forward-advanced chains; non-trivial: at least one such attempt",
            sections: vec![
                exh("every hash trit", 468, c12_hash_trits),
                exh("every pair of digits", 2 * 27 * 27, c12_steps).rel(10),
                sec("modifications", 800, 20_000, c12_reject).rel(15),
                sec("advanced chains", 800, 20_000, c12_forge).rel(15),
            ],
        },
        Property {
            id: "C13",
            rule: "a case builds a tree over random leaf and merge functions and walks it past its end, checking root, height, position and every path node; non-trivial: height at least 2 (1 for the symbolic and high sections)",
            sections: vec![
                Section { thorough: HIGH, ..exh("every height to 18", 2 * 19, c13_high) },
                sec("walk", 300_000, 15_000_000, c13_walk),
                sec("symbolic nodes", 300_000, 15_000_000, c13_symbolic),
                sec("folding", 300_000, 15_000_000, c13_fold),
            ],
        },
        Property {
            id: "C14",
            rule: "a case stores and loads a tree at several (or all) positions and continues both copies in step to the end, or loads an arbitrary tuple; non-trivial: height at least 2, or any tuple",
            sections: vec![sec("resume", 100_000, 5_000_000, c14_resume), sec("high trees", 1_200, 60_000, c14_high), sec("load any tuple", 2_000_000, 100_000_000, c14_load)],
        },
        Property {
            id: "C34",
            rule: "a case counts the leaves and inner nodes computed and the nodes alive while generating and walking a whole tree, or after loading one; non-trivial: height at least 2 (3 when loaded)",
            sections: vec![Section { thorough: HIGH, ..exh("every height to 18", 2 * 19, c34_every) }, sec("loaded trees", 60_000, 3_000_000, c34_loaded)],
        },
        Property {
            id: "C15",
            rule: "a case generates a key of height 0..4 (0..5 thorough) with either tree and signs with every slot past exhaustion, or signs with one slot of a tree of height 0..20; all are non-trivial",
            sections: vec![
                sec("all slots", 160, 3_000, c15_walk).rel(15),
                sec("high trees", 900, 20_000, c15_high).rel(15),
                sec("long lives", 8, 100, c15_long).rel(15),
            ],
        },
        Property {
            id: "C16",
            rule: "a case modifies a valid signature 3..6 times, or recovers from a hostile header and body or arbitrary trits, against the model; non-trivial: a modification was tried or an input decided",
            sections: vec![
                sec("modified signatures", 700, 20_000, c16_modified).rel(15),
                sec("hostile headers", 3_000, 60_000, c16_hostile).rel(15),
                sec("arbitrary trits", 2_000, 40_000, c16_garbage).rel(15),
            ],
        },
    ]
}
