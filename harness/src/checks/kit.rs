//! Keys, states and message models shared by the checks of fields and messages.

use crate::engine::*;
use crate::model::{self, mss as mm, ntru as mn, spongos::Sp};
use crate::util::*;
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::pb3::Absorb;
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

// ---------------------------------------------------------------- keys

pub const MSS_KEYS: usize = 3;

thread_local! {
    static MSS: RefCell<HashMap<(usize, usize), Rc<(RefCell<Vec<mss::PrivateKey>>, Vec<u8>)>>> = RefCell::new(HashMap::new());
    static NTRU: RefCell<HashMap<usize, Rc<Pair>>> = RefCell::new(HashMap::new());
}

/// A signing key standing at some slot, and its public key as the model recovers it.
#[derive(Clone)]
pub struct Signer {
    pub sk: mss::PrivateKey,
    pub pk: Vec<u8>,
    pub h: usize,
    pub id: usize,
    pub slot: usize,
}
impl Signer {
    pub fn sig_size(&self) -> usize {
        mm::sig_size(self.h)
    }
    pub fn sign(&self, hash: &[u8]) -> Vec<u8> {
        let mut t = Trits::zero(self.sig_size());
        self.sk.sign(tr(hash).slice(), t.slice_mut());
        ve(&t)
    }
    pub fn real_pk(&self) -> mss::PublicKey {
        mss_pk(&self.pk)
    }
    pub fn name(&self) -> String {
        format!("signer {} of height {} at slot {}", self.id, self.h, self.slot)
    }
}

/// Key `id` of height `h` at the slots reached so far. Generated once per thread, from fixed seeds.
fn mss_base(h: usize, id: usize) -> Rc<(RefCell<Vec<mss::PrivateKey>>, Vec<u8>)> {
    if let Some(k) = MSS.with(|m| m.borrow().get(&(h, id)).cloned()) {
        return k;
    }
    let mut r = Rng::new(mix(0x6d73_735f + (h * 100 + id) as u64));
    let key: Vec<u8> = (0..243).map(|_| r.below(3) as u8).collect();
    let sk = mss::PrivateKey::gen(&PRNG::init_trits(&tr(&key)), tr(&[1, 2, 0, 1]).slice(), h);
    let hash = vec![1u8; 234];
    let mut sig = Trits::zero(mm::sig_size(h));
    sk.sign(tr(&hash).slice(), sig.slice_mut());
    let pk = mm::recover(&hash, &ve(&sig)).map(|x| x.0).unwrap_or_else(|| vec![0; 243]);
    let k = Rc::new((RefCell::new(vec![sk]), pk));
    MSS.with(|m| m.borrow_mut().insert((h, id), k.clone()));
    k
}
pub fn signer_at(h: usize, id: usize, slot: usize) -> Signer {
    let b = mss_base(h, id);
    let mut at = b.0.borrow_mut();
    while at.len() <= slot {
        let mut sk = at[at.len() - 1].clone();
        sk.next();
        at.push(sk);
    }
    Signer { sk: at[slot].clone(), pk: b.1.clone(), h, id, slot }
}
pub fn signer(src: &mut Src) -> Signer {
    let h = src.weighted(&[30, 30, 20, 10, 2, 1]);
    let id = src.below(MSS_KEYS as u64) as usize;
    // One key is enough at heights that take time.
    let id = if h < 4 { id } else { 0 };
    let slot = src.below(1 << h) as usize;
    signer_at(h, id, slot)
}
pub fn mss_pk(t: &[u8]) -> mss::PublicKey {
    let t = tr(t);
    mss::PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut t.slice()).expect("harness: public key of a wrong size")
}
pub fn mss_pk_trits(pk: &mss::PublicKey) -> Vec<u8> {
    let mut t = Trits::zero(243);
    pk.wrap_absorb(&mut Spongos::init(), &mut t.slice_mut());
    ve(&t)
}

pub struct Pair {
    pub sk: ntru::PrivateKey,
    pub pk: ntru::PublicKey,
    pub m: mn::Key,
    pub id: usize,
}
pub const NTRU_KEYS: usize = 5;
pub fn ntru_pair(id: usize) -> Rc<Pair> {
    if let Some(k) = NTRU.with(|m| m.borrow().get(&id).cloned()) {
        return k;
    }
    let mut r = Rng::new(mix(0x6e74_7275 + id as u64));
    let key: Vec<u8> = (0..243).map(|_| r.below(3) as u8).collect();
    let nonce = vec![1u8, 1, 2];
    let m = mn::gen(&key, &nonce);
    let (sk, pk) = ntru::gen(&PRNG::init_trits(&tr(&key)), tr(&nonce).slice());
    let k = Rc::new(Pair { sk, pk, m, id });
    NTRU.with(|m| m.borrow_mut().insert(id, k.clone()));
    k
}
pub fn pair(src: &mut Src) -> Rc<Pair> {
    ntru_pair(src.below(NTRU_KEYS as u64) as usize)
}
/// 9216 trits that are no public key.
pub fn bad_ntru_pk(src: &mut Src) -> Vec<u8> {
    use model::ring as mr;
    match src.below(3) {
        0 => {
            // Not invertible.
            let mut r = Rng::new(src.raw());
            let mut v: mr::P = (0..mr::N).map(|_| 1 + r.below(mr::Q as u64 - 1) as i64).collect();
            let i = src.below(mr::N as u64) as usize;
            v[i] = 0;
            mr::to_trits(&mr::intt(&v))
        }
        1 => {
            // One coefficient out of range.
            let mut t = pair(src).m.pk.clone();
            let i = src.below(mr::N as u64) as usize;
            let w = *src.pick(&[1i64, -1]) * src.irange(mr::HALF + 1, 9841);
            t[9 * i..9 * i + 9].copy_from_slice(&model::trits_of(w, 9));
            t
        }
        _ => vec![0; 9216],
    }
}

// ---------------------------------------------------------------- states

/// The state of a processed message: committed, then up to a block squeezed.
pub fn link_state(src: &mut Src) -> Result<(Spongos, Sp), String> {
    let (mut s, mut m) = super::sponge::sp_state(src)?;
    // Never the zero state: there is no padding, so zeros joined into zeros leave no trace.
    if src.chance(90) || m.st.iter().all(|t| *t == 0) {
        let x = src.rtrits(9);
        s.absorb(tr(&x).slice());
        m.absorb(&x);
    }
    s.commit();
    m.commit();
    let n = match src.below(4) {
        0 => 0,
        1 => 234,
        2 => 243,
        _ => src.upto(486),
    };
    let _ = s.squeeze_trits(n);
    m.squeeze(n);
    Ok((s, m))
}

// ---------------------------------------------------------------- message parts

pub fn size_trytes(n: u128) -> usize {
    let (mut d, mut max) = (0, 0u128);
    while n > max {
        max = max * 27 + 13;
        d += 1;
    }
    d
}
/// Minimal balanced base-27 encoding of a size behind its number of trytes.
pub fn size_enc(n: u64) -> Vec<u8> {
    let d = size_trytes(n as u128);
    let mut v = model::trits_of(d as i64, 3);
    let mut n = n as i128;
    for _ in 0..d {
        let mut r = n.rem_euclid(27);
        if r > 13 {
            r -= 27;
        }
        v.extend(model::trits_of(r as i64, 3));
        n = (n - r) / 27;
    }
    v
}
/// Value and length of the size encoded at the start of `t`.
pub fn size_dec(t: &[u8]) -> Option<(u64, usize)> {
    if t.len() < 3 {
        return None;
    }
    let d = model::value(&t[..3]);
    if !(0..=13).contains(&d) {
        return None;
    }
    let d = d as usize;
    if t.len() < 3 + 3 * d {
        return None;
    }
    let mut v = 0i128;
    for c in t[3..3 + 3 * d].chunks(3).rev() {
        v = v * 27 + model::value(c) as i128;
    }
    if d > 0 && model::value(&t[3 * d..3 * d + 3]) <= 0 {
        return None;
    }
    Some((v as u64, 3 + 3 * d))
}

/// The model of a writer.
pub struct W {
    pub s: Sp,
    pub w: Vec<u8>,
}
impl W {
    pub fn new(s: Sp) -> W {
        W { s, w: Vec::new() }
    }
    pub fn absorb(&mut self, x: &[u8]) {
        self.s.absorb(x);
        self.w.extend_from_slice(x);
    }
    pub fn mask(&mut self, x: &[u8]) {
        let y = self.s.encr(x);
        self.w.extend(y);
    }
    pub fn put(&mut self, x: &[u8], mask: bool) {
        if mask {
            self.mask(x)
        } else {
            self.absorb(x)
        }
    }
    pub fn trytes(&mut self, x: &[u8], mask: bool) {
        let mut v = size_enc(x.len() as u64 / 3);
        v.extend_from_slice(x);
        self.put(&v, mask);
    }
    pub fn join(&mut self, id: &[u8], l: &mut Sp) {
        self.s.join(l);
        self.w.extend_from_slice(id);
    }
    pub fn mac(&mut self) {
        self.s.commit();
        let m = self.s.squeeze(243);
        self.w.extend(m);
    }
    pub fn tag(&mut self) -> Vec<u8> {
        self.s.commit();
        self.s.squeeze(234)
    }
    pub fn sig(&mut self, k: &Signer) {
        let h = self.tag();
        self.w.extend(k.sign(&h));
    }
    pub fn kem(&mut self, p: &Pair, prng: &[u8], nonce: &[u8], key: &[u8]) {
        let c = mn::encr(&mut self.s, prng, nonce, &p.m.pk, &p.m.th, key);
        self.w.extend(c);
    }
}

/// Random trits, `n` trytes long, with `n` biased to small values and the steps of size fields.
pub fn payload(src: &mut Src, max: usize) -> Vec<u8> {
    if src.big > 0 && src.bool() {
        // Also around the largest size with a length of three trytes, and around 65 536 trytes.
        let n = match src.below(20) {
            0..=5 => 9838 + src.upto(7),
            6 => 65_530 + src.upto(12),
            _ => src.size(max) / 3,
        };
        return src.trits(3 * n);
    }
    let n = match src.below(5) {
        0 => 0,
        1 => src.range(1, 5),
        2 => (*src.pick(&[13usize, 14, 364, 365, 162, 81])).min(max),
        3 => src.upto(max.min(60)),
        _ => src.upto(max),
    };
    src.trits(3 * n)
}

/// A changed version of `w`, different within its length; None if the drawn change is no change.
pub fn alter(src: &mut Src, w: &[u8]) -> Option<(Vec<u8>, String)> {
    let n = w.len();
    let mut v = w.to_vec();
    let bump = |src: &mut Src, v: &mut Vec<u8>, i: usize| v[i] = (v[i] + 1 + src.below(2) as u8) % 3;
    let what;
    match src.weighted(&[10, 2, 2, 2, 2, 1, 2]) {
        0 => {
            let i = src.below(n as u64) as usize;
            bump(src, &mut v, i);
            what = format!("trit {} of {} changed", i, n);
        }
        1 => {
            let k = src.range(2, 5);
            for _ in 0..k {
                let i = src.below(n as u64) as usize;
                bump(src, &mut v, i);
            }
            what = format!("up to {} trits changed", k);
        }
        2 => {
            let k = src.range(1, n.min(30));
            v.truncate(n - k);
            what = format!("{} trits cut off", k);
        }
        3 => {
            let i = src.below(n as u64) as usize;
            let k = src.range(1, (n - i).min(90));
            let r = src.trits(k);
            v[i..i + k].copy_from_slice(&r);
            what = format!("{} trits replaced from {}", k, i);
        }
        4 => {
            let i = src.below(n as u64) as usize;
            let j = src.below(n as u64) as usize;
            v.swap(i, j);
            what = format!("trits {} and {} swapped", i, j);
        }
        5 => {
            let i = src.below(n as u64) as usize;
            let k = src.range(1, 4);
            let r = src.trits(k);
            v.splice(i..i, r);
            what = format!("{} trits inserted at {}", k, i);
        }
        _ => {
            let i = src.below(n as u64) as usize;
            let k = src.range(1, (n - i).min(4));
            v.drain(i..i + k);
            v.extend(vec![0; k]);
            what = format!("{} trits removed at {}", k, i);
        }
    }
    if v.len() >= n && v[..n] == w[..] {
        return None;
    }
    Some((v, what))
}
/// Change one trit at `i`, deterministically from `i`.
pub fn flip(w: &[u8], i: usize, by: u8) -> Vec<u8> {
    let mut v = w.to_vec();
    v[i] = (v[i] + by) % 3;
    v
}
