//! C33, C35, C36: identity of values, independence of objects, names of errors.

use super::app::{exchange, other_link, prior};
use super::kit::*;
use super::msg::{self, *};
use super::mss::{gen_hash, model_sig, pk_text, Fun, Leaf, Merge};
use super::ring::{gen_poly, poly, same};
use super::sponge::{sp_op, sp_state};
use crate::engine::*;
use crate::model::{self, mss as mm, ntru as mn, ring as mr, spongos as ms, troika as mt, wots as mw};
use crate::util::*;
use crate::{ensure, ensure_eq, ensure_trits};
use iota_mam::app::core::MsgId;
use iota_mam::mss::mt::{APath, TraversableMerkleTree};
use iota_mam::mss::{mtcomplete, mttraversal, PrivateKeyT};
use iota_mam::ntru;
use iota_mam::pb3::{self, Absorb, Err as E};
use iota_mam::prng::PRNG;
use iota_mam::spongos::{self, Spongos};
use iota_mam::trits::*;
use iota_mam::troika::{Troika, TroikaSponge};
use iota_mam::wots;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

// ---------------------------------------------------------------- C33

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Near-equal contents of one size (or, with `sizes`, of close sizes).
fn contents(src: &mut Src, n: usize, sizes: bool) -> Vec<Vec<u8>> {
    let base = src.trits(n);
    let k = src.range(2, 6);
    let mut v = vec![base.clone()];
    for _ in 0..k {
        let mut c = src.pick(&v).clone();
        match src.below(if sizes { 6 } else { 4 }) {
            0 => {}
            1 if !c.is_empty() => {
                let i = src.below(c.len() as u64) as usize;
                c[i] = (c[i] + 1 + src.below(2) as u8) % 3;
            }
            2 if !c.is_empty() => {
                // At either end.
                let i = if src.bool() { 0 } else { c.len() - 1 };
                c[i] = (c[i] + 1 + src.below(2) as u8) % 3;
            }
            4 => {
                let m = src.upto(c.len());
                c.truncate(m);
            }
            5 => {
                let m = src.range(1, 3);
                c.extend(if src.bool() { vec![0; m] } else { src.trits(m) });
            }
            3 if c.len() >= 2 => {
                let (i, j) = (src.below(c.len() as u64) as usize, src.below(c.len() as u64) as usize);
                c.swap(i, j);
            }
            _ => c = src.trits(c.len()),
        }
        v.push(c);
    }
    v
}
/// A container with the given content, made in one of several ways.
fn made(src: &mut Src, c: &[u8]) -> Result<Trits, String> {
    let n = c.len();
    let ways = if n % 3 == 0 { 6 } else { 5 };
    Ok(match src.below(ways) {
        0 => tr(c),
        1 => Frame::new(src, c).slice().clone_trits(),
        2 => {
            // Overwritten.
            let mut t = tr(&src.trits(n));
            t.slice_mut().set_zero();
            tr(c).slice().copy(t.slice_mut());
            t
        }
        3 => {
            // In two parts.
            let k = src.upto(n);
            let mut t = Trits::zero(n);
            let mut m = t.slice_mut();
            m.advance(k).put_trits(&c[..k]);
            m.put_trits(&c[k..]);
            t
        }
        4 => {
            // Through a key stream and back.
            let (mut s, mut d) = (Spongos::init(), Spongos::init());
            let y = s.encr_trits(&tr(c));
            d.decr_trits(&y)
        }
        _ => Trits::from_str(&model::text(c)).ok_or("text of trits is refused")?,
    })
}
fn made_id(src: &mut Src, c: &[u8]) -> Result<MsgId, String> {
    let t = made(src, c)?;
    Ok(match src.below(3) {
        0 => MsgId::verif_new(t),
        1 => MsgId::verif_new(t).clone(),
        _ => {
            let f = Frame::new(src, c);
            MsgId::unwrap_absorb_sized(&mut Spongos::init(), &mut f.slice()).map_err(|e| e.to_string())?
        }
    })
}
/// `a == b` both ways and `!=`, against the contents.
macro_rules! check_eq {
    ($a:expr, $b:expr, $same:expr, $what:expr) => {
        ensure!(($a == $b) == $same && ($b == $a) == $same && ($a != $b) != $same, "{} compare as {} although their contents {}", $what, if $a == $b { "equal" } else { "different" }, if $same { "are equal" } else { "differ" });
    };
}
fn c33_equal(src: &mut Src) -> Res {
    let n = src.size(260);
    let cs = contents(src, n, true);
    src.note(|| format!("{:?}", cs.iter().map(|c| show(c)).collect::<Vec<_>>()));
    let mut ts = Vec::new();
    for c in &cs {
        ts.push(made(src, c)?);
    }
    let (mut eq, mut ne) = (false, false);
    for i in 0..cs.len() {
        for j in 0..cs.len() {
            let same = cs[i] == cs[j];
            if i != j {
                eq |= same;
                ne |= !same;
            }
            check_eq!(ts[i], ts[j], same, "containers");
            check_eq!(ts[i].slice(), ts[j].slice(), same, "views");
            let (mut a, mut b) = (ts[i].clone(), ts[j].clone());
            check_eq!(a.slice_mut(), b.slice_mut(), same, "mutable views");
            let f = Frame::new(src, &cs[j]);
            check_eq!(ts[i].slice(), f.slice(), same, "views with surroundings");
            check_eq!(pb3::Trytes(a.clone()), pb3::Trytes(b.clone()), same, "trytes");
            if same {
                ensure_eq!(hash_of(&a), hash_of(&b), "hash of an equal container");
            }
            ensure_eq!(a.to_str() == b.to_str() && a.size() == b.size(), same || (a.size() == b.size() && model::text(&cs[i]) == model::text(&cs[j])), "texts of containers");
        }
    }
    // Parts of one buffer: the same place with other sizes, other places with the same content.
    let mut buf = ts[0].clone();
    let k = src.range(2, 6);
    let mut parts: Vec<(usize, usize)> = Vec::new();
    for _ in 0..k {
        let (a, b) = match (src.below(4), parts.last().copied()) {
            (0, Some((a, _))) => (a, src.range(a, n)),
            (1, Some((_, b))) => (src.upto(b), b),
            (2, _) => {
                let a = src.upto(n);
                (a, a)
            }
            _ => {
                let a = src.upto(n);
                (a, src.range(a, n))
            }
        };
        parts.push((a, b));
    }
    src.note(|| format!("parts {:?}", parts));
    for i in 0..k {
        for j in 0..k {
            let ((a, b), (c, d)) = (parts[i], parts[j]);
            let same = cs[0][a..b] == cs[0][c..d];
            let v = buf.slice();
            check_eq!(v.drop(a).take(b - a), v.drop(c).take(d - c), same, "parts of a buffer");
            let m = buf.slice_mut();
            check_eq!(m.drop(a).take(b - a), m.drop(c).take(d - c), same, "mutable parts of a buffer");
        }
    }
    if eq && ne {
        src.nontrivial();
    }
    Ok(())
}
fn c33_names(src: &mut Src) -> Res {
    // Message identifiers, instances and public keys.
    let what = src.below(4);
    let n = match what {
        0 => 81,
        _ => 243,
    };
    let cs = contents(src, n, false);
    let (mut eq, mut ne) = (false, false);
    match what {
        0 => {
            let mut v = Vec::new();
            for c in &cs {
                v.push(made_id(src, c)?);
            }
            for i in 0..cs.len() {
                for j in 0..cs.len() {
                    let same = cs[i] == cs[j];
                    check_eq!(v[i], v[j], same, "message identifiers");
                    ensure!(!same || hash_of(&v[i]) == hash_of(&v[j]), "equal message identifiers have different hashes");
                    eq |= same && i != j;
                    ne |= !same;
                }
            }
        }
        1 => {
            let mut v = Vec::new();
            for c in &cs {
                v.push(iota_mam::app::core::AppInst::verif_new(made(src, c)?));
            }
            for i in 0..cs.len() {
                for j in 0..cs.len() {
                    let same = cs[i] == cs[j];
                    check_eq!(v[i], v[j], same, "instances");
                    check_eq!(v[i].clone(), v[j], same, "instances");
                    eq |= same && i != j;
                    ne |= !same;
                }
            }
        }
        2 => {
            let mut v = Vec::new();
            for c in &cs {
                v.push(mss_pk(c));
            }
            for i in 0..cs.len() {
                ensure_eq!(pk_text(&v[i]), model::text(&cs[i]), "text of a public key");
                for j in 0..cs.len() {
                    let same = cs[i] == cs[j];
                    check_eq!(v[i], v[j], same, "public keys");
                    eq |= same && i != j;
                    ne |= !same;
                }
            }
        }
        _ => {
            let mut v: Vec<(Vec<u8>, ntru::PublicKey)> = Vec::new();
            for _ in 0..src.range(2, 5) {
                let p = pair(src);
                let mut c = p.m.pk.clone();
                if src.chance(50) {
                    // A key that differs in one coefficient from a generated one, if there is one.
                    let at = 9 * src.below(1024) as usize;
                    let x = src.range(0, 12288) as i64 - 6144;
                    c[at..at + 9].copy_from_slice(&model::trits_of(x, 9));
                    if ntru::PublicKey::from_trits(tr(&c)).is_none() {
                        c = p.m.pk.clone();
                    }
                }
                let k = match src.below(3) {
                    0 if c == p.m.pk => p.pk.clone(),
                    0 => ntru::PublicKey::from_slice(tr(&c).slice()).ok_or("a public key does not import")?,
                    1 => ntru::PublicKey::from_trits(tr(&c)).ok_or("a public key does not import")?,
                    _ => {
                        let f = Frame::new(src, &c);
                        ntru::PublicKey::unwrap_absorb_sized(&mut Spongos::init(), &mut f.slice()).map_err(|e| e.to_string())?
                    }
                };
                v.push((c, k));
            }
            for (i, a) in v.iter().enumerate() {
                ensure_eq!(format!("{}", a.1), model::text(&a.0), "text of an NTRU public key");
                for (j, b) in v.iter().enumerate() {
                    let same = a.0 == b.0;
                    check_eq!(a.1, b.1, same, "NTRU public keys");
                    eq |= same && i != j;
                    ne |= !same;
                }
            }
        }
    }
    src.label(["message identifiers", "instances", "MSS public keys", "NTRU public keys"][what as usize]);
    if eq && ne {
        src.nontrivial();
    }
    Ok(())
}
fn c33_large(src: &mut Src) -> Res {
    src.big = 1;
    if src.bool() {
        c33_equal(src)
    } else {
        c33_map(src)
    }
}
/// Histories of maps keyed by trits and by message identifiers.
fn c33_map(src: &mut Src) -> Res {
    let ids = src.bool();
    let n = if ids { 81 } else { src.size(90) };
    let mut pool = contents(src, n, !ids);
    pool.extend(contents(src, n, !ids));
    let mut a: HashMap<Trits, u64> = HashMap::new();
    let mut b: HashMap<MsgId, u64> = HashMap::new();
    let mut m: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
    let ops = src.range(2, 40);
    let (mut hit, mut miss) = (false, false);
    for k in 0..ops as u64 {
        let c = src.pick(&pool).clone();
        let op = src.below(4);
        src.note(|| format!("{} {}", ["insert", "insert", "look up", "remove"][op as usize], show(&c)));
        let expect = m.get(&c).copied();
        hit |= expect.is_some();
        miss |= expect.is_none() && !m.is_empty();
        let got = if ids {
            let key = made_id(src, &c)?;
            match op {
                0 | 1 => b.insert(key, k),
                2 => b.get(&key).copied(),
                _ => b.remove(&key),
            }
        } else {
            let key = made(src, &c)?;
            match op {
                0 | 1 => a.insert(key, k),
                2 => a.get(&key).copied(),
                _ => a.remove(&key),
            }
        };
        match op {
            0 | 1 => {
                m.insert(c.clone(), k);
            }
            2 => {}
            _ => {
                m.remove(&c);
            }
        }
        ensure_eq!(got, expect, "value under {} before operation {}", show(&c), k);
        ensure_eq!(if ids { b.len() } else { a.len() }, m.len(), "entries after operation {}", k);
    }
    if hit && miss {
        src.nontrivial();
    }
    Ok(())
}
fn tree_of<T: TraversableMerkleTree<u64>>(f: Fun, height: usize, at: usize) -> T {
    let mut t = T::gen(&Leaf(f), &Merge(f), height);
    for _ in 0..at {
        t.next(&Leaf(f), &Merge(f));
    }
    t
}
fn trees<T: TraversableMerkleTree<u64> + PartialEq + Clone>(src: &mut Src, name: &str) -> Res {
    let height = src.upto(6);
    let n = 1usize << height;
    let f = Fun { seed: src.raw(), kind: 0 };
    let at = if src.chance(12) { n } else { src.below(n as u64) as usize };
    let a: T = tree_of(f, height, at);
    let (h2, at2) = match src.below(4) {
        1 | 2 if at == n => (height, n - 1),
        0 => (height, at),
        1 => (height, src.below(n as u64) as usize),
        2 => (height, (at + 1) % n),
        _ => {
            let h = src.upto(6);
            (h, at.min(1 << h))
        }
    };
    let f2 = if src.chance(25) { Fun { seed: f.seed ^ 1, kind: 0 } } else { f };
    src.note(|| format!("{} of height {} at {}; height {} at {}, {}", name, height, at, h2, at2, if f2.seed == f.seed { "same leaves" } else { "other leaves" }));
    let mut b: T = tree_of(f2, h2, at2);
    if src.bool() {
        let (h, s, v) = b.store();
        b = T::load(h, s, v).ok_or("a stored tree does not load")?;
    }
    let eq = height == h2 && at == at2 && f2.seed == f.seed;
    check_eq!(a, b, eq, name);
    check_eq!(a.clone(), b, eq, name);
    // One node of the stored form altered.
    let (h, k, mut v) = b.store();
    if !v.is_empty() {
        let i = src.below(v.len() as u64) as usize;
        v[i] = v[i].wrapping_add(1 + src.below(3));
        src.note(|| format!("node {} of {} altered", i, v.len()));
        let c = T::load(h, k, v).ok_or("an altered stored tree does not load")?;
        check_eq!(b, c, false, name);
        ensure!(a != c || !eq, "{}: equal to a tree with an altered node", name);
    }
    if at == n || at2 == 1 << h2 {
        // Used up: there is no path.
        src.nontrivial();
        return Ok(());
    }
    // The paths differ where position or siblings differ.
    let path = |lv: &[Vec<u64>], h: usize, i: usize| (0..h).map(|d| lv[d][(i >> d) ^ 1]).collect::<Vec<u64>>();
    let (pa, pb) = (path(&f.levels(height), height, at), path(&f2.levels(h2), h2, at2));
    let (x, y) = (a.apath(), b.apath());
    check_eq!(x, y, at == at2 && pa == pb, "authentication paths");
    let mut c = APath::new(height);
    for p in &pa {
        c.push(*p);
    }
    ensure_eq!(c == x, at == 0, "equality of the path at {} with one of the same nodes at position 0", at);
    // A clone that moves on leaves its origin.
    let mut c = a.clone();
    for _ in 0..src.range(1, 3) {
        c.next(&Leaf(f), &Merge(f));
    }
    ensure_eq!(a.skn(), at, "{}: position after its clone moved on", name);
    ensure!(a == tree_of(f, height, at), "{}: changed after its clone moved on", name);
    ensure!(a.apath() == x, "{}: path changed after its clone moved on", name);
    if !eq {
        src.nontrivial();
    }
    Ok(())
}
fn c33_trees(src: &mut Src) -> Res {
    if src.bool() {
        trees::<mtcomplete::MT<u64>>(src, "complete trees")
    } else {
        trees::<mttraversal::MT<u64>>(src, "traversal trees")
    }
}
/// A clone and its origin go on alike and apart.
fn c33_clones(src: &mut Src) -> Res {
    let what = src.below(6);
    src.nontrivial();
    match what {
        0 => {
            src.label("spongos");
            let (mut a, mut m) = sp_state(src)?;
            let mut n = m.clone();
            let mut b = match src.below(3) {
                0 => a.clone(),
                1 => a.fork(),
                _ => {
                    let (mut o, _) = sp_state(src)?;
                    a.fork_at(&mut o);
                    o
                }
            };
            for _ in 0..src.range(1, 8) {
                if src.bool() {
                    sp_op(src, &mut a, &mut m, 600)?;
                } else {
                    sp_op(src, &mut b, &mut n, 600)?;
                }
            }
            ensure_trits!(probe(&a), m.probe(), "state of the origin");
            ensure_trits!(probe(&b), n.probe(), "state of the clone");
        }
        1 => {
            src.label("troika");
            let mut m = src.trits(729);
            let mut a = Troika::new();
            for (i, t) in m.iter().enumerate() {
                a.set1(i, *t);
            }
            let mut n = m.clone();
            let mut b = if src.bool() { a.clone() } else { a };
            for _ in 0..src.range(1, 6) {
                let (t, x) = if src.bool() { (&mut a, &mut m) } else { (&mut b, &mut n) };
                if src.bool() {
                    t.permutation();
                    mt::permute(x);
                } else {
                    let (i, v) = (src.below(729) as usize, src.below(3) as u8);
                    t.set1(i, v);
                    x[i] = v;
                }
            }
            for (t, x, who) in [(&a, &m, "origin"), (&b, &n, "clone")] {
                let got: Vec<u8> = (0..729).map(|i| t.get1(i)).collect();
                ensure_trits!(got, x, "state of the {}", who);
            }
        }
        2 => {
            src.label("containers");
            let n = src.len(300);
            let x = src.trits(n);
            let mut a = tr(&x);
            let mut b = a.clone();
            let y = src.trits(n);
            b.slice_mut().put_trits(&y);
            ensure_trits!(ve(&a), x, "container after its clone changed");
            ensure_trits!(ve(&b), y, "changed clone");
            let c = Frame::new(src, &x);
            let d = c.slice().clone_trits();
            a.slice_mut().set_zero();
            ensure_trits!(ve(&d), x, "container cloned from a view");
            ensure_trits!(ve(&b), y, "clone after the container changed");
        }
        3 => {
            src.label("polynomials");
            let (x, y) = (gen_poly(src), gen_poly(src));
            let mut a = poly(&x);
            let mut b = a;
            b.ntt();
            same(src, &a, &x, "polynomial after its copy was transformed")?;
            ensure!(a == poly(&x), "polynomial differs after its copy was transformed");
            a.add(&poly(&y));
            b.intt();
            same(src, &b, &x, "copy after the polynomial changed")?;
            check_eq!(a, b, mr::zip(&x, &y, |p, q| p + q) == x, "polynomials");
        }
        4 => {
            src.label("signing keys");
            let s = signer(src);
            let h = gen_hash(src);
            let expect = s.sign(&h);
            let n = 1 << s.h;
            let mut c = s.sk.clone();
            let mut left = n - s.slot;
            for _ in 0..src.range(1, 3) {
                left = left.saturating_sub(1);
                ensure_eq!(c.next(), left > 0, "next of a clone of {}", s.name());
            }
            ensure_eq!(s.sk.skn(), s.slot, "slot of {} after its clone moved on", s.name());
            ensure_eq!(s.sk.skn_left(), n - s.slot, "slots left of {} after its clone moved on", s.name());
            ensure_trits!(s.sign(&h), expect, "signature by {} after its clone moved on", s.name());
            ensure_eq!(c.skn_left(), left, "slots left of the clone");
            if left > 0 {
                let mut t = Trits::zero(s.sig_size());
                c.sign(tr(&h).slice(), t.slice_mut());
                let r = mm::recover(&h, &ve(&t)).ok_or("the signature of a clone does not recover")?;
                ensure_trits!(r.0, s.pk, "key recovered from the signature of a clone");
                ensure_eq!(mm::parse_head(&ve(&t)), Some((s.h, n - left)), "slot named by the signature of a clone");
            }
        }
        _ => {
            src.label("NTRU keys");
            let p = pair(src);
            let (sk, pk) = (p.sk.clone(), p.pk.clone());
            let (rk, nonce, k) = (src.trits(243), src.trits(9), src.trits(243));
            let prng = PRNG::init_trits(&tr(&rk));
            let expect = mn::encr(&mut ms::Sp::new(), &rk, &nonce, &p.m.pk, &p.m.th, &k);
            for (pk, who) in [(&pk, "clone"), (&p.pk, "origin")] {
                let mut y = Trits::zero(9216);
                let c = prng.clone();
                (if src.bool() { &c } else { &prng }).gen_trits(&tr(&nonce), 10);
                pk.encr(&c, tr(&nonce).slice(), tr(&k).slice(), y.slice_mut());
                ensure_trits!(ve(&y), expect, "capsule by the {} of the public key", who);
                for (sk, who) in [(&p.sk, "origin"), (&sk, "clone")] {
                    let mut o = Trits::zero(243);
                    ensure!(sk.decr(y.slice(), o.slice_mut()), "the {} of the private key does not open", who);
                    ensure_trits!(ve(&o), k, "key from the {} of the private key", who);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C35

/// Parameters the jobs of one case share, so that anything remembered under too few of them
/// is found out.
#[derive(Clone)]
struct Pool {
    keys: Vec<Vec<u8>>,
    nonces: Vec<Vec<u8>>,
    hashes: Vec<Vec<u8>>,
    seed: u64,
}
impl Pool {
    fn gen(src: &mut Src) -> Pool {
        let k = src.trits(243);
        let i = src.below(243) as usize;
        let n = src.len(60).max(1);
        let nonce = src.trits(n);
        let j = src.below(n as u64) as usize;
        let h = gen_hash(src);
        let g = src.below(234) as usize;
        Pool {
            keys: vec![flip(&k, i, 1), k],
            nonces: vec![flip(&nonce, j, 1), nonce],
            hashes: vec![flip(&h, g, 1), h],
            seed: src.raw(),
        }
    }
}
/// Something going on, one step at a time, compared with its own model.
trait Job {
    /// False at the end.
    fn step(&mut self) -> Result<bool, String>;
}
struct Hashing {
    x: Vec<u8>,
    at: usize,
    t: TroikaSponge,
    r: Rng,
}
impl Job for Hashing {
    fn step(&mut self) -> Result<bool, String> {
        if self.at == self.x.len() {
            let n = 243;
            self.t.finalize();
            let mut y = tr(&vec![0; n]);
            let mut buf = vec![0u8; n];
            self.t.squeeze(&mut buf);
            y.slice_mut().put_trits(&buf);
            ensure_trits!(buf, mt::hash(&self.x, n), "Troika hash of {} trits", self.x.len());
            return Ok(false);
        }
        let k = 1 + self.r.below((self.x.len() - self.at).min(300) as u64) as usize;
        self.t.absorb(&self.x[self.at..self.at + k]);
        self.at += k;
        Ok(true)
    }
}
struct Sponging {
    s: Spongos,
    m: ms::Sp,
    seed: u64,
    left: usize,
}
impl Job for Sponging {
    fn step(&mut self) -> Result<bool, String> {
        let mut src = Src::random(mix(self.seed ^ self.left as u64));
        if self.left == 0 {
            ensure_trits!(probe(&self.s), self.m.probe(), "Spongos state");
            return Ok(false);
        }
        self.left -= 1;
        sp_op(&mut src, &mut self.s, &mut self.m, 600)?;
        Ok(true)
    }
}
struct Drawing {
    p: PRNG,
    key: Vec<u8>,
    nonces: Vec<Vec<u8>>,
    left: usize,
    seed: u64,
}
impl Job for Drawing {
    fn step(&mut self) -> Result<bool, String> {
        if self.left == 0 {
            return Ok(false);
        }
        self.left -= 1;
        let mut r = Rng::new(mix(self.seed ^ self.left as u64));
        let n = 1 + r.below(800) as usize;
        let nonce = &self.nonces[r.below(2) as usize];
        ensure_trits!(ve(&self.p.gen_trits(&tr(nonce), n)), ms::prng(&self.key, nonce, n), "PRNG output");
        Ok(true)
    }
}
struct Sealing {
    p: Rc<Pair>,
    pool: Pool,
    left: usize,
    y: Option<(Vec<u8>, Vec<u8>)>,
}
impl Job for Sealing {
    fn step(&mut self) -> Result<bool, String> {
        if let Some((y, k)) = self.y.take() {
            let mut o = Trits::zero(243);
            ensure!(self.p.sk.decr(tr(&y).slice(), o.slice_mut()), "decapsulation fails");
            ensure_trits!(ve(&o), k, "decapsulated key");
            return Ok(self.left > 0);
        }
        self.left -= 1;
        let i = self.left;
        let (rk, k, nonce) = (&self.pool.keys[i % 2], &self.pool.keys[(i / 2) % 2], &self.pool.nonces[(i / 4) % 2]);
        let mut y = Trits::zero(9216);
        self.p.pk.encr(&PRNG::init_trits(&tr(rk)), tr(nonce).slice(), tr(k).slice(), y.slice_mut());
        let expect = mn::encr(&mut ms::Sp::new(), rk, nonce, &self.p.m.pk, &self.p.m.th, k);
        ensure_trits!(ve(&y), expect, "capsule");
        self.y = Some((expect, k.clone()));
        Ok(true)
    }
}
struct Keying {
    key: Vec<u8>,
    nonce: Vec<u8>,
}
impl Job for Keying {
    fn step(&mut self) -> Result<bool, String> {
        let (_, pk) = ntru::gen(&PRNG::init_trits(&tr(&self.key)), tr(&self.nonce).slice());
        ensure_trits!(sl(pk.trits()), mn::gen(&self.key, &self.nonce).pk, "generated NTRU public key");
        Ok(false)
    }
}
struct Once {
    key: Vec<u8>,
    nonce: Vec<u8>,
    hashes: Vec<Vec<u8>>,
    stage: usize,
    sk: Option<wots::PrivateKey>,
}
impl Job for Once {
    fn step(&mut self) -> Result<bool, String> {
        let msk = mw::sk(&self.key, &self.nonce);
        match self.stage {
            0 => {
                let t = tr(&self.nonce);
                self.sk = Some(wots::PrivateKey::gen(&PRNG::init_trits(&tr(&self.key)), &[t.slice()]));
            }
            1 => {
                let mut pk = Trits::zero(243);
                self.sk.as_ref().unwrap().calc_pk(pk.slice_mut());
                ensure_trits!(ve(&pk), mw::pk(&msk), "one-time public key");
            }
            i => {
                let h = &self.hashes[i % 2];
                let mut sig = Trits::zero(mw::SIG);
                self.sk.as_ref().unwrap().sign(tr(h).slice(), sig.slice_mut());
                ensure_trits!(ve(&sig), mw::sign(&msk, h), "one-time signature");
                let mut pk = Trits::zero(243);
                wots::recover(tr(h).slice(), sig.slice(), pk.slice_mut());
                ensure_trits!(ve(&pk), mw::pk(&msk), "recovered one-time public key");
            }
        }
        self.stage += 1;
        Ok(self.stage < 4)
    }
}
struct Signing<T> {
    k: super::mss::Keys,
    height: usize,
    hashes: Vec<Vec<u8>>,
    sk: Option<PrivateKeyT<T>>,
}
impl<T: TraversableMerkleTree<Trits>> Job for Signing<T> {
    fn step(&mut self) -> Result<bool, String> {
        let n = 1usize << self.height;
        let Some(sk) = self.sk.as_mut() else {
            self.sk = Some(PrivateKeyT::gen(&PRNG::init_trits(&tr(&self.k.key)), tr(&self.k.nonce).slice(), self.height));
            return Ok(true);
        };
        let i = sk.skn();
        let h = &self.hashes[i % 2];
        let root = &self.k.levels[self.height][0];
        let mut sig = Trits::zero(mm::sig_size(self.height));
        sk.sign(tr(h).slice(), sig.slice_mut());
        ensure_trits!(ve(&sig), model_sig(&self.k, self.height, i, h), "signature of slot {} of {}", i, n);
        ensure_eq!(pk_text(sk.public_key()), model::text(root), "public key at slot {}", i);
        ensure!(mss_pk(root).verify(tr(h).slice(), sig.slice()), "the signature of slot {} of {} does not verify", i, n);
        ensure_eq!(sk.next(), i + 1 < n, "next after slot {} of {}", i, n);
        Ok(i + 1 < n)
    }
}
struct Climbing<T> {
    f: Fun,
    lv: Vec<Vec<u64>>,
    t: Option<T>,
    at: usize,
}
impl<T: TraversableMerkleTree<u64>> Job for Climbing<T> {
    fn step(&mut self) -> Result<bool, String> {
        let height = self.lv.len() - 1;
        let Some(t) = self.t.as_mut() else {
            self.t = Some(T::gen(&Leaf(self.f), &Merge(self.f), height));
            return Ok(true);
        };
        ensure_eq!(*t.root(), self.lv[height][0], "root at position {}", self.at);
        ensure_eq!(t.apath().fold(&Merge(self.f), &self.f.leaf(self.at)), self.lv[height][0], "root folded from position {}", self.at);
        self.at += 1;
        Ok(t.next(&Leaf(self.f), &Merge(self.f)))
    }
}
struct Multiplying {
    seed: u64,
    left: usize,
}
impl Job for Multiplying {
    fn step(&mut self) -> Result<bool, String> {
        self.left -= 1;
        let mut src = Src::random(mix(self.seed ^ self.left as u64));
        let (a, b) = (gen_poly(&mut src), gen_poly(&mut src));
        let (mut p, mut q) = (poly(&a), poly(&b));
        p.ntt();
        q.ntt();
        p.conv(&q);
        p.intt();
        let e = mr::intt(&mr::zip(&mr::ntt(&a), &mr::ntt(&b), |x, y| x * y));
        same(&mut src, &p, &e, "product")?;
        Ok(self.left > 0)
    }
}
struct Sending {
    kind: usize,
    seed: u64,
    left: usize,
}
impl Job for Sending {
    fn step(&mut self) -> Result<bool, String> {
        self.left -= 1;
        let mut src = Src::random(mix(self.seed ^ self.left as u64));
        src.big = src.chance(5) as u32;
        let m = msg::gen(&mut src, self.kind, 120)?;
        src.big = 0;
        exchange(&mut src, &m)?;
        Ok(self.left > 0)
    }
}
/// One-shot hashes of one or several pieces.
struct OneShot {
    seed: u64,
    left: usize,
}
impl Job for OneShot {
    fn step(&mut self) -> Result<bool, String> {
        self.left -= 1;
        let mut src = Src::random(mix(self.seed ^ self.left as u64));
        let out = *src.pick(&[0usize, 1, 243, 243, 485, 486, 487, 972, 1000]);
        let pieces: Vec<Vec<u8>> = (0..src.range(1, 3))
            .map(|_| {
                let n = src.len(700);
                src.trits(n)
            })
            .collect();
        let all = pieces.concat();
        let mut y = Trits::zero(out);
        if src.bool() {
            spongos::hash_data(tr(&all).slice(), y.slice_mut());
        } else {
            let ts: Vec<Trits> = pieces.iter().map(|p| tr(p)).collect();
            let xs: Vec<TritSlice> = ts.iter().map(|t| t.slice()).collect();
            spongos::hash_datas(&xs, y.slice_mut());
        }
        ensure_trits!(ve(&y), ms::hash(&all, out), "hash of {} trits to {}", all.len(), out);
        Ok(self.left > 0)
    }
}
/// Calls that fail: they break a stated requirement and panic, are given garbage and report an
/// error, or their callback panics half way. How they fail is not looked at.
struct Failing {
    seed: u64,
    left: usize,
    pool: Pool,
}
impl Job for Failing {
    fn step(&mut self) -> Result<bool, String> {
        self.left -= 1;
        let mut src = Src::random(mix(self.seed ^ self.left as u64));
        let kind = src.below(12);
        let _ = catch(|| fail(&mut src, kind, &self.pool));
        Ok(self.left > 0)
    }
}
const MEANT: &str = "a callback that panics";
fn fail(src: &mut Src, kind: u64, pool: &Pool) {
    let prng = || PRNG::init_trits(&tr(&pool.keys[0]));
    match kind {
        0 => {
            let n = *src.pick(&[0usize, 81, 242, 244, 486]);
            PRNG::init(Trits::zero(n).slice());
        }
        1 => {
            let n = *src.pick(&[0usize, 242, 244, 486]);
            Spongos::from_inner(Trits::zero(n).slice());
        }
        2 => {
            let mut s = Spongos::init();
            s.absorb(tr(&pool.nonces[0]).slice());
            s.to_inner_trits();
        }
        3 => {
            let mut k = PrivateKeyT::<mttraversal::MT<Trits>>::gen(&prng(), tr(&pool.nonces[0]).slice(), 0);
            let mut sig = Trits::zero(mm::sig_size(0));
            if src.bool() {
                k.next();
            } else {
                sig = Trits::zero(mm::sig_size(0) + 3);
            }
            k.sign(tr(&pool.hashes[0]).slice(), sig.slice_mut());
        }
        4 => pb3::mac::wrap_mac(&mut Spongos::init(), &mut Trits::zero(240).slice_mut()),
        5 => {
            let (p, n): (HashMap<Trits, Trits>, HashMap<Trits, ntru::PublicKey>) = (HashMap::new(), HashMap::new());
            let (id, mut l, mut s, mut buf) = (Trits::zero(81), Spongos::init(), Spongos::init(), Trits::zero(500));
            let (key, nonce) = if src.bool() { (243, 80) } else { (240, 81) };
            use iota_mam::app::channel::msg::keyload;
            keyload::wrap(id.slice(), &mut l, &Trits::zero(nonce), &mut p.iter(), &mut n.iter(), &prng(), &Trits::zero(key), &mut s, &mut buf.slice_mut());
        }
        6 => {
            // A leaf or a node that cannot be had.
            let f = Fun { seed: pool.seed, kind: 0 };
            let (at, leaf) = (src.below(12) as usize, src.bool());
            let n = Cell::new(0);
            let tick = || {
                n.set(n.get() + 1);
                if n.get() == at + 1 {
                    panic!("{}", MEANT);
                }
            };
            let g = |i: usize| {
                if leaf {
                    tick();
                }
                f.leaf(i)
            };
            let m = |a: &u64, b: &u64| {
                if !leaf {
                    tick();
                }
                f.merge(*a, *b)
            };
            if src.bool() {
                let mut t = mttraversal::MT::<u64>::gen(&g, &m, 3);
                while t.next(&g, &m) {}
            } else {
                let mut t = mtcomplete::MT::<u64>::gen(&g, &m, 3);
                while t.next(&g, &m) {
                    t.apath().fold(&m, &0);
                }
            }
        }
        7 | 8 => {
            // A callback of a message panics, on writing or reading.
            let k = src.range(2, 7);
            let m = msg::gen(src, k, 20).expect("harness: message");
            let n = Cell::new(0);
            let at = src.below(4);
            let g: Rc<dyn Fn()> = Rc::new(move || {
                n.set(n.get() + 1);
                if n.get() > at {
                    panic!("{}", MEANT);
                }
            });
            let _ = with_inside(g, || exchange(src, &m));
        }
        9 => {
            let k = src.below(8) as usize;
            let n = src.len(800);
            let _ = attempt(k, &src.trits(n), &Spongos::init(), &Ctx::new());
        }
        10 => {
            let _ = Trits::from_str("AB\u{e9}C");
        }
        _ => {
            let m = msg::gen(src, 3, 60).expect("harness: message");
            let mut c = m.ctx();
            c.links.clear();
            let mut w = W::new(ms::Sp::new());
            m.model(&mut w);
            let _ = attempt(3, &w.w, &Spongos::init(), &c);
        }
    }
}
const JOBS: [&str; 13] = [
    "hashing", "a Spongos history", "drawing random trits", "NTRU encapsulation", "NTRU key generation", "one-time signing",
    "signing with a traversal tree", "signing with a complete tree", "climbing a traversal tree", "multiplying polynomials", "one-shot hashes",
    "a message", "failing calls",
];
/// Job `kind`, from numbers only, so that it can start in any thread.
fn job(kind: usize, seed: u64, pool: &Pool) -> Box<dyn Job> {
    let mut r = Rng::new(seed);
    let a = r.below(2) as usize;
    let b = r.below(2) as usize;
    let (key, nonce) = (pool.keys[a].clone(), pool.nonces[b].clone());
    let keys = |height: usize| {
        let sks: Vec<Vec<u8>> = (0..1usize << height).map(|i| mw::sk(&key, &mm::leaf_nonce(&nonce, i))).collect();
        let levels = mm::tree(sks.iter().map(|s| mw::pk(s)).collect());
        super::mss::Keys { key: key.clone(), nonce: nonce.clone(), sks, levels }
    };
    match kind {
        0 => {
            let n = r.below(1500) as usize;
            let x: Vec<u8> = (0..n).map(|i| if a == 0 { (i % 3) as u8 } else { r.below(3) as u8 }).collect();
            Box::new(Hashing { x, at: 0, t: TroikaSponge::default(), r })
        }
        1 => Box::new(Sponging { s: Spongos::init(), m: ms::Sp::new(), seed: r.next(), left: 6 }),
        2 => Box::new(Drawing { p: PRNG::init_trits(&tr(&key)), key, nonces: pool.nonces.clone(), left: 4, seed }),
        3 => Box::new(Sealing { p: ntru_pair(r.below(2) as usize), pool: pool.clone(), left: 2 + a, y: None }),
        4 => Box::new(Keying { key, nonce }),
        5 => Box::new(Once { key, nonce, hashes: pool.hashes.clone(), stage: 0, sk: None }),
        6 => Box::new(Signing::<mttraversal::MT<Trits>> { k: keys(1 + a), height: 1 + a, hashes: pool.hashes.clone(), sk: None }),
        7 => Box::new(Signing::<mtcomplete::MT<Trits>> { k: keys(1), height: 1, hashes: pool.hashes.clone(), sk: None }),
        8 => {
            let f = Fun { seed: pool.seed ^ a as u64, kind: 0 };
            Box::new(Climbing::<mttraversal::MT<u64>> { f, lv: f.levels(2 + b), t: None, at: 0 })
        }
        9 => Box::new(Multiplying { seed, left: 1 + a }),
        10 => Box::new(OneShot { seed, left: 3 }),
        11 => Box::new(Sending { kind: [0, 2, 3, 4, 7][r.below(5) as usize], seed: pool.seed ^ a as u64, left: 1 }),
        _ => Box::new(Failing { seed, left: 2 + a, pool: pool.clone() }),
    }
}
/// Run jobs in one thread, their steps interleaved by `order`.
fn interleave(list: &[(usize, u64)], pool: &Pool, order: u64) -> Res {
    run_jobs(jobs(list, pool), list, order)
}
fn jobs(list: &[(usize, u64)], pool: &Pool) -> Vec<(usize, Box<dyn Job>)> {
    list.iter().enumerate().map(|(i, (k, s))| (i, job(*k, *s, pool))).collect()
}
fn run_jobs(mut v: Vec<(usize, Box<dyn Job>)>, list: &[(usize, u64)], order: u64) -> Res {
    let mut r = Rng::new(order);
    while !v.is_empty() {
        let i = r.below(v.len() as u64) as usize;
        let more = v[i].1.step().map_err(|e| format!("{} (number {}): {}", JOBS[list[v[i].0].0], v[i].0, e))?;
        if !more {
            v.remove(i);
        }
    }
    Ok(())
}
fn gen_list(src: &mut Src, n: usize) -> Vec<(usize, u64)> {
    let mut v: Vec<(usize, u64)> = Vec::new();
    for _ in 0..n {
        // Often another of the same kind.
        let k = match v.last() {
            Some((k, _)) if src.bool() => *k,
            _ => src.below(JOBS.len() as u64) as usize,
        };
        v.push((k, src.raw()));
    }
    v
}
fn c35_interleaved(src: &mut Src) -> Res {
    let pool = Pool::gen(src);
    let n = src.range(2, 7);
    let list = gen_list(src, n);
    let order = src.raw();
    src.note(|| format!("interleaved: {:?}", list.iter().map(|(k, _)| JOBS[*k]).collect::<Vec<_>>()));
    src.nontrivial();
    interleave(&list, &pool, order)
}
/// Other jobs whose steps are made inside the callbacks of the crate.
struct Inside {
    list: Vec<(usize, u64)>,
    v: RefCell<Vec<(usize, Box<dyn Job>)>>,
    r: RefCell<Rng>,
    err: RefCell<Option<String>>,
    made: Cell<usize>,
}
impl Inside {
    fn step(&self) {
        let Ok(mut v) = self.v.try_borrow_mut() else { return };
        let mut r = self.r.borrow_mut();
        if v.is_empty() || r.below(3) == 0 || self.err.borrow().is_some() {
            return;
        }
        let i = r.below(v.len() as u64) as usize;
        self.made.set(self.made.get() + 1);
        match catch(|| v[i].1.step()).unwrap_or_else(Err) {
            Ok(true) => {}
            Ok(false) => drop(v.remove(i)),
            Err(e) => *self.err.borrow_mut() = Some(format!("{}: {}", JOBS[self.list[v[i].0].0], e)),
        }
    }
}
fn climb<T: TraversableMerkleTree<u64>>(f: Fun, height: usize, inside: &Inside) -> Res {
    let lv = f.levels(height);
    let g = |i: usize| {
        inside.step();
        f.leaf(i)
    };
    let m = |a: &u64, b: &u64| {
        inside.step();
        f.merge(*a, *b)
    };
    let mut t = T::gen(&g, &m, height);
    for i in 0..1usize << height {
        ensure_eq!(*t.root(), lv[height][0], "root at position {}", i);
        let a = t.apath();
        ensure_eq!(a.skn(), i, "position");
        ensure_eq!(a.fold(&m, &f.leaf(i)), lv[height][0], "root folded from position {}", i);
        ensure_eq!(t.next(&g, &m), i + 1 < 1 << height, "next after position {} of {}", i, 1 << height);
    }
    Ok(())
}
fn c35_nested(src: &mut Src) -> Res {
    let pool = Pool::gen(src);
    let n = src.range(1, 4);
    let list = gen_list(src, n);
    let inside = Rc::new(Inside {
        v: RefCell::new(jobs(&list, &pool)),
        list: list.clone(),
        r: RefCell::new(Rng::new(src.raw())),
        err: RefCell::new(None),
        made: Cell::new(0),
    });
    let kind = src.below(5);
    src.note(|| format!("inside the callbacks: {:?}", list.iter().map(|(k, _)| JOBS[*k]).collect::<Vec<_>>()));
    let what;
    let r = match kind {
        0 | 1 => {
            let (f, height) = (Fun::gen(src), src.range(1, 5));
            what = format!("a tree of height {}", height);
            if kind == 0 {
                climb::<mttraversal::MT<u64>>(f, height, &inside)
            } else {
                climb::<mtcomplete::MT<u64>>(f, height, &inside)
            }
        }
        _ => {
            let k = src.range(2, 7);
            let mut m = msg::gen(src, k, 120)?;
            if matches!(&m, Msg::Keyload { psks, ntrus, .. } if psks.is_empty() && ntrus.is_empty()) {
                // Nobody can read it.
                m = msg::gen(src, 3, 120)?;
            }
            what = m.name();
            let i = inside.clone();
            with_inside(Rc::new(move || i.step()), || {
                let t = exchange(src, &m)?;
                // Read again and again: each reading calls back.
                for _ in 0..3 {
                    receive(src, &m, &t, &m.ctx())?;
                }
                Ok(())
            })
        }
    };
    if inside.made.get() > 0 {
        src.nontrivial();
    }
    src.note(|| format!("{}, {} steps inside", what, inside.made.get()));
    if let Some(e) = inside.err.borrow_mut().take() {
        if e.contains("harness:") {
            panic!("{}", e);
        }
        return Err(format!("inside a callback of {}: {}", what, e));
    }
    r.map_err(|e: String| format!("{} with other work inside its callbacks: {}", what, e))?;
    let rest = std::mem::take(&mut *inside.v.borrow_mut());
    run_jobs(rest, &list, 0)
}
fn c35_threads(src: &mut Src) -> Res {
    let threads = src.range(2, 4);
    at_once(src, threads, None)
}
/// Several threads, each with its jobs, which all start to work at the same time.
fn at_once(src: &mut Src, threads: usize, kind: Option<usize>) -> Res {
    let pool = Pool::gen(src);
    let mut lists: Vec<(Vec<(usize, u64)>, u64)> = Vec::new();
    for _ in 0..threads {
        let n = src.range(1, 4);
        // Often the same in two threads, with other parameters.
        let l = match lists.last() {
            _ if kind.is_some() => vec![(kind.unwrap(), src.raw())],
            Some((l, _)) if src.bool() => {
                let mut l = l.clone();
                for j in l.iter_mut() {
                    j.1 = src.raw();
                }
                l
            }
            _ => gen_list(src, n),
        };
        let o = src.raw();
        lists.push((l, o));
    }
    src.note(|| format!("concurrently: {:?}", lists.iter().map(|(l, _)| l.iter().map(|(k, _)| JOBS[*k]).collect::<Vec<_>>()).collect::<Vec<_>>()));
    src.nontrivial();
    let barrier = std::sync::Barrier::new(threads);
    let results: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = lists
            .iter()
            .map(|(l, o)| {
                let (pool, barrier) = (&pool, &barrier);
                sc.spawn(move || {
                    let v = catch(|| jobs(l, pool));
                    barrier.wait();
                    match v.and_then(|v| catch(|| run_jobs(v, l, *o))) {
                        Ok(r) => r,
                        Err(p) => Err(p),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for (i, r) in results.into_iter().enumerate() {
        if let Err(e) = r {
            assert!(!e.contains("harness:"), "{}", e);
            return Err(format!("thread {} of {}: {}", i, threads, e));
        }
    }
    Ok(())
}
/// What a process of its own does in which nothing has used the crate before.
pub fn cold(seed: u64) -> Res {
    let mut src = Src::random(seed);
    let threads = *src.pick(&[1, 2, 2, 4, 4, 8]);
    // Everybody does the same at first; key generation and whole trees take longer.
    let kind = [0, 1, 2, 5, 8, 9, 10, 11, 3, 4][src.weighted(&[3, 3, 3, 2, 1, 3, 3, 3, 1, 1])];
    at_once(&mut src, threads, Some(kind))
}
fn c35_cold(src: &mut Src) -> Res {
    let seed = src.raw();
    src.note(|| format!("in a fresh process: mamv cold {}", seed));
    src.nontrivial();
    let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e)).expect("harness: own path");
    for _ in 0..2 {
        let mut c = std::process::Command::new(&exe)
            .args(["cold", &seed.to_string()])
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("harness: a process");
        let t = std::time::Instant::now();
        let status = loop {
            match c.try_wait().expect("harness: wait") {
                Some(s) => break Some(s),
                // Says nothing about the crate.
                None if t.elapsed().as_secs() > 40 => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                None => std::thread::sleep(std::time::Duration::from_millis(1)),
            }
        };
        let Some(status) = status else {
            src.label("gave up waiting");
            continue;
        };
        let mut out = String::new();
        use std::io::Read;
        let _ = c.stdout.take().unwrap().read_to_string(&mut out);
        match status.code() {
            Some(0) => {}
            Some(1) => return Err(out.trim().to_string()),
            Some(c) => panic!("harness: cold process ended with {}: {}", c, out),
            None => return Err(format!("the process dies ({})", status)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C36

/// What went wrong with a message, and what is to be reported.
struct Fault {
    what: String,
    wire: Vec<u8>,
    before: Spongos,
    c: Ctx,
    errs: Vec<E>,
}
fn sig_ranges(m: &Msg, n: usize) -> Vec<(usize, usize)> {
    match m {
        Msg::Announce { k, .. } | Msg::Signed { k, .. } => vec![(n - k.sig_size(), n)],
        Msg::ChangeKey { new, old, .. } => {
            let b = n - old.sig_size();
            vec![(b - new.sig_size(), b), (b, n)]
        }
        _ => vec![],
    }
}
fn bumped(src: &mut Src, w: &[u8], lo: usize, hi: usize) -> (Vec<u8>, usize) {
    let i = lo + src.below((hi - lo) as u64) as usize;
    let mut v = w.to_vec();
    v[i] = (v[i] + 1 + src.below(2) as u8) % 3;
    (v, i)
}
/// A size field that is none.
fn bad_size(src: &mut Src) -> Vec<u8> {
    if src.bool() {
        // A number of trytes out of range.
        model::trits_of(-src.irange(1, 13), 3)
    } else {
        // A leading tryte that is not positive.
        let d = src.range(1, 13);
        let mut v = model::trits_of(d as i64, 3);
        for _ in 1..d {
            v.extend(src.rtrits(3));
        }
        v.extend(model::trits_of(-src.irange(0, 13), 3));
        v
    }
}
/// A message of `m`'s kind written by the model with something wrong inside.
fn crafted(src: &mut Src, m: &Msg) -> Result<Option<Fault>, String> {
    let (s, sp) = prior(src)?;
    let mut w = W::new(sp);
    let c = m.ctx();
    let junk = |src: &mut Src, w: &mut W| {
        // Whatever follows does not matter.
        let k = src.upto(800);
        let r = src.rtrits(k);
        w.absorb(&r);
    };
    let (what, errs): (String, Vec<E>) = match m {
        Msg::Header { .. } => {
            if src.bool() {
                let v = src.irange(-13, 12);
                let v = if v >= 1 { v + 1 } else { v };
                w.absorb(&model::trits_of(v, 3));
                junk(src, &mut w);
                (format!("version {}", v), vec![E::VersionUnsupported])
            } else {
                w.absorb(&model::trits_of(1, 3));
                let b = bad_size(src);
                w.absorb(&b);
                junk(src, &mut w);
                ("a malformed size".into(), vec![E::BadValue])
            }
        }
        Msg::Announce { k, ntru } => {
            w.absorb(&k.pk);
            match src.below(3) {
                0 => {
                    let v = if src.chance(40) { -src.irange(1, 13) } else { src.irange(2, 13) };
                    w.absorb(&model::trits_of(v, 3));
                    junk(src, &mut w);
                    (format!("variant {}", v), vec![E::BadOneOf])
                }
                1 => {
                    w.absorb(&[1, 0, 0]);
                    let b = bad_ntru_pk(src);
                    w.absorb(&b);
                    w.sig(k);
                    ("an invalid NTRU key".into(), vec![E::NtruBadPublicKey])
                }
                _ => {
                    let o = signer(src);
                    if o.pk == k.pk {
                        return Ok(None);
                    }
                    w.absorb(&model::trits_of(ntru.is_some() as i64, 3));
                    if let Some(p) = ntru {
                        w.absorb(&p.m.pk);
                    }
                    w.sig(&o);
                    ("another signer".into(), vec![E::MssVerifyFailed])
                }
            }
        }
        Msg::Signed { l, public, .. } | Msg::Tagged { l, public, .. } => {
            w.join(&l.id, &mut l.m.clone());
            let b = bad_size(src);
            if src.bool() {
                w.absorb(&b);
            } else {
                w.trytes(public, false);
                w.mask(&b);
            }
            junk(src, &mut w);
            ("a malformed size".into(), vec![E::BadValue])
        }
        Msg::ChangeKey { l, new, old } => {
            let o = signer(src);
            w.join(&l.id, &mut l.m.clone());
            w.absorb(&new.pk);
            let h = w.tag();
            let first = src.bool();
            if o.pk == if first { new.pk.clone() } else { old.pk.clone() } {
                return Ok(None);
            }
            w.w.extend(if first { &o } else { new }.sign(&h));
            w.w.extend(if first { old } else { &o }.sign(&h));
            (format!("another {} signer", if first { "new" } else { "old" }), vec![E::MssVerifyFailed])
        }
        Msg::Keyload { l, nonce, .. } => {
            w.join(&l.id, &mut l.m.clone());
            w.absorb(nonce);
            let second = src.bool();
            if second {
                w.absorb(&size_enc(0));
            }
            let b = bad_size(src);
            w.absorb(&b);
            junk(src, &mut w);
            ("a malformed count".into(), vec![E::BadValue])
        }
        Msg::Subscribe { l, prng, nonce, owner, .. } => {
            w.join(&l.id, &mut l.m.clone());
            let k = src.trits(243);
            w.kem(owner, prng, nonce, &k);
            w.s.commit();
            let b = bad_ntru_pk(src);
            w.mask(&b);
            w.mac();
            ("an invalid NTRU key".into(), vec![E::NtruBadPublicKey])
        }
        Msg::Unsubscribe { l, .. } => {
            w.join(&l.id, &mut l.m.clone());
            let x = src.rtrits(60);
            w.absorb(&x);
            w.w.truncate(81);
            w.mac();
            ("a MAC of another message".into(), vec![E::MacVerifyFailed])
        }
    };
    Ok(Some(Fault { what, wire: w.w, before: s, c, errs }))
}
fn fault(src: &mut Src, m: &Msg, t: &Sent) -> Result<Option<Fault>, String> {
    let n = t.wire.len();
    let mut c = m.ctx();
    let mut wire = t.wire.clone();
    let sigs = sig_ranges(m, n);
    let f = |what: String, wire: Vec<u8>, c: Ctx, errs: &[E]| Ok(Some(Fault { what, wire, before: t.before.fork(), c, errs: errs.to_vec() }));
    match src.below(7) {
        0 => {
            // Cut.
            let k = if src.bool() { src.below(n as u64) as usize } else { n - src.range(1, n.min(250)) };
            wire.truncate(k);
            let inside = sigs.iter().any(|(a, b)| *a <= k && k < *b);
            c.recover = src.bool();
            // What the reader would be told about the rest does not matter.
            match m {
                Msg::Keyload { .. } if src.chance(40) => {
                    c.psks.clear();
                    c.ntrus.clear();
                }
                Msg::Signed { .. } | Msg::ChangeKey { .. } if src.chance(20) => {
                    let i = src.below(243) as usize;
                    c.pk = flip(&c.pk, i, 1);
                }
                _ => {}
            }
            f(format!("cut to {} of {} trits", k, n), wire, c, if inside { &[E::BadValue, E::Eof] } else { &[E::Eof] })
        }
        1 => {
            let Some(l) = m.link() else { return Ok(None) };
            if src.bool() {
                c.links.clear();
            } else {
                // The state is known under another name.
                let i = src.below(81) as usize;
                c.links = vec![(flip(&l.id, i, 1), l.s.fork())];
            }
            // As soon as the link is read.
            let k = 81 + src.upto(n - 81);
            wire.truncate(k);
            f(format!("unknown link ({} of {} trits)", k, n), wire, c, &[E::LinkNotFound])
        }
        2 | 3 => crafted(src, m),
        4 => {
            // Another linked state or reader's key.
            match m {
                Msg::Unsubscribe { l, .. } | Msg::ChangeKey { l, .. } | Msg::Subscribe { l, .. } => {
                    let Some(o) = other_link(src, l)? else { return Ok(None) };
                    c.links = vec![(l.id.clone(), o.s)];
                    let e = match m.kind() {
                        7 => E::MacVerifyFailed,
                        4 => E::MssVerifyFailed,
                        _ => E::NtruDecrFailed,
                    };
                    f("another linked state".into(), wire, c, &[e])
                }
                Msg::Signed { k, .. } => {
                    let i = src.below(243) as usize;
                    c.pk = flip(&k.pk, i, 1);
                    f("another signer expected".into(), wire, c, &[E::MssVerifyFailed])
                }
                Msg::Keyload { psks, ntrus, .. } => {
                    c.psks.retain(|_| false);
                    c.ntrus.clear();
                    if src.bool() {
                        for (id, k) in psks {
                            let i = src.below(81) as usize;
                            let id = flip(id, i, 1);
                            if !psks.iter().any(|p| p.0 == id) {
                                c.psks.push((id, k.clone()));
                            }
                        }
                        c.ntrus = (0..NTRU_KEYS).map(ntru_pair).filter(|p| !ntrus.iter().any(|n| n.id == p.id)).collect();
                    }
                    f("no key of this reader".into(), wire, c, &[E::KeyNotFound])
                }
                _ => Ok(None),
            }
        }
        5 => {
            // Another reader's key or signer.
            match m {
                Msg::ChangeKey { old, .. } => {
                    let i = src.below(243) as usize;
                    c.pk = flip(&old.pk, i, 1);
                    f("another old key expected".into(), wire, c, &[E::MssVerifyFailed])
                }
                Msg::Subscribe { owner, .. } => {
                    c.owner = Some(ntru_pair((owner.id + 1 + src.below(NTRU_KEYS as u64 - 1) as usize) % NTRU_KEYS));
                    f("another owner".into(), wire, c, &[E::NtruDecrFailed])
                }
                Msg::Keyload { psks, ntrus, .. } if !ntrus.is_empty() => {
                    // The identifier is known, the capsule does not open.
                    c.psks.clear();
                    let p = src.pick(ntrus).clone();
                    if src.bool() {
                        let o = ntru_pair((p.id + 1) % NTRU_KEYS);
                        let m = mn::Key { f: p.m.f.clone(), tf: p.m.tf.clone(), pk: p.m.pk.clone(), th: p.m.th.clone(), tries: p.m.tries };
                        c.ntrus = vec![Rc::new(Pair { sk: o.sk.clone(), pk: p.pk.clone(), m, id: p.id })];
                        f("another private key".into(), wire, c, &[E::NtruDecrFailed])
                    } else {
                        let i = ntrus.iter().position(|x| x.id == p.id).unwrap();
                        let at = 162 + size_enc(psks.len() as u64).len() + 324 * psks.len() + size_enc(ntrus.len() as u64).len() + (81 + 9216) * i + 81;
                        let (v, k) = bumped(src, &wire, at, at + 9216);
                        c.ntrus = vec![p];
                        f(format!("trit {} of the capsule changed", k - at), v, c, &[E::NtruDecrFailed])
                    }
                }
                _ => Ok(None),
            }
        }
        _ => {
            // One trit of the authenticator, or of what only it protects.
            match m {
                Msg::Announce { .. } | Msg::Signed { .. } | Msg::ChangeKey { .. } => {
                    let (a, b) = *src.pick(&sigs);
                    if src.chance(20) {
                        wire[a..a + 18].copy_from_slice(&mm::head(0, if src.bool() { -src.irange(1, 9) } else { src.irange(1, 9) }));
                        return f("a signature slot out of range".into(), wire, c, &[E::BadValue]);
                    }
                    let (v, k) = bumped(src, &wire, a + 18, b);
                    f(format!("trit {} of a signature changed", k - a), v, c, &[E::MssVerifyFailed])
                }
                Msg::Tagged { masked, .. } => {
                    let (v, k) = bumped(src, &wire, n - 243 - masked.len(), n);
                    f(format!("trit {} of {} changed", k, n), v, c, &[E::MacVerifyFailed])
                }
                Msg::Unsubscribe { .. } => {
                    let (v, k) = bumped(src, &wire, 81, n);
                    f(format!("trit {} of {} changed", k, n), v, c, &[E::MacVerifyFailed])
                }
                Msg::Subscribe { .. } => {
                    if src.bool() {
                        let (v, k) = bumped(src, &wire, 81, 81 + 9216);
                        f(format!("trit {} of {} changed", k, n), v, c, &[E::NtruDecrFailed])
                    } else {
                        let (v, k) = bumped(src, &wire, n - 243, n);
                        f(format!("trit {} of {} changed", k, n), v, c, &[E::MacVerifyFailed])
                    }
                }
                _ => Ok(None),
            }
        }
    }
}
fn c36_messages(src: &mut Src) -> Res {
    let kind = src.below(KINDS as u64) as usize;
    src.big = src.chance(5) as u32;
    let m = msg::gen(src, kind, 100)?;
    src.big = 0;
    let t = match &m {
        Msg::Keyload { psks, ntrus, .. } if psks.is_empty() && ntrus.is_empty() => {
            let (s, sp) = prior(src)?;
            let t = send(src, &m, s, sp)?;
            let r = attempt(kind, &t.wire, &t.before, &m.ctx()).0;
            ensure_eq!(r, Err(E::KeyNotFound), "a keyload for nobody");
            t
        }
        _ => exchange(src, &m)?,
    };
    for _ in 0..3 {
        let Some(f) = fault(src, &m, &t)? else { continue };
        src.nontrivial();
        src.note(|| format!("{}: to report {:?}", f.what, f.errs));
        match attempt(kind, &f.wire, &f.before, &f.c).0 {
            Ok(_) => return Err(format!("{} is accepted with {}", m.name(), f.what)),
            Err(e) => {
                ensure!(f.errs.contains(&e), "{} with {} reports {:?} instead of {:?}", m.name(), f.what, e, f.errs);
                src.label(match e {
                    E::BadOneOf => "BadOneOf",
                    E::BadValue => "BadValue",
                    E::Eof => "Eof",
                    E::InternalError => "InternalError",
                    E::KeyNotFound => "KeyNotFound",
                    E::LinkNotFound => "LinkNotFound",
                    E::MacVerifyFailed => "MacVerifyFailed",
                    E::MssVerifyFailed => "MssVerifyFailed",
                    E::NtruBadPublicKey => "NtruBadPublicKey",
                    E::NtruDecrFailed => "NtruDecrFailed",
                    E::VersionUnsupported => "VersionUnsupported",
                });
            }
        }
    }
    Ok(())
}
/// Every place where a message can end.
fn c36_every_cut(src: &mut Src) -> Res {
    let kind = *src.pick(&[0usize, 3, 7, 5, 2, 4]);
    let mut m = msg::gen(src, kind, 12)?;
    if let Msg::Keyload { psks, ntrus, .. } = &mut m {
        ntrus.clear();
        psks.truncate(3);
        if psks.is_empty() {
            return Ok(());
        }
    }
    let t = exchange(src, &m)?;
    src.nontrivial();
    let n = t.wire.len();
    let sigs = sig_ranges(&m, n);
    let end = sigs.first().map_or(n, |s| s.0);
    let mut c = m.ctx();
    if kind == 5 && src.bool() {
        c.psks.clear();
        src.label("by somebody not listed");
    }
    for k in 0..end {
        match attempt(kind, &t.wire[..k], &t.before, &c).0 {
            Err(E::Eof) => {}
            r => return Err(format!("{} cut to {} of {} trits gives {:?} instead of Eof", m.name(), k, n, r.map(|_| ()))),
        }
    }
    Ok(())
}
/// The errors can be told apart by their texts.
fn c36_texts(src: &mut Src) -> Res {
    const ALL: [E; 11] = [
        E::BadOneOf, E::BadValue, E::Eof, E::InternalError, E::KeyNotFound, E::LinkNotFound, E::MacVerifyFailed, E::MssVerifyFailed,
        E::NtruBadPublicKey, E::NtruDecrFailed, E::VersionUnsupported,
    ];
    let i = src.below(121) as usize;
    let (a, b) = (ALL[i / 11], ALL[i % 11]);
    src.nontrivial();
    ensure!(!a.to_string().is_empty(), "{:?} has no text", a);
    ensure_eq!(a == b, i / 11 == i % 11, "equality of {:?} and {:?}", a, b);
    ensure_eq!(a.to_string() == b.to_string(), i / 11 == i % 11, "equality of the texts of {:?} and {:?}", a, b);
    ensure_eq!(pb3::guard(i % 2 == 0, a), if i % 2 == 0 { Ok(()) } else { Err(a) }, "guard");
    let _: &dyn std::error::Error = &a;
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C33",
            rule: "values: both equal and different ones among those compared; maps: hits and misses; trees: a pair that differs; clones: always",
            sections: vec![
                sec("equality", 300_000, 12_000_000, c33_equal),
                sec("names and keys", 60_000, 1_500_000, c33_names),
                sec("maps", 200_000, 8_000_000, c33_map),
                sec("large sizes", 5_000, 200_000, c33_large),
                sec("trees", 100_000, 4_000_000, c33_trees),
                sec("clones", 12_000, 400_000, c33_clones),
            ],
        },
        Property {
            id: "C35",
            rule: "two jobs or more, with shared parameters; in callbacks: at least one step made inside one",
            sections: vec![sec("interleaved", 1_000, 60_000, c35_interleaved), sec("in callbacks", 500, 30_000, c35_nested), sec("threads", 300, 15_000, c35_threads), sec("fresh processes", 160, 8_000, c35_cold)],
        },
        Property {
            id: "C36",
            rule: "a fault was made and an error is due",
            sections: vec![
                sec("messages", 8_000, 500_000, c36_messages),
                sec("every cut", 120, 8_000, c36_every_cut),
                exh("texts", 121, c36_texts),
            ],
        },
    ]
}
