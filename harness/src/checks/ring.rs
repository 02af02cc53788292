//! C17 - C19: polynomial arithmetic and NTRU.

use super::sponge::{sp_op, sp_state};
use crate::engine::*;
use crate::model::ntru as mn;
use crate::model::ring as mr;
use crate::model::ring::{N, P, Q};
use crate::util::*;
use crate::{alloc, ensure, ensure_eq, ensure_trits};
use crate::model;
use iota_mam::ntru;
use iota_mam::poly::Poly;
use iota_mam::prng::PRNG;
use iota_mam::trits::*;

// ---------------------------------------------------------------- C17

pub fn gen_poly(src: &mut Src) -> P {
    let kind = src.below(8);
    match kind {
        0 => {
            // Sparse.
            let mut p = vec![0; N];
            for _ in 0..src.range(0, 3) {
                let i = src.below(N as u64) as usize;
                p[i] = src.below(Q as u64) as i64;
            }
            p
        }
        1 => {
            let c = *src.pick(&[0i64, 1, Q - 1, mr::HALF, mr::HALF + 1, 2, 3]);
            vec![c; N]
        }
        2 => {
            // Extremes.
            let mut r = Rng::new(src.raw());
            (0..N).map(|_| [0, 1, Q - 1, mr::HALF, mr::HALF + 1, 4091, 8198, 12288][r.below(8) as usize]).collect()
        }
        3 => {
            let t = src.rtrits(N);
            mr::small(&t)
        }
        4 => {
            // Every residue in a row, from a random start.
            let s = src.below(Q as u64) as i64;
            (0..N as i64).map(|i| mr::red(s + i)).collect()
        }
        _ => {
            let mut r = Rng::new(src.raw());
            (0..N).map(|_| r.below(Q as u64) as i64).collect()
        }
    }
}
pub fn poly(p: &P) -> Poly {
    let mut r = Poly::new();
    assert!(r.from_trits(tr(&mr::to_trits(p)).slice()), "canonical coefficients are refused");
    r
}
fn read(src: &mut Src, p: &Poly) -> Result<Vec<u8>, String> {
    let junk = src.rtrits(9 * N);
    let mut f = Frame::new(src, &junk);
    p.to_trits(f.slice_mut());
    let v = f.get();
    f.check(&v, "to_trits")?;
    Ok(v)
}
pub fn same(src: &mut Src, p: &Poly, m: &P, what: &str) -> Res {
    let got = read(src, p)?;
    let exp = mr::to_trits(m);
    if got != exp {
        let i = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap() / 9;
        return Err(format!("{}: coefficient {} is {} instead of {}", what, i, model::value(&got[9 * i..9 * i + 9]), model::value(&exp[9 * i..9 * i + 9])));
    }
    Ok(())
}
fn c17_ops(src: &mut Src) -> Res {
    let mut ps: Vec<(Poly, P)> = Vec::new();
    for _ in 0..src.range(2, 3) {
        let m = gen_poly(src);
        ps.push((poly(&m), m));
    }
    if src.chance(20) {
        ps.push((Poly::new(), vec![0; N]));
    }
    let k = src.range(1, 12);
    let mut forms = 0;
    for step in 0..k {
        let i = src.below(ps.len() as u64) as usize;
        let j = src.below(ps.len() as u64) as usize;
        let (mut p, m) = ps[i].clone();
        let (q, n) = ps[j].clone();
        let op = src.below(15);
        let name;
        let r: P = match op {
            0 => {
                name = "add";
                p.add(&q);
                mr::zip(&m, &n, |a, b| a + b)
            }
            1 => {
                name = "sub";
                p.sub(&q);
                mr::zip(&m, &n, |a, b| a - b)
            }
            2 | 3 => {
                let t = src.trits(N);
                let f = Frame::new(src, &t);
                let s = mr::small(&t);
                if op == 2 {
                    name = "add_small";
                    p.add_small(f.slice());
                    mr::zip(&m, &s, |a, b| a + b)
                } else {
                    name = "sub_small";
                    p.sub_small(f.slice());
                    mr::zip(&m, &s, |a, b| a - b)
                }
            }
            4 => {
                name = "small_mul3";
                p.small_mul3();
                mr::map(&m, |a| 3 * a)
            }
            5 => {
                name = "small3_add1";
                p.small3_add1();
                let mut r = m.clone();
                r[0] = mr::red(r[0] + 1);
                r
            }
            6 => {
                name = "ntt";
                forms += 1;
                p.ntt();
                mr::ntt(&m)
            }
            7 => {
                name = "intt";
                forms += 1;
                p.intt();
                mr::intt(&m)
            }
            8 | 9 => {
                name = "conv";
                p.conv(&q);
                mr::zip(&m, &n, |a, b| a * b)
            }
            10 => {
                ensure_eq!(p.has_inv(), !m.contains(&0), "has_inv at step {}", step);
                if m.contains(&0) {
                    continue;
                }
                name = "inv";
                p.inv();
                mr::map(&m, mr::inv1)
            }
            11 => {
                name = "round_small";
                p.round_small();
                mr::small(&mr::round(&m))
            }
            12 => {
                name = "small_from_trits";
                let t = src.trits(N);
                let f = Frame::new(src, &t);
                p.small_from_trits(f.slice());
                mr::small(&t)
            }
            13 => {
                // Canonical: reading and importing again gives an equal element.
                name = "to_trits and from_trits";
                let t = read(src, &p)?;
                let f = Frame::new(src, &t);
                let mut o = q;
                ensure!(o.from_trits(f.slice()), "the trits of a polynomial are refused at step {}", step);
                ensure!(o == p, "the imported polynomial differs from the exported one at step {}", step);
                p = o;
                m.clone()
            }
            _ => {
                name = "round_to_trits";
                let junk = src.rtrits(N);
                let mut f = Frame::new(src, &junk);
                p.round_to_trits(f.slice_mut());
                f.check(&mr::round(&m), "round_to_trits")?;
                m.clone()
            }
        };
        src.note(|| format!("{}: p{} = p{} with p{}", name, ps.len() % 4, i, j));
        same(src, &p, &r, &format!("{} at step {}", name, step))?;
        for (a, b) in &ps {
            ensure_eq!(*a == p, *b == r, "equality after {} at step {}", name, step);
        }
        // Operands are untouched, results are kept for later steps.
        same(src, &ps[j].0.clone(), &n, "operand")?;
        if src.bool() && ps.len() > 2 {
            ps[i] = (p, r);
        } else if ps.len() < 6 {
            ps.push((p, r));
        } else {
            ps[i] = (p, r);
        }
    }
    if forms > 0 || k > 3 {
        src.nontrivial();
    }
    Ok(())
}
fn c17_product(src: &mut Src) -> Res {
    let (a, b) = (gen_poly(src), gen_poly(src));
    src.note(|| format!("product of {}.. and {}..", short(&a[..6]), short(&b[..6])));
    src.nontrivial();
    let (mut p, mut q) = (poly(&a), poly(&b));
    p.ntt();
    q.ntt();
    p.conv(&q);
    p.intt();
    let e = mr::mul(&a, &b);
    same(src, &p, &e, "product through the transform, against the schoolbook product")?;
    q.intt();
    same(src, &q, &b, "transform and back")?;
    ensure!(q == poly(&b), "transform and back is not equal to the polynomial");
    ensure!(p == poly(&e), "the product is not equal to the schoolbook product");
    Ok(())
}
fn c17_transform(src: &mut Src) -> Res {
    let a = gen_poly(src);
    let mut p = poly(&a);
    src.nontrivial();
    let t = mr::ntt_def(&a);
    assert!(t == mr::ntt(&a) && mr::intt(&t) == a, "harness: the two model transforms differ");
    p.ntt();
    same(src, &p, &t, "transform, against the values at the odd powers of gamma")?;
    ensure_eq!(p.has_inv(), !t.contains(&0), "invertibility");
    if p.has_inv() {
        let mut i = p;
        i.inv();
        i.conv(&p);
        same(src, &i, &vec![1; N], "product with the inverse")?;
    }
    Ok(())
}
/// Invertibility depends on every coefficient.
fn c17_zero(src: &mut Src) -> Res {
    let i = src.below(N as u64) as usize;
    let mut r = Rng::new(src.raw());
    let mut t: P = (0..N).map(|_| 1 + r.below(Q as u64 - 1) as i64).collect();
    src.nontrivial();
    ensure!(poly(&t).has_inv(), "no inverse without a zero");
    let mut inv = poly(&t);
    inv.inv();
    same(src, &inv, &mr::map(&t, mr::inv1), "inverse")?;
    t[i] = 0;
    ensure!(!poly(&t).has_inv(), "an inverse with coefficient {} zero", i);
    Ok(())
}
/// Every coefficient value: conversions, rounding, inversion and the boundary of the range.
fn c17_values(src: &mut Src) -> Res {
    let v = src.below(19683) as i64 - 9841;
    let i = src.below(N as u64) as usize;
    let base = gen_poly(src);
    let mut t = mr::to_trits(&base);
    t[9 * i..9 * i + 9].copy_from_slice(&model::trits_of(v, 9));
    src.nontrivial();
    src.note(|| format!("coefficient {} with value {}", i, v));
    let f = Frame::new(src, &t);
    let mut p = Poly::new();
    let ok = p.from_trits(f.slice());
    ensure_eq!(ok, (-mr::HALF..=mr::HALF).contains(&v), "acceptance of coefficient value {}", v);
    if !ok {
        return Ok(());
    }
    let mut m = base;
    m[i] = mr::red(v);
    same(src, &p, &m, "imported polynomial")?;
    let mut out = Frame::new(src, &vec![0; N]);
    p.round_to_trits(out.slice_mut());
    out.check(&mr::round(&m), "rounding")?;
    let mut q = p;
    q.round_small();
    same(src, &q, &mr::small(&mr::round(&m)), "round_small")?;
    let mut q = p;
    q.small_mul3();
    q.small3_add1();
    let mut e = mr::map(&m, |a| 3 * a);
    e[0] = mr::red(e[0] + 1);
    same(src, &q, &e, "3p+1")?;
    if v != 0 {
        let mut one = poly(&vec![m[i]; N]);
        one.inv();
        same(src, &one, &vec![mr::inv1(m[i]); N], "inverse of a coefficient")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C18, C19

struct Pair {
    key: Vec<u8>,
    nonce: Vec<u8>,
    m: mn::Key,
    sk: ntru::PrivateKey,
    pk: ntru::PublicKey,
}
fn gen_seed(src: &mut Src) -> (Vec<u8>, Vec<u8>) {
    let key = src.trits(243);
    let n = src.any_size(400);
    (key, src.trits(n))
}
fn gen_pair_from(src: &mut Src, key: Vec<u8>, nonce: Vec<u8>) -> Result<Pair, String> {
    let m = mn::gen(&key, &nonce);
    src.note(|| format!("key pair from key {} nonce {} after {} refused candidates", show(&key), show(&nonce), m.tries));
    let nf = Frame::new(src, &nonce);
    let p = PRNG::init_trits(&tr(&key));
    // Far more work than any number of candidates that can be needed.
    let (sk, pk) = alloc::budget(2_000_000, || ntru::gen(&p, nf.slice()));
    if m.tries > 0 {
        src.label("candidates refused");
    }
    Ok(Pair { key, nonce, m, sk, pk })
}
fn gen_pair(src: &mut Src) -> Result<Pair, String> {
    let (k, n) = gen_seed(src);
    gen_pair_from(src, k, n)
}
fn check_pair(src: &mut Src, p: &Pair) -> Res {
    ensure_trits!(sl(p.pk.trits()), p.m.pk, "public key after {} refused candidates", p.m.tries);
    ensure_trits!(sl(p.pk.id()), p.m.pk[..81], "public key identifier");
    // A model capsule for the true key opens with the generated private key.
    let k = src.trits(243);
    let y = mn::encr(&mut model::spongos::Sp::new(), &p.key, &p.nonce, &p.m.pk, &p.m.th, &k);
    let mut out = Frame::new(src, &vec![0; 243]);
    ensure!(p.sk.decr(tr(&y).slice(), out.slice_mut()), "the generated private key does not open a capsule made by the model");
    out.check(&k, "session key of a capsule made by the model")
}
fn c18_gen(src: &mut Src) -> Res {
    let p = gen_pair(src)?;
    src.nontrivial();
    check_pair(src, &p)?;
    if src.chance(30) {
        let (_, again) = ntru::gen(&PRNG::init_trits(&tr(&p.key)), tr(&p.nonce).slice());
        ensure!(again == p.pk, "a second generation gives another key");
    }
    Ok(())
}
/// Generators whose first candidates are all unsuitable.
fn c18_retries(src: &mut Src) -> Res {
    let need = if src.thorough { src.range(2, 5) } else { src.range(2, 4) };
    let (key, mut nonce) = gen_seed(src);
    nonce.extend(vec![0; 12]);
    let at = nonce.len() - 12;
    // Search a nonce whose first `need` candidates are refused.
    let mut c = src.below(3u64.pow(12));
    let limit = 40_000;
    for tried in 0.. {
        if tried == limit {
            return Ok(());
        }
        for k in 0..12 {
            nonce[at + k] = ((c / 3u64.pow(k as u32)) % 3) as u8;
        }
        if (0..need).all(|i| mn::candidate(&key, &nonce, i).is_none()) {
            break;
        }
        c = (c + 1) % 3u64.pow(12);
    }
    src.nontrivial();
    let p = gen_pair_from(src, key, nonce)?;
    if need >= 3 {
        src.label("three or more candidates refused");
    }
    check_pair(src, &p)
}
fn c18_kem(src: &mut Src) -> Res {
    let p = gen_pair(src)?;
    check_pair(src, &p)?;
    src.nontrivial();
    let imported = match src.below(3) {
        0 => None,
        1 => ntru::PublicKey::from_trits(p.pk.trits().clone_trits()).map(Some).ok_or("the public key does not import from its trits")?,
        _ => {
            let t = sl(p.pk.trits());
            let f = Frame::new(src, &t);
            ntru::PublicKey::from_slice(f.slice()).map(Some).ok_or("the public key does not import from its slice")?
        }
    };
    if let Some(i) = &imported {
        src.label("imported");
        ensure!(*i == p.pk, "the imported key differs");
        ensure_trits!(sl(i.trits()), p.m.pk, "trits of the imported key");
        ensure_trits!(sl(i.id()), p.m.pk[..81], "identifier of the imported key");
    }
    let pk = imported.as_ref().unwrap_or(&p.pk);
    for _ in 0..src.range(1, 3) {
        let k = src.trits(243);
        let n = src.any_size(200);
        let nonce = src.trits(n);
        let rk = src.trits(243);
        let prng = PRNG::init_trits(&tr(&rk));
        let (nf, kf) = (Frame::new(src, &nonce), Frame::new(src, &k));
        let mut y = {
            let junk = src.rtrits(9216);
            Frame::new(src, &junk)
        };
        let mut out = {
            let junk = src.rtrits(243);
            Frame::new(src, &junk)
        };
        src.note(|| format!("encapsulate {} with nonce {}", show(&k), show(&nonce)));
        if src.chance(30) {
            let expect = mn::encr(&mut model::spongos::Sp::new(), &rk, &nonce, &p.m.pk, &p.m.th, &k);
            pk.encr(&prng, nf.slice(), kf.slice(), y.slice_mut());
            y.check(&expect, "capsule")?;
            ensure!(p.sk.decr(y.slice(), out.slice_mut()), "decapsulation fails");
            out.check(&k, "decapsulated key")?;
        } else {
            let (mut s, mut ms) = sp_state(src)?;
            let mut d = s.fork();
            let expect = mn::encr(&mut ms, &rk, &nonce, &p.m.pk, &p.m.th, &k);
            pk.encr_with_s(&mut s, &prng, nf.slice(), kf.slice(), y.slice_mut());
            y.check(&expect, "capsule")?;
            ensure_trits!(probe(&s), ms.probe(), "state after encapsulating");
            if src.chance(40) {
                // The same through the functions that take trits and transform.
                let mut h = poly(&p.m.th);
                if src.bool() {
                    h = Poly::new();
                    ensure!(h.from_trits(p.pk.trits()), "the public key is not canonical");
                    h.ntt();
                }
                let mut y2 = Trits::zero(9216);
                let mut s2 = d.fork();
                ntru::encr_pk(&mut s2, &prng, p.pk.trits(), &h, nf.slice(), kf.slice(), y2.slice_mut());
                ensure_trits!(ve(&y2), expect, "capsule by encr_pk");
                ensure_trits!(probe(&s2), probe(&s), "state after encr_pk");
                let mut d2 = d.fork();
                let mut o2 = Trits::zero(243);
                ensure!(ntru::decr_sk(&mut d2, tr(&p.m.f).slice(), y2.slice(), o2.slice_mut()), "decr_sk fails");
                ensure_trits!(ve(&o2), k, "key by decr_sk");
                ensure_trits!(probe(&d2), probe(&s), "state after decr_sk");
                src.label("free functions");
            }
            let sk = if src.bool() { p.sk.clone() } else { ntru::gen(&PRNG::init_trits(&tr(&p.key)), tr(&p.nonce).slice()).0 };
            ensure!(sk.decr_with_s(&mut d, y.slice(), out.slice_mut()), "decapsulation fails");
            out.check(&k, "decapsulated key")?;
            ensure_trits!(probe(&d), probe(&s), "state after decapsulating");
            y.check(&expect, "capsule after decapsulating")?;
        }
        kf.check(&k, "session key after encapsulating")?;
    }
    Ok(())
}

fn c18_long(src: &mut Src) -> Res {
    let p = gen_pair(src)?;
    let n = src.range(258, 600);
    src.nontrivial();
    src.note(|| format!("{} encapsulations with one pair", n));
    let prng = PRNG::init_trits(&tr(&src.trits(243)));
    let cases: Vec<(Vec<u8>, Trits, Trits)> = (0..3)
        .map(|_| {
            let rk = src.trits(243);
            let (k, nonce) = (src.trits(243), src.trits(30));
            let y = mn::encr(&mut model::spongos::Sp::new(), &rk, &nonce, &p.m.pk, &p.m.th, &k);
            (k, tr(&y), tr(&nonce))
        })
        .collect();
    // All by one generator, and capsules made elsewhere in between.
    let mut first: Vec<Option<Trits>> = vec![None; 3];
    for i in 0..n {
        let (k, foreign, nonce) = &cases[i % 3];
        let mut y = Trits::zero(9216);
        p.pk.encr(&prng, nonce.slice(), tr(k).slice(), y.slice_mut());
        let was = first[i % 3].get_or_insert_with(|| y.clone());
        ensure_trits!(ve(&y), ve(was), "capsule {} with one pair", i);
        let mut out = Trits::zero(243);
        ensure!(p.sk.decr(y.slice(), out.slice_mut()), "decapsulation {} with one pair fails", i);
        ensure_trits!(ve(&out), k, "decapsulated key {}", i);
        let mut out = Trits::zero(243);
        ensure!(p.sk.decr(foreign.slice(), out.slice_mut()), "decapsulation {} of a model capsule with one pair fails", i);
        ensure_trits!(ve(&out), k, "decapsulated key {} of a model capsule", i);
    }
    check_pair(src, &p)
}
fn c19_reject(src: &mut Src) -> Res {
    let p = gen_pair(src)?;
    let k = src.trits(243);
    let rk = src.trits(243);
    let nonce = src.rtrits(30);
    let (s, _) = sp_state(src)?;
    let mut y = tr(&vec![0; 9216]);
    p.pk.encr_with_s(&mut s.fork(), &PRNG::init_trits(&tr(&rk)), tr(&nonce).slice(), tr(&k).slice(), y.slice_mut());
    let y = ve(&y);
    let yp = mr::from_trits(&y).ok_or("the capsule is not canonical")?;
    let mut out = tr(&vec![0; 243]);
    ensure!(p.sk.decr_with_s(&mut s.fork(), tr(&y).slice(), out.slice_mut()), "the unchanged capsule is refused");
    src.nontrivial();
    for _ in 0..src.range(8, 16) {
        let mut z = y.clone();
        let mut zp = yp.clone();
        let what: String;
        match src.below(11) {
            0 | 1 => {
                let i = src.below(9216) as usize;
                z[i] = (z[i] + 1 + src.below(2) as u8) % 3;
                what = format!("trit {} changed", i);
            }
            2 | 3 => {
                // Add a small amount to some coefficients.
                let n = src.range(1, 3);
                let d = *src.pick(&[1i64, -1, 3, -3, 2, 6, 9, 27, 1024, 4096]);
                for _ in 0..n {
                    let i = src.below(N as u64) as usize;
                    zp[i] = mr::red(zp[i] + d);
                }
                z = mr::to_trits(&zp);
                what = format!("{} added to {} coefficients", d, n);
            }
            4 => {
                // Add another multiple of the public key: another r under the same message part.
                let t = src.rtrits(N);
                let r = mr::small(&t);
                let h = mr::intt(&mr::zip(&mr::ntt(&r), &p.m.th, |a, b| a * b));
                z = mr::to_trits(&mr::zip(&zp, &h, |a, b| a + b));
                what = "a multiple of the public key added".into();
            }
            5 => {
                let t = src.trits(9216);
                z = t;
                what = "arbitrary trits".into();
            }
            6 => {
                // One coefficient out of range, otherwise the same residue.
                let i = src.below(N as u64) as usize;
                let v = model::value(&z[9 * i..9 * i + 9]);
                let w = if v > 0 { v - Q } else { v + Q };
                if w.abs() > 9841 {
                    continue;
                }
                z[9 * i..9 * i + 9].copy_from_slice(&model::trits_of(w, 9));
                what = format!("coefficient {} replaced by its residue {} out of range", i, w);
            }
            7 => {
                // Negacyclic shift.
                zp.rotate_right(1);
                zp[0] = mr::red(-zp[0]);
                z = mr::to_trits(&zp);
                what = "multiplied by x".into();
            }
            8 => {
                let (s2, _) = sp_state(src)?;
                if kept(&s2) == kept(&s) {
                    continue;
                }
                src.note(|| "another prior state".into());
                let mut o = tr(&vec![0; 243]);
                ensure!(!p.sk.decr_with_s(&mut s2.fork(), tr(&y).slice(), o.slice_mut()), "accepted with another prior state");
                continue;
            }
            9 => {
                // A state one operation away.
                let mut s2 = s.fork();
                let mut dummy = model::spongos::Sp::new();
                sp_op(src, &mut s2, &mut dummy, 5).ok();
                if kept(&s2) == kept(&s) {
                    continue;
                }
                let mut o = tr(&vec![0; 243]);
                ensure!(!p.sk.decr_with_s(&mut s2, tr(&y).slice(), o.slice_mut()), "accepted with another prior state");
                continue;
            }
            _ => {
                let o = gen_pair(src)?;
                if o.m.pk == p.m.pk {
                    continue;
                }
                src.note(|| "another private key".into());
                let mut out = tr(&vec![0; 243]);
                ensure!(!o.sk.decr_with_s(&mut s.fork(), tr(&y).slice(), out.slice_mut()), "accepted with another private key");
                continue;
            }
        }
        if z == y {
            continue;
        }
        src.note(|| what.clone());
        let f = Frame::new(src, &z);
        let mut o = Frame::new(src, &vec![0; 243]);
        ensure!(!p.sk.decr_with_s(&mut s.fork(), f.slice(), o.slice_mut()), "accepted: {}", what);
        let now = o.get();
        o.check(&now, "buffer of the session key")?;
    }
    // Failures leave the key working.
    ensure!(p.sk.decr_with_s(&mut s.fork(), tr(&y).slice(), out.slice_mut()), "the unchanged capsule is refused after altered ones");
    ensure_trits!(ve(&out), k, "session key");
    Ok(())
}
/// A capsule whose check values were built by hand for a wrong part: only the full check refuses it.
fn c19_partial(src: &mut Src) -> Res {
    let p = gen_pair(src)?;
    let (s, ms) = sp_state(src)?;
    let t = src.rtrits(N);
    let r = mr::small(&t);
    let t = mr::intt(&mr::zip(&mr::ntt(&r), &p.m.th, |a, b| a * b));
    let k = src.trits(243);
    let mut st = ms.clone();
    st.absorb(&mr::to_trits(&t));
    st.commit();
    let mut m = st.encr(&k);
    m.extend(st.squeeze(N - 243));
    // Change one check value.
    let good = src.chance(20);
    let i = 243 + src.below(N as u64 - 243) as usize;
    if !good {
        m[i] = (m[i] + 1 + src.below(2) as u8) % 3;
    }
    let y = mr::to_trits(&mr::zip(&t, &mr::small(&m), |a, b| a + b));
    src.nontrivial();
    src.note(|| format!("check value {} {}", i, if good { "kept" } else { "changed" }));
    let mut o = Frame::new(src, &vec![0; 243]);
    let mut d = s.fork();
    let ok = p.sk.decr_with_s(&mut d, tr(&y).slice(), o.slice_mut());
    ensure_eq!(ok, good, "acceptance of a capsule with check value {} {}", i, if good { "kept" } else { "changed" });
    if ok {
        o.check(&k, "session key")?;
        ensure_trits!(probe(&d), st.probe(), "state after decapsulating");
    }
    Ok(())
}
fn c19_import(src: &mut Src) -> Res {
    let kind = src.below(7);
    let t: Vec<u8> = match kind {
        0 => {
            let n = match src.below(4) {
                0 => 9216 - src.range(1, 9),
                1 => 9216 + src.range(1, 9),
                2 => src.upto(40),
                _ => src.upto(20_000),
            };
            src.trits(n)
        }
        1 => {
            // Not invertible: one value of the transform is zero.
            let mut r = Rng::new(src.raw());
            let mut v: P = (0..N).map(|_| 1 + r.below(Q as u64 - 1) as i64).collect();
            for _ in 0..src.range(1, 2) {
                let i = src.below(N as u64) as usize;
                v[i] = 0;
            }
            mr::to_trits(&mr::intt(&v))
        }
        2 => {
            // Invertible, then one coefficient out of range.
            let mut r = Rng::new(src.raw());
            let v: P = (0..N).map(|_| 1 + r.below(Q as u64 - 1) as i64).collect();
            let mut t = mr::to_trits(&mr::intt(&v));
            let i = src.below(N as u64) as usize;
            let w = match src.below(3) {
                0 => mr::HALF + 1,
                1 => -mr::HALF - 1,
                _ => *src.pick(&[1i64, -1]) * src.irange(mr::HALF + 1, 9841),
            };
            t[9 * i..9 * i + 9].copy_from_slice(&model::trits_of(w, 9));
            t
        }
        3 => {
            let mut r = Rng::new(src.raw());
            let v: P = (0..N).map(|_| 1 + r.below(Q as u64 - 1) as i64).collect();
            mr::to_trits(&mr::intt(&v))
        }
        4 => {
            let p = gen_poly(src);
            mr::to_trits(&p)
        }
        5 => {
            // Boundary values everywhere.
            let mut r = Rng::new(src.raw());
            (0..N).flat_map(|_| model::trits_of([mr::HALF, -mr::HALF, 0, 1][r.below(4) as usize], 9)).collect()
        }
        _ => src.trits(9216),
    };
    let expect = mn::import(&t);
    src.nontrivial();
    src.note(|| format!("import {} trits of kind {}: {}", t.len(), kind, if expect.is_some() { "a key" } else { "not a key" }));
    let f = Frame::new(src, &t);
    let a = ntru::PublicKey::from_slice(f.slice());
    let b = ntru::PublicKey::from_trits(tr(&t));
    ensure_eq!(a.is_some(), expect.is_some(), "import of {} trits of kind {} from a slice", t.len(), kind);
    ensure_eq!(b.is_some(), expect.is_some(), "import of {} trits of kind {}", t.len(), kind);
    if let (Some(a), Some(b), Some(th)) = (a, b, expect) {
        src.label("accepted");
        ensure!(a == b, "the two imports differ");
        ensure_trits!(sl(a.trits()), t, "trits of the imported key");
        // It encapsulates for the polynomial it was made from.
        let (k, rk, n) = (src.trits(243), src.trits(243), src.rtrits(20));
        let e = mn::encr(&mut model::spongos::Sp::new(), &rk, &n, &t, &th, &k);
        let mut y = tr(&vec![0; 9216]);
        a.encr(&PRNG::init_trits(&tr(&rk)), tr(&n).slice(), tr(&k).slice(), y.slice_mut());
        ensure_trits!(ve(&y), e, "capsule for an imported key");
    } else {
        src.label("refused");
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            rule: "a case runs 1..12 operations on 2..6 polynomials against integer arithmetic, or one product, transform or coefficient value; non-trivial: a transform was used or more than three operations (all cases of the other sections)",
            sections: vec![
                exh("every coefficient value", 19683, c17_values),
                exh("every position of a zero", 1024, c17_zero),
                sec("operations", 20_000, 400_000, c17_ops),
                sec("products", 6_000, 100_000, c17_product),
                sec("transform by definition", 2_500, 40_000, c17_transform),
            ],
        },
        Property {
            id: "C18",
            rule: "a case generates a key pair against the model, searches a generator whose first candidates are unsuitable, or encapsulates and decapsulates 1..3 times from random states; all are non-trivial",
            sections: vec![
                sec("key generation", 6_000, 300_000, c18_gen),
                sec("refused candidates", 120, 6_000, c18_retries),
                sec("encapsulation", 5_000, 250_000, c18_kem),
                sec("long lives", 12, 200, c18_long),
            ],
        },
        Property {
            id: "C19",
            rule: "a case tries 8..16 altered capsules, other keys or other states, a capsule with one wrong check value, or imports a key; all are non-trivial",
            sections: vec![
                sec("altered capsules", 6_000, 300_000, c19_reject),
                sec("check values", 12_000, 600_000, c19_partial),
                sec("key import", 30_000, 1_500_000, c19_import),
            ],
        },
    ]
}
