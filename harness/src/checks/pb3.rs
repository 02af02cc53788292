//! C20 - C22: PB3 fields, sizes, malformed input.

use super::kit::*;
use super::msg::{self, gen_ntrus, gen_psks, Ctx};
use super::sponge::sp_state;
use crate::alloc;
use crate::engine::*;
use crate::model;
use crate::util::*;
use crate::{ensure, ensure_eq, ensure_trits};
use iota_mam::app::core::{MsgId, MSGID_SIZE};
use iota_mam::mss;
use iota_mam::ntru;
use iota_mam::pb3::absorb::AbsorbExternal;
use iota_mam::pb3::{self, Absorb, Mask, TrintField};
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::*;
use std::rc::Rc;

// ---------------------------------------------------------------- C20

struct Ext(Trits);
impl AbsorbExternal for Ext {
    fn slice(&self) -> TritSlice {
        self.0.slice()
    }
}

enum F {
    /// An integer of so many trits; how: 0 absorbed, 1 masked, 2 plain.
    Int(usize, i64, u8, bool),
    Size(u64, bool, bool),
    Fixed(Vec<u8>, bool, u8),
    Var(Vec<u8>, bool, u8),
    /// A count, then so many trytes.
    Repeat(Vec<i64>, bool),
    MssPk(Vec<u8>, bool, bool),
    NtruPk(Rc<Pair>, bool, bool),
    Mac,
    Commit,
    External(Vec<u8>),
    Join(Vec<u8>, Spongos, model::spongos::Sp),
    Sig(Signer, u8),
    Kem(Rc<Pair>, Vec<u8>, Vec<u8>, Vec<u8>),
    Id(Vec<u8>),
}

fn gen_int(src: &mut Src, w: usize) -> i64 {
    let m = (3i64.pow(w as u32) - 1) / 2;
    match src.below(4) {
        0 => *src.pick(&[0, 1, -1, m, -m, m - 1, 1 - m]),
        _ => src.irange(-m, m),
    }
}
fn gen_size(src: &mut Src) -> u64 {
    const MAX: u64 = 2_026_277_576_509_488_133;
    match src.below(4) {
        0 => src.below(1000),
        1 => {
            // Around the largest value of so many trytes.
            let k = src.below(13) as u32;
            let m = ((27u128.pow(k) - 1) / 2) as u64;
            m.saturating_sub(2) + src.below(5)
        }
        2 => {
            // Digits of extreme values.
            let k = src.range(1, 13);
            let mut v = 0i128;
            for i in 0..k {
                let d = *src.pick(&[13i128, -13, 0, 1, -1, 12]);
                v = v * 27 + if i == 0 { d.abs().max(1) } else { d };
            }
            (v as u64).min(MAX)
        }
        _ => {
            let top = 1 + src.below(61);
            src.raw().checked_shr(64 - top as u32).unwrap_or(0) % (MAX + 1)
        }
    }
}

fn gen_field(src: &mut Src) -> Result<F, String> {
    let m = src.bool();
    Ok(match src.weighted(&[8, 5, 6, 6, 3, 3, 1, 3, 3, 2, 3, 2, 1, 2]) {
        0 => {
            let w = *src.pick(&[3usize, 6, 9, 18]);
            let v = gen_int(src, w);
            let how = src.weighted(&[5, 5, 1]) as u8;
            F::Int(w, v, how, src.bool())
        }
        1 => F::Size(gen_size(src), m, src.bool()),
        2 => {
            let n = src.len(1500);
            let n = if src.chance(70) { n / 3 * 3 } else { n };
            F::Fixed(src.trits(n), m, src.below(3) as u8)
        }
        3 => F::Var(payload(src, 500), m, src.below(4) as u8),
        4 => {
            let n = src.upto(20);
            F::Repeat((0..n).map(|_| src.irange(-13, 13)).collect(), m)
        }
        5 => F::MssPk(src.trits(243), m, src.bool()),
        6 => F::NtruPk(pair(src), m, src.bool()),
        7 => F::Mac,
        8 => F::Commit,
        9 => {
            let n = src.len(600);
            F::External(src.trits(n))
        }
        10 => {
            let (s, sp) = link_state(src)?;
            F::Join(src.trits(81), s, sp)
        }
        11 => F::Sig(signer(src), src.below(4) as u8),
        12 => F::Kem(pair(src), src.trits(243), src.trits(243), {
            let n = src.len(200);
            src.trits(n)
        }),
        _ => F::Id(src.trits(81)),
    })
}
fn name(f: &F) -> String {
    let c = |m: bool| if m { "mask" } else { "absorb" };
    match f {
        F::Int(w, v, how, _) => format!("{} trint{} {}", ["absorb", "mask", "plain"][*how as usize], w, v),
        F::Size(n, m, _) => format!("{} size {}", c(*m), n),
        F::Fixed(x, m, _) => format!("{} {} trits {}", c(*m), x.len(), show(x)),
        F::Var(x, m, _) => format!("{} trytes {}", c(*m), show(x)),
        F::Repeat(v, m) => format!("{} repeated {:?}", c(*m), v),
        F::MssPk(_, m, _) => format!("{} mss public key", c(*m)),
        F::NtruPk(p, m, _) => format!("{} ntru public key {}", c(*m), p.id),
        F::Mac => "mac".into(),
        F::Commit => "commit".into(),
        F::External(x) => format!("absorb external {} trits", x.len()),
        F::Join(..) => "join".into(),
        F::Sig(k, how) => format!("mssig {} ({})", k.name(), how),
        F::Kem(p, ..) => format!("ntrukem to key {}", p.id),
        F::Id(x) => format!("absorb message id {}", show(x)),
    }
}

/// The announced number of trits.
fn announced(f: &F) -> usize {
    match f {
        F::Int(3, _, _, true) => pb3::sizeof_oneof(),
        F::Int(3, ..) => pb3::Trint3::sizeof(),
        F::Int(6, _, _, true) => pb3::sizeof_trint(),
        F::Int(6, ..) => pb3::Trint6::sizeof(),
        F::Int(9, _, _, true) => pb3::sizeof_trint9(),
        F::Int(9, ..) => pb3::Trint9::sizeof(),
        F::Int(..) => pb3::Trint18::sizeof(),
        F::Size(n, _, true) => pb3::sizeof_repeated(*n as usize),
        F::Size(n, _, false) => pb3::Size(*n as usize).sizeof(),
        F::Fixed(x, ..) if x.len() % 3 == 0 => pb3::sizeof_ntrytes(x.len() / 3),
        F::Fixed(x, ..) => x.len(),
        F::Var(x, _, k) if k % 2 == 0 => pb3::sizeof_trytes(x.len() / 3),
        F::Var(x, ..) => pb3::Trytes::sizeof(x.len() / 3),
        F::Repeat(v, _) => pb3::sizeof_repeated(v.len()) + v.len() * pb3::sizeof_tryte(),
        F::MssPk(..) => pb3::sizeof_ntrytes(mss::PK_SIZE / 3),
        F::NtruPk(..) => pb3::sizeof_ntrytes(ntru::PK_SIZE / 3),
        F::Mac => pb3::mac::sizeof_mac(),
        F::Commit | F::External(_) => 0,
        F::Join(..) => pb3::join::sizeof_join(),
        F::Sig(k, _) => pb3::mssig::sizeof_mssig(&k.sk),
        F::Kem(..) => pb3::ntrukem::sizeof_ntrukem(),
        F::Id(_) => MSGID_SIZE,
    }
}
fn model_write(f: &F, w: &mut W) {
    match f {
        F::Int(n, v, how, _) => {
            let t = model::trits_of(*v, *n);
            match how {
                0 => w.absorb(&t),
                1 => w.mask(&t),
                _ => w.w.extend(t),
            }
        }
        F::Size(n, m, _) => w.put(&size_enc(*n), *m),
        F::Fixed(x, m, _) => w.put(x, *m),
        F::Var(x, m, _) => w.trytes(x, *m),
        F::Repeat(v, m) => {
            w.put(&size_enc(v.len() as u64), *m);
            for t in v {
                w.put(&model::trits_of(*t, 3), *m);
            }
        }
        F::MssPk(x, m, _) => w.put(x, *m),
        F::NtruPk(p, m, _) => w.put(&p.m.pk, *m),
        F::Mac => w.mac(),
        F::Commit => w.s.commit(),
        F::External(x) => w.s.absorb(x),
        F::Join(id, _, l) => w.join(id, &mut l.clone()),
        F::Sig(k, _) => w.sig(k),
        F::Kem(p, prng, key, nonce) => w.kem(p, prng, nonce, key),
        F::Id(x) => w.absorb(x),
    }
}
fn put<T: Absorb + Mask>(v: &T, mask: bool, s: &mut Spongos, b: &mut TritSliceMut) {
    if mask {
        v.wrap_mask(s, b)
    } else {
        v.wrap_absorb(s, b)
    }
}
fn put_int<T: Absorb + Mask + TrintField>(v: T, how: u8, s: &mut Spongos, b: &mut TritSliceMut) {
    match how {
        0 => v.wrap_absorb(s, b),
        1 => v.wrap_mask(s, b),
        _ => v.encode(b),
    }
}
fn real_write(src: &mut Src, f: &F, s: &mut Spongos, b: &mut TritSliceMut) -> Res {
    match f {
        F::Int(3, v, how, one) => put_int(if *one { pb3::oneof(*v as Trint3) } else { pb3::tryte(*v as Trint3) }, *how, s, b),
        F::Int(6, v, how, _) => put_int(pb3::Trint6(*v as Trint6), *how, s, b),
        F::Int(9, v, how, _) => put_int(pb3::Trint9(*v as Trint9), *how, s, b),
        F::Int(_, v, how, _) => put_int(pb3::Trint18(*v as Trint18), *how, s, b),
        F::Size(n, m, rep) => put(&if *rep { pb3::repeated(*n as usize) } else { pb3::Size(*n as usize) }, *m, s, b),
        F::Fixed(x, m, k) => {
            let fr = Frame::new(src, x);
            match (m, k) {
                (false, 0) => pb3::wrap_absorb_trits(fr.slice(), s, b),
                (true, 0) => pb3::wrap_mask_trits(fr.slice(), s, b),
                _ => put(&tr(x), *m, s, b),
            }
            fr.check(x, "source of a field")?;
        }
        F::Var(x, m, k) => match (m, k / 2) {
            (false, 0) => pb3::wrap_absorb_trytes(&tr(x), s, b),
            (true, 0) => pb3::wrap_mask_trytes(&tr(x), s, b),
            _ => {
                let t = pb3::Trytes(tr(x));
                ensure_eq!(t.size(), x.len(), "size of Trytes");
                put(&t, *m, s, b)
            }
        },
        F::Repeat(v, m) => {
            put(&pb3::repeated(v.len()), *m, s, b);
            for t in v {
                put(&pb3::tryte(*t as Trint3), *m, s, b);
            }
        }
        F::MssPk(x, m, _) => put(&mss_pk(x), *m, s, b),
        F::NtruPk(p, m, _) => put(&p.pk, *m, s, b),
        F::Mac => pb3::mac::wrap_mac(s, b),
        F::Commit => s.commit(),
        F::External(x) => Ext(tr(x)).wrap_absorb_external(s),
        F::Join(id, l, _) => {
            let fr = Frame::new(src, id);
            let mut l2 = l.fork();
            pb3::join::wrap_join(fr.slice(), &mut l2, s, b);
            fr.check(id, "message id given to join")?;
        }
        F::Sig(k, how) => {
            if *how < 2 {
                pb3::mssig::squeeze_wrap_mssig(&k.sk, s, b)
            } else {
                let h = pb3::mssig::squeeze_mss_hash(s);
                pb3::mssig::wrap_mssig(h.slice(), &k.sk, s, b)
            }
        }
        F::Id(x) => msg::msg_id(x).wrap_absorb(s, b),
        F::Kem(p, prng, key, nonce) => {
            let (kf, nf) = (Frame::new(src, key), Frame::new(src, nonce));
            pb3::ntrukem::wrap_ntrukem(kf.slice(), &p.pk, &PRNG::init_trits(&tr(prng)), nf.slice(), s, b)
        }
    }
    Ok(())
}
fn get<T: Absorb + Mask>(mask: bool, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<T> {
    if mask {
        T::unwrap_mask_sized(s, b)
    } else {
        T::unwrap_absorb_sized(s, b)
    }
}
fn get_mut<T: Absorb + Mask>(v: &mut T, mask: bool, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<()> {
    if mask {
        v.unwrap_mask(s, b)
    } else {
        v.unwrap_absorb(s, b)
    }
}
fn get_int<T: Absorb + Mask + TrintField>(mut v: T, how: u8, into: bool, s: &mut Spongos, b: &mut TritSlice) -> pb3::Result<T> {
    if how == 2 {
        if into {
            v.decode(b)?;
            return Ok(v);
        }
        return T::decode_sized(b);
    }
    if into {
        get_mut(&mut v, how == 1, s, b)?;
        Ok(v)
    } else {
        get(how == 1, s, b)
    }
}
fn real_read(src: &mut Src, f: &F, s: &mut Spongos, b: &mut TritSlice) -> Res {
    let e = |e: pb3::Err| format!("{} does not unwrap: {}", name(f), e);
    match f {
        F::Int(3, v, how, into) => ensure_eq!(get_int(pb3::tryte(5), *how, *into, s, b).map_err(e)?.0 as i64, *v, "{}", name(f)),
        F::Int(6, v, how, into) => ensure_eq!(get_int(pb3::Trint6(5), *how, *into, s, b).map_err(e)?.0 as i64, *v, "{}", name(f)),
        F::Int(9, v, how, into) => ensure_eq!(get_int(pb3::Trint9(5), *how, *into, s, b).map_err(e)?.0 as i64, *v, "{}", name(f)),
        F::Int(_, v, how, into) => ensure_eq!(get_int(pb3::Trint18(5), *how, *into, s, b).map_err(e)?.0 as i64, *v, "{}", name(f)),
        F::Size(n, m, into) => {
            let got = if *into {
                let mut v = pb3::Size(7);
                get_mut(&mut v, *m, s, b).map_err(e)?;
                v
            } else {
                get::<pb3::Size>(*m, s, b).map_err(e)?
            };
            ensure_eq!(got.0 as u64, *n, "{}", name(f));
        }
        F::Fixed(x, m, k) => {
            let junk = src.rtrits(x.len());
            match k {
                2 if !*m => pb3::unwrap_absorb_n(x.len(), s, b).map_err(e)?,
                0 => {
                    let mut fr = Frame::new(src, &junk);
                    let r = if *m { pb3::unwrap_mask_trits(fr.slice_mut(), s, b) } else { pb3::unwrap_absorb_trits(fr.slice_mut(), s, b) };
                    r.map_err(e)?;
                    fr.check(x, &name(f))?;
                }
                _ => {
                    let mut t = tr(&junk);
                    get_mut(&mut t, *m, s, b).map_err(e)?;
                    ensure_trits!(ve(&t), x, "{}", name(f));
                }
            }
        }
        F::Var(x, m, k) => {
            let got = match k {
                0 | 1 => {
                    let r = if *m { pb3::unwrap_mask_trytes(s, b) } else { pb3::unwrap_absorb_trytes(s, b) };
                    r.map_err(e)?
                }
                2 => get::<pb3::Trytes>(*m, s, b).map_err(e)?.0,
                _ => {
                    let mut t = pb3::Trytes(tr(&[1, 2, 0]));
                    get_mut(&mut t, *m, s, b).map_err(e)?;
                    t.0
                }
            };
            ensure_trits!(ve(&got), x, "{}", name(f));
        }
        F::Repeat(v, m) => {
            let n = get::<pb3::Repeated>(*m, s, b).map_err(e)?;
            ensure_eq!(n.0, v.len(), "count of {}", name(f));
            for t in v {
                let g = get::<pb3::Tryte>(*m, s, b).map_err(e)?;
                ensure_eq!(g.0 as i64, *t, "{}", name(f));
            }
        }
        F::MssPk(x, m, into) => {
            let got = if *into {
                let mut v = mss_pk(&[1; 243]);
                get_mut(&mut v, *m, s, b).map_err(e)?;
                v
            } else {
                get::<mss::PublicKey>(*m, s, b).map_err(e)?
            };
            ensure_trits!(mss_pk_trits(&got), x, "{}", name(f));
        }
        F::NtruPk(p, m, into) => {
            let got = if *into {
                let mut v = ntru_pair((p.id + 1) % NTRU_KEYS).pk.clone();
                get_mut(&mut v, *m, s, b).map_err(e)?;
                v
            } else {
                get::<ntru::PublicKey>(*m, s, b).map_err(e)?
            };
            ensure_trits!(sl(got.trits()), p.m.pk, "{}", name(f));
            // The key works, not only its trits.
            let mut c = Trits::zero(9216);
            let k = src.trits(243);
            got.encr(&PRNG::init_trits(&tr(&vec![1; 243])), tr(&[1]).slice(), tr(&k).slice(), c.slice_mut());
            let mut o = Trits::zero(243);
            ensure!(p.sk.decr(c.slice(), o.slice_mut()), "the unwrapped NTRU key makes capsules that do not open");
            ensure_trits!(ve(&o), k, "key through the unwrapped NTRU key");
        }
        F::Mac => pb3::mac::unwrap_mac(s, b).map_err(e)?,
        F::Commit => s.commit(),
        F::External(x) => Ext(tr(x)).unwrap_absorb_external(s),
        F::Join(id, l, _) => {
            let info = pb3::join::unwrap_join(
                |i| (sl(i) == *id).then(|| (l.fork(), 77u8)),
                s,
                b,
            )
            .map_err(e)?;
            ensure_eq!(info, 77, "information of the link");
        }
        F::Sig(k, how) => match how {
            0 => {
                let pk = pb3::mssig::squeeze_unwrap_mssig_recover(s, b).map_err(e)?;
                ensure_trits!(mss_pk_trits(&pk), k.pk, "key recovered from {}", name(f));
            }
            1 => pb3::mssig::squeeze_unwrap_mssig_verify(&k.real_pk(), s, b).map_err(e)?,
            2 => {
                let h = pb3::mssig::squeeze_mss_hash(s);
                let pk = pb3::mssig::unwrap_mssig_recover(h.slice(), s, b).map_err(e)?;
                ensure_trits!(mss_pk_trits(&pk), k.pk, "key recovered from {}", name(f));
            }
            _ => {
                let h = pb3::mssig::squeeze_mss_hash(s);
                pb3::mssig::unwrap_mssig_verify(h.slice(), &k.real_pk(), s, b).map_err(e)?
            }
        },
        F::Id(x) => {
            let got = MsgId::unwrap_absorb_sized(s, b).map_err(e)?;
            ensure!(got == msg::msg_id(x), "the message id differs");
        }
        F::Kem(p, _, key, _) => {
            let junk = src.rtrits(243);
            let mut fr = Frame::new(src, &junk);
            pb3::ntrukem::unwrap_ntrukem(fr.slice_mut(), &p.sk, s, b).map_err(e)?;
            fr.check(key, "session key")?;
        }
    }
    Ok(())
}

fn c20_run(src: &mut Src, fields: Vec<F>) -> Res {
    let (mut s, sp) = sp_state(src)?;
    let mut rs = s.fork();
    let mut w = W::new(sp);
    let mut ends = Vec::new();
    for f in &fields {
        let at = w.w.len();
        model_write(f, &mut w);
        let n = w.w.len() - at;
        src.note(|| format!("{} -> {}", name(f), show(&w.w[at..])));
        ensure_eq!(announced(f), n, "announced size of {}", name(f));
        ends.push(w.w.len());
    }
    let total = w.w.len();
    let slack = if src.bool() { 0 } else { src.range(1, 400) };
    let junk = src.rtrits(total + slack);
    let mut buf = Frame::new(src, &junk);
    {
        let mut b = buf.slice_mut();
        for (f, end) in fields.iter().zip(&ends) {
            real_write(src, f, &mut s, &mut b)?;
            ensure_eq!(total + slack - b.size(), *end, "trits written up to {}", name(f));
        }
    }
    let mut expect = w.w.clone();
    expect.extend_from_slice(&junk[total..]);
    buf.check(&expect, "encoding")?;
    ensure_trits!(probe(&s), w.s.probe(), "state after writing");
    // The reader sees the message alone or with anything behind it.
    let extra = if src.bool() { 0 } else { src.range(1, 300) };
    let mut content = w.w.clone();
    content.extend(src.rtrits(extra));
    let rbuf = Frame::new(src, &content);
    let mut b = rbuf.slice();
    for (f, end) in fields.iter().zip(&ends) {
        real_read(src, f, &mut rs, &mut b)?;
        ensure_eq!(content.len() - b.size(), *end, "trits read up to {}", name(f));
    }
    rbuf.check(&content, "buffer after reading")?;
    ensure_trits!(sl(b), content[total..], "rest of the buffer");
    ensure_trits!(probe(&rs), probe(&s), "state after reading");
    Ok(())
}
fn c20_single(src: &mut Src) -> Res {
    let f = gen_field(src)?;
    src.nontrivial();
    c20_run(src, vec![f])
}
fn c20_sequence(src: &mut Src) -> Res {
    let n = src.range(2, 9);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(gen_field(src)?);
    }
    if v.iter().any(|f| !matches!(f, F::Mac | F::Commit)) {
        src.nontrivial();
    }
    if v.windows(2).any(|p| matches!(p[0], F::Commit | F::Mac) && !matches!(p[1], F::Commit | F::Mac)) {
        src.label("field after a commit");
    }
    if v.iter().any(|f| matches!(f, F::Kem(..) | F::Sig(..) | F::NtruPk(..))) {
        src.label("keys or signatures");
    }
    c20_run(src, v)
}
/// Fields of thousands of trytes.
fn c20_large(src: &mut Src) -> Res {
    let n = src.range(1, 3);
    let mut v = Vec::new();
    for _ in 0..n {
        src.big = 2;
        let m = src.bool();
        v.push(match src.below(4) {
            0 => {
                let n = src.size(1500);
                F::Fixed(src.trits(n / 3 * 3), m, src.below(3) as u8)
            }
            1 => {
                let n = src.size(600);
                F::External(src.trits(n))
            }
            2 => F::Var(payload(src, 500), m, src.below(4) as u8),
            _ => {
                let n = src.size(60) / 30;
                F::Repeat((0..n).map(|_| src.irange(-13, 13)).collect(), m)
            }
        });
    }
    src.nontrivial();
    c20_run(src, v)
}
/// Messages of hundreds or thousands of small fields, and lists as long.
fn c20_many(src: &mut Src) -> Res {
    let n = *src.pick(&[260usize, 700, 3_000, 9_000]) + src.upto(40);
    let mut r = Rng::new(src.raw());
    src.nontrivial();
    let m = src.bool();
    if src.chance(20) {
        let n = 22 * n;
        return c20_run(src, vec![F::Repeat((0..n).map(|_| r.below(27) as i64 - 13).collect(), m)]);
    }
    let mut v = Vec::new();
    for _ in 0..n {
        let mut f = Src::random(r.next());
        let m = f.bool();
        v.push(match f.below(8) {
            0 | 1 => F::Int(3, gen_int(&mut f, 3), f.below(2) as u8, m),
            2 => F::Size(f.below(30), m, f.bool()),
            3 => F::Fixed(f.trits(3), m, f.below(3) as u8),
            4 => F::Commit,
            5 => {
                let k = f.upto(4);
                F::External(f.trits(k))
            }
            6 => F::Var(payload(&mut f, 3), m, f.below(4) as u8),
            _ if f.chance(20) => F::Mac,
            _ => F::Repeat(vec![1; f.upto(3)], m),
        });
    }
    c20_run(src, v)
}
/// Every 3-, 6- and 9-trit value, both ways, in one state each.
fn c20_ints(src: &mut Src) -> Res {
    let i = src.below(27 + 729 + 19683) as usize;
    let (w, v) = if i < 27 {
        (3, i as i64 - 13)
    } else if i < 756 {
        (6, (i - 27) as i64 - 364)
    } else {
        (9, (i - 756) as i64 - 9841)
    };
    src.nontrivial();
    let how = src.below(3) as u8;
    let f = F::Int(w, v, how, src.bool());
    c20_run(src, vec![f])
}
/// A wrong capsule, MAC, signature, link or key is an error.
fn c20_refuse(src: &mut Src) -> Res {
    let f = match src.below(4) {
        0 => F::Mac,
        1 => {
            let (s, sp) = link_state(src)?;
            F::Join(src.trits(81), s, sp)
        }
        2 => F::Sig(signer(src), 1 + 2 * src.below(2) as u8),
        _ => F::Kem(pair(src), src.trits(243), src.trits(243), src.rtrits(9)),
    };
    let (mut s, _) = sp_state(src)?;
    let rs = s.fork();
    let n = announced(&f);
    let mut t = Trits::zero(n);
    real_write(src, &f, &mut s, &mut t.slice_mut())?;
    let wire = ve(&t);
    real_read(src, &f, &mut rs.fork(), &mut t.slice())?;
    for _ in 0..4 {
        let (v, what) = match alter(src, &wire) {
            Some(x) => x,
            None => continue,
        };
        src.nontrivial();
        src.note(|| format!("{}: {}", name(&f), what));
        let t = tr(&v);
        ensure!(real_read(src, &f, &mut rs.fork(), &mut t.slice()).is_err(), "{} accepted with {}", name(&f), what);
    }
    if let F::Sig(k, _) = &f {
        let o = signer(src);
        if o.pk != k.pk {
            let mut t2 = t.slice();
            ensure!(pb3::mssig::squeeze_unwrap_mssig_verify(&o.real_pk(), &mut rs.fork(), &mut t2).is_err(), "signature accepted under another key");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

fn read_size(src: &mut Src, enc: &[u8], mask: bool) -> Result<(Option<u64>, usize, bool), String> {
    let (s, mut sp) = sp_state(src)?;
    let wire = if mask { sp.encr(enc) } else { enc.to_vec() };
    let fr = Frame::new(src, &wire);
    let mut b = fr.slice();
    let mut rs = s.fork();
    let r = get::<pb3::Size>(mask, &mut rs, &mut b);
    fr.check(&wire, "buffer after reading a size")?;
    ensure!(b.size() <= wire.len(), "the cursor moved backwards");
    let used = wire.len() - b.size();
    ensure_trits!(sl(b), wire[used..], "rest of the buffer");
    let mut same = true;
    if r.is_ok() {
        // The state is that of the consumed trits.
        let mut m2 = {
            let mut f = s.fork();
            if mask {
                f.encr_trits(&tr(&enc[..used]));
            } else {
                f.absorb_trits(&tr(&enc[..used]));
            }
            f
        };
        same = ve(&m2.squeeze_trits(700)) == ve(&rs.squeeze_trits(700));
    }
    Ok((r.ok().map(|v| v.0 as u64), used, same))
}
fn c21_value(src: &mut Src, n: u64) -> Res {
    src.nontrivial();
    let enc = size_enc(n);
    ensure_eq!(pb3::sizeof_sizet(n as usize), enc.len(), "announced size of {}", n);
    ensure_eq!(pb3::sizeof_repeated(n as usize), enc.len(), "announced size of repeated {}", n);
    ensure_eq!(pb3::Size(n as usize).sizeof(), enc.len(), "announced size of Size({})", n);
    let mask = src.bool();
    src.note(|| format!("size {} {}", n, if mask { "masked" } else { "absorbed" }));
    let (mut s, mut sp) = sp_state(src)?;
    let rs = s.fork();
    let expect = if mask { sp.encr(&enc) } else { sp.absorb(&enc); enc.clone() };
    let junk = src.rtrits(enc.len());
    let mut fr = Frame::new(src, &junk);
    {
        let mut b = fr.slice_mut();
        put(&pb3::Size(n as usize), mask, &mut s, &mut b);
        ensure_eq!(b.size(), 0, "room left after writing size {}", n);
    }
    fr.check(&expect, &format!("encoding of size {}", n))?;
    ensure_trits!(probe(&s), sp.probe(), "state after writing size {}", n);
    let mut b = fr.slice();
    let mut r2 = rs.fork();
    let got = get::<pb3::Size>(mask, &mut r2, &mut b).map_err(|e| format!("size {} does not unwrap: {}", n, e))?;
    ensure_eq!(got.0 as u64, n, "decoded size");
    ensure_eq!(b.size(), 0, "trits left after reading size {}", n);
    ensure_trits!(probe(&r2), sp.probe(), "state after reading size {}", n);
    // Every proper prefix is refused.
    let cut = src.below(enc.len() as u64) as usize;
    let mut b = fr.slice().take(cut);
    ensure!(get::<pb3::Size>(mask, &mut rs.fork(), &mut b).is_err(), "size {} unwraps from its first {} trits", n, cut);
    Ok(())
}
fn c21_random(src: &mut Src) -> Res {
    let n = gen_size(src);
    c21_value(src, n)
}
fn c21_small(src: &mut Src) -> Res {
    let n = src.below(11_000);
    c21_value(src, n)
}
fn c21_edges(src: &mut Src) -> Res {
    let i = src.below(14 * 7);
    let m = ((27u128.pow((i / 7) as u32) - 1) / 2) as i128 + (i % 7) as i128 - 3;
    if m < 0 || m > 2_026_277_576_509_488_133 {
        return Ok(());
    }
    c21_value(src, m as u64)
}
/// Arbitrary trits decode exactly when they are an encoding.
fn c21_decode_of(src: &mut Src, t: &[u8]) -> Res {
    let mask = src.bool();
    src.note(|| format!("decode {} {}", model::text(t), if mask { "masked" } else { "absorbed" }));
    let expect = size_dec(t);
    let (got, used, same) = read_size(src, t, mask)?;
    match (expect, got) {
        (Some((v, n)), Some(g)) => {
            ensure_eq!(g, v, "size decoded from {}", model::text(t));
            ensure_eq!(used, n, "trits consumed from {}", model::text(t));
            ensure!(same, "state after decoding {}", model::text(t));
            ensure_trits!(size_enc(v), t[..n], "harness: two encodings of {}", v);
        }
        (None, None) => {}
        (Some((v, _)), None) => return Err(format!("the encoding {} of {} is refused", model::text(t), v)),
        (None, Some(g)) => return Err(format!("the trits {} are no size but decode to {}", model::text(t), g)),
    }
    Ok(())
}
fn c21_decode(src: &mut Src) -> Res {
    let d = match src.below(3) {
        0 => src.irange(-13, 13),
        _ => src.irange(0, 13),
    };
    let mut t = model::trits_of(d, 3);
    let k = match src.below(4) {
        0 => src.upto(16),
        _ => (d.max(0) as usize + src.upto(2)).saturating_sub(src.weighted(&[6, 1, 1])),
    };
    for i in 0..k {
        let v = if i as i64 == d - 1 && src.bool() { *src.pick(&[1i64, 0, -1, 13, -13]) } else { src.irange(-13, 13) };
        t.extend(model::trits_of(v, 3));
    }
    if src.chance(20) {
        let cut = src.upto(t.len());
        t.truncate(cut);
    }
    if d != 0 {
        src.nontrivial();
    }
    src.label(if size_dec(&t).is_some() { "valid" } else { "refused" });
    c21_decode_of(src, &t)
}
/// All encodings of a count and up to two trytes.
fn c21_two_trytes(src: &mut Src) -> Res {
    let i = src.below(27 * 27 * 27) as usize;
    let (a, b, c) = ((i / 729) as i64 - 13, (i / 27 % 27) as i64 - 13, (i % 27) as i64 - 13);
    let mut t = model::trits_of(a, 3);
    t.extend(model::trits_of(b, 3));
    t.extend(model::trits_of(c, 3));
    src.nontrivial();
    c21_decode_of(src, &t)?;
    let cut = src.upto(9);
    c21_decode_of(src, &t[..cut])
}

// ---------------------------------------------------------------- C22

/// Field decoders (0..FIELDS) and message decoders (the rest).
const FIELDS: usize = 22;
const DECODERS: usize = FIELDS + msg::KINDS + 1;
struct Dec {
    d: usize,
    /// Size of presized outputs.
    n: usize,
    mask: bool,
    c: Ctx,
    k: Vec<u8>,
    p: Rc<Pair>,
}
fn dec_name(d: usize) -> &'static str {
    [
        "tryte", "trint6", "trint9", "trint18", "plain tryte", "plain trint6", "plain trint9", "plain trint18", "size", "repeated",
        "trits", "trits (type)", "n trits", "trytes", "trytes (type)", "mss public key", "ntru public key", "mac", "mssig recover",
        "mssig verify", "ntrukem", "join", "header", "announce", "signed packet (verify)", "tagged packet", "key change", "keyload",
        "subscribe", "unsubscribe", "signed packet (recover)",
    ][d]
}
impl Dec {
    /// Decode; the value as trits, or None.
    fn run(&self, s: &mut Spongos, b: &mut TritSlice) -> Option<Vec<Vec<u8>>> {
        let int = |r: pb3::Result<i64>| r.ok().map(|v| vec![model::trits_of(v, 18)]);
        let num = |r: pb3::Result<usize>| r.ok().map(|v| vec![size_enc(v as u64)]);
        let m = self.mask;
        match self.d {
            0 => int(get::<pb3::Tryte>(m, s, b).map(|v| v.0 as i64)),
            1 => int(get::<pb3::Trint6>(m, s, b).map(|v| v.0 as i64)),
            2 => int(get::<pb3::Trint9>(m, s, b).map(|v| v.0 as i64)),
            3 => int(get::<pb3::Trint18>(m, s, b).map(|v| v.0 as i64)),
            4 => int(pb3::Tryte::decode_sized(b).map(|v| v.0 as i64)),
            5 => int(pb3::Trint6::decode_sized(b).map(|v| v.0 as i64)),
            6 => int(pb3::Trint9::decode_sized(b).map(|v| v.0 as i64)),
            7 => int(pb3::Trint18::decode_sized(b).map(|v| v.0 as i64)),
            8 => num(get::<pb3::Size>(m, s, b).map(|v| v.0)),
            9 => {
                let mut v = pb3::repeated(3);
                let r = get_mut(&mut v, m, s, b);
                num(r.map(|_| v.0))
            }
            10 => {
                let mut t = Trits::zero(self.n);
                let r = if m { pb3::unwrap_mask_trits(t.slice_mut(), s, b) } else { pb3::unwrap_absorb_trits(t.slice_mut(), s, b) };
                r.ok().map(|_| vec![ve(&t)])
            }
            11 => {
                let mut t = Trits::zero(self.n);
                get_mut(&mut t, m, s, b).ok().map(|_| vec![ve(&t)])
            }
            12 => pb3::unwrap_absorb_n(self.n, s, b).ok().map(|_| vec![]),
            13 => (if m { pb3::unwrap_mask_trytes(s, b) } else { pb3::unwrap_absorb_trytes(s, b) }).ok().map(|t| vec![ve(&t)]),
            14 => {
                if self.n % 2 == 0 {
                    get::<pb3::Trytes>(m, s, b).ok().map(|t| vec![ve(&t.0)])
                } else {
                    let mut t = pb3::Trytes(tr(&[0; 3]));
                    get_mut(&mut t, m, s, b).ok().map(|_| vec![ve(&t.0)])
                }
            }
            15 => get::<mss::PublicKey>(m, s, b).ok().map(|k| vec![mss_pk_trits(&k)]),
            16 => {
                if self.n % 2 == 0 {
                    get::<ntru::PublicKey>(m, s, b).ok().map(|k| vec![sl(k.trits())])
                } else {
                    let mut k = self.p.pk.clone();
                    get_mut(&mut k, m, s, b).ok().map(|_| vec![sl(k.trits())])
                }
            }
            17 => pb3::mac::unwrap_mac(s, b).ok().map(|_| vec![]),
            18 => pb3::mssig::squeeze_unwrap_mssig_recover(s, b).ok().map(|k| vec![mss_pk_trits(&k)]),
            19 => pb3::mssig::squeeze_unwrap_mssig_verify(&mss_pk(&self.k), s, b).ok().map(|_| vec![]),
            20 => {
                let mut t = Trits::zero(243);
                pb3::ntrukem::unwrap_ntrukem(t.slice_mut(), &self.p.sk, s, b).ok().map(|_| vec![ve(&t)])
            }
            21 => {
                let l = self.c.any_link.as_ref();
                pb3::join::unwrap_join(|i| l.map(|s| (s.fork(), sl(i))), s, b).ok().map(|i| vec![i])
            }
            22..=29 => self.c.read(self.d - FIELDS, s, b).ok(),
            _ => self.c.read(2, s, b).ok(),
        }
    }
}
/// Decode a buffer in two different surroundings; check that the decoder stays inside.
/// Returns whether it succeeded and the trits consumed.
fn confined(src: &mut Src, d: &Dec, s: &Spongos, wire: &[u8]) -> Result<(bool, usize), String> {
    let mut first: Option<(Option<Vec<Vec<u8>>>, usize, Vec<u8>)> = None;
    let at = src.upto(5);
    for round in 0..2 {
        let mut v = src.rtrits(at);
        v.extend_from_slice(wire);
        v.extend(src.rtrits(if round == 0 { 0 } else { 400 }));
        let t = tr(&v);
        let view = t.slice().drop(at).take(wire.len());
        let mut b = view;
        let mut f = s.fork();
        let (out, peak) = alloc::peak(|| alloc::budget(5_000_000, || d.run(&mut f, &mut b)));
        ensure!(
            peak <= (1 << 20) + 64 * wire.len(),
            "{}: an allocation of {} bytes for an input of {} trits",
            dec_name(d.d),
            peak,
            wire.len()
        );
        ensure!(b.size() <= wire.len(), "{}: the cursor moved beyond the buffer", dec_name(d.d));
        let used = wire.len() - b.size();
        ensure_trits!(sl(b), wire[used..], "{}: rest of the buffer", dec_name(d.d));
        ensure_trits!(ve(&t), v, "{}: input buffer", dec_name(d.d));
        let st = if out.is_some() { probe(&f) } else { vec![] };
        match &first {
            None => first = Some((out, used, st)),
            Some((o, u, p)) => {
                ensure!(*o == out && *u == used && *p == st, "{}: the result depends on what lies outside the buffer", dec_name(d.d));
            }
        }
    }
    // With nothing readable beyond one of the ends.
    let (o, u, p) = first.unwrap();
    let mut f = s.fork();
    let (out, used) = fenced(wire, at % 2 == 0, |view| {
        let mut b = view;
        let out = d.run(&mut f, &mut b);
        (out, wire.len() - b.size())
    });
    let st = if out.is_some() { probe(&f) } else { vec![] };
    ensure!(o == out && u == used && p == st, "{}: another result in a buffer of its own", dec_name(d.d));
    Ok((o.is_some(), u))
}
fn gen_dec(src: &mut Src, d: usize) -> Result<Dec, String> {
    let mut c = Ctx::new();
    c.any_link = Some(link_state(src)?.0);
    c.psks = {
        let n = src.upto(3);
        gen_psks(src, n)
    };
    c.ntrus = {
        let n = src.upto(2);
        gen_ntrus(src, n)
    };
    let p = pair(src);
    c.owner = Some(p.clone());
    c.recover = d == DECODERS - 1;
    let n = if d == 12 && src.chance(20) { *src.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 3, 1 << 40]) } else { src.len(2000) };
    Ok(Dec { d, n, mask: src.bool(), c, k: vec![0; 243], p })
}
fn c22_random(src: &mut Src) -> Res {
    let d = src.below(DECODERS as u64) as usize;
    let dec = gen_dec(src, d)?;
    let (s, _) = sp_state(src)?;
    let n = match src.below(4) {
        0 => src.upto(30),
        1 => src.upto(700),
        2 => src.len(3000),
        _ => src.upto(20_000),
    };
    let w = src.trits(n);
    src.note(|| format!("{} from {}", dec_name(d), show(&w)));
    if n > 0 {
        src.nontrivial();
    }
    confined(src, &dec, &s, &w)?;
    Ok(())
}
/// Hostile numbers: huge, at the limits of arithmetic, or just too large.
fn hostile(src: &mut Src) -> u64 {
    const MAX: u64 = 2_026_277_576_509_488_133;
    match src.below(6) {
        0 => MAX - src.below(3),
        1 => {
            let f = *src.pick(&[3u64, 81, 243, 324, 9216, 9297]);
            (u64::MAX / f - 2 + src.below(5)).min(MAX)
        }
        2 => 1 << src.range(19, 60),
        3 => (1 << 20) + src.below(1 << 29),
        4 => src.below(200),
        _ => src.below(30),
    }
}
/// Messages with hostile sizes and counts, otherwise valid up to there.
fn c22_hostile(src: &mut Src) -> Res {
    let kind = *src.pick(&[0usize, 2, 3, 5, 5, 8, 8]);
    let n = hostile(src);
    let (s, sp) = sp_state(src)?;
    let (ls, lm) = link_state(src)?;
    let id = src.trits(81);
    let mut w = W::new(sp);
    let mut c = Ctx::new();
    c.links.push((id.clone(), ls));
    let mut mask = false;
    let rest = match src.below(3) {
        0 => 0,
        1 => src.upto(400),
        _ => src.upto(12_000),
    };
    let d = match kind {
        0 => {
            w.absorb(&[1, 0, 0]);
            w.absorb(&size_enc(n));
            FIELDS
        }
        2 | 3 => {
            w.join(&id, &mut lm.clone());
            if src.bool() {
                w.absorb(&size_enc(n));
            } else {
                let p = payload(src, 30);
                w.trytes(&p, false);
                w.mask(&size_enc(n));
            }
            c.recover = kind == 2 && src.bool();
            FIELDS + kind
        }
        5 => {
            w.join(&id, &mut lm.clone());
            w.absorb(&src.trits(81));
            let psks = gen_psks(src, 3);
            let ntrus = gen_ntrus(src, 2);
            // Entries that the reader knows or does not know, then a hostile count or too few entries.
            let known = src.bool();
            if known {
                c.psks = psks.clone();
                c.ntrus = ntrus.clone();
            }
            let first = src.bool();
            let np = if first { n } else { src.below(3) };
            w.absorb(&size_enc(np));
            for (id, psk) in psks.iter().take(np.min(2) as usize) {
                if src.chance(15) {
                    break;
                }
                let mut f = W::new(w.s.clone());
                f.absorb(id);
                f.s.absorb(psk);
                f.s.commit();
                f.mask(&[0; 243]);
                w.w.extend(f.w);
            }
            if !first {
                w.absorb(&size_enc(n));
                if src.bool() {
                    let mut f = W::new(w.s.clone());
                    f.absorb(&ntrus[0].m.pk[..81]);
                    if src.bool() {
                        f.kem(&ntrus[0], &[0; 243], &[], &[1; 243]);
                    }
                    w.w.extend(f.w);
                }
            }
            src.label("keyload");
            FIELDS + 5
        }
        _ => {
            mask = src.bool();
            w.put(&size_enc(n), mask);
            *src.pick(&[13usize, 14])
        }
    };
    w.w.extend(src.rtrits(rest));
    let dec = Dec { d, n: src.upto(1), mask, c, k: vec![0; 243], p: ntru_pair(0) };
    src.note(|| format!("{} with a size or count of {} and {} more trits", dec_name(d), n, rest));
    src.nontrivial();
    confined(src, &dec, &s, &w.w)?;
    Ok(())
}
fn dec_of(m: &msg::Msg, recover: bool) -> Dec {
    let mut c = m.ctx();
    c.recover = recover;
    Dec { d: FIELDS + m.kind(), n: 0, mask: false, c, k: vec![0; 243], p: ntru_pair(0) }
}
/// Boundaries between the parts of a message, roughly: ends of links, sizes, payloads, keys.
fn cut_point(src: &mut Src, n: usize) -> usize {
    match src.below(4) {
        0 => n - 1 - src.upto(5).min(n - 1),
        1 => (*src.pick(&[0usize, 2, 3, 6, 80, 81, 84, 162, 165, 168, 243, 246, 405, 486, 9297, 9459, 9462, 18_513])
            + src.upto(2))
        .min(n - 1),
        _ => src.below(n as u64) as usize,
    }
}
/// A proper prefix of a valid message or field is refused; altered ones stay inside.
fn c22_large(src: &mut Src) -> Res {
    src.big = 2;
    c22_messages(src)
}
fn c22_messages(src: &mut Src) -> Res {
    let kind = src.weighted(&[3, 1, 3, 3, 1, 4, 1, 2]);
    let m = msg::gen(src, kind, 200)?;
    src.big = 0;
    src.note(|| m.name());
    let (s, sp) = sp_state(src)?;
    let mut w = W::new(sp);
    m.model(&mut w);
    let wire = w.w;
    let mut dec = dec_of(&m, kind == 2 && src.bool());
    let mut can_read = true;
    if let msg::Msg::Keyload { psks, ntrus, .. } = &m {
        // Readers who find their key early have entries to skip.
        if src.chance(60) {
            let n = psks.len() + ntrus.len();
            dec.c.psks.clear();
            dec.c.ntrus.clear();
            if n > 0 {
                let i = src.below(n as u64) as usize;
                if i < psks.len() {
                    dec.c.psks.push(psks[i].clone());
                } else {
                    dec.c.ntrus.push(ntrus[i - psks.len()].clone());
                }
            }
        }
        can_read = dec.c.psks.len() + dec.c.ntrus.len() > 0;
    }
    let (ok, used) = confined(src, &dec, &s, &wire)?;
    ensure_eq!(ok, can_read, "{} unwraps", m.name());
    if ok {
        ensure_eq!(used, wire.len(), "trits consumed by {}", m.name());
    }
    src.nontrivial();
    for _ in 0..3 {
        let cut = cut_point(src, wire.len());
        src.note(|| format!("first {} of {} trits", cut, wire.len()));
        let (ok, _) = confined(src, &dec, &s, &wire[..cut])?;
        ensure!(!ok, "{} unwraps from its first {} of {} trits", m.name(), cut, wire.len());
    }
    for _ in 0..3 {
        if let Some((v, what)) = alter(src, &wire) {
            src.note(|| what.clone());
            confined(src, &dec, &s, &v)?;
        }
    }
    Ok(())
}
/// Every cut of a message without signatures.
fn c22_every_cut(src: &mut Src) -> Res {
    let kind = *src.pick(&[0usize, 3, 5, 7]);
    let mut m = msg::gen(src, kind, 40)?;
    if let msg::Msg::Keyload { ntrus, psks, .. } = &mut m {
        ntrus.clear();
        if psks.is_empty() {
            *psks = gen_psks(src, 2);
        }
        psks.truncate(4);
    }
    src.note(|| m.name());
    let (s, sp) = sp_state(src)?;
    let mut w = W::new(sp);
    m.model(&mut w);
    let dec = dec_of(&m, false);
    src.nontrivial();
    let t = tr(&w.w);
    for cut in 0..w.w.len() {
        let mut b = t.slice().take(cut);
        let r = dec.run(&mut s.fork(), &mut b);
        ensure!(r.is_none(), "{} unwraps from its first {} of {} trits", m.name(), cut, w.w.len());
        ensure!(b.size() <= cut, "{}: the cursor moved beyond the buffer", m.name());
    }
    Ok(())
}
/// Fields cut short.
fn c22_fields(src: &mut Src) -> Res {
    let d = src.below(FIELDS as u64) as usize;
    let mut dec = gen_dec(src, d)?;
    let (s, sp) = sp_state(src)?;
    let m = dec.mask;
    let mut w = W::new(sp);
    match d {
        0..=3 => {
            let n = [3, 6, 9, 18][d];
            let v = gen_int(src, n);
            w.put(&model::trits_of(v, n), m);
        }
        4..=7 => {
            let n = [3, 6, 9, 18][d - 4];
            w.w.extend(src.trits(n));
        }
        8 | 9 => {
            let n = gen_size(src);
            w.put(&size_enc(n), m);
        }
        10..=12 => {
            dec.n = dec.n % 2001;
            let n = dec.n;
            let x = src.trits(n);
            w.put(&x, m && d != 12);
        }
        13 | 14 => {
            let x = payload(src, 300);
            w.trytes(&x, m);
        }
        15 => {
            let x = src.trits(243);
            w.put(&x, m);
        }
        16 => {
            let x = pair(src).m.pk.clone();
            w.put(&x, m);
        }
        17 => w.mac(),
        18 | 19 => {
            let k = signer(src);
            w.sig(&k);
            dec.k = k.pk;
        }
        20 => {
            let p = dec.p.clone();
            let (a, b) = (src.trits(243), src.trits(243));
            w.kem(&p, &a, &[], &b);
        }
        _ => {
            let id = src.trits(81);
            w.w.extend(id);
        }
    }
    let wire = w.w;
    src.note(|| format!("{} {} of {} trits", if m { "masked" } else { "absorbed" }, dec_name(d), wire.len()));
    let (ok, used) = confined(src, &dec, &s, &wire)?;
    ensure!(ok && used == wire.len(), "a valid {} of {} trits does not unwrap (consumed {})", dec_name(d), wire.len(), used);
    if wire.is_empty() {
        return Ok(());
    }
    src.nontrivial();
    for _ in 0..3 {
        let cut = if src.bool() { src.below(wire.len() as u64) as usize } else { wire.len() - 1 - src.upto(2).min(wire.len() - 1) };
        let (ok, _) = confined(src, &dec, &s, &wire[..cut])?;
        ensure!(!ok, "{} unwraps from {} of {} trits", dec_name(d), cut, wire.len());
    }
    if let Some((v, _)) = alter(src, &wire) {
        confined(src, &dec, &s, &v)?;
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            rule: "a case writes a generated sequence of fields of every kind from a generated prior state, compares wire, sizes and state with the model and reads it back; non-trivial: at least one field carries data",
            sections: vec![
                exh("all 3/6/9-trit integers", 27 + 729 + 19683, c20_ints),
                sec("single fields", 12_000, 120_000, c20_single),
                sec("sequences of fields", 5_000, 60_000, c20_sequence),
                sec("large fields", 1_200, 12_000, c20_large),
                sec("very many fields", 800, 8_000, c20_many),
                sec("refused fields", 1_500, 15_000, c20_refuse),
            ],
        },
        Property {
            id: "C21",
            rule: "a case encodes a size or decodes trits as a size and compares with integer arithmetic; non-trivial: the count of trytes is not zero",
            sections: vec![
                exh("edges of every length", 14 * 7, c21_edges),
                exh("sizes below 11000", 11_000, c21_small),
                exh("all counts with two trytes", 27 * 27 * 27, c21_two_trytes),
                sec("random sizes", 600_000, 30_000_000, c21_random),
                sec("arbitrary trits", 1_000_000, 50_000_000, c21_decode),
            ],
        },
        Property {
            id: "C22",
            rule: "a case decodes random, truncated, altered or hostile trits as a field or message, twice in different surroundings; non-trivial: the input is not empty",
            sections: vec![
                sec("hostile sizes and counts", 30_000, 300_000, c22_hostile),
                sec("messages", 4_000, 40_000, c22_messages),
                sec("large messages", 400, 4_000, c22_large),
                sec("fields", 15_000, 150_000, c22_fields),
                sec("every cut", 300, 3_000, c22_every_cut),
                sec("random trits", 10_000, 100_000, c22_random),
            ],
        },
    ]
}
