//! C23 - C31: messages and channels.

use super::kit::*;
use super::msg::{self, *};
use super::sponge::sp_state;
use crate::engine::*;
use crate::model::{self, spongos::Sp};
use crate::util::*;
use crate::{ensure, ensure_eq, ensure_trits};
use iota_mam::spongos::Spongos;

/// A prior state: that after a header, as in use, or any.
pub fn prior(src: &mut Src) -> Result<(Spongos, Sp), String> {
    if src.chance(40) {
        return sp_state(src);
    }
    let h = msg::gen(src, 0, 0)?;
    let (mut s, mut w) = (Spongos::init(), W::new(Sp::new()));
    h.model(&mut w);
    let mut t = iota_mam::trits::Trits::zero(w.w.len());
    h.write(&mut s, &mut t.slice_mut());
    Ok((s, w.s))
}
/// A state different from `s` in what it has taken in: the part of the state that is next
/// overwritten by what is absorbed does not count.
pub fn other_prior(src: &mut Src, s: &Spongos) -> Result<Option<Spongos>, String> {
    let o = match src.below(3) {
        0 => prior(src)?.0,
        1 => {
            let mut o = s.fork();
            let n = src.range(1, 4);
            let x = src.trits(n);
            o.absorb(tr(&x).slice());
            o
        }
        _ => {
            let mut o = s.fork();
            o.commit();
            o
        }
    };
    Ok((kept(&o) != kept(s)).then_some(o))
}
/// Another state of the linked message, different in what is joined.
pub fn other_link(src: &mut Src, l: &Link) -> Result<Option<Link>, String> {
    let (s, m) = link_state(src)?;
    if m.clone().squeeze(243) == l.m.clone().squeeze(243) {
        return Ok(None);
    }
    Ok(Some(Link { id: l.id.clone(), s, m }))
}

/// Send and receive one message of a kind from a generated state.
pub fn exchange(src: &mut Src, m: &Msg) -> Result<Sent, String> {
    src.note(|| m.name());
    let (s, sp) = match m.link() {
        // The linked state and the own state may be the same.
        Some(l) if src.chance(6) => (l.s.fork(), l.m.clone()),
        _ => prior(src)?,
    };
    let t = send(src, m, s, sp)?;
    receive(src, m, &t, &m.ctx())?;
    Ok(t)
}
/// Every alteration is refused.
fn refuse_altered(src: &mut Src, m: &Msg, t: &Sent, c: &Ctx, n: usize) -> Res {
    for _ in 0..n {
        if let Some((v, what)) = alter(src, &t.wire) {
            src.note(|| what.clone());
            let (r, _) = attempt(m.kind(), &v, &t.before, c);
            ensure!(r.is_err(), "{} is accepted with {}", m.name(), what);
        }
    }
    Ok(())
}
fn refuse_prior(src: &mut Src, m: &Msg, t: &Sent, c: &Ctx) -> Res {
    if let Some(o) = other_prior(src, &t.before)? {
        ensure!(attempt(m.kind(), &t.wire, &o, c).0.is_err(), "{} is accepted from another prior state", m.name());
    }
    Ok(())
}
fn refuse_link(src: &mut Src, m: &Msg, t: &Sent, c: &mut Ctx) -> Res {
    let l = m.link().unwrap();
    let keep = std::mem::take(&mut c.links);
    ensure!(attempt(m.kind(), &t.wire, &t.before, c).0.is_err(), "{} is accepted with an unknown link", m.name());
    if let Some(o) = other_link(src, l)? {
        c.links = vec![(l.id.clone(), o.s)];
        ensure!(attempt(m.kind(), &t.wire, &t.before, c).0.is_err(), "{} is accepted with another linked state", m.name());
    }
    // The right state under another identifier.
    let mut id = l.id.clone();
    let i = src.below(81) as usize;
    id[i] = (id[i] + 1) % 3;
    c.links = vec![(id, l.s.fork())];
    ensure!(attempt(m.kind(), &t.wire, &t.before, c).0.is_err(), "{} is accepted with the link of another message", m.name());
    c.links = keep;
    Ok(())
}
/// Refusals leave the reader able to read the real thing.
fn still_reads(src: &mut Src, m: &Msg, t: &Sent, c: &Ctx) -> Res {
    receive(src, m, t, c).map_err(|e| format!("after refusals: {}", e))
}

/// All single-trit changes of one message, a stripe of positions per case.
fn stripe(src: &mut Src, m: &Msg, t: &Sent, c: &Ctx, count: usize) -> Res {
    let n = t.wire.len();
    let by = 1 + src.below(2) as u8;
    let start = src.below(n as u64) as usize;
    for k in 0..count.min(n) {
        let i = (start + k) % n;
        let v = flip(&t.wire, i, by);
        ensure!(attempt(m.kind(), &v, &t.before, c).0.is_err(), "{} is accepted with trit {} changed", m.name(), i);
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn c23_header(src: &mut Src) -> Res {
    let m = msg::gen(src, 0, 0)?;
    let t = exchange(src, &m)?;
    let Msg::Header { typ, inst, id } = &m else { unreachable!() };
    src.nontrivial();
    // Any difference in what the reader expects gives another state.
    for _ in 0..3 {
        let mut c = m.ctx();
        let what = match src.below(4) {
            0 => {
                let i = src.below(243) as usize;
                c.inst = flip(inst, i, 1 + src.below(2) as u8);
                "instance"
            }
            1 => {
                let i = src.below(81) as usize;
                c.id = flip(id, i, 1 + src.below(2) as u8);
                "message id"
            }
            2 => {
                c.inst = src.trits(243);
                "instance"
            }
            _ => {
                c.id = src.trits(81);
                "message id"
            }
        };
        if c.inst == *inst && c.id == *id {
            continue;
        }
        let (r, mut s) = attempt(0, &t.wire, &t.before, &c);
        ensure!(r == Ok(vec![typ.clone()]), "a header with another {} does not unwrap to its type", what);
        ensure!(probe(&s) != probe(&t.after), "a header with another {} leaves the same state", what);
        // Authentication after it fails.
        let mut a = t.after.fork();
        a.commit();
        let mac = a.squeeze_trits(243);
        s.commit();
        ensure!(!s.squeeze_eq_trits(&mac), "authenticated content is accepted after a header with another {}", what);
    }
    // Any change on the wire is refused or gives another state.
    for _ in 0..4 {
        let (v, what) = match alter(src, &t.wire) {
            Some(x) => x,
            None => continue,
        };
        src.note(|| what.clone());
        let (r, s) = attempt(0, &v, &t.before, &m.ctx());
        if let Ok(o) = r {
            ensure!(o[0] != *typ, "a header with {} unwraps to the same type", what);
            ensure!(probe(&s) != probe(&t.after), "a header with {} leaves the same state", what);
        }
    }
    // Unsupported versions.
    let ver = src.irange(-13, 13);
    let mut v = model::trits_of(ver, 3);
    v.extend_from_slice(&t.wire[3..]);
    let (r, _) = attempt(0, &v, &t.before, &m.ctx());
    ensure_eq!(r.is_ok(), ver == 1, "acceptance of version {}", ver);
    let (r, s) = attempt(0, &t.wire, &t.before, &m.ctx());
    ensure!(r.is_ok() && probe(&s) == probe(&t.after), "the header does not unwrap again");
    if let Some(o) = other_prior(src, &t.before)? {
        let (_, s) = attempt(0, &t.wire, &o, &m.ctx());
        ensure!(probe(&s) != probe(&t.after), "another prior state leads to the same state");
    }
    Ok(())
}
/// A message behind a header is bound to it.
fn c23_bound(src: &mut Src) -> Res {
    let h = msg::gen(src, 0, 0)?;
    let kind = *src.pick(&[1usize, 2, 3, 4, 7]);
    let m = msg::gen(src, kind, 40)?;
    src.note(|| format!("{} then {}", h.name(), m.name()));
    let ht = send(src, &h, Spongos::init(), Sp::new())?;
    let t = send(src, &m, ht.after.fork(), ht.model.clone())?;
    receive(src, &m, &t, &m.ctx())?;
    src.nontrivial();
    let Msg::Header { typ, inst, id } = &h else { unreachable!() };
    let mut c = h.ctx();
    let mut wire = ht.wire.clone();
    match src.below(3) {
        0 => c.inst = flip(inst, src.below(243) as usize, 1),
        1 => c.id = flip(id, src.below(81) as usize, 1),
        _ => {
            let mut typ2 = typ.clone();
            if typ2.is_empty() {
                typ2 = vec![1, 0, 0];
            } else {
                let i = src.below(typ2.len() as u64) as usize;
                typ2 = flip(&typ2, i, 1);
            }
            let h2 = Msg::Header { typ: typ2, inst: inst.clone(), id: id.clone() };
            let mut w = W::new(Sp::new());
            h2.model(&mut w);
            wire = w.w;
        }
    }
    let (r, s) = attempt(0, &wire, &Spongos::init(), &c);
    ensure!(r.is_ok(), "the other header does not unwrap");
    let mut mc = m.ctx();
    ensure!(attempt(kind, &t.wire, &s, &mc).0.is_err(), "{} is accepted behind another header", m.name());
    if kind == 2 {
        mc.recover = true;
        if let (Ok(o), _) = attempt(kind, &t.wire, &s, &mc) {
            ensure!(o[0] != m.out()[0], "recovery behind another header names the signer");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

fn c24_round(src: &mut Src) -> Res {
    let m = msg::gen(src, 1, 0)?;
    let t = exchange(src, &m)?;
    src.nontrivial();
    refuse_altered(src, &m, &t, &m.ctx(), 4)?;
    refuse_prior(src, &m, &t, &m.ctx())?;
    // Structured forgeries: everything but one part is right.
    let Msg::Announce { k, ntru } = &m else { unreachable!() };
    let (s, sp) = prior(src)?;
    let mut w = W::new(sp);
    let o = signer(src);
    let what = match src.below(5) {
        0 => {
            // Signed by another key.
            if o.pk == k.pk {
                return Ok(());
            }
            w.absorb(&k.pk);
            w.absorb(&[0, 0, 0]);
            w.sig(&o);
            "a signature by another key"
        }
        1 => {
            let v = if src.chance(30) { -src.irange(1, 13) } else { src.irange(2, 13) };
            w.absorb(&k.pk);
            w.absorb(&model::trits_of(v, 3));
            if src.bool() {
                let p = pair(src);
                w.absorb(&p.m.pk);
            }
            w.sig(k);
            "an unknown variant"
        }
        2 | 3 => {
            w.absorb(&k.pk);
            w.absorb(&[1, 0, 0]);
            let bad = bad_ntru_pk(src);
            w.absorb(&bad);
            w.sig(k);
            "an invalid NTRU key"
        }
        _ => {
            // The variant says the other thing.
            w.absorb(&k.pk);
            w.absorb(&model::trits_of(ntru.is_none() as i64, 3));
            if let Some(p) = ntru {
                w.absorb(&p.m.pk);
            }
            w.sig(k);
            "the wrong variant"
        }
    };
    src.note(|| what.into());
    ensure!(attempt(1, &w.w, &s, &m.ctx()).0.is_err(), "an announcement with {} is accepted", what);
    still_reads(src, &m, &t, &m.ctx())
}

fn c24_stripe(src: &mut Src) -> Res {
    let m = msg::gen(src, 1, 0)?;
    let t = exchange(src, &m)?;
    src.nontrivial();
    stripe(src, &m, &t, &m.ctx(), 60)
}

// ---------------------------------------------------------------- C25

fn c25_round(src: &mut Src) -> Res {
    let m = msg::gen(src, 2, 300)?;
    let t = exchange(src, &m)?;
    let Msg::Signed { public, masked, k, .. } = &m else { unreachable!() };
    if !public.is_empty() || !masked.is_empty() {
        src.nontrivial();
    }
    let mut c = m.ctx();
    c.recover = true;
    receive(src, &m, &t, &c)?;
    c.recover = false;
    refuse_altered(src, &m, &t, &c, 3)?;
    refuse_prior(src, &m, &t, &c)?;
    refuse_link(src, &m, &t, &mut c)?;
    let o = signer(src);
    if o.pk != k.pk {
        c.pk = o.pk.clone();
        ensure!(attempt(2, &t.wire, &t.before, &c).0.is_err(), "accepted with another signer's key");
        c.pk = k.pk.clone();
    }
    let i = src.below(243) as usize;
    c.pk = flip(&k.pk, i, 1);
    ensure!(attempt(2, &t.wire, &t.before, &c).0.is_err(), "accepted with a key different in trit {}", i);
    c.pk = k.pk.clone();
    still_reads(src, &m, &t, &c)
}
fn c25_recover(src: &mut Src) -> Res {
    let m = msg::gen(src, 2, 60)?;
    let t = exchange(src, &m)?;
    src.nontrivial();
    let Msg::Signed { l, k, .. } = &m else { unreachable!() };
    let mut c = m.ctx();
    c.recover = true;
    let named = |r: Result<Vec<Vec<u8>>, iota_mam::pb3::Err>| r.map_or(false, |o| o[0] == k.pk);
    for _ in 0..4 {
        if let Some((v, what)) = alter(src, &t.wire) {
            src.note(|| what.clone());
            ensure!(!named(attempt(2, &v, &t.before, &c).0), "recovery with {} names the signer", what);
        }
    }
    if let Some(o) = other_prior(src, &t.before)? {
        ensure!(!named(attempt(2, &t.wire, &o, &c).0), "recovery from another prior state names the signer");
    }
    if let Some(o) = other_link(src, l)? {
        c.links = vec![(l.id.clone(), o.s)];
        ensure!(!named(attempt(2, &t.wire, &t.before, &c).0), "recovery with another linked state names the signer");
    }
    // Signed by somebody else: recovery names that one.
    let o = signer(src);
    let m2 = Msg::Signed { l: l.clone(), public: src.trits(6), masked: src.trits(6), k: o };
    let (s, sp) = prior(src)?;
    let t2 = send(src, &m2, s, sp)?;
    let mut c = m2.ctx();
    c.recover = true;
    receive(src, &m2, &t2, &c)
}
/// Payloads of thousands of trytes.
fn c25_large(src: &mut Src) -> Res {
    src.big = 2;
    c25_round(src)
}
fn c25_stripe(src: &mut Src) -> Res {
    let m = msg::gen(src, 2, 30)?;
    let t = exchange(src, &m)?;
    src.nontrivial();
    stripe(src, &m, &t, &m.ctx(), 60)
}

// ---------------------------------------------------------------- C26

fn c26_round(src: &mut Src) -> Res {
    let m = msg::gen(src, 3, 400)?;
    let t = exchange(src, &m)?;
    let Msg::Tagged { l, public, masked } = &m else { unreachable!() };
    if !public.is_empty() || !masked.is_empty() {
        src.nontrivial();
    }
    let mut c = m.ctx();
    refuse_altered(src, &m, &t, &c, 6)?;
    refuse_prior(src, &m, &t, &c)?;
    refuse_link(src, &m, &t, &mut c)?;
    // The same packet written by somebody with another linked state.
    if let Some(o) = other_link(src, l)? {
        let f = Msg::Tagged { l: o, public: public.clone(), masked: masked.clone() };
        let mut w = W::new(t.model.clone());
        w.s = Sp::new();
        let s = Spongos::init();
        f.model(&mut w);
        ensure!(attempt(3, &w.w, &s, &c).0.is_err(), "a packet made without the linked state is accepted");
    }
    still_reads(src, &m, &t, &c)
}
/// Payloads of thousands of trytes.
fn c26_large(src: &mut Src) -> Res {
    src.big = 2;
    c26_round(src)
}
fn c26_stripe(src: &mut Src) -> Res {
    let m = msg::gen(src, 3, 120)?;
    let t = exchange(src, &m)?;
    src.nontrivial();
    stripe(src, &m, &t, &m.ctx(), t.wire.len())
}

// ---------------------------------------------------------------- C27

fn c27_round(src: &mut Src) -> Res {
    let m = msg::gen(src, 4, 0)?;
    let t = exchange(src, &m)?;
    src.nontrivial();
    let mut c = m.ctx();
    refuse_altered(src, &m, &t, &c, 2)?;
    refuse_prior(src, &m, &t, &c)?;
    refuse_link(src, &m, &t, &mut c)?;
    let Msg::ChangeKey { old, .. } = &m else { unreachable!() };
    let o = signer(src);
    if o.pk != old.pk {
        c.pk = o.pk;
        ensure!(attempt(4, &t.wire, &t.before, &c).0.is_err(), "accepted by a reader who trusts another key");
        c.pk = old.pk.clone();
    }
    still_reads(src, &m, &t, &c)
}
/// Messages built by hand with one or both signatures wrong.
fn c27_forged(src: &mut Src) -> Res {
    let l = link(src)?;
    let (new, old, x, y) = (signer(src), signer(src), signer(src), signer(src));
    let (s, sp) = prior(src)?;
    let mut w = W::new(sp);
    w.join(&l.id, &mut l.m.clone());
    w.absorb(&new.pk);
    let h = w.tag();
    let mut h2 = h.clone();
    let i = src.below(234) as usize;
    h2[i] = (h2[i] + 1) % 3;
    let (a, b, what): (Vec<u8>, Vec<u8>, &str) = match src.below(9) {
        0 => (new.sign(&h), old.sign(&h), "right signatures"),
        1 => (old.sign(&h), new.sign(&h), "swapped signatures"),
        2 => (new.sign(&h), x.sign(&h), "an old-key signature by another key"),
        3 => (x.sign(&h), old.sign(&h), "a new-key signature by another key"),
        4 => (new.sign(&h), vec![], "no old-key signature"),
        5 => (vec![], old.sign(&h), "no new-key signature"),
        6 => (new.sign(&h2), old.sign(&h), "a new-key signature of other content"),
        7 => (new.sign(&h), old.sign(&h2), "an old-key signature of other content"),
        _ => (x.sign(&h), y.sign(&h), "both signatures by other keys"),
    };
    // By definition: valid exactly if both parts are valid signatures under the two keys.
    let ok_sig = |sig: &[u8], pk: &[u8]| model::mss::recover(&h, sig).map_or(false, |(k, n)| k == pk && n == sig.len());
    let good = ok_sig(&a, &new.pk) && ok_sig(&b, &old.pk);
    let mut wire = w.w.clone();
    wire.extend(&a);
    wire.extend(&b);
    src.nontrivial();
    src.note(|| format!("{} ({} / {}, others {} / {})", what, new.name(), old.name(), x.name(), y.name()));
    src.label(if good { "valid" } else { "forged" });
    let mut c = Ctx::new();
    c.links.push((l.id.clone(), l.s.fork()));
    c.pk = old.pk.clone();
    let (r, _) = attempt(4, &wire, &s, &c);
    match (good, r) {
        (true, Ok(o)) => ensure_trits!(o[0], new.pk, "new key"),
        (true, Err(e)) => return Err(format!("a key change with {} is refused: {}", what, e)),
        (false, Ok(_)) => return Err(format!("a key change with {} is accepted", what)),
        (false, Err(_)) => {}
    }
    Ok(())
}
/// Trust travels along chains of key changes.
fn c27_chain(src: &mut Src) -> Res {
    let k0 = signer(src);
    let a = Msg::Announce { k: k0.clone(), ntru: None };
    let t = exchange(src, &a)?;
    let (mut cur, mut trusted) = (k0, a.out()[0].clone());
    let mut l = Link { id: src.trits(81), s: t.after.fork(), m: t.model.clone() };
    let n = src.range(1, 4);
    src.nontrivial();
    for i in 0..n {
        let new = signer(src);
        let m = Msg::ChangeKey { l: l.clone(), new: new.clone(), old: cur.clone() };
        let (s, sp) = prior(src)?;
        src.note(|| format!("step {}: {}", i, m.name()));
        let t = send(src, &m, s, sp)?;
        let mut c = m.ctx();
        c.pk = trusted.clone();
        receive(src, &m, &t, &c)?;
        // A reader left at another key does not follow.
        let o = signer(src);
        if o.pk != trusted {
            c.pk = o.pk;
            ensure!(attempt(4, &t.wire, &t.before, &c).0.is_err(), "a reader who trusts another key accepts step {}", i);
        }
        trusted = m.out()[0].clone();
        cur = new;
        l = Link { id: src.trits(81), s: t.after.fork(), m: t.model };
    }
    // The last key signs packets the reader verifies.
    let m = Msg::Signed { l, public: src.trits(9), masked: src.trits(9), k: cur };
    let (s, sp) = prior(src)?;
    let t = send(src, &m, s, sp)?;
    let mut c = m.ctx();
    c.pk = trusted;
    receive(src, &m, &t, &c)
}
fn c27_stripe(src: &mut Src) -> Res {
    let m = msg::gen(src, 4, 0)?;
    let t = exchange(src, &m)?;
    src.nontrivial();
    stripe(src, &m, &t, &m.ctx(), 40)
}

// ---------------------------------------------------------------- C28

fn c28_recipients(src: &mut Src) -> Res {
    let m = msg::gen(src, 5, 0)?;
    let Msg::Keyload { psks, ntrus, .. } = &m else { unreachable!() };
    src.note(|| m.name());
    let (s, sp) = prior(src)?;
    let t = send(src, &m, s, sp)?;
    if psks.len() + ntrus.len() > 1 {
        src.nontrivial();
    }
    for _ in 0..src.range(2, 4) {
        let mut c = m.ctx();
        // Some listed keys, and some that are not listed.
        let one = src.bool() && psks.len() + ntrus.len() > 0;
        let pick = if one { src.below((psks.len() + ntrus.len()) as u64) as usize } else { 0 };
        c.psks = Vec::new();
        c.ntrus = Vec::new();
        for (i, p) in psks.iter().enumerate() {
            if if one { i == pick } else { src.chance(40) } {
                c.psks.push(p.clone());
            }
        }
        for (i, p) in ntrus.iter().enumerate() {
            if if one { psks.len() + i == pick } else { src.chance(30) } {
                c.ntrus.push(p.clone());
            }
        }
        let listed = c.psks.len() + c.ntrus.len();
        if src.bool() {
            for p in gen_psks(src, 2) {
                if !psks.iter().any(|q| q.0 == p.0) && !c.psks.iter().any(|q| q.0 == p.0) {
                    c.psks.push(p);
                }
            }
            if let Some(p) = psks.first() {
                // An identifier that differs in one trit.
                let i = src.below(81) as usize;
                let id = flip(&p.0, i, 1 + src.below(2) as u8);
                if !psks.iter().any(|q| q.0 == id) && !c.psks.iter().any(|q| q.0 == id) {
                    c.psks.push((id, p.1.clone()));
                }
            }
        }
        if src.bool() {
            for i in 0..NTRU_KEYS {
                if !ntrus.iter().any(|p| p.id == i) && src.bool() {
                    c.ntrus.push(ntru_pair(i));
                }
            }
        }
        src.note(|| format!("reader with {} listed of {} PSKs and {} NTRU keys", listed, c.psks.len(), c.ntrus.len()));
        if listed > 0 {
            src.label("recipient");
            receive(src, &m, &t, &c)?;
        } else {
            src.label("no recipient");
            ensure!(attempt(5, &t.wire, &t.before, &c).0.is_err(), "the keyload unwraps without any listed key");
        }
    }
    Ok(())
}
/// Hundreds of recipients.
fn c28_many(src: &mut Src) -> Res {
    src.big = 1;
    c28_recipients(src)
}
fn differs(m: &Msg, wire: &[u8], before: &Spongos, c: &Ctx, after: &Spongos, what: &str) -> Res {
    let (r, s) = attempt(5, wire, before, c);
    if r.is_ok() {
        ensure!(probe(&s) != probe(after), "{} unwraps to the author's state with {}", m.name(), what);
    }
    Ok(())
}
fn c28_wrong(src: &mut Src) -> Res {
    let m = msg::gen(src, 5, 0)?;
    let Msg::Keyload { l, psks, ntrus, .. } = &m else { unreachable!() };
    let n = psks.len() + ntrus.len();
    if n == 0 {
        return Ok(());
    }
    src.note(|| m.name());
    let (s, sp) = prior(src)?;
    let t = send(src, &m, s, sp)?;
    src.nontrivial();
    let me = src.below(n as u64) as usize;
    let mut c = m.ctx();
    c.psks = psks.get(me).cloned().into_iter().collect();
    c.ntrus = if me >= psks.len() { vec![ntrus[me - psks.len()].clone()] } else { vec![] };
    // Everything this reader's decoding depends on.
    let head = 162 + size_enc(psks.len() as u64).len();
    let mid = head + 324 * psks.len();
    let mid_end = mid + size_enc(ntrus.len() as u64).len();
    let (own, own_len) = if me < psks.len() { (head + 324 * me, 324) } else { (mid_end + 9297 * (me - psks.len()), 9297) };
    for _ in 0..6 {
        let i = match src.below(5) {
            0 => src.below(162) as usize,
            1 => 162 + src.below((head - 162) as u64) as usize,
            2 => mid + src.below((mid_end - mid) as u64) as usize,
            _ => own + src.below(own_len as u64) as usize,
        };
        let v = flip(&t.wire, i, 1 + src.below(2) as u8);
        differs(&m, &v, &t.before, &c, &t.after, &format!("trit {} changed (own entry {} at {})", i, me, own))?;
    }
    if let Some(o) = other_prior(src, &t.before)? {
        differs(&m, &t.wire, &o, &c, &t.after, "another prior state")?;
    }
    if let Some(o) = other_link(src, l)? {
        c.links = vec![(l.id.clone(), o.s)];
        differs(&m, &t.wire, &t.before, &c, &t.after, "another linked state")?;
    }
    c.links = vec![];
    ensure!(attempt(5, &t.wire, &t.before, &c).0.is_err(), "the keyload is accepted with an unknown link");
    c = m.ctx();
    // The listed identifier with the wrong key.
    if me < psks.len() {
        let (id, k) = &psks[me];
        let i = src.below(243) as usize;
        let k2 = if src.bool() { flip(k, i, 1) } else { src.rtrits(243) };
        if k2 != *k {
            c.psks = vec![(id.clone(), k2)];
            c.ntrus = vec![];
            differs(&m, &t.wire, &t.before, &c, &t.after, "a wrong PSK")?;
        }
    } else {
        // A pair under the identifier of another key: the listed key's id with another secret.
        let p = &ntrus[me - psks.len()];
        let o = ntru_pair((p.id + 1) % NTRU_KEYS);
        let mut table = std::collections::HashMap::new();
        table.insert(tr(&p.m.pk[..81]), o.sk.clone());
        let w = tr(&t.wire);
        let mut s = t.before.fork();
        let r = iota_mam::app::channel::msg::keyload::unwrap(
            |_| Some((l.s.fork(), ())),
            &Default::default(),
            &table,
            &mut s,
            &mut w.slice(),
        );
        ensure!(r.is_err() || probe(&s) != probe(&t.after), "the keyload unwraps with another private key");
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

fn c29_subscribe(src: &mut Src) -> Res {
    let m = msg::gen(src, 6, 0)?;
    let t = exchange(src, &m)?;
    src.nontrivial();
    let Msg::Subscribe { sub, owner, .. } = &m else { unreachable!() };
    let mut c = m.ctx();
    refuse_altered(src, &m, &t, &c, 3)?;
    refuse_prior(src, &m, &t, &c)?;
    refuse_link(src, &m, &t, &mut c)?;
    c.owner = Some(ntru_pair((owner.id + 1 + src.below(NTRU_KEYS as u64 - 1) as usize) % NTRU_KEYS));
    ensure!(attempt(6, &t.wire, &t.before, &c).0.is_err(), "the subscription unwraps with another private key");
    clear_of(&t.wire, &sub.m.pk, "subscriber's public key")?;
    c.owner = Some(owner.clone());
    still_reads(src, &m, &t, &c)
}
/// No 40 consecutive trits of `secret` (random trits) appear in `wire`.
fn clear_of(wire: &[u8], secret: &[u8], what: &str) -> Res {
    let set: std::collections::HashSet<&[u8]> = secret.windows(40).collect();
    match wire.windows(40).position(|w| set.contains(w)) {
        Some(i) => Err(format!("a part of the {} appears on the wire at trit {}", what, i)),
        None => Ok(()),
    }
}
fn c29_bad_key(src: &mut Src) -> Res {
    // A correctly authenticated subscription carrying something that is no public key.
    let l = link(src)?;
    let owner = pair(src);
    let (s, sp) = prior(src)?;
    let good = src.chance(20);
    let pk = if good { pair(src).m.pk.clone() } else { bad_ntru_pk(src) };
    let mut w = W::new(sp);
    w.join(&l.id, &mut l.m.clone());
    let (prng, nonce, k) = (src.trits(243), src.trits(9), src.trits(243));
    w.kem(&owner, &prng, &nonce, &k);
    w.s.commit();
    w.mask(&pk);
    w.mac();
    src.nontrivial();
    let mut c = Ctx::new();
    c.links.push((l.id.clone(), l.s.fork()));
    c.owner = Some(owner);
    let (r, s2) = attempt(6, &w.w, &s, &c);
    ensure_eq!(r.is_ok(), good, "acceptance of a subscription with {} public key", if good { "a valid" } else { "an invalid" });
    if good {
        ensure_trits!(r.unwrap()[0], pk, "subscriber's key");
        ensure_trits!(probe(&s2), w.s.probe(), "state after the subscription");
    }
    Ok(())
}
fn c29_unsubscribe(src: &mut Src) -> Res {
    let m = msg::gen(src, 7, 0)?;
    let t = exchange(src, &m)?;
    src.nontrivial();
    let mut c = m.ctx();
    refuse_altered(src, &m, &t, &c, 4)?;
    refuse_prior(src, &m, &t, &c)?;
    refuse_link(src, &m, &t, &mut c)?;
    let (start, by) = (src.below(40) as usize, 1 + src.below(2) as u8);
    for i in (start..t.wire.len()).step_by(40) {
        ensure!(attempt(7, &flip(&t.wire, i, by), &t.before, &c).0.is_err(), "the unsubscription is accepted with trit {} changed", i);
    }
    still_reads(src, &m, &t, &c)
}
fn c29_both(src: &mut Src) -> Res {
    // Subscribe, then unsubscribe from the state of the subscription.
    let m = msg::gen(src, 6, 0)?;
    let t = exchange(src, &m)?;
    let Msg::Subscribe { sub, l, .. } = &m else { unreachable!() };
    src.nontrivial();
    let id = src.trits(81);
    let u = Msg::Unsubscribe { l: Link { id: id.clone(), s: t.after.fork(), m: t.model.clone() }, sub: sub.clone() };
    let (s, sp) = prior(src)?;
    let ut = send(src, &u, s, sp)?;
    // The owner's state comes from unwrapping.
    let (r, owner_state) = attempt(6, &t.wire, &t.before, &m.ctx());
    ensure!(r.is_ok(), "the subscription does not unwrap");
    let mut c = u.ctx();
    c.links = vec![(id.clone(), owner_state)];
    receive(src, &u, &ut, &c)?;
    // Linked to the state before the subscription, or that of another one.
    c.links = vec![(id.clone(), l.s.fork())];
    ensure!(attempt(7, &ut.wire, &ut.before, &c).0.is_err(), "the unsubscription is accepted without the subscription");
    Ok(())
}
fn c29_stripe(src: &mut Src) -> Res {
    let m = msg::gen(src, 6, 0)?;
    let t = exchange(src, &m)?;
    src.nontrivial();
    stripe(src, &m, &t, &m.ctx(), 12)
}

// ---------------------------------------------------------------- C30

fn same_share(a: &[u8], b: &[u8]) -> f64 {
    a.iter().zip(b).filter(|(x, y)| x == y).count() as f64 / a.len() as f64
}
/// Two independent strings of at least 200 trits agree in about a third.
fn unrelated(a: &[u8], b: &[u8], what: &str) -> Res {
    let p = same_share(a, b);
    ensure!(a.len() < 200 || (0.08..0.62).contains(&p), "{} agree in {:.0}% of {} trits", what, 100.0 * p, a.len());
    Ok(())
}
/// Where the masked trits of a message are, and what they encode.
fn masked_part(m: &Msg) -> Vec<(usize, Vec<u8>)> {
    match m {
        Msg::Signed { public, masked, .. } | Msg::Tagged { public, masked, .. } => {
            let mut e = size_enc(masked.len() as u64 / 3);
            let at = 81 + size_enc(public.len() as u64 / 3).len() + public.len();
            e.extend_from_slice(masked);
            vec![(at, e)]
        }
        Msg::Keyload { psks, key, .. } => {
            let head = 162 + size_enc(psks.len() as u64).len();
            (0..psks.len()).map(|i| (head + 324 * i + 81, key.clone())).collect()
        }
        Msg::Subscribe { sub, .. } => vec![(81 + 9216, sub.m.pk.clone())],
        _ => vec![],
    }
}
fn gen_masked(src: &mut Src) -> Result<Msg, String> {
    let kind = *src.pick(&[2usize, 3, 3, 5, 6]);
    let mut m = msg::gen(src, kind, 300)?;
    if let Msg::Signed { masked, .. } | Msg::Tagged { masked, .. } = &mut m {
        if src.big > 0 && src.chance(80) {
            src.big = 2;
            *masked = payload(src, 1200);
        } else if src.chance(80) {
            let n = src.range(70, 400);
            *masked = src.trits(3 * n);
        }
    }
    Ok(m)
}
/// The state after the header of such a message, as every application makes it.
fn header_state(src: &mut Src, m: &Msg) -> Result<(Spongos, Sp), String> {
    let typ = match m.kind() {
        2 => "MAM9SIGNEDPACKET",
        3 => "MAM9TAGGEDPACKET",
        5 => "MAM9KEYLOAD",
        _ => "MAM9CHANNEL9SUBSCRIBE",
    };
    let h = Msg::Header { typ: model::parse(typ).unwrap(), inst: src.trits(243), id: src.trits(81) };
    let t = send(src, &h, Spongos::init(), Sp::new())?;
    Ok((t.after, t.model))
}
/// A committed state that holds something unknown.
fn secret_link(src: &mut Src) -> Link {
    let x = src.rtrits(243);
    let (mut s, mut m) = (Spongos::init(), Sp::new());
    s.absorb(tr(&x).slice());
    m.absorb(&x);
    s.commit();
    m.commit();
    let n = *src.pick(&[0usize, 234, 243]);
    s.squeeze_trits(n);
    m.squeeze(n);
    Link { id: src.trits(81), s, m }
}
fn with_link(m: &Msg, l: &Link) -> Msg {
    let mut m = m.clone();
    if let Msg::Signed { l: x, .. } | Msg::Tagged { l: x, .. } | Msg::Keyload { l: x, .. } | Msg::Subscribe { l: x, .. } = &mut m {
        let id = x.id.clone();
        *x = l.clone();
        x.id = id;
    }
    m
}
fn c30_secrets(src: &mut Src) -> Res {
    let l1 = secret_link(src);
    let m1 = gen_masked(src)?;
    let m1 = with_link(&m1, &l1);
    src.note(|| m1.name());
    let (s, sp) = header_state(src, &m1)?;
    let t1 = send(src, &m1, s.fork(), sp.clone())?;
    let parts = masked_part(&m1);
    if parts.iter().all(|(_, e)| e.len() < 200) {
        return Ok(());
    }
    src.nontrivial();
    for (at, e) in &parts {
        unrelated(&t1.wire[*at..at + e.len()], e, "masked content and its wire form")?;
    }
    // The same content under another secret.
    let mut m2 = m1.clone();
    let what = match (src.below(2), &mut m2) {
        (0, Msg::Keyload { psks, .. }) => {
            for p in psks.iter_mut() {
                let i = src.below(243) as usize;
                p.1 = flip(&p.1, i, 1);
            }
            "another PSK"
        }
        (0, Msg::Subscribe { prng, .. }) => {
            let i = src.below(243) as usize;
            *prng = flip(prng, i, 1);
            "another session key"
        }
        _ => {
            let l2 = secret_link(src);
            if l2.m.clone().squeeze(243) == m1.link().unwrap().m.clone().squeeze(243) {
                return Ok(());
            }
            m2 = with_link(&m1, &l2);
            "another linked state"
        }
    };
    src.note(|| what.into());
    let t2 = send(src, &m2, s.fork(), sp)?;
    for (at, e) in &parts {
        let (a, b) = (&t1.wire[*at..at + e.len()], &t2.wire[*at..at + e.len()]);
        unrelated(a, b, &format!("the wire forms of content masked under {}", what))?;
    }
    // Who has the other secret does not get the content as authentic.
    let (r, s2) = attempt(m1.kind(), &t1.wire, &t1.before, &m2.ctx());
    match m1 {
        Msg::Keyload { ref ntrus, ref psks, .. } if psks.is_empty() && !ntrus.is_empty() && what == "another PSK" => {}
        Msg::Keyload { .. } => ensure!(r.is_err() || probe(&s2) != probe(&t1.after), "the author's state is reached with {}", what),
        Msg::Subscribe { .. } if what == "another session key" => {}
        _ => ensure!(r.is_err(), "{} is accepted with {}", m1.name(), what),
    }
    Ok(())
}
/// The same content in states that differ before.
fn c30_states(src: &mut Src) -> Res {
    let l = secret_link(src);
    let m = gen_masked(src)?;
    let m = with_link(&m, &l);
    src.note(|| m.name());
    let (s1, sp1) = header_state(src, &m)?;
    let (s2, sp2) = header_state(src, &m)?;
    if sp1 == sp2 {
        return Ok(());
    }
    let (t1, t2) = (send(src, &m, s1, sp1)?, send(src, &m, s2, sp2)?);
    let parts = masked_part(&m);
    for (at, e) in &parts {
        if e.len() >= 200 {
            src.nontrivial();
        }
        unrelated(&t1.wire[*at..at + e.len()], &t2.wire[*at..at + e.len()], "the wire forms of content masked in different states")?;
    }
    Ok(())
}
/// Changing the content shows as the same change on the wire until the block ends,
/// and changes nothing before it.
fn c30_stream(src: &mut Src) -> Res {
    let l = secret_link(src);
    let m1 = loop {
        let m = gen_masked(src)?;
        if matches!(m, Msg::Signed { .. } | Msg::Tagged { .. }) || src.rec.len() > 2000 {
            break m;
        }
    };
    let m1 = with_link(&m1, &l);
    let mut m2 = m1.clone();
    let (Msg::Signed { masked, public, .. } | Msg::Tagged { masked, public, .. }) = &mut m2 else { return Ok(()) };
    let n = masked.len();
    *masked = src.trits(n);
    let at = 81 + size_enc(public.len() as u64 / 3).len() + public.len();
    src.nontrivial();
    src.note(|| m1.name());
    let (s, sp) = header_state(src, &m1)?;
    // Where the masked part starts within its block.
    let mut w = W::new(sp.clone());
    w.join(&l.id, &mut l.m.clone());
    w.trytes(&m1.out()[if m1.kind() == 2 { 1 } else { 0 }], false);
    let room = 486 - w.s.pos;
    let (t1, t2) = (send(src, &m1, s.fork(), sp.clone())?, send(src, &m2, s, sp)?);
    ensure_trits!(t1.wire[..at], t2.wire[..at], "wire before the masked content");
    let (e1, e2) = (&masked_part(&m1)[0].1, &masked_part(&m2)[0].1);
    let k = room.min(e1.len());
    let sub = |a: &[u8], b: &[u8]| a.iter().zip(b).map(|(x, y)| (x + 3 - y) % 3).collect::<Vec<u8>>();
    ensure_trits!(sub(&t1.wire[at..at + k], &e1[..k]), sub(&t2.wire[at..at + k], &e2[..k]), "keystream of the first block");
    Ok(())
}
/// Masked fields of every type: encoding plus the keystream of the state.
fn c30_fields(src: &mut Src) -> Res {
    use iota_mam::pb3::{self, Mask};
    let l = secret_link(src);
    let (s, sp) = (l.s, l.m);
    let n = if src.big > 0 { src.size(900) / 3 } else { src.upto(300) };
    let x = src.trits(3 * n);
    let mut e: Vec<u8>;
    let mut t;
    let mut f = s.fork();
    macro_rules! wrap {
        ($v:expr) => {{
            t = iota_mam::trits::Trits::zero(e.len());
            $v.wrap_mask(&mut f, &mut t.slice_mut());
        }};
    }
    let kind = src.below(9);
    src.note(|| format!("masked field kind {}, {} trytes", kind, n));
    match kind {
        0 => {
            let v = src.irange(-13, 13);
            e = model::trits_of(v, 3);
            wrap!(pb3::tryte(v as i8));
        }
        1 => {
            let v = src.irange(-364, 364);
            e = model::trits_of(v, 6);
            wrap!(pb3::Trint6(v as i16));
        }
        2 => {
            let v = src.irange(-9841, 9841);
            e = model::trits_of(v, 9);
            wrap!(pb3::Trint9(v as i16));
        }
        3 => {
            let v = src.irange(-193710244, 193710244);
            e = model::trits_of(v, 18);
            wrap!(pb3::Trint18(v as i32));
        }
        4 => {
            let v = src.below(1 << 60);
            e = size_enc(v);
            wrap!(pb3::Size(v as usize));
        }
        5 => {
            e = x.clone();
            wrap!(tr(&x));
        }
        6 => {
            e = size_enc(n as u64);
            e.extend_from_slice(&x);
            wrap!(pb3::Trytes(tr(&x)));
        }
        7 => {
            e = src.trits(243);
            wrap!(mss_pk(&e));
        }
        _ => {
            let p = pair(src);
            e = p.m.pk.clone();
            wrap!(p.pk);
        }
    }
    if !e.is_empty() {
        src.nontrivial();
    }
    let wire = ve(&t);
    ensure_trits!(wire, sp.clone().encr(&e), "masked field");
    let ks = sp.clone().squeeze(e.len().min(486 - sp.pos));
    let k = ks.len();
    let sum: Vec<u8> = e[..k].iter().zip(&ks).map(|(a, b)| (a + b) % 3).collect();
    ensure_trits!(wire[..k], sum, "first block of a masked field");
    unrelated(&wire, &e, "a masked field and its wire form")
}
/// The same with much more content.
fn c30_large(src: &mut Src) -> Res {
    src.big = 2;
    match src.below(6) {
        0 | 1 => c30_secrets(src),
        2 => c30_states(src),
        3 => c30_stream(src),
        _ => c30_fields(src),
    }
}
fn c23_large(src: &mut Src) -> Res {
    src.big = 2;
    c23_header(src)
}

// ----------------------------------------------------------------

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C23",
            rule: "a case wraps a generated header, compares it with the model, and reads it back with the same and with other expectations; non-trivial: all",
            sections: vec![sec("headers", 8_000, 400_000, c23_header), sec("content behind headers", 3_000, 150_000, c23_bound), sec("large types", 300, 15_000, c23_large)],
        },
        Property {
            id: "C24",
            rule: "a case wraps a generated announcement from a generated state, compares it with the model, reads it back, alters it and forges variants; non-trivial: all",
            sections: vec![sec("announcements", 1_000, 50_000, c24_round), sec("single-trit changes", 80, 4_000, c24_stripe)],
        },
        Property {
            id: "C25",
            rule: "a case wraps a generated signed packet from a generated state, compares it with the model, reads it in both ways and under changed conditions; non-trivial: a payload is not empty",
            sections: vec![
                sec("signed packets", 700, 35_000, c25_round),
                sec("recovery", 500, 25_000, c25_recover),
                sec("large payloads", 250, 12_500, c25_large),
                sec("single-trit changes", 70, 3_500, c25_stripe),
            ],
        },
        Property {
            id: "C26",
            rule: "a case wraps a generated tagged packet from a generated state, compares it with the model, reads it back and under changed conditions; non-trivial: a payload is not empty",
            sections: vec![sec("tagged packets", 60_000, 3_000_000, c26_round), sec("large payloads", 1_000, 50_000, c26_large), sec("single-trit changes", 3_000, 150_000, c26_stripe)],
        },
        Property {
            id: "C27",
            rule: "a case wraps a generated key change, or a chain of them, or forges one; non-trivial: all",
            sections: vec![
                sec("key changes", 300, 15_000, c27_round),
                sec("forged key changes", 500, 25_000, c27_forged),
                sec("chains", 220, 11_000, c27_chain),
                sec("single-trit changes", 40, 2_000, c27_stripe),
            ],
        },
        Property {
            id: "C28",
            rule: "a case wraps a generated keyload and reads it as readers with generated sets of keys, or altered; non-trivial: more than one recipient, or an altered message",
            sections: vec![sec("recipients", 15_000, 750_000, c28_recipients), sec("many recipients", 1_500, 75_000, c28_many), sec("wrong keys and altered keyloads", 15_000, 750_000, c28_wrong)],
        },
        Property {
            id: "C29",
            rule: "a case wraps a generated subscription or unsubscription, compares it with the model, reads it back and under changed conditions; non-trivial: all",
            sections: vec![
                sec("subscriptions", 8_000, 400_000, c29_subscribe),
                sec("invalid subscriber keys", 5_000, 250_000, c29_bad_key),
                sec("unsubscriptions", 40_000, 2_000_000, c29_unsubscribe),
                sec("subscribe and unsubscribe", 5_000, 250_000, c29_both),
                sec("single-trit changes", 2_000, 100_000, c29_stripe),
            ],
        },
        Property {
            id: "C30",
            rule: "a case masks the same content under different secrets or states, or different content under the same, and compares wire forms; non-trivial: at least 200 masked trits, or a field that is not empty",
            sections: vec![
                sec("other secrets", 2_500, 125_000, c30_secrets),
                sec("other states", 2_000, 100_000, c30_states),
                sec("other content", 2_500, 125_000, c30_stream),
                sec("masked fields", 10_000, 500_000, c30_fields),
                sec("large content", 1_200, 60_000, c30_large),
            ],
        },
    ]
}
