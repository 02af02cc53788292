//! Channel messages: generation, model encoding, real encoding and decoding.

use super::kit::*;
use crate::engine::*;
use crate::model::{self, spongos::Sp};
use crate::util::*;
use crate::ensure_eq;
use iota_mam::app::channel::msg::{announce, change_key, keyload, signed_packet, subscribe, tagged_packet, unsubscribe};
use iota_mam::app::core::msg::header;
use iota_mam::app::core::{AppInst, MsgId};
use iota_mam::mss;
use iota_mam::pb3;
use iota_mam::prng::PRNG;
use iota_mam::spongos::Spongos;
use iota_mam::trits::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// A processed message others link to.
pub struct Link {
    pub id: Vec<u8>,
    pub s: Spongos,
    pub m: Sp,
}
impl Clone for Link {
    fn clone(&self) -> Self {
        Link { id: self.id.clone(), s: self.s.fork(), m: self.m.clone() }
    }
}
pub fn link(src: &mut Src) -> Result<Link, String> {
    let (s, m) = link_state(src)?;
    Ok(Link { id: src.trits(81), s, m })
}

#[derive(Clone)]
pub enum Msg {
    Header { typ: Vec<u8>, inst: Vec<u8>, id: Vec<u8> },
    Announce { k: Signer, ntru: Option<Rc<Pair>> },
    Signed { l: Link, public: Vec<u8>, masked: Vec<u8>, k: Signer },
    Tagged { l: Link, public: Vec<u8>, masked: Vec<u8> },
    ChangeKey { l: Link, new: Signer, old: Signer },
    Keyload { l: Link, nonce: Vec<u8>, psks: Vec<(Vec<u8>, Vec<u8>)>, ntrus: Vec<Rc<Pair>>, prng: Vec<u8>, key: Vec<u8> },
    Subscribe { l: Link, prng: Vec<u8>, nonce: Vec<u8>, sub: Rc<Pair>, owner: Rc<Pair> },
    Unsubscribe { l: Link, sub: Rc<Pair> },
}
pub const KINDS: usize = 8;
use Msg::*;

pub fn app_inst(t: &[u8]) -> AppInst {
    AppInst::verif_new(tr(t))
}
pub fn msg_id(t: &[u8]) -> MsgId {
    MsgId::verif_new(tr(t))
}

/// `n` PSKs with different identifiers, some of which share long prefixes.
pub fn gen_psks(src: &mut Src, n: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    let base = src.trits(81);
    while v.len() < n {
        let mut id = if src.bool() { src.rtrits(81) } else { base.clone() };
        let i = src.below(81) as usize;
        let c = (v.len() % 9) as u8;
        id[i] = (id[i] + c) % 3;
        id[80] = (id[80] + c / 3) % 3;
        if v.iter().any(|(o, _)| *o == id) {
            id = src.rtrits(81);
        }
        if v.iter().any(|(o, _)| *o == id) {
            // Only a replayed tape full of zeros gets here.
            for (j, t) in id.iter_mut().enumerate().take(4) {
                *t = ((v.len() / 3usize.pow(j as u32)) % 3) as u8;
            }
            id[70] = (id[70] + 1) % 3;
            if v.iter().any(|(o, _)| *o == id) {
                break;
            }
        }
        let k = src.trits(243);
        v.push((id, k));
    }
    v
}
/// Different NTRU key pairs in some order.
pub fn gen_ntrus(src: &mut Src, n: usize) -> Vec<Rc<Pair>> {
    let mut ids: Vec<usize> = (0..n.max(NTRU_KEYS)).collect();
    let mut v = Vec::new();
    for _ in 0..n {
        let i = src.below(ids.len() as u64) as usize;
        v.push(ntru_pair(ids.remove(i)));
    }
    v
}

pub fn gen(src: &mut Src, kind: usize, max_payload: usize) -> Result<Msg, String> {
    Ok(match kind {
        0 => Header { typ: payload(src, 60), inst: src.trits(243), id: src.trits(81) },
        1 => {
            let k = signer(src);
            Announce { k, ntru: if src.chance(40) { Some(pair(src)) } else { None } }
        }
        2 => Signed { l: link(src)?, public: payload(src, max_payload), masked: payload(src, max_payload), k: signer(src) },
        3 => Tagged { l: link(src)?, public: payload(src, max_payload), masked: payload(src, max_payload) },
        4 => ChangeKey { l: link(src)?, new: signer(src), old: signer(src) },
        5 => {
            let l = link(src)?;
            let np = src.weighted(&[3, 3, 2, 1, 1]);
            let np = if src.chance(10) { src.range(5, 16) } else { np };
            let nn = src.weighted(&[3, 3, 2, 1]);
            // Around the edges of counts of one and two trytes, of bytes and of powers of two.
            const MANY: [usize; 16] = [13, 14, 27, 32, 40, 41, 64, 81, 100, 121, 128, 243, 256, 364, 365, 512];
            let (np, nn) = if src.big == 0 {
                (np, nn)
            } else if src.chance(75) {
                let k = *src.pick(&MANY);
                (k - 2 + src.upto(4), nn)
            } else {
                (np, src.range(4, 18))
            };
            Keyload {
                l,
                nonce: src.trits(81),
                psks: gen_psks(src, np),
                ntrus: gen_ntrus(src, nn),
                prng: src.trits(243),
                key: src.trits(243),
            }
        }
        6 => {
            let l = link(src)?;
            let n = src.any_size(200);
            Subscribe { l, prng: src.trits(243), nonce: src.trits(n), sub: pair(src), owner: pair(src) }
        }
        _ => Unsubscribe { l: link(src)?, sub: pair(src) },
    })
}

impl Msg {
    pub fn kind(&self) -> usize {
        match self {
            Header { .. } => 0,
            Announce { .. } => 1,
            Signed { .. } => 2,
            Tagged { .. } => 3,
            ChangeKey { .. } => 4,
            Keyload { .. } => 5,
            Subscribe { .. } => 6,
            Unsubscribe { .. } => 7,
        }
    }
    pub fn link(&self) -> Option<&Link> {
        match self {
            Header { .. } | Announce { .. } => None,
            Signed { l, .. } | Tagged { l, .. } | ChangeKey { l, .. } | Keyload { l, .. } | Subscribe { l, .. } | Unsubscribe { l, .. } => Some(l),
        }
    }
    pub fn name(&self) -> String {
        match self {
            Header { typ, .. } => format!("header of type {:?}", model::text(typ)),
            Announce { k, ntru } => format!("announcement by {}{}", k.name(), ntru.as_ref().map_or(String::new(), |p| format!(" with NTRU key {}", p.id))),
            Signed { public, masked, k, .. } => format!("signed packet ({} public, {} masked trits) by {}", public.len(), masked.len(), k.name()),
            Tagged { public, masked, .. } => format!("tagged packet ({} public, {} masked trits)", public.len(), masked.len()),
            ChangeKey { new, old, .. } => format!("key change from {} to {}", old.name(), new.name()),
            Keyload { psks, ntrus, .. } => format!("keyload for {} PSKs and NTRU keys {:?}", psks.len(), ntrus.iter().map(|p| p.id).collect::<Vec<_>>()),
            Subscribe { sub, owner, .. } => format!("subscription of NTRU key {} to owner {}", sub.id, owner.id),
            Unsubscribe { sub, .. } => format!("unsubscription of NTRU key {}", sub.id),
        }
    }
    pub fn announced(&self) -> usize {
        match self {
            Header { typ, .. } => header::sizeof(typ.len() / 3),
            Announce { k, ntru } => announce::sizeof(&k.sk, ntru.is_some()),
            Signed { public, masked, k, .. } => signed_packet::sizeof(public.len() / 3, masked.len() / 3, &k.sk),
            Tagged { public, masked, .. } => tagged_packet::sizeof(public.len() / 3, masked.len() / 3),
            ChangeKey { new, old, .. } => change_key::sizeof(&new.sk, &old.sk),
            Keyload { psks, ntrus, .. } => {
                let (p, n) = keyload_args(psks, ntrus);
                let (mut pi, mut ni) = (p.iter().map(|x| called((&x.0, &x.1))), n.iter().map(|x| called((&x.0, &x.1))));
                keyload::sizeof(&mut pi, &mut ni)
            }
            Subscribe { .. } => subscribe::sizeof(),
            Unsubscribe { .. } => unsubscribe::sizeof(),
        }
    }
    pub fn model(&self, w: &mut W) {
        match self {
            Header { typ, inst, id } => {
                w.absorb(&model::trits_of(1, 3));
                w.trytes(typ, false);
                w.s.absorb(inst);
                w.s.absorb(id);
            }
            Announce { k, ntru } => {
                w.absorb(&k.pk);
                w.absorb(&model::trits_of(ntru.is_some() as i64, 3));
                if let Some(p) = ntru {
                    w.absorb(&p.m.pk);
                }
                w.sig(k);
            }
            Signed { l, public, masked, k } => {
                w.join(&l.id, &mut l.m.clone());
                w.trytes(public, false);
                w.trytes(masked, true);
                w.sig(k);
            }
            Tagged { l, public, masked } => {
                w.join(&l.id, &mut l.m.clone());
                w.trytes(public, false);
                w.trytes(masked, true);
                w.mac();
            }
            ChangeKey { l, new, old } => {
                w.join(&l.id, &mut l.m.clone());
                w.absorb(&new.pk);
                let h = w.tag();
                w.w.extend(new.sign(&h));
                w.w.extend(old.sign(&h));
            }
            Keyload { l, nonce, psks, ntrus, prng, key } => {
                w.join(&l.id, &mut l.m.clone());
                w.absorb(nonce);
                w.absorb(&size_enc(psks.len() as u64));
                for (id, psk) in psks {
                    let mut f = W::new(w.s.clone());
                    f.absorb(id);
                    f.s.absorb(psk);
                    f.s.commit();
                    f.mask(key);
                    w.w.extend(f.w);
                }
                w.absorb(&size_enc(ntrus.len() as u64));
                for p in ntrus {
                    let mut f = W::new(w.s.clone());
                    f.absorb(&p.m.pk[..81]);
                    f.kem(p, prng, nonce, key);
                    w.w.extend(f.w);
                }
                w.s.absorb(key);
                w.s.commit();
            }
            Subscribe { l, prng, nonce, sub, owner } => {
                w.join(&l.id, &mut l.m.clone());
                let k = model::spongos::prng(prng, nonce, 243);
                w.kem(owner, prng, nonce, &k);
                w.s.commit();
                w.mask(&sub.m.pk);
                w.mac();
            }
            Unsubscribe { l, .. } => {
                w.join(&l.id, &mut l.m.clone());
                w.mac();
            }
        }
    }
    pub fn write(&self, s: &mut Spongos, b: &mut TritSliceMut) {
        match self {
            Header { typ, inst, id } => header::wrap(&pb3::Trytes(tr(typ)), &app_inst(inst), &msg_id(id), s, b),
            Announce { k, ntru } => announce::wrap(&k.sk, &ntru.as_ref().map(|p| p.pk.clone()), s, b),
            Signed { l, public, masked, k } => {
                signed_packet::wrap(&msg_id(&l.id), &mut l.s.fork(), &pb3::Trytes(tr(public)), &pb3::Trytes(tr(masked)), &k.sk, s, b)
            }
            Tagged { l, public, masked } => {
                tagged_packet::wrap(&msg_id(&l.id), &mut l.s.fork(), &pb3::Trytes(tr(public)), &pb3::Trytes(tr(masked)), s, b)
            }
            ChangeKey { l, new, old } => change_key::wrap(tr(&l.id).slice(), &mut l.s.fork(), &new.sk, &old.sk, s, b),
            Keyload { l, nonce, psks, ntrus, prng, key } => {
                let (p, n) = keyload_args(psks, ntrus);
                let (mut pi, mut ni) = (p.iter().map(|x| called((&x.0, &x.1))), n.iter().map(|x| called((&x.0, &x.1))));
                keyload::wrap(tr(&l.id).slice(), &mut l.s.fork(), &tr(nonce), &mut pi, &mut ni, &PRNG::init_trits(&tr(prng)), &tr(key), s, b)
            }
            Subscribe { l, prng, nonce, sub, owner } => {
                subscribe::wrap(tr(&l.id).slice(), &mut l.s.fork(), &PRNG::init_trits(&tr(prng)), tr(nonce).slice(), &sub.pk, &owner.pk, s, b)
            }
            Unsubscribe { l, .. } => unsubscribe::wrap(tr(&l.id).slice(), &mut l.s.fork(), s, b),
        }
    }
    /// What an entitled reader gets.
    pub fn out(&self) -> Vec<Vec<u8>> {
        match self {
            Header { typ, .. } => vec![typ.clone()],
            Announce { k, ntru } => vec![k.pk.clone(), ntru.as_ref().map_or(vec![], |p| p.m.pk.clone())],
            Signed { public, masked, k, .. } => vec![k.pk.clone(), public.clone(), masked.clone()],
            Tagged { public, masked, .. } => vec![public.clone(), masked.clone()],
            ChangeKey { new, .. } => vec![new.pk.clone()],
            Keyload { .. } => vec![],
            Subscribe { sub, .. } | Unsubscribe { sub, .. } => vec![sub.m.pk.clone()],
        }
    }
    /// Everything needed to read this message, and no more.
    pub fn ctx(&self) -> Ctx {
        let mut c = Ctx::new();
        if let Some(l) = self.link() {
            c.links.push((l.id.clone(), l.s.fork()));
        }
        match self {
            Header { inst, id, .. } => {
                c.inst = inst.clone();
                c.id = id.clone();
            }
            Signed { k, .. } => c.pk = k.pk.clone(),
            ChangeKey { old, .. } => c.pk = old.pk.clone(),
            Keyload { psks, ntrus, .. } => {
                c.psks = psks.clone();
                c.ntrus = ntrus.clone();
            }
            Subscribe { owner, .. } => c.owner = Some(owner.clone()),
            Unsubscribe { sub, .. } => c.sub = Some(sub.clone()),
            _ => {}
        }
        c
    }
}
fn keyload_args(psks: &[(Vec<u8>, Vec<u8>)], ntrus: &[Rc<Pair>]) -> (Vec<(Trits, Trits)>, Vec<(Trits, iota_mam::ntru::PublicKey)>) {
    (
        psks.iter().map(|(i, k)| (tr(i), tr(k))).collect(),
        ntrus.iter().map(|p| (tr(&p.m.pk[..81]), p.pk.clone())).collect(),
    )
}

thread_local! {
    static INSIDE: RefCell<Option<Rc<dyn Fn()>>> = RefCell::new(None);
}
/// Run `f` while every callback and iterator given to messages in this thread calls `g` first.
pub fn with_inside<R>(g: Rc<dyn Fn()>, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            INSIDE.with(|i| *i.borrow_mut() = None);
        }
    }
    INSIDE.with(|i| *i.borrow_mut() = Some(g));
    let _r = Reset;
    f()
}
/// The crate has called back.
fn called<T>(x: T) -> T {
    // Taken out meanwhile: what happens inside calls back on its own account.
    if let Some(g) = INSIDE.with(|i| i.borrow_mut().take()) {
        g();
        INSIDE.with(|i| *i.borrow_mut() = Some(g));
    }
    x
}

/// What a reader knows.
pub struct Ctx {
    pub links: Vec<(Vec<u8>, Spongos)>,
    /// Answer every link with this state (for hostile input).
    pub any_link: Option<Spongos>,
    pub inst: Vec<u8>,
    pub id: Vec<u8>,
    pub pk: Vec<u8>,
    pub recover: bool,
    pub psks: Vec<(Vec<u8>, Vec<u8>)>,
    pub ntrus: Vec<Rc<Pair>>,
    pub owner: Option<Rc<Pair>>,
    pub sub: Option<Rc<Pair>>,
}
impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            links: vec![],
            any_link: None,
            inst: vec![0; 243],
            id: vec![0; 81],
            pk: vec![0; 243],
            recover: false,
            psks: vec![],
            ntrus: vec![],
            owner: None,
            sub: None,
        }
    }
    fn find(&self, id: TritSlice) -> Option<Spongos> {
        let id = called(sl(id));
        match self.links.iter().find(|(i, _)| *i == id) {
            Some((_, s)) => Some(s.fork()),
            None => self.any_link.as_ref().map(|s| s.fork()),
        }
    }
    /// Unwrap a message of some kind.
    pub fn read(&self, kind: usize, s: &mut Spongos, b: &mut TritSlice) -> Result<Vec<Vec<u8>>, pb3::Err> {
        let plain = |id: TritSlice| self.find(id).map(|s| (s, ()));
        Ok(match kind {
            0 => vec![ve(&header::unwrap(&app_inst(&self.inst), &msg_id(&self.id), s, b)?.0)],
            1 => {
                let (pk, ntru) = announce::unwrap(s, b)?;
                vec![mss_pk_trits(&pk), ntru.map_or(vec![], |n| sl(n.trits()))]
            }
            2 => {
                if self.recover {
                    let (pk, p, m) = signed_packet::unwrap_recover(plain, s, b)?;
                    vec![mss_pk_trits(&pk), ve(&p.0), ve(&m.0)]
                } else {
                    let (p, m) = signed_packet::unwrap_verify(plain, &mss_pk(&self.pk), s, b)?;
                    vec![self.pk.clone(), ve(&p.0), ve(&m.0)]
                }
            }
            3 => {
                let (p, m) = tagged_packet::unwrap(plain, s, b)?;
                vec![ve(&p.0), ve(&m.0)]
            }
            4 => {
                let f = |id: TritSlice<'_>| -> Option<(Spongos, mss::PublicKey)> { self.find(id).map(|s| (s, mss_pk(&self.pk))) };
                vec![mss_pk_trits(&change_key::unwrap(f, s, b)?)]
            }
            5 => {
                let psks: HashMap<Trits, Trits> = self.psks.iter().map(|(i, k)| (tr(i), tr(k))).collect();
                let ntrus: HashMap<Trits, iota_mam::ntru::PrivateKey> =
                    self.ntrus.iter().map(|p| (tr(&p.m.pk[..81]), p.sk.clone())).collect();
                keyload::unwrap(plain, &psks, &ntrus, s, b)?;
                vec![]
            }
            6 => {
                let owner = self.owner.clone().unwrap_or_else(|| ntru_pair(0));
                vec![sl(subscribe::unwrap(plain, &owner.sk, s, b)?.trits())]
            }
            _ => {
                let sub = self.sub.clone().unwrap_or_else(|| ntru_pair(0));
                vec![sl(unsubscribe::unwrap(|id| self.find(id).map(|s| (s, sub.pk.clone())), s, b)?.trits())]
            }
        })
    }
}

/// A message as it travels: its wire form and the states before and after.
pub struct Sent {
    pub wire: Vec<u8>,
    pub before: Spongos,
    pub after: Spongos,
    pub model: Sp,
}
/// Wrap `m` from a state and check size, wire form and final state against the model.
pub fn send(src: &mut Src, m: &Msg, s: Spongos, sp: Sp) -> Result<Sent, String> {
    let before = s.fork();
    let mut w = W::new(sp);
    m.model(&mut w);
    let n = w.w.len();
    ensure_eq!(m.announced(), n, "announced size of {}", m.name());
    let slack = if src.bool() { 0 } else { src.range(1, 200) };
    let mut content = src.rtrits(n + slack);
    let mut f = Frame::new(src, &content);
    let mut s = s;
    {
        let mut b = f.slice_mut();
        m.write(&mut s, &mut b);
        ensure_eq!(b.size(), slack, "room left after wrapping {}", m.name());
    }
    content[..n].copy_from_slice(&w.w);
    f.check(&content, &format!("wire form of {}", m.name()))?;
    crate::ensure_trits!(probe(&s), w.s.probe(), "state after wrapping {}", m.name());
    if let Some(l) = m.link() {
        crate::ensure_trits!(probe(&l.s), l.m.probe(), "state of the linked message after wrapping");
    }
    Ok(Sent { wire: w.w, before, after: s, model: w.s })
}
/// Unwrap it with `c` and check values, consumption and state.
pub fn receive(src: &mut Src, m: &Msg, t: &Sent, c: &Ctx) -> Res {
    let extra = if src.bool() { 0 } else { src.range(1, 200) };
    let mut content = t.wire.clone();
    content.extend(src.trits(extra));
    let f = Frame::new(src, &content);
    let mut b = f.slice();
    let mut s = t.before.fork();
    let out = c
        .read(m.kind(), &mut s, &mut b)
        .map_err(|e| format!("{} does not unwrap: {}", m.name(), e))?;
    let expect = m.out();
    ensure_eq!(out.len(), expect.len(), "harness: parts of {}", m.name());
    for (i, (o, e)) in out.iter().zip(&expect).enumerate() {
        crate::ensure_trits!(o, e, "part {} of {}", i, m.name());
    }
    ensure_eq!(content.len() - b.size(), t.wire.len(), "trits consumed by {}", m.name());
    crate::ensure_trits!(sl(b), content[t.wire.len()..], "rest of the buffer after {}", m.name());
    f.check(&content, &format!("buffer after unwrapping {}", m.name()))?;
    crate::ensure_trits!(probe(&s), probe(&t.after), "state after unwrapping {}", m.name());
    Ok(())
}
/// Try to read other trits or with other knowledge: the result and the state.
pub fn attempt(kind: usize, wire: &[u8], before: &Spongos, c: &Ctx) -> (Result<Vec<Vec<u8>>, pb3::Err>, Spongos) {
    let t = tr(wire);
    let mut s = before.fork();
    let r = c.read(kind, &mut s, &mut t.slice());
    (r, s)
}
