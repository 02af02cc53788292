//! C31: histories of whole channels.

use super::kit::*;
use super::msg::*;
use crate::engine::*;
use crate::model::spongos::Sp;
use crate::util::*;
use crate::{ensure, ensure_trits};
use iota_mam::app::channel::msg::{announce, change_key, keyload, signed_packet, subscribe, tagged_packet, unsubscribe};
use iota_mam::spongos::Spongos;
use std::rc::Rc;

const PEOPLE: usize = 5;
const OWNER: usize = 0;
/// Has no pre-shared keys and is never listed.
const OUTSIDER: usize = 4;
const WHO: [&str; PEOPLE] = ["the owner", "reader 1", "reader 2", "reader 3", "the outsider"];

fn text(kind: usize) -> Vec<u8> {
    let s = match kind {
        1 => announce::TYPE,
        2 => signed_packet::TYPE,
        3 => tagged_packet::TYPE,
        4 => change_key::TYPE,
        5 => keyload::TYPE,
        6 => subscribe::TYPE,
        _ => unsubscribe::TYPE,
    };
    ve(&iota_mam::trits::Trits::from_str(s).expect("harness: message type"))
}

/// A published message.
struct Entry {
    id: Vec<u8>,
    wire: Vec<u8>,
    /// Where the content starts.
    at: usize,
    m: Msg,
    after: Spongos,
    model: Sp,
    /// The entry linked to.
    link: Option<usize>,
    /// The key that signs what is linked to this entry, if it was announced.
    key: Option<usize>,
    sub: Option<Rc<Pair>>,
}
/// What a participant remembers of a processed message.
struct Known {
    s: Spongos,
    /// The state is the author's.
    good: bool,
    pk: Vec<u8>,
    sub: Option<Rc<Pair>>,
}
struct Person {
    known: Vec<Option<Known>>,
    psks: Vec<(Vec<u8>, Vec<u8>)>,
    /// The pre-shared keys held with a wrong value.
    wrong: Vec<Vec<u8>>,
    ntru: Rc<Pair>,
}
struct World {
    inst: Vec<u8>,
    log: Vec<Entry>,
    people: Vec<Person>,
    /// Signing keys in use, each at its next slot.
    keys: Vec<Signer>,
    refused: usize,
    agreed: usize,
    spoofed: usize,
}

impl World {
    fn take_key(&mut self, i: usize) -> Option<Signer> {
        let k = self.keys[i].clone();
        if k.slot == 1 << k.h {
            return None;
        }
        self.keys[i] = signer_at(k.h, k.id, k.slot + 1);
        Some(k)
    }
    fn new_key(&mut self, src: &mut Src) -> usize {
        let h = src.weighted(&[1, 4, 6, 6, 1]);
        let id = src.below(MSS_KEYS as u64) as usize;
        // One key stays one key however often it is announced.
        if let Some(i) = self.keys.iter().position(|k| k.h == h && k.id == id) {
            return i;
        }
        self.keys.push(signer_at(h, id, 0));
        self.keys.len() - 1
    }
    fn header(&self, src_id: &[u8], kind: usize) -> Msg {
        Msg::Header { typ: text(kind), inst: self.inst.clone(), id: src_id.to_vec() }
    }
    fn fresh_id(&self, src: &mut Src) -> Vec<u8> {
        let mut id = match (self.log.last(), src.bool()) {
            (Some(e), true) => e.id.clone(),
            _ => src.trits(81),
        };
        while self.log.iter().any(|e| e.id == id) {
            // Count up.
            for t in id.iter_mut() {
                *t = (*t + 1) % 3;
                if *t != 2 {
                    break;
                }
            }
        }
        id
    }

    /// One participant publishes one message.
    fn publish(&mut self, src: &mut Src) -> Res {
        let n = self.log.len();
        let kind = if n == 0 { 1 } else { [1, 2, 3, 4, 5, 6, 7][src.weighted(&[1, 4, 8, 3, 6, 4, 3])] };
        let subs: Vec<usize> = self.log.iter().filter(|e| e.m.kind() == 6).map(|e| e.sub.as_ref().unwrap().id).collect();
        let author = if kind == 7 && !subs.is_empty() {
            *src.pick(&subs)
        } else if n == 0 || [1, 2, 4, 5].contains(&kind) {
            OWNER
        } else if kind == 3 {
            src.below(PEOPLE as u64) as usize
        } else {
            src.range(1, 3)
        };
        let (mut link, mut key, mut sub) = (None, None, None);
        if kind != 1 {
            // Of the messages the author has read.
            let c: Vec<usize> = (0..n)
                .filter(|i| {
                    let k = &self.people[author].known[*i];
                    k.as_ref().map_or(false, |k| {
                        k.good && (kind != 7 || (matches!(self.log[*i].m, Msg::Subscribe { .. }) && self.log[*i].sub.as_ref().map(|p| p.id) == Some(self.people[author].ntru.id)))
                    })
                })
                .collect();
            if c.is_empty() {
                return Ok(());
            }
            // The latest more often.
            let i = if src.bool() { c.len() - 1 } else { src.below(c.len() as u64) as usize };
            link = Some(c[i]);
            key = self.log[c[i]].key;
            sub = self.log[c[i]].sub.clone();
        }
        let l = link.map(|i| {
            let e = &self.log[i];
            let s = self.people[author].known[i].as_ref().unwrap().s.fork();
            Link { id: e.id.clone(), s, m: e.model.clone() }
        });
        src.big = 0;
        let m = match kind {
            1 => {
                let k = self.new_key(src);
                key = Some(k);
                let Some(k) = self.take_key(k) else { return Ok(()) };
                Msg::Announce { k, ntru: if src.bool() { Some(self.people[OWNER].ntru.clone()) } else { None } }
            }
            2 => {
                let Some(k) = key.and_then(|k| self.take_key(k)) else { return Ok(()) };
                src.big = src.chance(3) as u32;
                Msg::Signed { l: l.unwrap(), public: payload(src, 120), masked: payload(src, 120), k }
            }
            3 => {
                src.big = src.chance(3) as u32;
                Msg::Tagged { l: l.unwrap(), public: payload(src, 200), masked: payload(src, 200) }
            }
            4 => {
                let old = key.unwrap();
                let new = self.new_key(src);
                if old == new {
                    return Ok(());
                }
                let (Some(o), Some(w)) = (self.take_key(old), self.take_key(new)) else { return Ok(()) };
                key = Some(new);
                Msg::ChangeKey { l: l.unwrap(), new: w, old: o }
            }
            5 => {
                let mut psks = Vec::new();
                for (id, k) in &self.people[OWNER].psks {
                    if src.bool() {
                        psks.push((id.clone(), k.clone()));
                    }
                }
                let mut ntrus = Vec::new();
                for r in 1..4 {
                    if src.chance(35) {
                        ntrus.push(self.people[r].ntru.clone());
                    }
                }
                if src.bool() {
                    ntrus.reverse();
                }
                Msg::Keyload { l: l.unwrap(), nonce: src.trits(81), psks, ntrus, prng: src.trits(243), key: src.rtrits(243) }
            }
            6 => {
                let p = self.people[author].ntru.clone();
                sub = Some(p.clone());
                Msg::Subscribe { l: l.unwrap(), prng: src.trits(243), nonce: src.trits(81), sub: p, owner: self.people[OWNER].ntru.clone() }
            }
            _ => {
                let Some(p) = sub.clone() else { return Ok(()) };
                Msg::Unsubscribe { l: l.unwrap(), sub: p }
            }
        };
        let id = self.fresh_id(src);
        src.note(|| format!("entry {}: {} publishes a {}, linked to {:?}", n, WHO[author], m.name(), link));
        src.label(["", "announcement", "signed packet", "tagged packet", "key change", "keyload", "subscription", "unsubscription"][kind]);
        let h = send(src, &self.header(&id, kind), Spongos::init(), Sp::new())?;
        let t = send(src, &m, h.after, h.model)?;
        let at = h.wire.len();
        let mut wire = h.wire;
        wire.extend_from_slice(&t.wire);
        for p in self.people.iter_mut() {
            p.known.push(None);
        }
        let pk = key.map_or(vec![], |k| self.keys[k].pk.clone());
        self.people[author].known[n] = Some(Known { s: t.after.fork(), good: true, pk, sub: sub.clone() });
        self.log.push(Entry { id, wire, at, m, after: t.after, model: t.model, link, key, sub });
        Ok(())
    }

    /// A participant's means to read an entry.
    fn ctx(&self, p: usize, e: usize, recover: bool) -> Ctx {
        let me = &self.people[p];
        let mut c = Ctx::new();
        c.inst = self.inst.clone();
        c.id = self.log[e].id.clone();
        c.recover = recover;
        c.psks = me.psks.clone();
        if p != OUTSIDER {
            c.ntrus = vec![me.ntru.clone()];
        }
        c.owner = Some(me.ntru.clone());
        for (i, k) in me.known.iter().enumerate() {
            if let Some(k) = k {
                c.links.push((self.log[i].id.clone(), k.s.fork()));
            }
        }
        if let Some(Some(k)) = self.log[e].link.map(|l| me.known[l].as_ref()) {
            if !k.pk.is_empty() {
                c.pk = k.pk.clone();
            }
            c.sub = k.sub.clone();
        }
        c
    }
    /// Read a message expected to be entry `e`: the result and the final state.
    fn read(&self, wire: &[u8], kind: usize, c: &Ctx) -> (Result<Vec<Vec<u8>>, String>, Spongos, usize) {
        let f = tr(wire);
        let mut b = f.slice();
        let mut s = Spongos::init();
        let r = (|| {
            let t = c.read(0, &mut s, &mut b).map_err(|e| e.to_string())?;
            // Types select the content.
            if t[0] != text(kind) {
                return Err("another type".to_string());
            }
            c.read(kind, &mut s, &mut b).map_err(|e| e.to_string())
        })();
        (r, s, b.size())
    }

    /// What `p` is to make of entry `e` now.
    fn entitled(&self, p: usize, e: usize) -> Outcome {
        let en = &self.log[e];
        let me = &self.people[p];
        let good = match en.link {
            None => true,
            Some(l) => match &me.known[l] {
                None => return Outcome::Refuse,
                Some(k) => k.good,
            },
        };
        match &en.m {
            Msg::Keyload { psks, ntrus, .. } => {
                if let Some((id, _)) = psks.iter().find(|(id, _)| me.psks.iter().any(|(i, _)| i == id)) {
                    return if good && !me.wrong.contains(id) { Outcome::Read } else { Outcome::Diverge };
                }
                if p != OUTSIDER && ntrus.iter().any(|n| n.id == me.ntru.id) {
                    return if good { Outcome::Read } else { Outcome::Diverge };
                }
                Outcome::Refuse
            }
            Msg::Subscribe { owner, .. } if owner.id != me.ntru.id => Outcome::Refuse,
            _ if good => Outcome::Read,
            _ => Outcome::Refuse,
        }
    }
    /// Entry `e` reaches `p`.
    fn deliver(&mut self, src: &mut Src, p: usize, e: usize) -> Res {
        let recover = src.chance(30);
        let c = self.ctx(p, e, recover);
        let en = &self.log[e];
        let kind = en.m.kind();
        let extra = if src.bool() { src.upto(100) } else { 0 };
        let mut wire = en.wire.clone();
        wire.extend(src.trits(extra));
        let (r, s, left) = self.read(&wire, kind, &c);
        let what = format!("entry {} ({}) for {}", e, en.m.name(), WHO[p]);
        src.note(|| format!("deliver {}: {:?}", what, r.as_ref().map(|_| ())));
        match self.entitled(p, e) {
            Outcome::Read => {
                let out = r.map_err(|x| format!("{} does not unwrap: {}", what, x))?;
                let expect = en.m.out();
                ensure!(out.len() == expect.len(), "harness: parts");
                for (i, (o, x)) in out.iter().zip(&expect).enumerate() {
                    ensure_trits!(o, x, "part {} of {}", i, what);
                }
                ensure!(left == extra, "{} leaves {} trits of {}", what, left, extra);
                ensure_trits!(probe(&s), probe(&en.after), "state after {}", what);
                // Trust and subscriber come from what was read, not from the author.
                let prev = en.link.and_then(|l| self.people[p].known[l].as_ref());
                let pk = match kind {
                    1 | 4 => out[0].clone(),
                    _ => prev.map_or(vec![], |k| k.pk.clone()),
                };
                let sub = match kind {
                    6 => (0..NTRU_KEYS).map(ntru_pair).find(|k| k.m.pk == out[0]),
                    _ => prev.and_then(|k| k.sub.clone()),
                };
                self.agreed += 1;
                self.people[p].known[e] = Some(Known { s, good: true, pk, sub });
            }
            Outcome::Diverge => {
                if r.is_ok() {
                    ensure!(probe(&s) != probe(&en.after), "{} reaches the author's state with a wrong key", what);
                    let prev = en.link.and_then(|l| self.people[p].known[l].as_ref());
                    let (pk, sub) = prev.map_or((vec![], None), |k| (k.pk.clone(), k.sub.clone()));
                    self.people[p].known[e] = Some(Known { s, good: false, pk, sub });
                }
                self.refused += 1;
            }
            Outcome::Refuse => {
                if let Ok(out) = &r {
                    // Recovery succeeds for any valid signature; the key is what tells.
                    ensure!(recover && kind == 2 && out[0] != c.pk && out[0] != en.m.out()[0], "{} is accepted", what);
                }
                self.refused += 1;
            }
        }
        Ok(())
    }
    /// A spoofed message reaches `p`.
    fn spoof(&mut self, src: &mut Src, p: usize) -> Res {
        let e = src.below(self.log.len() as u64) as usize;
        let recover = src.chance(30);
        let mut c = self.ctx(p, e, recover);
        let en = &self.log[e];
        let mut kind = en.m.kind();
        let mut wire = en.wire.clone();
        // The state a keyload must not reach.
        let mut avoid = en.after.fork();
        let what = match src.below(8) {
            0 => {
                let i = src.below(81) as usize;
                c.id = flip(&c.id, i, 1 + (i % 2) as u8);
                "under another message identifier".to_string()
            }
            1 => {
                let i = src.below(243) as usize;
                c.inst = flip(&c.inst, i, 1 + (i % 2) as u8);
                "in another instance".to_string()
            }
            2 => {
                // Entries of a keyload for other readers are not this reader's concern.
                let end = if kind == 5 { en.at + 162 } else { wire.len() };
                let i = src.below(end as u64) as usize;
                wire[i] = (wire[i] + 1 + src.below(2) as u8) % 3;
                format!("with trit {} of {} changed", i, wire.len())
            }
            3 => {
                // The content of another message of this kind.
                let o: Vec<usize> = (0..self.log.len()).filter(|i| *i != e && self.log[*i].m.kind() == kind).collect();
                if o.is_empty() {
                    return Ok(());
                }
                let o = *src.pick(&o);
                wire.truncate(en.at);
                wire.extend_from_slice(&self.log[o].wire[self.log[o].at..]);
                avoid = self.log[o].after.fork();
                let d = self.ctx(p, o, recover);
                c.pk = d.pk;
                c.sub = d.sub;
                format!("with the content of entry {}", o)
            }
            4 => {
                let k = src.below(wire.len() as u64) as usize;
                wire.truncate(k);
                format!("cut to {} trits", k)
            }
            5 => {
                // The whole message under the identifier of another.
                let o = src.below(self.log.len() as u64) as usize;
                if o == e {
                    return Ok(());
                }
                c.id = self.log[o].id.clone();
                format!("in place of entry {}", o)
            }
            6 => {
                // Read as another kind of content.
                let o = src.below(self.log.len() as u64) as usize;
                let k2 = self.log[o].m.kind();
                if k2 == kind {
                    return Ok(());
                }
                let mut w = W::new(Sp::new());
                self.header(&en.id, k2).model(&mut w);
                w.w.extend_from_slice(&wire[en.at..]);
                wire = w.w;
                kind = k2;
                format!("with the type of entry {}", o)
            }
            _ => {
                // Forged by somebody without the linked state or the key.
                let Some(l) = en.link else { return Ok(()) };
                let id = self.log[l].id.clone();
                let right = src.bool();
                let link = if right && matches!(en.m, Msg::Signed { .. } | Msg::ChangeKey { .. }) {
                    Link { id, s: self.log[l].after.fork(), m: self.log[l].model.clone() }
                } else {
                    let x = src.rtrits(243);
                    let (mut s, mut m) = (Spongos::init(), Sp::new());
                    s.absorb(tr(&x).slice());
                    m.absorb(&x);
                    s.commit();
                    m.commit();
                    Link { id, s, m }
                };
                // A key nobody announced.
                let k = signer_at(1, MSS_KEYS, src.below(2) as usize);
                let m = match &en.m {
                    Msg::Signed { public, masked, .. } => Msg::Signed { l: link, public: public.clone(), masked: masked.clone(), k },
                    Msg::Tagged { public, masked, .. } => Msg::Tagged { l: link, public: public.clone(), masked: masked.clone() },
                    Msg::ChangeKey { .. } => Msg::ChangeKey { l: link, new: k.clone(), old: k },
                    Msg::Subscribe { prng, nonce, sub, owner, .. } => {
                        Msg::Subscribe { l: link, prng: prng.clone(), nonce: nonce.clone(), sub: sub.clone(), owner: owner.clone() }
                    }
                    Msg::Unsubscribe { sub, .. } => Msg::Unsubscribe { l: link, sub: sub.clone() },
                    _ => return Ok(()),
                };
                let h = send(src, &self.header(&en.id, kind), Spongos::init(), Sp::new())?;
                let t = send(src, &m, h.after, h.model)?;
                wire = h.wire;
                wire.extend(t.wire);
                "forged".to_string()
            }
        };
        let (r, s, _) = self.read(&wire, kind, &c);
        src.note(|| format!("spoof for {}: entry {} {}: {:?}", WHO[p], e, what, r.as_ref().map(|_| ())));
        self.spoofed += 1;
        if let Ok(out) = r {
            if kind == 5 {
                ensure!(probe(&s) != probe(&avoid), "{} reaches the author's state from entry {} {}", WHO[p], e, what);
            } else {
                let named = self.keys.iter().any(|k| k.pk == out[0]);
                ensure!(recover && kind == 2 && !named, "{} accepts entry {} {}", WHO[p], e, what);
            }
        }
        Ok(())
    }
}

enum Outcome {
    /// The author's output and state.
    Read,
    /// An error, or a state other than the author's.
    Diverge,
    Refuse,
}

fn c31(src: &mut Src) -> Res {
    let long = src.chance(15);
    let ops = src.range(2, if src.thorough || long { 24 } else { 12 });
    history(src, ops)
}
/// A channel of hundreds of messages, each read as it comes, rarely again.
fn c31_long(src: &mut Src) -> Res {
    let ops = src.range(258, 300);
    src.label("more than 256 messages");
    history(src, ops)
}
fn history(src: &mut Src, ops: usize) -> Res {
    let n = src.range(0, 5);
    let all = gen_psks(src, n);
    let mut people = Vec::new();
    for p in 0..PEOPLE {
        let mut psks = Vec::new();
        let mut wrong = Vec::new();
        for (id, k) in &all {
            if p == OWNER || (p != OUTSIDER && src.bool()) {
                let mut k = k.clone();
                if p != OWNER && src.chance(15) {
                    let i = src.below(243) as usize;
                    k = flip(&k, i, 1);
                    wrong.push(id.clone());
                }
                psks.push((id.clone(), k));
            }
        }
        people.push(Person { known: vec![], psks, wrong, ntru: ntru_pair(p) });
    }
    let mut w = World { inst: src.trits(243), log: vec![], people, keys: vec![], refused: 0, agreed: 0, spoofed: 0 };
    // Some messages never reach some participants.
    let lossy = src.chance(40);
    let mut missed: Vec<(usize, usize)> = vec![];
    for _ in 0..ops {
        let before = w.log.len();
        w.publish(src)?;
        if w.log.len() > before && lossy {
            for p in 0..PEOPLE {
                if src.chance(12) {
                    missed.push((p, before));
                }
            }
        }
        for _ in 0..src.upto(5) {
            let p = src.below(PEOPLE as u64) as usize;
            let n = w.log.len();
            // The latest, or any again.
            let e = if src.chance(70) { n - 1 } else { src.below(n as u64) as usize };
            if missed.contains(&(p, e)) {
                continue;
            }
            w.deliver(src, p, e)?;
            if src.chance(30) {
                w.spoof(src, p)?;
            }
        }
    }
    // What is still missing arrives.
    for p in 0..PEOPLE {
        for e in 0..w.log.len() {
            if w.people[p].known[e].is_none() && !missed.contains(&(p, e)) {
                w.deliver(src, p, e)?;
            }
        }
    }
    if w.log.len() >= 3 && w.agreed > 0 && w.refused > 0 && w.spoofed > 0 {
        src.nontrivial();
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C31",
        rule: "a case is a history of a channel with an owner, three readers and an outsider; non-trivial: at least three messages, and among the deliveries some that agree, some that are refused and some that are spoofed",
        sections: vec![sec("histories", 900, 15_000, c31), sec("long histories", 8, 100, c31_long)],
    }]
}
