//! C05 - C10: Troika, the Troika hash, Spongos, PRNG.

use crate::engine::*;
use crate::model::spongos::Sp;
use crate::model::troika as mt;
use crate::model::{self};
use crate::util::*;
use crate::{ensure, ensure_eq, ensure_trits};
use iota_mam::prng::{self, PRNG};
use iota_mam::spongos::{self, Spongos};
use iota_mam::trits::*;
use iota_mam::troika::{Troika, TroikaSponge};

// ---------------------------------------------------------------- C05

fn load(st: &[u8]) -> Troika {
    let mut t = Troika::default();
    for (i, v) in st.iter().enumerate() {
        t.set1(i, *v);
    }
    t
}
fn store(t: &Troika) -> Vec<u8> {
    (0..729).map(|i| t.get1(i)).collect()
}
fn c05_permutation(src: &mut Src) -> Res {
    let st = src.trits(729);
    src.note(|| format!("state {}", show(&st)));
    if st.iter().any(|t| *t != st[0]) {
        src.nontrivial();
    }
    let mut t = load(&st);
    ensure_trits!(store(&t), st, "state set trit by trit");
    let k = src.range(1, 3);
    let mut m = st;
    for i in 0..k {
        mt::naive(&mut m);
        t.permutation();
        ensure_trits!(store(&t), m, "permutation number {}", i + 1);
    }
    Ok(())
}
fn c05_models(src: &mut Src) -> Res {
    let st = src.trits(729);
    src.nontrivial();
    let (mut a, mut b) = (st.clone(), st);
    mt::naive(&mut a);
    mt::permute(&mut b);
    assert!(a == b, "harness: the two models of Troika differ");
    Ok(())
}
fn c05_set(src: &mut Src) -> Res {
    let mut m = src.trits(729);
    let mut t = if src.bool() { load(&m) } else { m = vec![0; 729]; Troika::new() };
    let k = src.range(1, 20);
    src.nontrivial();
    for _ in 0..k {
        let i = src.below(729) as usize;
        let v = src.below(3) as u8;
        t.set1(i, v);
        m[i] = v;
        src.note(|| format!("set trit {} to {}", i, v));
        ensure_trits!(store(&t), m, "after setting trit {} to {}", i, v);
        if src.chance(10) {
            t.permutation();
            mt::permute(&mut m);
        }
    }
    let c = t.clone();
    t.permutation();
    ensure_trits!(store(&c), m, "clone after permuting the original");
    mt::permute(&mut m);
    ensure_trits!(store(&t), m, "permutation after setting");
    Ok(())
}
fn c05_single(src: &mut Src) -> Res {
    // Every state with one non-zero trit.
    let i = src.below(1458) as usize;
    let mut m = vec![0u8; 729];
    m[i / 2] = 1 + (i % 2) as u8;
    src.nontrivial();
    let mut t = load(&m);
    t.permutation();
    mt::naive(&mut m);
    ensure_trits!(store(&t), m, "permutation of the state with trit {} = {}", i / 2, 1 + i % 2);
    Ok(())
}

// ---------------------------------------------------------------- C06

/// Cut `n` into pieces, empty ones included.
fn pieces(src: &mut Src, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut left = n;
    if src.chance(30) {
        return vec![n];
    }
    while left > 0 {
        if v.len() > 40 {
            v.push(left);
            break;
        }
        let k = src.len(left);
        v.push(k);
        left -= k;
    }
    if src.chance(20) {
        v.push(0);
    }
    v
}
fn feed(t: &mut TroikaSponge, x: &[u8], ps: &[usize]) {
    let mut at = 0;
    for p in ps {
        t.absorb(&x[at..at + p]);
        at += p;
    }
}
fn draw(t: &mut TroikaSponge, ps: &[usize]) -> Vec<u8> {
    let mut y = Vec::new();
    for p in ps {
        let mut b = vec![9u8; *p];
        t.squeeze(&mut b);
        y.extend(b);
    }
    y
}
fn c06_hash(src: &mut Src) -> Res {
    let mut t = TroikaSponge::default();
    let rounds = src.range(1, 3);
    for round in 0..rounds {
        // Anything, then a reset: the next message is hashed as by a new hasher.
        if round > 0 || src.chance(30) {
            src.label("reset");
            for _ in 0..src.range(1, 2) {
                for _ in 0..src.upto(3) {
                    match src.below(4) {
                        0 | 1 => {
                            let n = src.size(500);
                            let junk = src.trits(n);
                            src.note(|| format!("absorb {} trits", n));
                            t.absorb(&junk);
                        }
                        2 => {
                            src.note(|| "finalize".to_string());
                            t.finalize();
                        }
                        _ => {
                            let k = src.len(300);
                            src.note(|| format!("squeeze {} trits", k));
                            draw(&mut t, &[k]);
                        }
                    }
                }
                src.note(|| "reset".to_string());
                t.reset();
            }
        }
        let n = src.size(1500);
        let x = src.trits(n);
        let m = src.size(1000);
        let (a, b) = (pieces(src, n), pieces(src, m));
        src.note(|| format!("message {} in pieces {:?}, output in pieces {:?}", show(&x), a, b));
        if a.len() > 1 || b.len() > 1 {
            src.nontrivial();
        }
        feed(&mut t, &x, &a);
        t.finalize();
        let y = draw(&mut t, &b);
        ensure_trits!(y, mt::hash(&x, m), "hash of {} trits in pieces {:?}, output pieces {:?}, round {}", n, a, b, round);
    }
    Ok(())
}

// ---------------------------------------------------------------- Spongos histories

/// Run one random operation on the code and the model and compare what comes out.
pub fn sp_op(src: &mut Src, s: &mut Spongos, m: &mut Sp, max: usize) -> Res {
    let op = src.below(14);
    let n = src.size(max);
    let x = src.trits(n);
    let pos = m.pos;
    let what = |name: &str| format!("{} {} trits at position {}", name, n, pos);
    match op {
        0 => {
            src.note(|| what("absorb"));
            s.absorb(tr(&x).slice());
            m.absorb(&x);
        }
        1 => {
            src.note(|| what("absorb_trits"));
            s.absorb_trits(&tr(&x));
            m.absorb(&x);
        }
        2 => {
            src.note(|| what("squeeze"));
            // The target holds anything before.
            let mut y = tr(&x);
            s.squeeze(y.slice_mut());
            ensure_trits!(ve(&y), m.squeeze(n), "{}", what("squeeze"));
        }
        3 => {
            src.note(|| what("squeeze_trits"));
            let y = s.squeeze_trits(n);
            ensure_trits!(ve(&y), m.squeeze(n), "{}", what("squeeze_trits"));
        }
        4 | 5 => {
            src.note(|| what("squeeze_eq"));
            let good = m.squeeze(n);
            let mut y = good.clone();
            if n > 0 && src.bool() {
                let i = src.below(n as u64) as usize;
                y[i] = (y[i] + 1 + src.below(2) as u8) % 3;
            }
            let t = tr(&y);
            let r = if op == 4 { s.squeeze_eq(t.slice()) } else { s.squeeze_eq_trits(&t) };
            ensure_eq!(r, y == good, "{}", what("squeeze_eq"));
            ensure_trits!(ve(&t), y, "operand of squeeze_eq");
        }
        6 => {
            src.note(|| what("encr"));
            let t = tr(&x);
            let mut y = tr(&src.trits(n));
            s.encr(t.slice(), y.slice_mut());
            ensure_trits!(ve(&y), m.encr(&x), "{}", what("encr"));
            ensure_trits!(ve(&t), x, "plaintext after encr");
        }
        7 => {
            src.note(|| what("encr_trits"));
            let y = s.encr_trits(&tr(&x));
            ensure_trits!(ve(&y), m.encr(&x), "{}", what("encr_trits"));
        }
        8 => {
            src.note(|| what("encr_mut_trits"));
            let mut y = tr(&x);
            s.encr_mut_trits(&mut y);
            ensure_trits!(ve(&y), m.encr(&x), "{}", what("encr_mut_trits"));
        }
        9 => {
            src.note(|| what("decr"));
            let t = tr(&x);
            let mut y = tr(&src.trits(n));
            s.decr(t.slice(), y.slice_mut());
            ensure_trits!(ve(&y), m.decr(&x), "{}", what("decr"));
            ensure_trits!(ve(&t), x, "ciphertext after decr");
        }
        10 => {
            src.note(|| what("decr_trits"));
            let y = s.decr_trits(&tr(&x));
            ensure_trits!(ve(&y), m.decr(&x), "{}", what("decr_trits"));
        }
        11 => {
            src.note(|| what("decr_mut_trits"));
            let mut y = tr(&x);
            s.decr_mut_trits(&mut y);
            ensure_trits!(ve(&y), m.decr(&x), "{}", what("decr_mut_trits"));
        }
        _ => {
            src.note(|| format!("commit at position {}", pos));
            s.commit();
            m.commit();
        }
    }
    Ok(())
}

/// A state with a random past, real and model.
pub fn sp_state(src: &mut Src) -> Result<(Spongos, Sp), String> {
    let (mut s, mut m) = (Spongos::init(), Sp::new());
    let k = src.upto(4);
    for _ in 0..k {
        sp_op(src, &mut s, &mut m, 700)?;
    }
    Ok((s, m))
}

fn c07_history(src: &mut Src) -> Res {
    let (mut s, mut m) = if src.bool() { (Spongos::init(), Sp::new()) } else { (spongos::init(), Sp::new()) };
    let k = src.range(1, 12);
    let mut perms = 0;
    for _ in 0..k {
        let before = m.st.clone();
        sp_op(src, &mut s, &mut m, 1600)?;
        perms += (before[486..] != m.st[486..]) as u32;
    }
    if perms > 0 && k > 2 {
        src.nontrivial();
    }
    ensure_trits!(probe(&s), m.probe(), "state after {} operations", k);
    Ok(())
}
fn c07_boundary(src: &mut Src) -> Res {
    // Two operations meeting at, before or after the end of a block.
    let (mut s, mut m) = (Spongos::init(), Sp::new());
    let n = 486 * src.range(0, 2) + 486 - 3 + src.below(7) as usize;
    let x = src.trits(n);
    match src.below(3) {
        0 => {
            s.absorb(tr(&x).slice());
            m.absorb(&x);
        }
        1 => {
            ensure_trits!(ve(&s.encr_trits(&tr(&x))), m.encr(&x), "encr {} trits", n);
        }
        _ => {
            s.absorb(tr(&x[..5]).slice());
            m.absorb(&x[..5]);
            s.commit();
            m.commit();
            ensure_trits!(ve(&s.squeeze_trits(n)), m.squeeze(n), "squeeze {} trits", n);
        }
    }
    src.nontrivial();
    let c = src.upto(2);
    for _ in 0..c {
        s.commit();
        m.commit();
    }
    for _ in 0..src.range(1, 3) {
        sp_op(src, &mut s, &mut m, 10)?;
    }
    ensure_trits!(probe(&s), m.probe(), "state after {} trits, {} commits", n, c);
    Ok(())
}
fn c07_pieces(src: &mut Src) -> Res {
    // The same data in two different partitions.
    let (mut s, mut m) = sp_state(src)?;
    let n = src.size(1600);
    let x = src.trits(n);
    let kind = src.below(5);
    let mut outs: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    for _ in 0..2 {
        let ps = pieces(src, n);
        if ps.len() > 1 {
            src.nontrivial();
        }
        let mut f = s.fork();
        let mut out = Vec::new();
        let mut at = 0;
        for p in &ps {
            let piece = tr(&x[at..at + p]);
            at += p;
            match kind {
                0 => f.absorb(piece.slice()),
                1 => out.extend(ve(&f.encr_trits(&piece))),
                2 => out.extend(ve(&f.decr_trits(&piece))),
                3 => out.extend(ve(&f.squeeze_trits(*p))),
                _ => out.push(f.squeeze_eq_trits(&piece) as u8),
            }
        }
        if kind == 4 {
            out = vec![out.iter().all(|b| *b == 1) as u8];
        }
        src.note(|| format!("kind {} of {} trits in pieces {:?}", kind, n, ps));
        outs.push((out, probe(&f)));
    }
    ensure_trits!(outs[0].0, outs[1].0, "outputs of kind {} for two partitions of {} trits", kind, n);
    ensure_trits!(outs[0].1, outs[1].1, "states of kind {} for two partitions of {} trits", kind, n);
    sp_op(src, &mut s, &mut m, 100)
}
fn c07_hash(src: &mut Src) -> Res {
    let n = src.size(1500);
    let x = src.trits(n);
    let k = src.size(1200);
    let expect = model::spongos::hash(&x, k);
    src.note(|| format!("hash {} trits to {}", n, k));
    if n > 0 && k > 0 {
        src.nontrivial();
    }
    let mut y = tr(&src.trits(k));
    spongos::hash_data(tr(&x).slice(), y.slice_mut());
    ensure_trits!(ve(&y), expect, "hash_data of {} to {} trits", n, k);
    let ps = pieces(src, n);
    let mut parts = Vec::new();
    let mut at = 0;
    for p in &ps {
        parts.push(tr(&x[at..at + p]));
        at += p;
    }
    let slices: Vec<TritSlice> = parts.iter().map(|p| p.slice()).collect();
    let mut y = tr(&src.trits(k));
    spongos::hash_datas(&slices, y.slice_mut());
    ensure_trits!(ve(&y), expect, "hash_datas of pieces {:?} to {} trits", ps, k);
    // In place, as the one-time signature chains do.
    let mut y = tr(&x);
    let v = y.slice_mut();
    spongos::hash_data(v.as_const(), v);
    ensure_trits!(ve(&y), model::spongos::hash(&x, n), "hash_data of {} trits in place", n);
    Ok(())
}

// ---------------------------------------------------------------- C08

fn cut(src: &mut Src, n: usize) -> Vec<(usize, usize)> {
    let mut at = 0;
    pieces(src, n)
        .into_iter()
        .map(|p| {
            at += p;
            (at - p, p)
        })
        .collect()
}

/// Encrypt or decrypt `x` with `s` in a random placement of buffers; checks the surroundings.
fn crypt(src: &mut Src, s: &mut Spongos, enc: bool, x: &[u8]) -> Result<Vec<u8>, String> {
    let n = x.len();
    let name = if enc { "encr" } else { "decr" };
    let ps = cut(src, n);
    let place = src.below(5);
    let (g1, g2, g3) = (src.upto(30), src.upto(30), src.upto(30));
    src.note(|| format!("{} {} trits, placement {}, gaps {} {} {}, pieces {:?}", name, n, place, g1, g2, g3, ps));
    let run = |s: &mut Spongos, a: TritSlice, b: TritSliceMut| {
        if enc {
            s.encr(a, b)
        } else {
            s.decr(a, b)
        }
    };
    match place {
        0 => {
            let a = tr(x);
            let mut b = tr(&src.trits(n));
            for (at, p) in ps {
                run(s, a.slice().drop(at).take(p), b.slice_mut().drop(at).take(p));
            }
            ensure_trits!(ve(&a), x, "input of {}", name);
            Ok(ve(&b))
        }
        1 => {
            // In place inside a larger buffer.
            let mut mem = src.trits(g1 + n + g2);
            mem[g1..g1 + n].copy_from_slice(x);
            let mut b = tr(&mem);
            for (at, p) in ps {
                let v = b.slice_mut().drop(g1 + at).take(p);
                run(s, v.as_const(), v);
            }
            let got = ve(&b);
            ensure_trits!(got[..g1], mem[..g1], "before the range of in-place {}", name);
            ensure_trits!(got[g1 + n..], mem[g1 + n..], "after the range of in-place {}", name);
            Ok(got[g1..g1 + n].to_vec())
        }
        2 | 3 => {
            // Between two disjoint parts of one buffer, in both orders.
            let total = g1 + n + g2 + n + g3;
            let (from, to) = if place == 2 { (g1, g1 + n + g2) } else { (g1 + n + g2, g1) };
            let mut mem = src.trits(total);
            mem[from..from + n].copy_from_slice(x);
            let mut b = tr(&mem);
            src.label("one buffer");
            for (at, p) in ps {
                let v = b.slice_mut();
                run(s, v.as_const().drop(from + at).take(p), v.drop(to + at).take(p));
            }
            let got = ve(&b);
            let mut rest = mem.clone();
            rest[to..to + n].copy_from_slice(&got[to..to + n]);
            ensure_trits!(got, rest, "buffer outside the output of {} from {} to {} of {} trits", name, from, to, total);
            Ok(got[to..to + n].to_vec())
        }
        _ => {
            let mut out = Vec::new();
            for (at, p) in ps {
                let mut t = tr(&x[at..at + p]);
                if src.bool() {
                    if enc {
                        s.encr_mut_trits(&mut t)
                    } else {
                        s.decr_mut_trits(&mut t)
                    }
                    out.extend(ve(&t));
                } else {
                    out.extend(ve(&if enc { s.encr_trits(&t) } else { s.decr_trits(&t) }));
                }
            }
            Ok(out)
        }
    }
}
fn c08_peers(src: &mut Src) -> Res {
    let (mut a, mut m) = sp_state(src)?;
    let mut b = a.fork();
    let rounds = src.range(1, 4);
    for i in 0..rounds {
        let n = src.size(1200);
        let x = src.trits(n);
        if n > 0 {
            src.nontrivial();
        }
        let y = crypt(src, &mut a, true, &x)?;
        ensure_trits!(y, m.encr(&x), "ciphertext {} of {} trits", i, n);
        let z = crypt(src, &mut b, false, &y)?;
        ensure_trits!(z, x, "decrypted message {} of {} trits", i, n);
        ensure_trits!(probe(&a), probe(&b), "states after message {}", i);
        // Roles change.
        if src.bool() {
            std::mem::swap(&mut a, &mut b);
        }
        if src.chance(30) {
            a.commit();
            b.commit();
            m.commit();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn c09_forks(src: &mut Src) -> Res {
    // Several states with a common past, operated on in any order, joined with one another.
    let (s, m) = sp_state(src)?;
    let mut v = vec![(s, m)];
    let steps = src.range(2, 12);
    let (mut forks, mut joins) = (0, 0);
    for step in 0..steps {
        let i = src.below(v.len() as u64) as usize;
        match src.weighted(&[30, 15, 35, 20]) {
            0 => {
                if v.len() < 4 {
                    let f = (v[i].0.fork(), v[i].1.clone());
                    v.push(f);
                    src.note(|| format!("fork {}", i));
                    forks += 1;
                }
            }
            1 => {
                let j = src.below(v.len() as u64) as usize;
                if i != j {
                    let (s, m) = v[i].clone();
                    s.fork_at(&mut v[j].0);
                    v[j].1 = m;
                    src.note(|| format!("fork {} at {}", i, j));
                    forks += 1;
                }
            }
            2 => {
                src.note(|| format!("on {}:", i));
                let (s, m) = &mut v[i];
                sp_op(src, s, m, 600)?;
            }
            _ => {
                let j = src.below(v.len() as u64) as usize;
                if i != j {
                    let (mut s, mut m) = v[j].clone();
                    v[i].0.join(&mut s);
                    v[i].1.join(&mut m);
                    v[j] = (s, m);
                    src.note(|| format!("join {} into {}", j, i));
                    joins += 1;
                }
            }
        }
        for (k, (s, m)) in v.iter().enumerate() {
            ensure_trits!(probe(s), m.probe(), "state {} after step {}", k, step);
        }
    }
    if forks > 0 {
        src.nontrivial();
    }
    if joins > 0 {
        src.label("joins");
    }
    Ok(())
}
fn c09_compare(src: &mut Src) -> Res {
    let (s, m) = sp_state(src)?;
    let n = src.size(1300);
    let mut mm = m.clone();
    let good = mm.squeeze(n);
    let mut y = good.clone();
    let kind = src.below(5);
    match kind {
        0 => {}
        1 if n > 0 => {
            let i = src.below(n as u64) as usize;
            y[i] = (y[i] + 1 + src.below(2) as u8) % 3;
        }
        2 if n > 0 => {
            // The last or the first trit only.
            let i = if src.bool() { n - 1 } else { 0 };
            y[i] = (y[i] + 1) % 3;
        }
        3 => y = src.trits(n),
        4 if n > 1 => {
            // Two changes that cancel in a sum.
            let i = src.below(n as u64 - 1) as usize;
            y[i] = (y[i] + 1) % 3;
            y[i + 1] = (y[i + 1] + 2) % 3;
        }
        _ => {}
    }
    src.note(|| format!("compare {} trits at {}, equal: {}", n, m.pos, y == good));
    if y != good {
        src.nontrivial();
    }
    let ps = if src.bool() { vec![(0, n)] } else { cut(src, n) };
    let mut a = s.fork();
    let t = tr(&y);
    let mut r = true;
    for (at, p) in &ps {
        let e = a.squeeze_eq(t.slice().drop(*at).take(*p));
        ensure_eq!(e, y[*at..at + p] == good[*at..at + p], "comparison of piece {}+{}", at, p);
        r &= e;
    }
    ensure_eq!(r, y == good, "comparison of {} trits", n);
    // It advances the state as squeezing does.
    let mut b = s.fork();
    b.squeeze_trits(n);
    ensure_trits!(probe(&a), probe(&b), "state after comparing with {} data", if r { "equal" } else { "different" });
    ensure_trits!(probe(&a), mm.probe(), "state after comparing, against the model");
    Ok(())
}
fn c09_inner(src: &mut Src) -> Res {
    let (mut s, mut m) = sp_state(src)?;
    s.commit();
    m.commit();
    let inner = s.to_inner_trits();
    ensure_trits!(ve(&inner), m.inner(), "saved inner part");
    let mut again = tr(&src.trits(243));
    s.to_inner(again.slice_mut());
    ensure_trits!(ve(&again), m.inner(), "inner part saved into a slice");
    ensure_trits!(probe(&s), m.probe(), "state after saving");
    let mut r = if src.bool() { Spongos::from_inner_trits(&inner) } else { Spongos::from_inner(inner.slice()) };
    ensure_trits!(ve(&r.to_inner_trits()), m.inner(), "inner part saved again from the restored state");
    // Any inner part restores, also one no history was seen to reach.
    let any = src.trits(243);
    ensure_trits!(ve(&Spongos::from_inner_trits(&tr(&any)).to_inner_trits()), any, "arbitrary inner part");
    let x = { let n = 486 + src.len(600); src.trits(n) };
    src.nontrivial();
    src.note(|| format!("restore, then absorb {} trits", x.len()));
    s.absorb(tr(&x).slice());
    r.absorb(tr(&x).slice());
    m.absorb(&x);
    ensure_trits!(probe(&r), probe(&s), "restored state after absorbing {} trits", x.len());
    for _ in 0..src.upto(3) {
        let mut m2 = m.clone();
        let (at, given) = (src.rec.len(), src.given());
        sp_op(src, &mut s, &mut m, 300)?;
        // The same operation with the same data on the restored state.
        sp_op(&mut src.again(at, given), &mut r, &mut m2, 300)?;
        ensure_trits!(probe(&r), probe(&s), "restored state after the same operation");
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn c10_prng(src: &mut Src) -> Res {
    let key = src.trits(243);
    // A key given as text is repeated to its size.
    let word = if src.chance(10) { Some(src.len(120)) } else { None };
    let key = match word {
        Some(n) => {
            let n = 3 * (n / 3).max(1);
            (0..243).map(|i| key[i % n]).collect()
        }
        None => key,
    };
    let p = match src.below(3) {
        _ if word.is_some() => {
            let n = 3 * (word.unwrap() / 3).max(1);
            prng::dbg_init_str(&model::text(&key[..n]))
        }
        0 => PRNG::init(tr(&key).slice()),
        1 => prng::init_trits(&tr(&key)),
        _ => prng::init(tr(&key).slice()),
    };
    let calls = src.range(1, 4);
    for _ in 0..calls {
        let n = src.size(700);
        let nonce = src.trits(n);
        let m = src.size(1500);
        let expect = model::spongos::prng(&key, &nonce, m);
        let (a, b) = (cut(src, n), cut(src, m));
        src.note(|| format!("key {} nonce {} pieces {:?} output {} pieces {:?}", show(&key), show(&nonce), a, m, b));
        if n > 0 && m > 0 {
            src.nontrivial();
        }
        let t = tr(&nonce);
        let parts: Vec<TritSlice> = a.iter().map(|(at, p)| t.slice().drop(*at).take(*p)).collect();
        let used = if src.bool() { p.clone() } else { PRNG::init_trits(&tr(&key)) };
        match src.below(4) {
            0 => ensure_trits!(ve(&used.gen_trits(&t, m)), expect, "gen_trits of {} for {} nonce trits", m, n),
            1 => {
                let mut y = tr(&src.trits(m));
                used.gen(t.slice(), y.slice_mut());
                ensure_trits!(ve(&y), expect, "gen of {} for {} nonce trits", m, n);
            }
            2 => {
                let mut y = tr(&src.trits(m));
                used.gens(&parts, y.slice_mut());
                ensure_trits!(ve(&y), expect, "gens of {} for nonces {:?}", m, a);
            }
            _ => {
                let mut y = tr(&src.trits(m));
                let v = y.slice_mut();
                let outs: Vec<TritSliceMut> = b.iter().map(|(at, p)| v.drop(*at).take(*p)).collect();
                used.genss(&parts, &outs);
                ensure_trits!(ve(&y), expect, "genss to {:?} for nonces {:?}", b, a);
            }
        }
        // A shorter output is a prefix.
        let k = src.upto(m);
        ensure_trits!(ve(&p.gen_trits(&t, k)), expect[..k], "prefix of {} trits", k);
    }
    Ok(())
}
fn c10_distinct(src: &mut Src) -> Res {
    // Different keys or nonces give different streams.
    let key = src.trits(243);
    let n = src.size(600);
    let nonce = src.trits(n);
    let (mut k2, mut n2) = (key.clone(), nonce.clone());
    // The sponge does not pad, so nonces of different lengths are outside the claim.
    let kind = src.below(4);
    match kind {
        1 if n > 0 => {
            let i = src.below(n as u64) as usize;
            n2[i] = (n2[i] + 1 + src.below(2) as u8) % 3;
        }
        2 if n > 0 => {
            // The last trit.
            n2[n - 1] = (n2[n - 1] + 1 + src.below(2) as u8) % 3;
        }
        3 if n > 1 => {
            n2 = src.rtrits(n);
        }
        _ => {
            let i = src.below(243) as usize;
            k2[i] = (k2[i] + 1 + src.below(2) as u8) % 3;
        }
    }
    if key == k2 && nonce == n2 {
        return Ok(());
    }
    src.nontrivial();
    src.note(|| format!("kind {} of difference, nonces of {} and {} trits", kind, n, n2.len()));
    let a = PRNG::init_trits(&tr(&key)).gen_trits(&tr(&nonce), 243);
    let b = PRNG::init_trits(&tr(&k2)).gen_trits(&tr(&n2), 243);
    ensure!(a != b, "equal streams for different key or nonce (kind {})", kind);
    Ok(())
}

/// The same with one or two sizes far beyond the usual ones.
fn c06_large(src: &mut Src) -> Res {
    src.big = 2;
    c06_hash(src)
}
fn c07_large(src: &mut Src) -> Res {
    src.big = 2;
    match src.below(3) {
        0 => c07_history(src),
        1 => c07_pieces(src),
        _ => c07_hash(src),
    }
}
fn c08_large(src: &mut Src) -> Res {
    src.big = 2;
    c08_peers(src)
}
fn c09_large(src: &mut Src) -> Res {
    src.big = 1;
    if src.bool() {
        c09_forks(src)
    } else {
        c09_compare(src)
    }
}
fn c10_large(src: &mut Src) -> Res {
    src.big = 2;
    if src.bool() {
        c10_prng(src)
    } else {
        c10_distinct(src)
    }
}

// ---------------------------------------------------------------- long lives

/// How often one object is used in a long life: past the range of a byte, of 16 bits, or in
/// between.
fn uses(src: &mut Src, max: usize) -> usize {
    let n = if src.bool() {
        // At the very edges of counters.
        (*src.pick(&[128usize, 256, 512, 1024, 4096, 32_768, 65_536]) - 2) + src.upto(4)
    } else {
        *src.pick(&[300usize, 1_100, 4_500, 33_500, 66_500]) + src.upto(100)
    };
    src.nontrivial();
    if n > 256 {
        src.label("more than 256 uses");
    }
    if n.min(max) > 65_536 {
        src.label("more than 65 536 uses");
    }
    n.min(max)
}
fn c05_long(src: &mut Src) -> Res {
    let mut m = src.trits(729);
    let mut t = load(&m);
    let n = uses(src, usize::MAX);
    let clones = src.bool();
    src.note(|| format!("{} permutations of one state, through clones: {}", n, clones));
    for i in 0..n {
        mt::permute(&mut m);
        if clones {
            t = t.clone();
        }
        t.permutation();
        if i % 97 == 0 {
            ensure_trits!(store(&t), m, "permutation number {}", i + 1);
        }
    }
    ensure_trits!(store(&t), m, "permutation number {}", n);
    Ok(())
}
/// Numbers of blocks at the edges of counters, and a little more.
fn edge(src: &mut Src) -> (usize, Rng, usize) {
    const K: [usize; 8] = [64, 128, 256, 512, 1024, 4096, 32_768, 65_536];
    let i = src.below(160) as usize;
    src.nontrivial();
    (K[i % 40 / 5] - 2 + i % 5, Rng::new(i as u64 + 1), i / 40)
}
fn c06_blocks(src: &mut Src) -> Res {
    let (n, mut r, kind) = edge(src);
    let rest = 1 + r.below(242) as usize;
    let x: Vec<u8> = (0..243 * n + rest).map(|_| r.below(3) as u8).collect();
    let mut t = TroikaSponge::default();
    // In one piece, or block by block.
    if kind % 2 == 0 {
        t.absorb(&x);
    } else {
        x.chunks(243).for_each(|b| t.absorb(b));
    }
    t.finalize();
    ensure_trits!(draw(&mut t, &[486]), mt::hash(&x, 486), "hash of {} blocks and {} trits", n, rest);
    // As much output.
    t.reset();
    t.absorb(&x[..9]);
    t.finalize();
    let ps = if kind / 2 == 0 { vec![243 * n + rest] } else { (0..n).map(|_| 243).chain([rest]).collect() };
    ensure_trits!(draw(&mut t, &ps), mt::hash(&x[..9], 243 * n + rest), "output of {} blocks and {} trits", n, rest);
    Ok(())
}
fn c07_blocks(src: &mut Src) -> Res {
    let (n, mut r, kind) = edge(src);
    let rest = 1 + r.below(485) as usize;
    let x: Vec<u8> = (0..486 * n + rest).map(|_| r.below(3) as u8).collect();
    let (mut s, mut m) = (Spongos::init(), Sp::new());
    s.absorb(tr(&x[..40]).slice());
    m.absorb(&x[..40]);
    s.commit();
    m.commit();
    let t = tr(&x);
    match kind {
        0 => {
            s.absorb(t.slice());
            m.absorb(&x);
        }
        1 => ensure_trits!(ve(&s.squeeze_trits(x.len())), m.squeeze(x.len()), "output of {} blocks and {} trits", n, rest),
        2 => ensure_trits!(ve(&s.encr_trits(&t)), m.encr(&x), "encryption of {} blocks and {} trits", n, rest),
        _ => ensure_trits!(ve(&s.decr_trits(&t)), m.decr(&x), "decryption of {} blocks and {} trits", n, rest),
    }
    ensure_trits!(probe(&s), m.probe(), "state after {} blocks and {} trits, kind {}", n, rest, kind);
    s.commit();
    m.commit();
    ensure_trits!(probe(&s), m.probe(), "committed state after {} blocks and {} trits, kind {}", n, rest, kind);
    Ok(())
}
fn c06_long(src: &mut Src) -> Res {
    let mut t = TroikaSponge::default();
    let n = uses(src, usize::MAX);
    let mut r = Rng::new(src.raw());
    let kind = src.below(4);
    src.note(|| format!("kind {} of {} uses of one hasher", kind, n));
    match kind {
        0 => {
            // A message of very many small pieces.
            let mut x = Vec::new();
            for _ in 0..n {
                let k = [0, 1, 1, 2, 3, 5][r.below(6) as usize];
                let p: Vec<u8> = (0..k).map(|_| r.below(3) as u8).collect();
                t.absorb(&p);
                x.extend(p);
            }
            t.finalize();
            ensure_trits!(draw(&mut t, &[600]), mt::hash(&x, 600), "hash of {} pieces, {} trits", n, x.len());
        }
        1 => {
            // Very many small pieces of output.
            let x = src.trits(20);
            t.absorb(&x);
            t.finalize();
            let ps: Vec<usize> = (0..n).map(|_| [0, 1, 1, 2, 3, 5][r.below(6) as usize]).collect();
            ensure_trits!(draw(&mut t, &ps), mt::hash(&x, ps.iter().sum()), "output in {} pieces", n);
        }
        2 => {
            // Very many whole blocks.
            let rest = r.below(243) as usize;
            let x: Vec<u8> = (0..243 * n + rest).map(|_| r.below(3) as u8).collect();
            for b in x.chunks(243) {
                t.absorb(b);
            }
            t.finalize();
            ensure_trits!(draw(&mut t, &[243, 243]), mt::hash(&x, 486), "hash of {} blocks", n);
        }
        _ => {
            // Very many messages.
            for i in 0..n {
                let (k, m) = (r.below(9) as usize, r.below(9) as usize);
                let x: Vec<u8> = (0..k).map(|_| r.below(3) as u8).collect();
                t.absorb(&x);
                t.finalize();
                ensure_trits!(draw(&mut t, &[m]), mt::hash(&x, m), "hash number {}, of {} trits", i, k);
                t.reset();
            }
        }
    }
    Ok(())
}
/// One operation, chosen and filled at random without growing the tape.
fn small_op(r: &mut Rng, s: &mut Spongos, m: &mut Sp, what: &str) -> Res {
    sp_op(&mut Src::random(r.next()), s, m, 7).map_err(|e| format!("{}: {}", what, e))
}
fn c07_long(src: &mut Src) -> Res {
    let (mut s, mut m) = sp_state(src)?;
    let n = uses(src, usize::MAX);
    let mut r = Rng::new(src.raw());
    let kind = src.below(3);
    src.note(|| format!("kind {} of {} uses of one state", kind, n));
    match kind {
        0 => {
            for i in 0..n {
                small_op(&mut r, &mut s, &mut m, &format!("operation {} of one state", i))?;
            }
        }
        1 => {
            // A long message in whole blocks.
            for i in 0..n {
                let x: Vec<u8> = (0..486).map(|k| ((i >> (k % 16)) & 1) as u8).collect();
                match r.below(3) {
                    0 => {
                        s.absorb(tr(&x).slice());
                        m.absorb(&x);
                    }
                    1 => ensure_trits!(ve(&s.encr_trits(&tr(&x))), m.encr(&x), "encrypted block {}", i),
                    _ => ensure_trits!(ve(&s.squeeze_trits(486)), m.squeeze(486), "squeezed block {}", i),
                }
            }
        }
        _ => {
            // The one-shot hash of very many pieces.
            let x = src.rtrits(1000);
            let t = tr(&x);
            let mut all = Vec::new();
            let mut ps = Vec::new();
            for _ in 0..n {
                let (at, k) = (r.below(990) as usize, r.below(6) as usize);
                ps.push(t.slice().drop(at).take(k));
                all.extend_from_slice(&x[at..at + k]);
            }
            let mut y = Trits::zero(500);
            spongos::hash_datas(&ps, y.slice_mut());
            ensure_trits!(ve(&y), model::spongos::hash(&all, 500), "hash_datas of {} pieces, {} trits", n, all.len());
        }
    }
    small_op(&mut r, &mut s, &mut m, &format!("after {} uses", n))?;
    ensure_trits!(probe(&s), m.probe(), "state after {} uses", n);
    Ok(())
}
fn c08_blocks(src: &mut Src) -> Res {
    let (n, mut r, kind) = edge(src);
    let rest = 1 + r.below(485) as usize;
    let x: Vec<u8> = (0..486 * n + rest).map(|_| r.below(3) as u8).collect();
    let (mut a, mut m) = (Spongos::init(), Sp::new());
    a.absorb(tr(&x[..40]).slice());
    m.absorb(&x[..40]);
    a.commit();
    m.commit();
    let mut b = a.fork();
    let mut t = tr(&x);
    if kind % 2 == 0 {
        t = a.encr_trits(&t);
    } else {
        a.encr_mut_trits(&mut t);
    }
    ensure_trits!(ve(&t), m.encr(&x), "ciphertext of {} blocks and {} trits", n, rest);
    if kind / 2 == 0 {
        t = b.decr_trits(&t);
    } else {
        b.decr_mut_trits(&mut t);
    }
    ensure_trits!(ve(&t), x, "decrypted message of {} blocks and {} trits", n, rest);
    ensure_trits!(probe(&a), m.probe(), "sender's state after {} blocks and {} trits", n, rest);
    ensure_trits!(probe(&b), m.probe(), "receiver's state after {} blocks and {} trits", n, rest);
    Ok(())
}
fn c09_blocks(src: &mut Src) -> Res {
    let (n, mut r, kind) = edge(src);
    let rest = 1 + r.below(485) as usize;
    let len = 486 * n + rest;
    let (mut s, mut m) = (Spongos::init(), Sp::new());
    let x: Vec<u8> = (0..40).map(|_| r.below(3) as u8).collect();
    s.absorb(tr(&x).slice());
    m.absorb(&x);
    s.commit();
    m.commit();
    if kind < 3 {
        // Equal, or different in the first or the last trit.
        let mut y = m.squeeze(len);
        if kind > 0 {
            let i = if kind == 1 { 0 } else { len - 1 };
            y[i] = (y[i] + 1) % 3;
        }
        ensure_eq!(s.squeeze_eq_trits(&tr(&y)), kind == 0, "comparison of {} blocks and {} trits", n, rest);
    } else {
        let x: Vec<u8> = (0..len).map(|_| r.below(3) as u8).collect();
        s.absorb(tr(&x).slice());
        m.absorb(&x);
    }
    let mut f = Spongos::init();
    s.fork_at(&mut f);
    ensure_trits!(probe(&f), m.probe(), "fork after {} blocks and {} trits", n, rest);
    let (mut o, mut om) = (Spongos::init(), Sp::new());
    o.join(&mut f);
    om.join(&mut m.clone());
    ensure_trits!(probe(&o), om.probe(), "join after {} blocks and {} trits", n, rest);
    s.commit();
    m.commit();
    ensure_trits!(ve(&s.to_inner_trits()), m.inner(), "inner part after {} blocks and {} trits", n, rest);
    Ok(())
}
fn c10_blocks(src: &mut Src) -> Res {
    let (n, mut r, kind) = edge(src);
    let rest = r.below(486) as usize;
    let key: Vec<u8> = (0..243).map(|_| r.below(3) as u8).collect();
    let x: Vec<u8> = (0..486 * n + rest).map(|_| r.below(3) as u8).collect();
    let p = PRNG::init_trits(&tr(&key));
    let t = tr(&x);
    let (nonce, len) = if kind % 2 == 0 { (t.slice(), 500) } else { (t.slice().take(rest), x.len()) };
    let expect = model::spongos::prng(&key, &sl(nonce), len);
    let mut y = Trits::zero(len);
    if kind / 2 == 0 {
        p.gen(nonce, y.slice_mut());
    } else {
        p.gens(&[nonce], y.slice_mut());
    }
    ensure_trits!(ve(&y), expect, "output of {} trits for a nonce of {}", len, nonce.size());
    Ok(())
}
fn c08_long(src: &mut Src) -> Res {
    let (mut a, mut m) = sp_state(src)?;
    let mut b = a.fork();
    let n = uses(src, usize::MAX);
    let mut r = Rng::new(src.raw());
    src.note(|| format!("{} small messages between two peers", n));
    for i in 0..n {
        let k = r.below(8) as usize;
        let x: Vec<u8> = (0..k).map(|_| r.below(3) as u8).collect();
        let mut t = tr(&x);
        if r.below(2) == 0 {
            t = a.encr_trits(&t);
        } else {
            a.encr_mut_trits(&mut t);
        }
        ensure_trits!(ve(&t), m.encr(&x), "ciphertext {} of {} trits", i, k);
        if r.below(2) == 0 {
            t = b.decr_trits(&t);
        } else {
            b.decr_mut_trits(&mut t);
        }
        ensure_trits!(ve(&t), x, "decrypted message {} of {} trits", i, k);
        match r.below(8) {
            0 => {
                a.commit();
                b.commit();
                m.commit();
            }
            1 | 2 => std::mem::swap(&mut a, &mut b),
            _ => {}
        }
    }
    ensure_trits!(probe(&a), m.probe(), "state of the sender after {} messages", n);
    ensure_trits!(probe(&b), m.probe(), "state of the receiver after {} messages", n);
    Ok(())
}
fn c09_long(src: &mut Src) -> Res {
    let (mut s, mut m) = sp_state(src)?;
    let n = uses(src, usize::MAX);
    let mut r = Rng::new(src.raw());
    let kind = src.below(5);
    let (mut t, mut mt) = (Spongos::init(), Sp::new());
    src.note(|| format!("kind {} of {} derivations", kind, n));
    for i in 0..n {
        match kind {
            0 => s = s.fork(),
            1 => {
                // Back and forth between two states.
                s.fork_at(&mut t);
                mt = m.clone();
                std::mem::swap(&mut s, &mut t);
                std::mem::swap(&mut m, &mut mt);
            }
            2 => s = s.clone(),
            3 => {
                // All from the one state.
                let (mut f, mut fm) = (s.fork(), m.clone());
                small_op(&mut r, &mut f, &mut fm, &format!("on fork {} of one state", i))?;
                if i % 16 == 0 {
                    ensure_trits!(probe(&f), fm.probe(), "fork {} of one state", i);
                }
                continue;
            }
            _ => {
                if i % 2 == 0 {
                    s.join(&mut t);
                    m.join(&mut mt);
                } else {
                    s.commit();
                    m.commit();
                    s = Spongos::from_inner_trits(&s.to_inner_trits());
                    m = Sp::from_inner(&m.inner());
                }
            }
        }
        small_op(&mut r, &mut s, &mut m, &format!("on derivation {}", i))?;
        if i % 64 == 0 {
            ensure_trits!(probe(&s), m.probe(), "derivation {}", i);
        }
    }
    ensure_trits!(probe(&s), m.probe(), "state after {} derivations", n);
    ensure_trits!(probe(&t), mt.probe(), "other state after {} derivations", n);
    Ok(())
}
fn c10_long(src: &mut Src) -> Res {
    let key = src.trits(243);
    let mut p = PRNG::init_trits(&tr(&key));
    let n = uses(src, usize::MAX);
    let mut r = Rng::new(src.raw());
    let kind = src.below(4);
    src.note(|| format!("kind {} of {} uses of one generator", kind, n));
    let known: Vec<(Vec<u8>, Vec<u8>)> = (0..20).map(|_| { let k = src.len(60); let x = src.trits(k); let y = model::spongos::prng(&key, &x, 60); (x, y) }).collect();
    match kind {
        0 | 1 => {
            for i in 0..n {
                let (x, y) = &known[r.below(20) as usize];
                let k = r.below(61) as usize;
                ensure_trits!(ve(&p.gen_trits(&tr(x), k)), y[..k], "output {} of one generator, {} trits", i, k);
                if kind == 1 {
                    p = p.clone();
                }
            }
        }
        2 => {
            // Very many nonces.
            let x = src.rtrits(500);
            let t = tr(&x);
            let mut all = Vec::new();
            let mut ps = Vec::new();
            for _ in 0..n {
                let (at, k) = (r.below(490) as usize, r.below(6) as usize);
                ps.push(t.slice().drop(at).take(k));
                all.extend_from_slice(&x[at..at + k]);
            }
            let mut y = Trits::zero(500);
            p.gens(&ps, y.slice_mut());
            ensure_trits!(ve(&y), model::spongos::prng(&key, &all, 500), "output for {} nonces, {} trits", n, all.len());
        }
        _ => {
            // Very many outputs of one call.
            let (x, _) = &known[0];
            let ks: Vec<usize> = (0..n).map(|_| r.below(6) as usize).collect();
            let total = ks.iter().sum();
            let mut y = Trits::zero(total);
            let v = y.slice_mut();
            let mut at = 0;
            let outs: Vec<TritSliceMut> = ks
                .iter()
                .map(|k| {
                    at += k;
                    v.drop(at - k).take(*k)
                })
                .collect();
            let xt = tr(x);
            p.genss(&[xt.slice()], &outs);
            ensure_trits!(ve(&y), model::spongos::prng(&key, x, total), "{} outputs of one call, {} trits", n, total);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            rule: "a case permutes one state 1..3 times, or sets trits one at a time, against a trit-by-trit transcription of the specification; non-trivial: a non-constant state",
            sections: vec![
                sec("model self-check", 8_000, 400_000, c05_models),
                exh("single-trit states", 1458, c05_single),
                sec("permutation", 200_000, 10_000_000, c05_permutation),
                sec("setting trits", 300_000, 15_000_000, c05_set),
                sec("long lives", 120, 3_000, c05_long),
            ],
        },
        Property {
            id: "C06",
            rule: "a case hashes 1..3 messages with resets between, cutting message and output at random; non-trivial: more than one piece",
            sections: vec![
                sec("hash", 900_000, 45_000_000, c06_hash),
                sec("large sizes", 3_000, 200_000, c06_large),
                exh("block counts", 160, c06_blocks),
                sec("long lives", 200, 5_000, c06_long),
            ],
        },
        Property {
            id: "C07",
            rule: "a case runs a random history of operations against the duplex model, comparing every output and the final state; non-trivial: more than two operations and at least one permutation, or several pieces",
            sections: vec![
                sec("histories", 260_000, 13_000_000, c07_history),
                sec("block boundaries", 300_000, 15_000_000, c07_boundary),
                sec("pieces", 200_000, 10_000_000, c07_pieces),
                sec("one-shot hash", 300_000, 15_000_000, c07_hash),
                sec("large sizes", 3_000, 200_000, c07_large),
                exh("block counts", 160, c07_blocks),
                sec("long lives", 150, 4_000, c07_long),
            ],
        },
        Property {
            id: "C08",
            rule: "a case sends 1..4 messages between two peers from a random state, each with its own placement and partition; non-trivial: a non-empty message",
            sections: vec![
                sec("peers", 600_000, 30_000_000, c08_peers),
                sec("large sizes", 3_000, 200_000, c08_large),
                exh("block counts", 160, c08_blocks),
                sec("long lives", 400, 8_000, c08_long),
            ],
        },
        Property {
            id: "C09",
            rule: "a case forks, joins, compares, saves or restores states with random pasts; non-trivial: a fork was made, the compared data differ, or a state was restored and continued",
            sections: vec![
                sec("forks and joins", 100_000, 5_000_000, c09_forks),
                sec("comparison", 300_000, 15_000_000, c09_compare),
                sec("save and restore", 200_000, 10_000_000, c09_inner),
                sec("large sizes", 3_000, 200_000, c09_large),
                exh("block counts", 160, c09_blocks),
                sec("long lives", 200, 5_000, c09_long),
            ],
        },
        Property {
            id: "C10",
            rule: "a case draws 1..4 outputs from one key against the sponge model, or compares two inputs that differ; non-trivial: a non-empty nonce and output, or differing inputs",
            sections: vec![
                sec("model", 600_000, 30_000_000, c10_prng),
                sec("different inputs", 600_000, 30_000_000, c10_distinct),
                sec("large sizes", 3_000, 200_000, c10_large),
                exh("block counts", 160, c10_blocks),
                sec("long lives", 250, 5_000, c10_long),
            ],
        },
    ]
}
