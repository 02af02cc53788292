//! C32: containers and views over other trit words than the default one.
//!
//! `W<K, E>` packs K trits into a u64, least significant first. E = 1 keeps every word under a
//! mask, so that the zero word is not the zero integer. The same operations run on containers
//! over W and on plain vectors.

use crate::engine::*;
use crate::model;
use crate::util::show;
use crate::{ensure, ensure_eq, ensure_trits};
use iota_mam::trits::word::TritWord;
use iota_mam::trits::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct W<const K: usize, const E: u64>(u64);

const MASK: u64 = 0x9e37_79b9_7f4a_7c15;

impl<const K: usize, const E: u64> W<K, E> {
    fn value(self) -> u64 {
        if E == 1 {
            self.0 ^ MASK
        } else {
            self.0
        }
    }
    fn of(v: u64) -> Self {
        W(if E == 1 { v ^ MASK } else { v })
    }
    fn at(d: usize, p: *const Self) -> u8 {
        unsafe { ((*p.add(d / K)).value() / 3u64.pow((d % K) as u32) % 3) as u8 }
    }
    fn to(d: usize, p: *mut Self, t: u8) {
        assert!(t < 3, "harness: trit {}", t);
        let m = 3u64.pow((d % K) as u32);
        unsafe {
            let v = (*p.add(d / K)).value();
            *p.add(d / K) = Self::of(v - v / m % 3 * m + t as u64 * m);
        }
    }
    fn int(n: usize, d: usize, p: *const Self) -> i64 {
        (0..n).rev().fold(0, |a, i| a * 3 + [0, 1, -1][Self::at(d + i, p) as usize])
    }
    fn put_int(n: usize, d: usize, p: *mut Self, v: i64) {
        for (i, t) in model::trits_of(v, n).into_iter().enumerate() {
            Self::to(d + i, p, t);
        }
    }
}

impl<const K: usize, const E: u64> TritWord for W<K, E> {
    const SIZE: usize = K;
    fn zero() -> Self {
        Self::of(0)
    }
    fn unsafe_copy(n: usize, dx: usize, x: *const Self, dy: usize, y: *mut Self) {
        let v: Vec<u8> = (0..n).map(|i| Self::at(dx + i, x)).collect();
        for i in 0..n {
            Self::to(dy + i, y, v[i]);
        }
    }
    fn unsafe_set_zero(n: usize, d: usize, p: *mut Self) {
        for i in 0..n {
            Self::to(d + i, p, 0);
        }
    }
    fn unsafe_eq(n: usize, dx: usize, x: *const Self, dy: usize, y: *const Self) -> bool {
        (0..n).all(|i| Self::at(dx + i, x) == Self::at(dy + i, y))
    }
    fn put_trit(d: usize, p: *mut Self, t: Trit) {
        Self::to(d, p, t)
    }
    fn get_trit(d: usize, p: *const Self) -> Trit {
        Self::at(d, p)
    }
    fn put_tryte(d: usize, p: *mut Self, t: Tryte) {
        for (i, m) in [1, 3, 9].iter().enumerate() {
            Self::to(d + i, p, t / m % 3);
        }
    }
    fn get_tryte(d: usize, p: *const Self) -> Tryte {
        Self::at(d, p) + 3 * Self::at(d + 1, p) + 9 * Self::at(d + 2, p)
    }
    fn put1(d: usize, p: *mut Self, t: Trint1) {
        Self::put_int(1, d, p, t as i64)
    }
    fn get1(d: usize, p: *const Self) -> Trint1 {
        Self::int(1, d, p) as Trint1
    }
    fn put3(d: usize, p: *mut Self, t: Trint3) {
        Self::put_int(3, d, p, t as i64)
    }
    fn get3(d: usize, p: *const Self) -> Trint3 {
        Self::int(3, d, p) as Trint3
    }
    fn put6(d: usize, p: *mut Self, t: Trint6) {
        Self::put_int(6, d, p, t as i64)
    }
    fn get6(d: usize, p: *const Self) -> Trint6 {
        Self::int(6, d, p) as Trint6
    }
    fn put9(d: usize, p: *mut Self, t: Trint9) {
        Self::put_int(9, d, p, t as i64)
    }
    fn get9(d: usize, p: *const Self) -> Trint9 {
        Self::int(9, d, p) as Trint9
    }
    fn put18(d: usize, p: *mut Self, t: Trint18) {
        Self::put_int(18, d, p, t as i64)
    }
    fn get18(d: usize, p: *const Self) -> Trint18 {
        Self::int(18, d, p) as Trint18
    }
    fn unsafe_swap_add(n: usize, dx: usize, x: *mut Self, ds: usize, s: *mut Self) {
        for i in 0..n {
            let (a, b) = (Self::at(dx + i, x), Self::at(ds + i, s));
            Self::to(ds + i, s, a);
            Self::to(dx + i, x, (a + b) % 3);
        }
    }
    fn unsafe_swap_sub(n: usize, dy: usize, y: *mut Self, ds: usize, s: *mut Self) {
        for i in 0..n {
            let t = (3 + Self::at(dy + i, y) - Self::at(ds + i, s)) % 3;
            Self::to(ds + i, s, t);
            Self::to(dy + i, y, t);
        }
    }
    fn unsafe_copy_add(n: usize, dx: usize, x: *const Self, ds: usize, s: *mut Self, dy: usize, y: *mut Self) {
        for i in 0..n {
            let (a, b) = (Self::at(dx + i, x), Self::at(ds + i, s));
            Self::to(ds + i, s, a);
            Self::to(dy + i, y, (a + b) % 3);
        }
    }
    fn unsafe_copy_sub(n: usize, dy: usize, y: *const Self, ds: usize, s: *mut Self, dx: usize, x: *mut Self) {
        for i in 0..n {
            let t = (3 + Self::at(dy + i, y) - Self::at(ds + i, s)) % 3;
            Self::to(ds + i, s, t);
            Self::to(dx + i, x, t);
        }
    }
}

const GUARD: usize = 2;

/// A buffer of words with guard words around it, and the trits it should hold.
struct Buf<TW> {
    words: Vec<TW>,
    n: usize,
    v: Vec<u8>,
}
impl<TW: TritWord + Copy + PartialEq + std::fmt::Debug + 'static> Buf<TW> {
    fn new(v: &[u8], guard: TW) -> Self {
        let k = (v.len() + TW::SIZE - 1) / TW::SIZE;
        let mut words = vec![guard; k + 2 * GUARD];
        for w in &mut words[GUARD..GUARD + k] {
            *w = TW::zero();
        }
        let mut b = Buf { words, n: v.len(), v: v.to_vec() };
        for (i, t) in v.iter().enumerate() {
            TW::put_trit(GUARD * TW::SIZE + i, b.words.as_mut_ptr(), *t);
        }
        b
    }
    fn view(&mut self) -> TritSliceMutT<'static, TW> {
        TritSliceMutT::from_raw_ptr(self.n, unsafe { self.words.as_mut_ptr().add(GUARD) })
    }
    fn check(&self, guard: TW, what: &str) -> Res {
        let p = self.words.as_ptr();
        let now: Vec<u8> = (0..self.n).map(|i| TW::get_trit(GUARD * TW::SIZE + i, p)).collect();
        ensure_trits!(now, self.v, "{}", what);
        let k = self.words.len();
        for i in (0..GUARD).chain(k - GUARD..k) {
            ensure!(self.words[i] == guard, "{}: word {} of {} around the buffer changed", what, i, k);
        }
        // The rest of the last word belongs to nobody and stays zero.
        for i in self.n..(k - 2 * GUARD) * TW::SIZE {
            ensure_eq!(TW::get_trit(GUARD * TW::SIZE + i, p), 0, "{}: trit {} after the buffer", what, i);
        }
        Ok(())
    }
}

fn val(t: &[u8]) -> i64 {
    t.iter().rev().fold(0, |a, t| a * 3 + [0, 1, -1][*t as usize])
}
fn text(v: &[u8]) -> String {
    model::text(v)
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn history<TW: TritWord + Copy + PartialEq + Hash + std::fmt::Debug + 'static>(src: &mut Src, guard: TW) -> Res {
    let size = TW::SIZE;
    let mut bufs: Vec<Buf<TW>> = (0..2)
        .map(|_| {
            let n = src.size(150);
            Buf::new(&src.trits(n), guard)
        })
        .collect();
    let steps = src.range(1, 12);
    src.note(|| format!("{} trits per word, buffers of {} and {}", size, bufs[0].n, bufs[1].n));
    let mut inner = false;
    for _ in 0..steps {
        let b = src.below(2) as usize;
        let n = bufs[b].n;
        let d = src.upto(n);
        let m = src.upto(n - d);
        let e = d + m;
        let c = src.below(2) as usize;
        let (cd, cn) = {
            let x = src.upto(bufs[c].n);
            (x, x + src.upto(bufs[c].n - x))
        };
        inner |= d % size != 0 && m > size;
        let (v, w) = (bufs[b].view(), bufs[c].view());
        // The view in question, reached in one of several ways.
        let r = match src.below(5) {
            0 => v.drop(d).take(m),
            1 => v.take(e).drop(d),
            2 => v.drop_all().pickup(n - d).take_min(m),
            3 => {
                let mut x = v;
                x.advance(d);
                x.advance(m)
            }
            _ => v.split_at(d).1.split_at(m).0,
        };
        let x = r.as_const();
        let (wr, wx) = (w.drop(cd).take(cn - cd), w.as_const().drop(cd).take(cn - cd));
        let here = bufs[b].v[d..e].to_vec();
        let there = bufs[c].v[cd..cn].to_vec();
        let share = b == c && d < cn && cd < e;
        let what;
        ensure_eq!((r.size(), x.size(), r.dropped_size(), x.total_size()), (m, m, d, e), "sizes of the view [{},{})", d, e);
        match src.below(18) {
            0 => {
                what = format!("get_trits [{},{})", d, e);
                let mut g = vec![9; m];
                x.get_trits(&mut g);
                ensure_trits!(g, here, "{}", what);
                let mut s = vec![9; m];
                x.get1s(&mut s);
                ensure_eq!(s.iter().map(|t| (*t as i64 + 3) as u8 % 3).collect::<Vec<_>>(), here, "get1s: {}", what);
            }
            1 => {
                let t = src.trits(m);
                what = format!("put_trits [{},{}) {}", d, e, show(&t));
                r.put_trits(&t);
                bufs[b].v[d..e].copy_from_slice(&t);
            }
            2 => {
                what = format!("set_zero [{},{})", d, e);
                r.set_zero();
                bufs[b].v[d..e].fill(0);
            }
            3 => {
                let t = src.below(3) as u8;
                what = format!("set_trit({}) [{},{})", t, d, e);
                r.set_trit(t);
                bufs[b].v[d..e].fill(t);
            }
            4 => {
                what = format!("equality of [{},{}) of {} and [{},{}) of {}", d, e, b, cd, cn, c);
                ensure_eq!(x == wx, here == there, "{}", what);
                ensure_eq!(r == wr, here == there, "mutable: {}", what);
                let k = here.len().min(there.len());
                ensure_eq!(x.eq_min(wx), (here[..k] == there[..k], k), "eq_min: {}", what);
                let (tx, ty) = (x.clone_trits(), wx.clone_trits());
                ensure_eq!(tx == ty, here == there, "containers: {}", what);
                if here == there {
                    ensure_eq!(hash(&tx), hash(&ty), "hashes: {}", what);
                }
            }
            5 => {
                what = format!("relations of [{},{}) of {} and [{},{}) of {}", d, e, b, cd, cn, c);
                ensure_eq!(x.is_same(wx), b == c && d == cd, "is_same: {}", what);
                ensure_eq!(r.is_same(wr), b == c && d == cd, "mutable is_same: {}", what);
                // Views that share a trit overlap; views that do not even share a word do not.
                let words = m > 0 && cn > cd && b == c && d / size <= (cn - 1) / size && cd / size <= (e - 1) / size;
                if m > 0 && cn > cd && (share || !words) {
                    ensure_eq!(x.is_overlapped(wx), share, "is_overlapped: {}", what);
                    ensure_eq!(r.is_overlapped(wr), share, "mutable is_overlapped: {}", what);
                }
            }
            6 => {
                let k = m.min(cn - cd);
                if share {
                    continue;
                }
                what = format!("copy {} trits from {} of {} to {} of {}", k, d, b, cd, c);
                if src.bool() {
                    x.take(k).copy(wr.take(k));
                } else {
                    ensure_eq!(x.copy_min(wr), k, "copy_min");
                }
                bufs[c].v[cd..cd + k].copy_from_slice(&here[..k]);
            }
            7 => {
                if share || m == 0 {
                    continue;
                }
                what = format!("cycle [{},{}) of {} into [{},{}) of {}", d, e, b, cd, cn, c);
                wr.cycle(x);
                for i in 0..cn - cd {
                    bufs[c].v[cd + i] = here[i % m];
                }
            }
            8 => {
                if share {
                    continue;
                }
                let k = m.min(cn - cd);
                let add = src.bool();
                what = format!("swap_{} [{},{}) of {} and [{},{}) of {}", if add { "add" } else { "sub" }, d, e, b, cd, cn, c);
                ensure_eq!(if add { r.swap_add_min(wr) } else { r.swap_sub_min(wr) }, k, "{}: count", what);
                for i in 0..k {
                    let (p, q) = (here[i], there[i]);
                    bufs[b].v[d + i] = if add { (p + q) % 3 } else { (p + 3 - q) % 3 };
                    bufs[c].v[cd + i] = if add { p } else { (p + 3 - q) % 3 };
                }
            }
            9 => {
                // x in b, state in c, y behind x in b.
                if b == c {
                    continue;
                }
                let k = m.min(n - e).min(cn - cd);
                let add = src.bool();
                what = format!("copy_{} {} trits at {} and {} with state at {}", if add { "add" } else { "sub" }, k, d, e, cd);
                let (s, y) = (wr.take(k), v.drop(e).take(k));
                let z = x.take(k);
                if add {
                    z.copy_add(s, y);
                } else {
                    z.copy_sub(s, y);
                }
                for i in 0..k {
                    let (p, q) = (here[i], there[i]);
                    bufs[b].v[e + i] = if add { (p + q) % 3 } else { (p + 3 - q) % 3 };
                    bufs[c].v[cd + i] = if add { p } else { (p + 3 - q) % 3 };
                }
            }
            10 => {
                let k = src.range(1, 40);
                what = format!("chunks({}) of [{},{})", k, d, e);
                let ch = x.chunks(k);
                let got: Vec<Vec<u8>> = ch.iter().map(|t| (0..t.size()).map(|i| t.slice().drop(i).get_trit()).collect()).collect();
                let expect: Vec<Vec<u8>> = here.chunks(k).map(|c| c.to_vec()).collect();
                ensure_eq!(got, expect, "{}", what);
                for (t, g) in ch.iter().zip(&got) {
                    ensure_eq!(t.buf_len(), (g.len() + size - 1) / size, "words of a container of {} trits", g.len());
                }
            }
            11 => {
                what = format!("text of [{},{})", d, e);
                let s = text(&here);
                ensure_eq!(x.to_str(), s, "{}", what);
                ensure_eq!(format!("{}", x), s, "Display: {}", what);
                let t = TritsT::<TW>::from_str(&s);
                ensure!(t.is_some(), "text {:?} does not parse", s);
                let t = t.unwrap();
                ensure_eq!(t.to_str(), s, "reparsed {}", what);
                ensure_eq!(t.size(), 3 * s.len(), "size of parsed text");
                let room = n - d;
                let mut padded = here.clone();
                padded.resize(3 * s.len(), 0);
                if v.drop(d).from_str(&s) {
                    let k = padded.len().min(room);
                    bufs[b].v[d..d + k].copy_from_slice(&padded[..k]);
                } else {
                    return Err(format!("{:?} does not parse into {} trits", s, room));
                }
            }
            12 => {
                if m == 0 {
                    continue;
                }
                what = format!("inc [{},{})", d, e);
                let ok = r.inc();
                let mut carry = true;
                for t in &mut bufs[b].v[d..e] {
                    if carry {
                        *t = (*t + 1) % 3;
                        carry = *t == 0;
                    }
                }
                ensure_eq!(ok, !carry, "{}", what);
            }
            13 => {
                let w = *src.pick(&[1usize, 3, 6, 9, 18]);
                if m < w {
                    continue;
                }
                what = format!("{}-trit integer at {}", w, d);
                let i = val(&here[..w]);
                let max = (3i64.pow(w as u32) - 1) / 2;
                let j = src.irange(-max, max);
                let (q, g) = match w {
                    1 => (x.get1() as i64, (r.put1(j as Trint1), x.get1() as i64).1),
                    3 => (x.get3() as i64, (r.put3(j as Trint3), x.get3() as i64).1),
                    6 => (x.get6() as i64, (r.put6(j as Trint6), x.get6() as i64).1),
                    9 => (x.get9() as i64, (r.put9(j as Trint9), x.get9() as i64).1),
                    _ => (x.get18() as i64, (r.put18(j as Trint18), x.get18() as i64).1),
                };
                ensure_eq!((q, g), (i, j), "{}", what);
                bufs[b].v[d..d + w].copy_from_slice(&model::trits_of(j, w));
            }
            14 => {
                if m < 3 {
                    continue;
                }
                what = format!("tryte at {}", d);
                let t = src.below(27) as u8;
                ensure_eq!(x.get_tryte(), here[0] + 3 * here[1] + 9 * here[2], "{}", what);
                r.put_tryte(t);
                for i in 0..3 {
                    bufs[b].v[d + i] = t / 3u8.pow(i as u32) % 3;
                }
            }
            15 => {
                what = format!("container of [{},{})", d, e);
                let mut t = TritsT::from_slice(x);
                ensure_eq!((t.size(), t.is_empty(), t.buf_len()), (m, m == 0, (m + size - 1) / size), "{}", what);
                let o = t.clone();
                ensure!(t.slice() == x && o == t && hash(&o) == hash(&t), "{}: differs", what);
                if m > 0 {
                    let i = src.below(m as u64) as usize;
                    t.slice_mut().drop(i).put_trit((here[i] + 1) % 3);
                    ensure!(o != t, "{}: changing trit {} does not show", what, i);
                    ensure!(o.slice() == x, "{}: a clone changes with its origin", what);
                }
                let z = TritsT::<TW>::zero(m);
                ensure_eq!(z.slice() == x, here.iter().all(|t| *t == 0), "{}: zero container", what);
            }
            16 => {
                what = format!("cycled containers of [{},{})", d, e);
                if m == 0 {
                    continue;
                }
                let k = src.upto(150);
                let t = TritsT::cycle_trits(k, &TritsT::from_slice(x));
                let got: Vec<u8> = (0..k).map(|i| t.slice().drop(i).get_trit()).collect();
                ensure_trits!(got, (0..k).map(|i| here[i % m]).collect::<Vec<_>>(), "{}", what);
                // Over a slice of the words themselves.
                let k = bufs[b].words.len() - 2 * GUARD;
                let s = TritSliceT::from_slice(n, &bufs[b].words[GUARD..GUARD + k]);
                ensure!(s == v.as_const() && s.is_same(v.as_const()), "view of the words");
            }
            _ => {
                what = format!("bounded views of [{},{})", d, e);
                let k = *src.pick(&[0, 1, m, m + 1, usize::MAX, usize::MAX - d]);
                let q = k.min(m);
                let (a, z) = x.split_at_min(k);
                ensure_eq!((a.size(), z.size()), (q, m - q), "{}", what);
                ensure!(a.is_same(x) && z.is_same(x.drop(q)), "{}: not where they should be", what);
                ensure!(r.drop_min(k).diff(r).size() == q, "{}: difference", what);
                ensure!(x.dropped().is_same(v.as_const()) && x.dropped().size() == d, "{}: dropped part", what);
                ensure!(x.pickup_all().is_same(v.as_const()), "{}: pickup_all", what);
            }
        }
        src.note(|| format!("{} of buffer {}", what, b));
        for b in &bufs {
            b.check(guard, &what)?;
        }
    }
    if inner && size > 1 {
        src.nontrivial();
    }
    Ok(())
}

fn c32_large(src: &mut Src) -> Res {
    src.big = 1;
    c32(src)
}
fn c32(src: &mut Src) -> Res {
    macro_rules! go {
        ($k:expr, $e:expr) => {{
            let g = src.raw() % 3u64.pow($k as u32);
            history::<W<$k, $e>>(src, W::<$k, $e>::of(g))
        }};
    }
    match src.below(9) {
        0 => go!(1, 0),
        1 => go!(1, 1),
        2 => go!(2, 0),
        3 => go!(3, 1),
        4 => go!(4, 0),
        5 => go!(5, 0),
        6 => go!(9, 1),
        7 => go!(20, 0),
        _ => go!(40, 1),
    }
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C32",
        rule: "a case runs up to 12 operations on two buffers over one of nine trit words against plain vectors, comparing all trits and the words around after each; non-trivial: more than one trit per word and a view that begins inside a word and spans more than one",
        sections: vec![sec("word histories", 2_500_000, 120_000_000, c32), sec("large sizes", 20_000, 1_000_000, c32_large)],
    }]
}
