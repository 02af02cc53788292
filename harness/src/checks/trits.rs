//! C01 - C04: trit fields, text, views, counter.

use crate::engine::*;
use crate::model;
use crate::util::*;
use crate::{ensure, ensure_eq, ensure_trits};
use iota_mam::trits::util as tu;
use iota_mam::trits::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Memory with margins around a buffer. The margins hold a value that is not a trit, so that
/// reading or writing beyond the buffer shows.
const MARGIN: usize = 64;
const FILL: u8 = 0x5b;

struct Mem {
    real: Vec<u8>,
    model: Vec<u8>,
    n: usize,
}
impl Mem {
    fn new(content: &[u8]) -> Self {
        let mut m = vec![FILL; MARGIN];
        m.extend_from_slice(content);
        m.extend(vec![FILL; MARGIN]);
        Mem { real: m.clone(), model: m, n: content.len() }
    }
    fn view(&mut self) -> TritSliceMut<'static> {
        TritSliceMut::from_raw_ptr(self.n, unsafe { self.real.as_mut_ptr().add(MARGIN) })
    }
    fn get(&self, i: usize) -> u8 {
        self.model[MARGIN + i]
    }
    fn set(&mut self, i: usize, t: u8) {
        self.model[MARGIN + i] = t;
    }
    fn range(&self, a: usize, b: usize) -> Vec<u8> {
        self.model[MARGIN + a..MARGIN + b].to_vec()
    }
    fn check(&self, what: &str) -> Res {
        if self.real != self.model {
            let i = self.real.iter().zip(&self.model).position(|(a, b)| a != b).unwrap();
            return Err(format!(
                "{}: memory differs at trit {} of a {}-trit buffer: {} instead of {}",
                what,
                i as i64 - MARGIN as i64,
                self.n,
                self.real[i],
                self.model[i]
            ));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C01

const WIDTHS: [usize; 5] = [1, 3, 6, 9, 18];

fn put_field(w: usize, s: TritSliceMut, v: i64) {
    match w {
        1 => s.put1(v as Trint1),
        3 => s.put3(v as Trint3),
        6 => s.put6(v as Trint6),
        9 => s.put9(v as Trint9),
        _ => s.put18(v as Trint18),
    }
}
fn get_field(w: usize, s: TritSlice) -> i64 {
    match w {
        1 => s.get1() as i64,
        3 => s.get3() as i64,
        6 => s.get6() as i64,
        9 => s.get9() as i64,
        _ => s.get18() as i64,
    }
}

/// The trits before a field: a few, or very many in a section with large sizes.
fn offset(src: &mut Src, max: usize) -> usize {
    if src.big > 0 {
        src.size(max)
    } else {
        src.upto(max)
    }
}
fn field_case(src: &mut Src, w: usize, v: i64) -> Res {
    let before = offset(src, 40);
    let after = src.upto(40);
    let content = src.trits(before + w + after);
    let mut m = Mem::new(&content);
    let view = m.view().drop(before);
    // The view may be cut exactly at the end of the field.
    let view = if src.bool() { view.take(w) } else { view };
    src.note(|| format!("put{} {} at offset {} of {} trits", w, v, before, content.len()));
    if v != 0 && before + after > 0 {
        src.nontrivial();
    }
    // Reading what is there.
    let here = m.range(before, before + w);
    ensure_eq!(get_field(w, view.as_const()), model::value(&here), "get{} of {}", w, show(&here));
    m.check("get")?;
    put_field(w, view, v);
    for (i, t) in model::trits_of(v, w).into_iter().enumerate() {
        m.set(before + i, t);
    }
    m.check(&format!("put{} {} at offset {}", w, v, before))?;
    ensure_eq!(get_field(w, view.as_const()), v, "get{} after put{} {}", w, w, v);
    m.check("get after put")
}

fn c01_small(src: &mut Src) -> Res {
    // 3 + 27 + 729 values of the 1-, 3- and 6-trit fields.
    let i = src.below(759) as i64;
    if i < 3 {
        field_case(src, 1, i - 1)
    } else if i < 30 {
        field_case(src, 3, i - 3 - 13)
    } else {
        field_case(src, 6, i - 30 - 364)
    }
}
fn c01_nine(src: &mut Src) -> Res {
    let i = src.below(19683) as i64;
    field_case(src, 9, i - 9841)
}
fn c01_eighteen(src: &mut Src) -> Res {
    let max = (3i64.pow(18) - 1) / 2;
    let v = match src.weighted(&[50, 20, 20, 10]) {
        0 => src.irange(-max, max),
        1 => {
            // Around a change of the upper half.
            let k = src.irange(-9841, 9841);
            (k * 19683 + if src.bool() { 9841 } else { -9841 } + src.irange(-2, 2)).clamp(-max, max)
        }
        2 => {
            let p = src.range(0, 17) as u32;
            let s = 3i64.pow(p);
            let s = if src.bool() { s } else { (s - 1) / 2 };
            let v = s + src.irange(-2, 2);
            if src.bool() { v } else { -v }
        }
        _ => {
            let v = max - src.upto(3) as i64;
            if src.bool() { v } else { -v }
        }
    };
    field_case(src, 18, v)
}
fn c01_far(src: &mut Src) -> Res {
    src.big = 1;
    match src.below(5) {
        0 => {
            let w = *src.pick(&[1usize, 3, 6, 9]);
            let m = (3i64.pow(w as u32) - 1) / 2;
            let v = src.irange(-m, m);
            field_case(src, w, v)
        }
        1 | 2 => c01_eighteen(src),
        _ => c01_unsigned(src),
    }
}
fn c01_unsigned(src: &mut Src) -> Res {
    let before = offset(src, 30);
    let k = src.upto(30);
    let after = src.upto(30);
    let content = src.trits(before + k + 3 + after);
    let mut m = Mem::new(&content);
    let view = m.view().drop(before);
    src.nontrivial();
    match src.below(5) {
        0 => {
            let t = src.below(3) as u8;
            view.put_trit(t);
            m.set(before, t);
            m.check("put_trit")?;
            ensure_eq!(view.as_const().get_trit(), t, "get_trit");
        }
        1 => {
            let t = src.below(27) as u8;
            let old = m.range(before, before + 3);
            ensure_eq!(view.as_const().get_tryte(), old[0] + 3 * old[1] + 9 * old[2], "get_tryte of {}", show(&old));
            view.put_tryte(t);
            m.set(before, t % 3);
            m.set(before + 1, t / 3 % 3);
            m.set(before + 2, t / 9);
            m.check("put_tryte")?;
            ensure_eq!(view.as_const().get_tryte(), t, "get_tryte");
        }
        2 => {
            let ts = src.trits(k);
            view.put_trits(&ts);
            for (i, t) in ts.iter().enumerate() {
                m.set(before + i, *t);
            }
            m.check("put_trits")?;
            let mut back = vec![9; k];
            view.as_const().get_trits(&mut back);
            ensure_trits!(back, ts, "get_trits");
        }
        3 => {
            let ts = src.trits(k);
            let t1: Vec<i8> = ts.iter().map(|t| model::bal1(*t) as i8).collect();
            view.put1s(&t1);
            for (i, t) in ts.iter().enumerate() {
                m.set(before + i, *t);
            }
            m.check("put1s")?;
            let mut back = vec![9i8; k];
            view.as_const().get1s(&mut back);
            ensure_eq!(back, t1, "get1s");
        }
        _ => {
            // Several fields next to one another do not disturb each other.
            let mut at = 0;
            let mut vals = Vec::new();
            while at < k {
                let w = *src.pick(&WIDTHS);
                if at + w > k + 3 + after {
                    break;
                }
                let max = (3i64.pow(w as u32) - 1) / 2;
                let v = src.irange(-max, max);
                put_field(w, view.drop(at), v);
                for (i, t) in model::trits_of(v, w).into_iter().enumerate() {
                    m.set(before + at + i, t);
                }
                vals.push((at, w, v));
                at += w;
            }
            m.check("consecutive fields")?;
            for (at, w, v) in vals {
                ensure_eq!(get_field(w, view.drop(at).as_const()), v, "consecutive get{}", w);
            }
        }
    }
    m.check("reading")
}
fn c01_mods(src: &mut Src) -> Res {
    let (w, m) = *src.pick(&[(1u32, 3i64), (3, 27), (9, 19683)]);
    let half = (m - 1) / 2;
    let lo = i32::MIN as i64 + half + 1;
    let hi = i32::MAX as i64 - half - 1;
    let t = match src.weighted(&[30, 30, 20, 20]) {
        0 => src.irange(lo, hi),
        1 => src.irange(-70000, 70000),
        2 => {
            let k = src.irange(lo / m + 1, hi / m - 1);
            (k * m + if src.bool() { half } else { -half } + src.irange(-1, 1)).clamp(lo, hi)
        }
        _ => {
            if src.bool() {
                hi - src.upto(40) as i64
            } else {
                lo + src.upto(40) as i64
            }
        }
    };
    src.note(|| format!("mods{} of {}", w, t));
    if t < 0 || t > half {
        src.nontrivial();
    }
    let (r, q) = match w {
        1 => {
            let (r, q) = tu::mods1(t as i32);
            (r as i64, q as i64)
        }
        3 => {
            let (r, q) = tu::mods3(t as i32);
            (r as i64, q as i64)
        }
        _ => {
            let (r, q) = tu::mods9(t as i32);
            (r as i64, q as i64)
        }
    };
    ensure!(-half <= r && r <= half, "mods{}({}): remainder {} out of range", w, t, r);
    ensure_eq!(q * m + r, t, "mods{}({}) = ({}, {}) recombined", w, t, r, q);
    Ok(())
}
fn c01_mods_usize(src: &mut Src) -> Res {
    let t: usize = match src.weighted(&[40, 30, 30]) {
        0 => src.raw() as usize,
        1 => src.upto(2000),
        _ => usize::MAX - src.upto(60),
    };
    src.note(|| format!("mods*_usize of {}", t));
    if t > 13 {
        src.nontrivial();
    }
    let (r, q) = tu::mods1_usize(t);
    ensure!((-1..=1).contains(&r), "mods1_usize({}): remainder {}", t, r);
    ensure_eq!(q as i128 * 3 + r as i128, t as i128, "mods1_usize({})", t);
    let (r, q) = tu::mods3_usize(t);
    ensure!((-13..=13).contains(&r), "mods3_usize({}): remainder {}", t, r);
    ensure_eq!(q as i128 * 27 + r as i128, t as i128, "mods3_usize({})", t);
    Ok(())
}

// ---------------------------------------------------------------- C02

fn any_char(src: &mut Src) -> char {
    match src.weighted(&[50, 20, 15, 15]) {
        0 => model::char_of(src.irange(-13, 13)),
        1 => src.below(128) as u8 as char,
        2 => *src.pick(&['@', '[', 'a', 'z', '8', ':', '\u{41}', '\u{141}', '\u{139}', '\u{ff21}', '\u{0}', '\u{10041}', 'Я', '0']),
        _ => char::from_u32(src.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
    }
}
fn valid_text(src: &mut Src, max: usize) -> String {
    if src.big > 0 {
        let n = src.size(max);
        return model::text(&src.rtrits(3 * n));
    }
    let n = src.upto(max);
    (0..n).map(|_| model::char_of(src.irange(-13, 13))).collect()
}

fn c02_tables(src: &mut Src) -> Res {
    let i = src.below(27 + 0x500) as u32;
    src.nontrivial();
    if i < 27 {
        let t = i as u8;
        let v = if t > 13 { t as i64 - 27 } else { t as i64 };
        let c = model::char_of(v);
        ensure_eq!(tu::tryte_to_char(t), c, "tryte_to_char({})", t);
        ensure_eq!(tu::tryte_from_char(c), Some(t), "tryte_from_char({:?})", c);
        ensure_eq!(tu::tryte_to_trint3(t) as i64, v, "tryte_to_trint3({})", t);
        ensure_eq!(tu::tryte_from_trint3(v as i8), t, "tryte_from_trint3({})", v);
        ensure_eq!(tu::trint3_to_char(v as i8), c, "trint3_to_char({})", v);
        ensure_eq!(tu::trint3_from_char(c), Some(v as i8), "trint3_from_char({:?})", c);
    } else if let Some(c) = char::from_u32(i - 27) {
        let v = model::value_of_char(c);
        ensure_eq!(tu::trint3_from_char(c).map(|v| v as i64), v, "trint3_from_char({:?})", c);
        ensure_eq!(tu::tryte_from_char(c).map(tu::tryte_to_trint3).map(|v| v as i64), v, "tryte_from_char({:?})", c);
    }
    Ok(())
}
fn c02_text(src: &mut Src) -> Res {
    let mut s = valid_text(src, 60);
    if src.chance(10) {
        s = s.repeat(src.range(2, 20));
    }
    src.note(|| format!("text {:?}", s));
    if s.len() > 1 {
        src.nontrivial();
    }
    let expect = model::parse(&s).unwrap();
    let t = match Trits::from_str(&s) {
        Some(t) => t,
        None => return Err(format!("from_str refuses {:?}", s)),
    };
    ensure_trits!(ve(&t), expect, "from_str({:?})", s);
    ensure_eq!(t.to_str(), s, "to_str of from_str");
    ensure_eq!(format!("{}", t), s, "Display of from_str");
    // Into a larger buffer: only the text's trits change.
    let before = src.upto(10);
    let after = src.upto(10);
    let content = src.trits(before + expect.len() + after);
    let mut m = Mem::new(&content);
    ensure!(m.view().drop(before).from_str(&s), "slice from_str refuses {:?}", s);
    for (i, t) in expect.iter().enumerate() {
        m.set(before + i, *t);
    }
    m.check("slice from_str")?;
    let back = m.view().drop(before).take(expect.len());
    ensure_eq!(back.as_const().to_str(), s, "slice to_str");
    ensure_eq!(format!("{}", back), s, "slice Display");
    // Cycling.
    if !s.is_empty() {
        let n = src.size(200);
        let c: Vec<u8> = (0..n).map(|i| expect[i % expect.len()]).collect();
        ensure_trits!(ve(&Trits::cycle_str(n, &s)), c, "cycle_str({}, {:?})", n, s);
        ensure_trits!(ve(&Trits::cycle_trits(n, &t)), c, "cycle_trits({}, {:?})", n, s);
    }
    Ok(())
}
/// Texts and buffers far beyond the usual sizes.
fn c02_large(src: &mut Src) -> Res {
    src.big = 2;
    match src.below(3) {
        0 => c02_text(src),
        1 => c02_print(src),
        _ => c02_invalid(src),
    }
}
fn c02_print(src: &mut Src) -> Res {
    let before = src.upto(5);
    let n = src.size(400);
    let content = src.trits(before + n);
    let mut m = Mem::new(&content);
    let v = m.view().drop(before).as_const();
    if n % 3 != 0 {
        src.nontrivial();
    }
    let expect = model::text(&content[before..]);
    src.note(|| format!("print {} trits: {:?}", n, expect));
    ensure_eq!(v.to_str(), expect, "to_str of {} trits", n);
    ensure_eq!(format!("{}", v), expect, "Display of {} trits", n);
    let t = v.clone_trits();
    ensure_eq!(t.to_str(), expect, "Trits::to_str of {} trits", n);
    ensure_eq!(format!("{}", t), expect, "Trits Display of {} trits", n);
    if n > 0 {
        ensure_eq!(v.get_char(), expect.chars().next().unwrap(), "get_char");
    }
    // Back again: the padded text parses to the trits followed by zeros.
    let mut padded = content[before..].to_vec();
    padded.resize((n + 2) / 3 * 3, 0);
    match Trits::from_str(&expect) {
        Some(t) => ensure_trits!(ve(&t), padded, "reparse"),
        None => return Err(format!("printed text {:?} does not parse", expect)),
    }
    m.check("printing")
}
fn c02_invalid(src: &mut Src) -> Res {
    // Text with arbitrary characters into a buffer that may be too small for it.
    let len = src.upto(12);
    let mut s: String = valid_text(src, len);
    if src.chance(60) {
        let at = src.upto(s.chars().count());
        let c = any_char(src);
        let mut v: Vec<char> = s.chars().collect();
        v.insert(at, c);
        s = v.into_iter().collect();
    }
    for _ in 0..src.upto(3) {
        s.push('9');
    }
    let k = s.chars().count();
    let n = if src.chance(50) { src.upto(3 * k + 4) } else { 3 * k };
    let before = src.upto(5);
    let after = src.upto(5);
    let content = src.trits(before + n + after);
    // Expectation, character by character.
    let parsed = model::parse(&s);
    let ok = match &parsed {
        None => false,
        Some(t) => t.iter().skip(n).all(|t| *t == 0),
    };
    if !ok {
        src.nontrivial();
        src.label("refused");
    } else {
        src.label("accepted");
    }
    src.note(|| format!("parse {:?} into {} trits, expect {}", s, n, ok));
    let mut m = Mem::new(&content);
    let got = m.view().drop(before).take(n).from_str(&s);
    ensure_eq!(got, ok, "from_str({:?}) into {} trits", s, n);
    if ok {
        for (i, t) in parsed.as_ref().unwrap().iter().take(n).enumerate() {
            m.set(before + i, *t);
        }
        m.check("from_str")?;
    } else {
        // What a refused text leaves in the target is unspecified; around it nothing changes.
        for i in 0..n {
            m.model[MARGIN + before + i] = m.real[MARGIN + before + i];
        }
        m.check("refused from_str")?;
    }
    ensure_eq!(Trits::from_str(&s).is_some(), parsed.is_some(), "Trits::from_str({:?})", s);
    // One character.
    let c = any_char(src);
    let room = src.upto(4);
    let content = src.trits(room + 3);
    let mut m = Mem::new(&content);
    let v = model::value_of_char(c).map(|v| model::trits_of(v, 3));
    let ok = v.as_ref().map_or(false, |t| t.iter().skip(room).all(|t| *t == 0));
    ensure_eq!(m.view().take(room).put_char(c), ok, "put_char({:?}) into {} trits", c, room);
    if ok {
        for (i, t) in v.unwrap().iter().take(room).enumerate() {
            m.set(i, *t);
        }
        m.check("put_char")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Copy)]
struct View {
    b: usize,
    n: usize,
    d: usize,
    r: TritSliceMut<'static>,
    c: TritSlice<'static>,
}
impl View {
    fn size(&self) -> usize {
        self.n - self.d
    }
    fn with(&self, n: usize, d: usize, r: TritSliceMut<'static>, c: TritSlice<'static>) -> View {
        View { b: self.b, n, d, r, c }
    }
    fn overlaps(&self, o: &View) -> bool {
        self.b == o.b && self.d < o.n && o.d < self.n
    }
    fn same(&self, o: &View) -> bool {
        self.b == o.b && self.d == o.d
    }
    /// Starts and sizes of both real forms agree with the model, and so does the content.
    fn check(&self, mems: &[Mem], what: &str) -> Res {
        let (r, c) = (self.r, self.c);
        ensure_eq!((r.size(), c.size()), (self.size(), self.size()), "{}: size", what);
        ensure_eq!((r.avail_size(), c.avail_size()), (self.size(), self.size()), "{}: avail_size", what);
        ensure_eq!((r.total_size(), c.total_size()), (self.n, self.n), "{}: total_size", what);
        ensure_eq!((r.dropped_size(), c.dropped_size()), (self.d, self.d), "{}: dropped_size", what);
        ensure_eq!((r.is_empty(), c.is_empty()), (self.size() == 0, self.size() == 0), "{}: is_empty", what);
        let expect = mems[self.b].range(self.d, self.n);
        ensure_trits!(sl(c), expect, "{}: content of the constant view", what);
        ensure_trits!(sl(r.as_const()), expect, "{}: content of the mutable view", what);
        Ok(())
    }
}

fn count(src: &mut Src, size: usize) -> usize {
    // Any count for the bounded operations, up to the largest integer.
    match src.weighted(&[50, 20, 15, 15]) {
        0 => src.upto(size),
        1 => size + src.upto(5),
        2 => usize::MAX - src.upto(80),
        _ => src.raw() as usize,
    }
}

fn c03_history(src: &mut Src) -> Res {
    histories(src, false)
}
fn c03_large(src: &mut Src) -> Res {
    src.big = 2;
    if src.chance(15) {
        return c03_containers(src);
    }
    histories(src, true)
}
fn histories(src: &mut Src, large: bool) -> Res {
    let nb = src.range(1, 3);
    let mut mems: Vec<Mem> = (0..nb)
        .map(|_| {
            let n = match src.weighted(&[80, 16, 4]) {
                0 => src.size(40),
                1 => src.len(300),
                _ => src.len(1600),
            };
            Mem::new(&src.trits(n))
        })
        .collect();
    let mut views: Vec<View> = (0..nb)
        .map(|b| {
            let r = mems[b].view();
            View { b, n: mems[b].n, d: 0, r, c: r.as_const() }
        })
        .collect();
    let steps = src.range(1, if large { 8 } else { 30 });
    let mut kinds = 0u32;
    for _ in 0..steps {
        let i = src.below(views.len() as u64) as usize;
        let v = views[i];
        let op = src.below(36);
        kinds |= 1 << (op % 32);
        let (n, d, s) = (v.n, v.d, v.size());
        let mut new: Vec<View> = Vec::new();
        let mut what = String::new();
        macro_rules! one {
            ($name:expr, $n:expr, $d:expr, $m:ident($($a:expr),*)) => {{
                what = format!("{} on [{},{}) of buffer {}", $name, d, n, v.b);
                new.push(v.with($n, $d, v.r.$m($($a),*), v.c.$m($($a),*)));
            }};
        }
        match op {
            0 => {
                let k = src.upto(s);
                one!(format!("take({})", k), d + k, d, take(k))
            }
            1 => {
                let k = count(src, s);
                one!(format!("take_min({})", k), d + k.min(s), d, take_min(k))
            }
            2 => {
                let k = src.upto(s);
                one!(format!("drop({})", k), n, d + k, drop(k))
            }
            3 => {
                let k = count(src, s);
                one!(format!("drop_min({})", k), n, d + k.min(s), drop_min(k))
            }
            4 => {
                let k = src.upto(s);
                what = format!("split_at({}) on [{},{})", k, d, n);
                let (a, b) = v.r.split_at(k);
                let (e, f) = v.c.split_at(k);
                new.push(v.with(d + k, d, a, e));
                new.push(v.with(n, d + k, b, f));
            }
            5 => {
                let k = count(src, s);
                what = format!("split_at_min({}) on [{},{})", k, d, n);
                let (a, b) = v.r.split_at_min(k);
                let (e, f) = v.c.split_at_min(k);
                let k = k.min(s);
                new.push(v.with(d + k, d, a, e));
                new.push(v.with(n, d + k, b, f));
            }
            6 => {
                let k = src.upto(d);
                one!(format!("pickup({})", k), n, d - k, pickup(k))
            }
            7 => one!("pickup_all", n, 0, pickup_all()),
            8 => one!("drop_all", n, n, drop_all()),
            9 => one!("dropped", d, 0, dropped()),
            10 => {
                let k = src.upto(s);
                what = format!("advance({}) on [{},{})", k, d, n);
                let (mut r, mut c) = (v.r, v.c);
                let (a, b) = (r.advance(k), c.advance(k));
                new.push(v.with(d + k, d, a, b));
                new.push(v.with(n, d + k, r, c));
            }
            11 => {
                // The difference to any view of the same buffer that begins before this one and
                // reaches it, or to an earlier state of the same view.
                let olds: Vec<View> = views.iter().filter(|w| w.b == v.b && w.d <= d && d <= w.n).cloned().collect();
                if src.chance(50) {
                    let w = olds[src.below(olds.len() as u64) as usize];
                    what = format!("diff of [{},{}) to [{},{})", d, n, w.d, w.n);
                    new.push(v.with(d, w.d, v.r.diff(w.r), v.c.diff(w.c)));
                } else {
                    let k = src.upto(d);
                    what = format!("diff to {} back on [{},{})", k, d, n);
                    let (r0, c0) = (v.r.pickup(k), v.c.pickup(k));
                    new.push(v.with(d, d - k, v.r.diff(r0), v.c.diff(c0)));
                }
            }
            12 => {
                let k = count(src, s);
                ensure_eq!(v.r.size_min(k), k.min(s), "size_min({})", k);
                ensure_eq!(v.c.size_min(k), k.min(s), "size_min({})", k);
                what = "size_min".into();
            }
            13 => {
                what = format!("set_zero on [{},{})", d, n);
                v.r.set_zero();
                for i in d..n {
                    mems[v.b].set(i, 0);
                }
            }
            14 => {
                let t = src.below(3) as u8;
                what = format!("set_trit({}) on [{},{})", t, d, n);
                v.r.set_trit(t);
                for i in d..n {
                    mems[v.b].set(i, t);
                }
            }
            15 => {
                let k = src.range(1, 50);
                what = format!("chunks({}) on [{},{})", k, d, n);
                let ch = v.c.chunks(k);
                let expect: Vec<Vec<u8>> = mems[v.b].range(d, n).chunks(k).map(|c| c.to_vec()).collect();
                ensure_eq!(ch.iter().map(ve).collect::<Vec<_>>(), expect, "{}", what);
            }
            16 => {
                what = format!("clone_trits on [{},{})", d, n);
                let t = v.c.clone_trits();
                ensure_trits!(ve(&t), mems[v.b].range(d, n), "{}", what);
                ensure_trits!(ve(&Trits::from_slice(v.c)), mems[v.b].range(d, n), "from_slice: {}", what);
                ensure_eq!(t.size(), s, "{}: size", what);
                ensure_eq!(t.is_empty(), s == 0, "{}: is_empty", what);
            }
            _ => {
                // Two views.
                let j = src.below(views.len() as u64) as usize;
                let w = views[j];
                what = format!("[{},{}) of {} with [{},{}) of {}", d, n, v.b, w.d, w.n, w.b);
                match op {
                    17 | 18 => {
                        ensure_eq!(v.c.is_same(w.c), v.same(&w), "is_same: {}", what);
                        ensure_eq!(v.r.is_same(w.r), v.same(&w), "mutable is_same: {}", what);
                        if s > 0 && w.size() > 0 {
                            ensure_eq!(v.c.is_overlapped(w.c), v.overlaps(&w), "is_overlapped: {}", what);
                            ensure_eq!(v.r.is_overlapped(w.r), v.overlaps(&w), "mutable is_overlapped: {}", what);
                        }
                    }
                    19 | 20 => {
                        let (x, y) = (mems[v.b].range(d, n), mems[w.b].range(w.d, w.n));
                        let m = x.len().min(y.len());
                        ensure_eq!(v.c == w.c, x == y, "==: {}", what);
                        ensure_eq!(v.r == w.r, x == y, "mutable ==: {}", what);
                        ensure_eq!(v.c.clone_trits() == w.c.clone_trits(), x == y, "Trits ==: {}", what);
                        ensure_eq!(v.c.eq_min(w.c), (x[..m] == y[..m], m), "eq_min: {}", what);
                        ensure_eq!(v.r.eq_min(w.r), (x[..m] == y[..m], m), "mutable eq_min: {}", what);
                        ensure_eq!(TritSlice::eq(v.c.take(m), w.c.take(m)), x[..m] == y[..m], "eq: {}", what);
                        ensure_eq!(TritSliceMut::eq(v.r.take(m), w.r.take(m)), x[..m] == y[..m], "mutable eq: {}", what);
                    }
                    21 | 22 => {
                        // The views may overlap: what was there before is what arrives.
                        let m = s.min(w.size());
                        let x = mems[v.b].range(d, d + m);
                        if op == 21 {
                            what = format!("copy_min {}", what);
                            ensure_eq!(v.c.copy_min(w.r), m, "{}: count", what);
                        } else {
                            what = format!("copy {} trits {}", m, what);
                            v.c.take(m).copy(w.r.take(m));
                        }
                        for (k, t) in x.iter().enumerate() {
                            mems[w.b].set(w.d + k, *t);
                        }
                    }
                    23 | 24 => {
                        if v.overlaps(&w) {
                            continue;
                        }
                        what = format!("cycle from {}", what);
                        w.r.cycle(v.c);
                        if s > 0 {
                            let x = mems[v.b].range(d, n);
                            for k in 0..w.size() {
                                mems[w.b].set(w.d + k, x[k % s]);
                            }
                        }
                    }
                    25 | 26 | 27 | 28 => {
                        if v.overlaps(&w) {
                            continue;
                        }
                        let m = s.min(w.size());
                        let add = op < 27;
                        what = format!("swap_{} {}", if add { "add" } else { "sub" }, what);
                        if op % 2 == 0 {
                            let k = if add { v.r.swap_add_min(w.r) } else { v.r.swap_sub_min(w.r) };
                            ensure_eq!(k, m, "{}: count", what);
                        } else if add {
                            v.r.take(m).swap_add(w.r.take(m));
                        } else {
                            v.r.take(m).swap_sub(w.r.take(m));
                        }
                        for k in 0..m {
                            let (x, y) = (mems[v.b].get(d + k), mems[w.b].get(w.d + k));
                            if add {
                                mems[v.b].set(d + k, (x + y) % 3);
                                mems[w.b].set(w.d + k, x);
                            } else {
                                let t = (x + 3 - y) % 3;
                                mems[v.b].set(d + k, t);
                                mems[w.b].set(w.d + k, t);
                            }
                        }
                    }
                    _ => {
                        // x, state and y; x and y have one size and are the same or disjoint.
                        let u = views[src.below(views.len() as u64) as usize];
                        if v.overlaps(&w) || u.overlaps(&w) || (u.overlaps(&v) && !u.same(&v)) {
                            continue;
                        }
                        let m = s.min(u.size());
                        let (x, y) = (v.c.take(m), u.r.take(m));
                        let k = m.min(w.size());
                        let add = op % 2 == 0;
                        what = format!("copy_{} {} to [{},{}) of {}", if add { "add" } else { "sub" }, what, u.d, u.n, u.b);
                        if op < 33 {
                            let got = if add { x.copy_add_min(w.r, y) } else { x.copy_sub_min(w.r, y) };
                            ensure_eq!(got, k, "{}: count", what);
                        } else if add {
                            x.take(k).copy_add(w.r.take(k), y.take(k));
                        } else {
                            x.take(k).copy_sub(w.r.take(k), y.take(k));
                        }
                        for q in 0..k {
                            let (x, t) = (mems[v.b].get(d + q), mems[w.b].get(w.d + q));
                            if add {
                                mems[w.b].set(w.d + q, x);
                                mems[u.b].set(u.d + q, (x + t) % 3);
                            } else {
                                let z = (x + 3 - t) % 3;
                                mems[w.b].set(w.d + q, z);
                                mems[u.b].set(u.d + q, z);
                            }
                        }
                    }
                }
            }
        }
        src.note(|| what.clone());
        for m in &mems {
            m.check(&what)?;
        }
        for v in &new {
            v.check(&mems, &what)?;
        }
        for v in new {
            if views.len() < 12 {
                views.push(v);
            } else {
                let k = src.below(12) as usize;
                views[k] = v;
            }
        }
    }
    if kinds.count_ones() >= 5 {
        src.nontrivial();
    }
    for v in &views {
        v.check(&mems, "at the end")?;
    }
    Ok(())
}

fn c03_containers(src: &mut Src) -> Res {
    let n = src.size(300);
    let a = src.trits(n);
    let mut b = a.clone();
    let changed = n > 0 && src.chance(60);
    if changed {
        let i = src.below(n as u64) as usize;
        b[i] = (b[i] + 1 + src.below(2) as u8) % 3;
        src.nontrivial();
    }
    let longer = src.chance(20);
    if longer {
        b.push(0);
    }
    let (x, y) = (tr(&a), tr(&b));
    ensure_eq!(x == y, a == b, "equality of containers of {} and {} trits", a.len(), b.len());
    ensure_eq!(x.slice() == y.slice(), a == b, "equality of slices");
    let h = |t: &Trits| {
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        h.finish()
    };
    if a == b {
        ensure_eq!(h(&x), h(&y), "hashes of equal containers");
    }
    let c = x.clone();
    ensure!(c == x && h(&c) == h(&x), "clone differs");
    ensure_trits!(ve(&Trits::zero(n)), vec![0; n], "zero");
    ensure_eq!(x.size(), n, "size");
    ensure_eq!(x.is_empty(), n == 0, "is_empty");
    ensure_eq!(x.buf_len(), n, "buf_len");
    // A clone is independent.
    let mut c = c;
    c.slice_mut().set_trit(2);
    ensure_trits!(ve(&x), a, "original after changing the clone");
    // Views over a caller's array.
    let k = src.upto(n);
    let s = TritSlice::from_slice(k, &a);
    ensure_trits!(sl(s), a[..k], "TritSlice::from_slice");
    ensure_trits!(sl(TritSlice::from_trits(&x)), a, "TritSlice::from_trits");
    let mut arr = b.clone();
    TritSliceMut::from_slice_mut(k, &mut arr).set_zero();
    let mut e = b.clone();
    e[..k].fill(0);
    ensure_trits!(arr, e, "TritSliceMut::from_slice_mut");
    let mut y = y;
    TritSliceMut::from_trits_mut(&mut y).set_trit(1);
    ensure_trits!(ve(&y), vec![1; b.len()], "TritSliceMut::from_trits_mut");
    Ok(())
}

// ---------------------------------------------------------------- C04

fn succ(v: &mut [u8]) -> bool {
    for t in v.iter_mut() {
        if *t < 2 {
            *t += 1;
            return true;
        }
        *t = 0;
    }
    false
}
fn c04_inc(src: &mut Src) -> Res {
    let before = src.upto(6);
    let n = src.size(120);
    let after = src.upto(6);
    let mut content = src.trits(before + n + after);
    // Often with a run of maximal digits so that the carry travels.
    if n > 0 && src.chance(70) {
        let k = if src.chance(30) { n } else { src.upto(n) };
        content[before..before + k].fill(2);
    }
    let mut m = Mem::new(&content);
    let steps = match src.below(4) {
        _ if n > 1000 => src.range(1, 3),
        0 => 1,
        1 => src.range(1, 10),
        2 => src.range(1, 100),
        _ => src.range(1, 1000),
    };
    src.note(|| format!("{} increments of {} at {} of {}", steps, show(&content[before..before + n]), before, content.len()));
    if n > 0 && content[before] == 2 {
        src.nontrivial();
    }
    for i in 0..steps {
        let mut cur = m.range(before, before + n);
        let ok = succ(&mut cur);
        if !ok {
            src.label("overflow");
        }
        let got = m.view().drop(before).take(n).inc();
        for (k, t) in cur.iter().enumerate() {
            m.set(before + k, *t);
        }
        m.check(&format!("increment {}", i))?;
        ensure_eq!(got, ok, "result of increment {} of {} trits", i, n);
    }
    Ok(())
}
fn c04_large(src: &mut Src) -> Res {
    src.big = 1;
    c04_inc(src)
}
fn c04_all(src: &mut Src) -> Res {
    // From zero through all values of n trits and back to zero.
    let n = src.below(8) as usize;
    let mut m = Mem::new(&vec![0; n]);
    let total = 3usize.pow(n as u32);
    src.nontrivial();
    for i in 0..total {
        let val = m.range(0, n).iter().rev().fold(0usize, |a, t| a * 3 + *t as usize);
        ensure_eq!(val, i, "model counts");
        let mut cur = m.range(0, n);
        let ok = succ(&mut cur);
        let got = m.view().inc();
        for (k, t) in cur.iter().enumerate() {
            m.set(k, *t);
        }
        m.check(&format!("value {} of {} trits", i, n))?;
        ensure_eq!(got, ok, "result at value {} of {} trits", i, n);
        ensure_eq!(ok, i + 1 < total, "overflow exactly at the last value");
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "a case writes and reads trit integer fields inside a random buffer with guarded margins; non-trivial: a non-zero value with neighbours, or a quotient different from zero",
            sections: vec![
                exh("all 1/3/6-trit values", 759, c01_small),
                exh("all 9-trit values", 19683, c01_nine),
                sec("18-trit values", 2_000_000, 40_000_000, c01_eighteen),
                sec("unsigned and multi-trit fields", 1_500_000, 20_000_000, c01_unsigned),
                sec("large offsets", 60_000, 1_000_000, c01_far),
                sec("mods", 6_000_000, 200_000_000, c01_mods),
                sec("mods_usize", 3_000_000, 100_000_000, c01_mods_usize),
            ],
        },
        Property {
            id: "C02",
            rule: "a case parses or prints one text or buffer and compares with table-driven conversion; non-trivial: more than one character, an incomplete last tryte, or a text that must be refused",
            sections: vec![
                exh("conversion tables", 27 + 0x500, c02_tables),
                sec("valid text", 2_000_000, 100_000_000, c02_text),
                sec("printing", 2_000_000, 100_000_000, c02_print),
                sec("arbitrary text", 6_000_000, 300_000_000, c02_invalid),
                sec("large sizes", 15_000, 750_000, c02_large),
            ],
        },
        Property {
            id: "C03",
            rule: "a case runs up to 30 view operations over up to 3 buffers with guarded margins against a range model, comparing all memory after each; non-trivial: at least 5 different kinds of operation",
            sections: vec![
                sec("view histories", 5_000_000, 250_000_000, c03_history),
                sec("containers", 2_000_000, 100_000_000, c03_containers),
                sec("large sizes", 20_000, 1_000_000, c03_large),
            ],
        },
        Property {
            id: "C04",
            rule: "a case increments one buffer 1..1000 times against base-3 addition; non-trivial: the first increment carries",
            sections: vec![
                exh("all values up to 7 trits", 8, c04_all),
                sec("increments", 2_000_000, 100_000_000, c04_inc),
                sec("large sizes", 20_000, 1_000_000, c04_large),
            ],
        },
    ]
}
