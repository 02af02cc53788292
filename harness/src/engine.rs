//! A small property-based-testing engine: all choices of a case are drawn from a
//! recorded tape, so every case can be replayed, shrunk and driven by a fuzzer.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {}, expected {}", format!($($arg)*), $crate::engine::short(a), $crate::engine::short(b))); }
    }};
}

pub fn short<T: std::fmt::Debug + ?Sized>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.len() > 300 {
        let cut = |mut i: usize| {
            while !s.is_char_boundary(i) {
                i += 1;
            }
            i
        };
        format!("{}...{}", &s[..cut(200)], &s[cut(s.len() - 60)..])
    } else {
        s
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// xoshiro256** seeded by splitmix.
#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0u64; 4];
        let mut x = seed;
        for v in s.iter_mut() {
            x = mix(x);
            *v = x;
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

/// Source of all choices of one case.
pub struct Src {
    rng: Rng,
    tape: Option<Vec<u64>>,
    /// The tape was changed: what does not fit it is drawn anew.
    loose: bool,
    pub rec: Vec<u64>,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    trace_on: bool,
    pub trace: String,
    sink: Option<std::fs::File>,
    pub thorough: bool,
    /// How many more of the sizes of this case may be far beyond the usual ones.
    pub big: u32,
    /// Trits given out in this case so far, to be given out again now and then.
    given: Vec<Vec<u8>>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            rng: Rng::new(seed),
            tape: None,
            loose: false,
            rec: Vec::new(),
            nontrivial: false,
            labels: Vec::new(),
            trace_on: false,
            trace: String::new(),
            sink: None,
            thorough: false,
            big: 0,
            given: Vec::new(),
        }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        let mut s = Self::random(0);
        s.tape = Some(tape);
        s
    }
    /// The choices from `at` on, made again.
    pub fn again(&self, at: usize, given: Vec<Vec<u8>>) -> Self {
        let mut s = Self::replay(self.rec[at..].to_vec());
        s.given = given;
        s
    }
    pub fn given(&self) -> Vec<Vec<u8>> {
        self.given.clone()
    }
    /// A case like that of `tape`, with one choice made otherwise.
    pub fn neighbour(tape: &[u64], seed: u64) -> Self {
        let mut s = Self::random(seed);
        let mut t = tape.to_vec();
        if !t.is_empty() {
            let i = s.rng.below(t.len() as u64) as usize;
            // `raw` entries are huge; others index few alternatives.
            t[i] = match s.rng.below(3) {
                0 => t[i].wrapping_add(1),
                1 => t[i].wrapping_sub(1),
                _ => s.rng.next(),
            };
        }
        s.tape = Some(t);
        s.loose = true;
        s
    }
    pub fn tracing(mut self) -> Self {
        self.trace_on = true;
        self
    }
    pub fn sink(mut self, f: std::fs::File) -> Self {
        self.sink = Some(f);
        self
    }

    fn record(&mut self, v: u64) -> u64 {
        if let Some(f) = self.sink.as_mut() {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
        self.rec.push(v);
        v
    }
    /// A choice in `0..n`; smaller is simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "harness: below(0)");
        let v = match self.tape.as_ref().map(|t| t.get(self.rec.len()).copied()) {
            Some(Some(v)) => v % n,
            Some(None) if !self.loose => 0,
            _ => self.rng.below(n),
        };
        self.record(v)
    }
    pub fn raw(&mut self) -> u64 {
        let v = match self.tape.as_ref().map(|t| t.get(self.rec.len()).copied()) {
            // A small number was a choice of another kind, and might occur twice.
            Some(Some(v)) if !self.loose || v >= 1 << 32 => v,
            Some(None) if !self.loose => 0,
            _ => self.rng.next(),
        };
        self.record(v)
    }
    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n as u64 + 1) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo) as u64 + 1) as usize
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability `p` percent (false is simpler).
    pub fn chance(&mut self, p: u64) -> bool {
        let v = self.below(100);
        v >= 100 - p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index drawn by weight.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        unreachable!()
    }
    /// `n` trits: constant, random, sparse or periodic.
    pub fn trits(&mut self, n: usize) -> Vec<u8> {
        if n == 0 {
            return Vec::new();
        }
        let v = match self.weighted(&[6, 3, 4, 55, 16, 16, 5]) {
            0 => vec![0; n],
            1 => vec![1; n],
            2 => vec![2; n],
            4 => {
                let mut v = vec![0u8; n];
                let k = self.range(1, 3);
                for _ in 0..k {
                    let i = self.below(n as u64) as usize;
                    v[i] = 1 + self.below(2) as u8;
                }
                v
            }
            5 => {
                let k = self.range(1, 9);
                let pat: Vec<u8> = (0..k).map(|_| self.below(3) as u8).collect();
                (0..n).map(|i| pat[i % k]).collect()
            }
            // What has been something else in this case.
            6 if !self.given.is_empty() => {
                let i = self.below(self.given.len() as u64) as usize;
                let g = &self.given[i];
                (0..n).map(|i| g[i % g.len()]).collect()
            }
            _ => {
                let mut r = Rng::new(self.raw());
                (0..n).map(|_| r.below(3) as u8).collect()
            }
        };
        self.give(&v);
        v
    }
    fn give(&mut self, v: &[u8]) {
        if v.len() <= 2048 && v.len() >= 9 && self.given.len() < 32 {
            self.given.push(v.to_vec());
        }
    }
    /// `n` uniformly random trits (one tape entry).
    pub fn rtrits(&mut self, n: usize) -> Vec<u8> {
        let mut r = Rng::new(self.raw());
        let v: Vec<u8> = (0..n).map(|_| r.below(3) as u8).collect();
        self.give(&v);
        v
    }
    /// A length in `0..=max`, biased to the boundaries of words, blocks and keys.
    pub fn len(&mut self, max: usize) -> usize {
        const B: [usize; 17] = [
            1, 3, 9, 27, 81, 162, 234, 243, 324, 405, 486, 729, 972, 1215, 1458, 1944, 2430,
        ];
        let v = match self.weighted(&[20, 20, 20, 40]) {
            0 => self.upto(max.min(12)),
            1 => self.upto(max.min(100)),
            2 => self.upto(max),
            _ => {
                let b = *self.pick(&B);
                let d = self.below(5) as usize;
                (b + d).saturating_sub(2)
            }
        };
        v.min(max)
    }

    /// As `len`, but now and then far beyond `max` if the section asked for that (`big`):
    /// around powers of two and three and the sizes of keys and signatures, to 131 072.
    pub fn size(&mut self, max: usize) -> usize {
        const B: [usize; 24] = [
            244, 256, 486, 512, 729, 1024, 2048, 2187, 4096, 6561, 8192, 9216, 13122, 13140, 16384, 19683, 29524, 32768, 39366, 59049, 65536,
            66000, 99999, 131072,
        ];
        if self.big > 0 && self.bool() {
            self.big -= 1;
            let k = *self.pick(&B);
            let b = match self.below(3) {
                0 => k - 3 + self.upto(6),
                1 => k + self.upto(500),
                _ => self.range(k / 2, k),
            };
            return b;
        }
        self.len(max)
    }

    /// As `len`, and once in 40 cases far beyond `max`.
    pub fn any_size(&mut self, max: usize) -> usize {
        if self.below(40) == 39 {
            self.big = 2;
            let n = self.size(max);
            self.big = 0;
            return n;
        }
        self.len(max)
    }

    /// Mark the case as non-trivial by the section's rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.trace_on && self.trace.len() < 20_000 {
            let s = f();
            let _ = writeln!(self.trace, "{}", s);
        }
    }
}

pub struct Section {
    pub name: &'static str,
    /// Number of cases in the quick and the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// `Some(n)`: enumerate indices `0..n` (the first choice of the tape) completely.
    pub exhaustive: Option<u64>,
    /// Fraction (percent) of the quick cases repeated in the plain release build.
    pub rel: u64,
    pub run: fn(&mut Src) -> Res,
}

pub fn sec(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Src) -> Res) -> Section {
    Section { name, quick, thorough, exhaustive: None, rel: 25, run }
}
pub fn exh(name: &'static str, n: u64, run: fn(&mut Src) -> Res) -> Section {
    Section { name, quick: n, thorough: n, exhaustive: Some(n), rel: 100, run }
}
impl Section {
    pub fn rel(mut self, p: u64) -> Self {
        self.rel = p;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub sections: Vec<Section>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn eval(sec: &Section, src: &mut Src) -> Res {
    crate::alloc::begin_case();
    let r = match catch(|| (sec.run)(src)) {
        Ok(r) => r,
        Err(p) => {
            if p.contains("harness:") {
                // A defect of the harness must never look like a violation.
                eprintln!("HARNESS ERROR in {}: {}", sec.name, p);
                std::process::exit(4);
            }
            Err(p)
        }
    };
    crate::alloc::end_case();
    r
}

pub fn case_seed(seed: u64, prop: &str, sec: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)) ^ hash_str(sec) ^ mix(i))
}

/// After one case in four, one that differs from it in a single choice runs in the same thread:
/// results remembered under too small a part of their input show there.
pub fn neighbour(sec: &Section, seed: u64, prop: &str, i: u64, rec: &[u64]) -> Option<Src> {
    let h = mix(case_seed(seed, prop, sec.name, i) ^ 0x6e65_6967_6862_6f75);
    if sec.exhaustive.is_some() || rec.is_empty() || h % 4 != 0 {
        return None;
    }
    Some(Src::neighbour(rec, h))
}

pub fn make_src(sec: &Section, seed: u64, prop: &str, i: u64) -> Src {
    match sec.exhaustive {
        Some(_) => {
            let mut t = vec![i];
            let mut r = Rng::new(case_seed(seed, prop, sec.name, i));
            for _ in 0..256 {
                t.push(r.next());
            }
            Src::replay(t)
        }
        None => Src::random(case_seed(seed, prop, sec.name, i)),
    }
}

#[derive(Default)]
pub struct SecStats {
    pub name: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub secs: f64,
}

pub struct Failure {
    pub section: String,
    pub index: u64,
    pub tape: Vec<u64>,
    /// The case to run before it, if it fails only then.
    pub prelude: Option<Vec<u64>>,
    pub msg: String,
    pub trace: String,
    pub shrinks: u64,
}

fn tape_hash(t: &[u64]) -> u64 {
    let mut h = 0x1234_5678u64;
    for v in t {
        h = mix(h ^ *v);
    }
    h
}

/// When each thread began its current case (milliseconds, 0: idle).
static BUSY: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

fn begin(th: usize) {
    BUSY[th % 64].store(now(), Ordering::SeqCst);
}
fn now() -> u64 {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
/// End the process with code 9 when a case runs for longer than `secs`; the driver finds out
/// which, and whether it really does not end.
pub fn watch(secs: u64) {
    now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for b in &BUSY {
            let t = b.load(Ordering::SeqCst);
            if t != 0 && now() > t + secs * 1000 {
                eprintln!("a case runs for more than {} s", secs);
                std::process::exit(9);
            }
        }
    });
}

pub fn run_section(
    prop: &str,
    si: usize,
    sec: &Section,
    seed: u64,
    n: u64,
    threads: usize,
    slots: Option<&std::fs::File>,
    thorough: bool,
) -> (SecStats, Option<Failure>) {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let fail: Mutex<Option<(u64, Vec<u64>, Vec<u64>, String)>> = Mutex::new(None);
    let merged: Mutex<(SecStats, HashSet<u64>, BTreeMap<u64, String>)> = Mutex::new(Default::default());
    std::thread::scope(|sc| {
        for th in 0..threads {
            let (next, best, fail, merged) = (&next, &best, &fail, &merged);
            let body = move || {
                let mut st = SecStats::default();
                let mut seen: HashSet<u64> = HashSet::new();
                let mut samples: BTreeMap<u64, String> = BTreeMap::new();
                let mut prev: Vec<u64> = Vec::new();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || i > best.load(Ordering::SeqCst) {
                        break;
                    }
                    if let Some(f) = slots {
                        let mut b = [0u8; 24];
                        b[..8].copy_from_slice(&1u64.to_le_bytes());
                        b[8..16].copy_from_slice(&(si as u64).to_le_bytes());
                        b[16..].copy_from_slice(&i.to_le_bytes());
                        let _ = f.write_at(&b, th as u64 * 24);
                    }
                    let mut src = make_src(sec, seed, prop, i);
                    if i < 12 {
                        src = src.tracing();
                    }
                    let mut first = true;
                    loop {
                        begin(th);
                        src.thorough = thorough;
                        let r = eval(sec, &mut src);
                        st.evaluations += 1;
                        for l in &src.labels {
                            *st.labels.entry(l.to_string()).or_insert(0) += 1;
                        }
                        if src.nontrivial {
                            st.nontrivial += 1;
                            seen.insert(tape_hash(&src.rec));
                            if i < 12 && first {
                                samples.insert(i, src.trace.clone());
                            }
                        }
                        let before = std::mem::replace(&mut prev, std::mem::take(&mut src.rec));
                        if let Err(m) = r {
                            let mut f = fail.lock().unwrap();
                            if f.as_ref().map_or(true, |(j, _, _, _)| i < *j) {
                                *f = Some((i, prev.clone(), before, m));
                                best.fetch_min(i, Ordering::SeqCst);
                            }
                            break;
                        }
                        match neighbour(sec, seed, prop, i, &prev) {
                            Some(s) if first => src = s,
                            _ => break,
                        }
                        first = false;
                    }
                }
                BUSY[th % 64].store(0, Ordering::SeqCst);
                let mut m = merged.lock().unwrap();
                m.0.evaluations += st.evaluations;
                m.0.nontrivial += st.nontrivial;
                for (k, v) in st.labels {
                    *m.0.labels.entry(k).or_insert(0) += v;
                }
                m.1.extend(seen);
                m.2.extend(samples);
                if let Some(f) = slots {
                    let _ = f.write_at(&[0u8; 24], th as u64 * 24);
                }
            };
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, body)
                .unwrap();
        }
    });
    let (mut st, seen, samples) = merged.into_inner().unwrap();
    st.name = sec.name.to_string();
    st.distinct = seen.len() as u64;
    st.samples = samples.into_values().filter(|s| !s.is_empty()).take(2).collect();
    st.secs = t0.elapsed().as_secs_f64();
    let f = fail.into_inner().unwrap().map(|(i, tape, before, msg)| {
        if let Some(f) = slots {
            // A shrink candidate may end the process; the driver then goes back to this case.
            let mut b = [0u8; 24];
            b[..8].copy_from_slice(&1u64.to_le_bytes());
            b[8..16].copy_from_slice(&(si as u64).to_le_bytes());
            b[16..].copy_from_slice(&i.to_le_bytes());
            let _ = f.write_at(&b, 0);
        }
        // In this thread, which has run no case yet.
        let fails = |t: &[u64], pre: Option<&Vec<u64>>| run_tapes(sec, t, pre, thorough).1.err();
        let prelude = match fails(&tape, None) {
            Some(_) => None,
            None => fails(&tape, Some(&before)).map(|_| before),
        };
        let (tape, prelude, msg, shrinks) = shrink(sec, tape, prelude, msg, Duration::from_secs(60), 3000, thorough);
        let (src, r) = run_tapes(sec, &tape, prelude.as_ref(), thorough);
        let msg = r.err().unwrap_or(msg);
        Failure {
            section: sec.name.to_string(),
            index: i,
            tape,
            prelude,
            msg,
            trace: src.trace,
            shrinks,
        }
    });
    (st, f)
}

/// Run `tape`, after `prelude`, tracing.
fn run_tapes(sec: &Section, tape: &[u64], prelude: Option<&Vec<u64>>, thorough: bool) -> (Src, Res) {
    if let Some(p) = prelude {
        let mut src = Src::replay(p.clone());
        src.thorough = thorough;
        begin(0);
        let _ = eval(sec, &mut src);
    }
    let mut src = Src::replay(tape.to_vec()).tracing();
    src.thorough = thorough;
    begin(0);
    let r = eval(sec, &mut src);
    BUSY[0].store(0, Ordering::SeqCst);
    (src, r)
}

/// A step of shrinking.
#[derive(Clone, Copy)]
enum Edit {
    Delete(usize, usize),
    /// Delete a block and decrement the entry before it, which may be its length.
    Shorten(usize, usize),
    Set(usize, u64),
}
impl Edit {
    fn apply(self, t: &[u64]) -> Vec<u64> {
        let mut c = t.to_vec();
        match self {
            Edit::Delete(i, k) => drop(c.drain(i.min(t.len())..(i + k).min(t.len()))),
            Edit::Shorten(i, k) => {
                if i <= c.len() {
                    c[i - 1] = c[i - 1].saturating_sub(1);
                    c.drain(i..(i + k).min(t.len()));
                }
            }
            Edit::Set(i, v) => {
                if i < c.len() {
                    c[i] = v;
                }
            }
        }
        c
    }
}
/// Edits that make `t` simpler, in the order to try them.
fn edits(t: &[u64]) -> Vec<Edit> {
    let mut out = Vec::new();
    let n = t.len();
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i + k <= n {
            out.push(Edit::Delete(i, k));
            i += k;
        }
        k /= 2;
    }
    for k in [1usize, 2, 3, 4] {
        for i in 1..n.saturating_sub(k) {
            if t[i - 1] > 0 && t[i - 1] < 64 {
                out.push(Edit::Shorten(i, k));
            }
        }
    }
    for i in 0..n {
        if t[i] > 0 {
            for v in [0, t[i] / 2, t[i] - 1] {
                if v < t[i] {
                    out.push(Edit::Set(i, v));
                }
            }
            if t[i] > 1000 {
                out.push(Edit::Set(i, 1));
                out.push(Edit::Set(i, 7));
            }
        }
    }
    out
}

pub fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// Shrink `tape`; a prelude is edited alike where it agrees with the tape.
fn shrink(
    sec: &Section,
    tape: Vec<u64>,
    prelude: Option<Vec<u64>>,
    msg: String,
    time: Duration,
    max: u64,
    thorough: bool,
) -> (Vec<u64>, Option<Vec<u64>>, String, u64) {
    let t0 = Instant::now();
    let (mut cur, mut pre, mut msg, mut tries, mut wins) = (tape, prelude, msg, 0u64, 0u64);
    'outer: loop {
        for e in edits(&cur) {
            if tries >= max || t0.elapsed() > time {
                break 'outer;
            }
            tries += 1;
            let c = e.apply(&cur);
            let p = pre.as_ref().map(|p| match e {
                Edit::Set(i, _) if p.get(i) != cur.get(i) => p.clone(),
                _ => e.apply(p),
            });
            let (src, r) = run_tapes(sec, &c, p.as_ref(), thorough);
            if let Err(m) = r {
                if simpler(&src.rec, &cur) {
                    cur = src.rec;
                    pre = p;
                    msg = m;
                    wins += 1;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (cur, pre, msg, wins)
}
