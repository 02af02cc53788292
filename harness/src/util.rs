//! Conversions between the model's vectors and the code's trit containers.

use iota_mam::spongos::Spongos;
use iota_mam::trits::*;

pub fn tr(v: &[u8]) -> Trits {
    let mut t = Trits::zero(v.len());
    t.slice_mut().put_trits(v);
    t
}
pub fn sl(s: TritSlice) -> Vec<u8> {
    let mut v = vec![0u8; s.size()];
    s.get_trits(&mut v);
    v
}
pub fn ve(t: &Trits) -> Vec<u8> {
    sl(t.slice())
}
/// Fingerprint of a Spongos state, without touching it.
/// A fingerprint of what a state has taken in: without the part of the outer state that the
/// next absorbed block overwrites.
pub fn kept(s: &Spongos) -> Vec<u8> {
    let mut f = s.fork();
    f.absorb(tr(&[0; 486]).slice());
    probe(&f)
}
pub fn probe(s: &Spongos) -> Vec<u8> {
    let mut f = s.fork();
    ve(&f.squeeze_trits(1000))
}

/// Compact text of trits for traces.
pub fn show(v: &[u8]) -> String {
    let f = |v: &[u8]| v.iter().map(|t| (b'0' + *t) as char).collect::<String>();
    if v.len() > 60 {
        format!("{}..{}({} trits)", f(&v[..40]), f(&v[v.len() - 8..]), v.len())
    } else {
        f(v)
    }
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("first difference at trit {} of {}: {} instead of {}", i, a.len(), a[i], b[i]),
        None => "equal".into(),
    }
}

#[macro_export]
macro_rules! ensure_trits {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a[..], &$b[..]);
        if a != b { return Err(format!("{}: {}", format!($($arg)*), $crate::util::first_diff(a, b))); }
    }};
}

/// A buffer with random surroundings around a working range.
pub struct Frame {
    pub t: Trits,
    pub at: usize,
    pub n: usize,
    before: Vec<u8>,
}
impl Frame {
    pub fn new(src: &mut crate::engine::Src, content: &[u8]) -> Frame {
        let (a, b) = (src.upto(7), src.upto(7));
        let mut v = src.rtrits(a);
        v.extend_from_slice(content);
        v.extend(src.rtrits(b));
        Frame { t: tr(&v), at: a, n: content.len(), before: v }
    }
    pub fn slice(&self) -> TritSlice<'_> {
        self.t.slice().drop(self.at).take(self.n)
    }
    pub fn slice_mut(&mut self) -> TritSliceMut<'_> {
        self.t.slice_mut().drop(self.at).take(self.n)
    }
    pub fn get(&self) -> Vec<u8> {
        sl(self.slice())
    }
    /// The range holds `expect` and nothing around it changed.
    pub fn check(&self, expect: &[u8], what: &str) -> Result<(), String> {
        let now = ve(&self.t);
        ensure_trits!(now[self.at..self.at + self.n], expect, "{}", what);
        ensure_trits!(now[..self.at], self.before[..self.at], "{}: trits before the buffer", what);
        ensure_trits!(now[self.at + self.n..], self.before[self.at + self.n..], "{}: trits after the buffer", what);
        Ok(())
    }
}

/// Memory between two pages that must not be touched: reading or writing one trit beyond
/// either end of the buffer ends the process, which the driver reports.
pub struct Fence {
    base: *mut u8,
    pub size: usize,
}
const PAGE: usize = 4096;
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}
impl Fence {
    fn new(size: usize) -> Fence {
        let size = (size + PAGE - 1) / PAGE * PAGE;
        unsafe {
            // PROT_NONE; MAP_PRIVATE | MAP_ANONYMOUS (Linux).
            let base = mmap(std::ptr::null_mut(), size + 2 * PAGE, 0, 0x22, -1, 0);
            assert!(base as isize != -1, "harness: mmap");
            // PROT_READ | PROT_WRITE
            assert!(mprotect(base.add(PAGE), size, 3) == 0, "harness: mprotect");
            Fence { base, size }
        }
    }
    /// Put trits right before (`end`) or right behind a forbidden page.
    fn put(&mut self, v: &[u8], end: bool) -> TritSlice<'_> {
        assert!(v.len() <= self.size, "harness: fence");
        let skip = if end { self.size - v.len() } else { 0 };
        unsafe {
            let p = self.base.add(PAGE + skip);
            let s = TritSliceMut::from_raw_ptr(v.len(), p as *mut _);
            s.put_trits(v);
            TritSlice::from_raw_ptr(v.len(), p as *const _)
        }
    }
}
impl Drop for Fence {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.size + 2 * PAGE);
        }
    }
}
/// Run `f` on a view of `v` that lies next to a page that must not be touched.
pub fn fenced<T>(v: &[u8], end: bool, f: impl FnOnce(TritSlice) -> T) -> T {
    thread_local! {
        static F: std::cell::RefCell<Option<Fence>> = std::cell::RefCell::new(None);
    }
    let mut fence = match F.with(|c| c.borrow_mut().take()) {
        Some(x) if x.size >= v.len() => x,
        _ => Fence::new(v.len().max(1 << 16)),
    };
    let r = f(fence.put(v, end));
    F.with(|c| *c.borrow_mut() = Some(fence));
    r
}
