//! Z_12289[x]/(x^1024+1) on plain integers 0..12289.

use super::{trits_of, value};

pub const Q: i64 = 12289;
pub const N: usize = 1024;
pub const GAMMA: i64 = 7;
pub const HALF: i64 = (Q - 1) / 2;

pub type P = Vec<i64>;

pub fn red(v: i64) -> i64 {
    v.rem_euclid(Q)
}
pub fn bal(v: i64) -> i64 {
    let v = red(v);
    if v > HALF {
        v - Q
    } else {
        v
    }
}
pub fn pow(b: i64, mut e: i64) -> i64 {
    let (mut r, mut b) = (1, red(b));
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e >>= 1;
    }
    r
}
pub fn inv1(v: i64) -> i64 {
    pow(v, Q - 2)
}
pub fn zip(a: &P, b: &P, f: impl Fn(i64, i64) -> i64) -> P {
    a.iter().zip(b).map(|(x, y)| red(f(*x, *y))).collect()
}
pub fn map(a: &P, f: impl Fn(i64) -> i64) -> P {
    a.iter().map(|x| red(f(*x))).collect()
}
/// Schoolbook product.
pub fn mul(a: &P, b: &P) -> P {
    let mut r = vec![0i64; N];
    for (i, x) in a.iter().enumerate() {
        if *x == 0 {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            if i + j < N {
                r[i + j] += x * y;
            } else {
                r[i + j - N] -= x * y;
            }
        }
    }
    map(&r, |v| v)
}
/// The transform by its definition: values at the odd powers of gamma.
pub fn ntt_def(a: &P) -> P {
    (0..N)
        .map(|j| {
            let x = pow(GAMMA, 2 * j as i64 + 1);
            a.iter().rev().fold(0, |r, c| (r * x + c) % Q)
        })
        .collect()
}
fn fft(a: &[i64], w: i64) -> Vec<i64> {
    if a.len() == 1 {
        return a.to_vec();
    }
    let e: Vec<i64> = a.iter().step_by(2).copied().collect();
    let o: Vec<i64> = a.iter().skip(1).step_by(2).copied().collect();
    let (e, o) = (fft(&e, w * w % Q), fft(&o, w * w % Q));
    let h = a.len() / 2;
    let mut r = vec![0; a.len()];
    let mut x = 1;
    for i in 0..h {
        let t = x * o[i] % Q;
        r[i] = red(e[i] + t);
        r[i + h] = red(e[i] - t);
        x = x * w % Q;
    }
    r
}
pub fn ntt(a: &P) -> P {
    let mut x = 1;
    let mut b = vec![0; N];
    for i in 0..N {
        b[i] = a[i] * x % Q;
        x = x * GAMMA % Q;
    }
    fft(&b, GAMMA * GAMMA % Q)
}
pub fn intt(t: &P) -> P {
    let gi = inv1(GAMMA);
    let mut r = fft(t, gi * gi % Q);
    let mut x = inv1(N as i64);
    for v in r.iter_mut() {
        *v = *v * x % Q;
        x = x * gi % Q;
    }
    r
}
pub fn to_trits(a: &P) -> Vec<u8> {
    a.iter().flat_map(|v| trits_of(bal(*v), 9)).collect()
}
pub fn from_trits(t: &[u8]) -> Option<P> {
    t.chunks(9)
        .map(|c| {
            let v = value(c);
            (-HALF..=HALF).contains(&v).then(|| red(v))
        })
        .collect()
}
pub fn small(t: &[u8]) -> P {
    t.iter().map(|v| red(super::bal1(*v))).collect()
}
pub fn round(a: &P) -> Vec<u8> {
    a.iter().map(|v| bal(*v).rem_euclid(3) as u8).collect()
}
