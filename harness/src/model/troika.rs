//! Troika: a direct transcription (`naive`) and a bit-sliced version (`permute`) that
//! the checks of C05 compare with one another before anything else.

use super::rc::RC;

pub const N: usize = 729;

const SBOX: [u8; 27] = [
    6, 25, 17, 5, 15, 10, 4, 20, 24, 0, 1, 2, 9, 22, 26, 18, 16, 14, 3, 13, 23, 7, 11, 12, 8, 21, 19,
];
const LANES: [usize; 27] = [
    19, 13, 21, 10, 24, 15, 2, 9, 3, 14, 0, 6, 5, 1, 25, 22, 23, 20, 7, 17, 26, 12, 8, 18, 16, 11, 4,
];

fn at(x: usize, y: usize, z: usize) -> usize {
    z * 27 + y * 9 + x
}

/// Trit by trit.
pub fn naive(st: &mut [u8]) {
    assert!(st.len() == N, "harness: state size");
    for round in 0..24 {
        // S-box on trytes of three neighbouring columns.
        for i in (0..N).step_by(3) {
            let v = 9 * st[i] as usize + 3 * st[i + 1] as usize + st[i + 2] as usize;
            let s = SBOX[v];
            st[i] = s / 9;
            st[i + 1] = s / 3 % 3;
            st[i + 2] = s % 3;
        }
        // Rows 1 and 2 move by one and two trytes.
        let old = st.to_vec();
        for z in 0..27 {
            for y in 0..3 {
                for x in 0..9 {
                    st[at((x + 3 * y) % 9, y, z)] = old[at(x, y, z)];
                }
            }
        }
        // Lanes rotate.
        let old = st.to_vec();
        for z in 0..27 {
            for y in 0..3 {
                for x in 0..9 {
                    st[at(x, y, (z + LANES[9 * y + x]) % 27)] = old[at(x, y, z)];
                }
            }
        }
        // Column parity.
        let mut p = [[0u8; 9]; 27];
        for z in 0..27 {
            for x in 0..9 {
                p[z][x] = (st[at(x, 0, z)] + st[at(x, 1, z)] + st[at(x, 2, z)]) % 3;
            }
        }
        for z in 0..27 {
            for y in 0..3 {
                for x in 0..9 {
                    let i = at(x, y, z);
                    st[i] = (st[i] + p[z][(x + 8) % 9] + p[(z + 1) % 27][(x + 1) % 9]) % 3;
                }
            }
        }
        // Round constants go to row 0.
        for x in 0..9 {
            let (a, b) = RC[round][x];
            for z in 0..27 {
                let c = (a >> z & 1) as u8 + 2 * (b >> z & 1) as u8;
                let i = at(x, 0, z);
                st[i] = (st[i] + c) % 3;
            }
        }
    }
}

type L = (u32, u32);
const M: u32 = (1 << 27) - 1;

#[inline(always)]
fn add(a: L, b: L) -> L {
    let (az, bz) = (!(a.0 | a.1), !(b.0 | b.1));
    (
        (a.0 & bz) | (az & b.0) | (a.1 & b.1),
        (a.1 & bz) | (az & b.1) | (a.0 & b.0),
    )
}
#[inline(always)]
fn mul(a: L, b: L) -> L {
    ((a.0 & b.0) | (a.1 & b.1), (a.0 & b.1) | (a.1 & b.0))
}
#[inline(always)]
fn rot(a: L, by: usize) -> L {
    let r = |v: u32| ((v << by) | (v >> (27 - by))) & M;
    (r(a.0), r(a.1))
}

/// The same on 27 lanes at a time.
pub fn permute(st: &mut [u8]) {
    let mut l = [(0u32, 0u32); 27];
    for z in 0..27 {
        for i in 0..27 {
            let t = st[z * 27 + i] as u32;
            l[i].0 |= (t & 1) << z;
            l[i].1 |= (t >> 1) << z;
        }
    }
    for rc in RC.iter() {
        for i in (0..27).step_by(3) {
            let d = add(l[i], (0, M));
            let e = add(mul(d, l[i + 1]), l[i + 2]);
            let f = add(mul(e, l[i + 1]), d);
            let g = add(mul(e, f), l[i + 1]);
            l[i] = (g.0 & M, g.1 & M);
            l[i + 1] = (f.0 & M, f.1 & M);
            l[i + 2] = (e.0 & M, e.1 & M);
        }
        let mut s = [(0u32, 0u32); 27];
        for y in 0..3 {
            for x in 0..9 {
                s[9 * y + (x + 3 * y) % 9] = l[9 * y + x];
            }
        }
        for i in 0..27 {
            s[i] = rot(s[i], LANES[i]);
        }
        let mut p = [(0u32, 0u32); 9];
        for x in 0..9 {
            p[x] = add(add(s[x], s[9 + x]), s[18 + x]);
        }
        for x in 0..9 {
            let d = add(p[(x + 8) % 9], rot(p[(x + 1) % 9], 26));
            for y in 0..3 {
                s[9 * y + x] = add(s[9 * y + x], d);
            }
            s[x] = add(s[x], rc[x]);
        }
        l = s;
    }
    for z in 0..27 {
        for i in 0..27 {
            st[z * 27 + i] = (l[i].0 >> z & 1) as u8 + 2 * (l[i].1 >> z & 1) as u8;
        }
    }
}

/// The Troika hash: rate 243, padding with a single 1.
pub fn hash(msg: &[u8], n: usize) -> Vec<u8> {
    let mut m = msg.to_vec();
    m.push(1);
    while m.len() % 243 != 0 {
        m.push(0);
    }
    let mut st = vec![0u8; N];
    for b in m.chunks(243) {
        st[..243].copy_from_slice(b);
        permute(&mut st);
    }
    let mut out = Vec::new();
    while out.len() < n {
        let k = (n - out.len()).min(243);
        out.extend_from_slice(&st[..k]);
        permute(&mut st);
    }
    out
}
