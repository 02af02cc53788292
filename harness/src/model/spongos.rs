//! Spongos: a duplex over one 729-trit state, 486 trits of which are the rate.

use super::troika::{permute, N};

pub const RATE: usize = 486;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sp {
    pub st: Vec<u8>,
    pub pos: usize,
}

impl Sp {
    pub fn new() -> Self {
        Sp { st: vec![0; N], pos: 0 }
    }
    fn step(&mut self) {
        self.pos += 1;
        if self.pos == RATE {
            self.commit();
        }
    }
    pub fn commit(&mut self) {
        if self.pos != 0 {
            permute(&mut self.st);
            self.pos = 0;
        }
    }
    pub fn absorb(&mut self, x: &[u8]) {
        for t in x {
            self.st[self.pos] = *t;
            self.step();
        }
    }
    pub fn squeeze(&mut self, n: usize) -> Vec<u8> {
        let mut y = Vec::with_capacity(n);
        for _ in 0..n {
            y.push(self.st[self.pos]);
            self.st[self.pos] = 0;
            self.step();
        }
        y
    }
    pub fn encr(&mut self, x: &[u8]) -> Vec<u8> {
        let mut y = Vec::with_capacity(x.len());
        for t in x {
            y.push((*t + self.st[self.pos]) % 3);
            self.st[self.pos] = *t;
            self.step();
        }
        y
    }
    pub fn decr(&mut self, y: &[u8]) -> Vec<u8> {
        let mut x = Vec::with_capacity(y.len());
        for t in y {
            let v = (*t + 3 - self.st[self.pos]) % 3;
            x.push(v);
            self.st[self.pos] = v;
            self.step();
        }
        x
    }
    /// Absorb 243 trits squeezed from the joinee.
    pub fn join(&mut self, joinee: &mut Sp) {
        let x = joinee.squeeze(243);
        self.absorb(&x);
    }
    pub fn inner(&self) -> Vec<u8> {
        self.st[RATE..].to_vec()
    }
    pub fn from_inner(x: &[u8]) -> Self {
        let mut s = Sp::new();
        s.st[RATE..].copy_from_slice(x);
        s
    }
    /// A fingerprint of the whole state: squeezed from a copy, more than two blocks long.
    pub fn probe(&self) -> Vec<u8> {
        let mut f = self.clone();
        f.squeeze(1000)
    }
}

pub fn hash(x: &[u8], n: usize) -> Vec<u8> {
    let mut s = Sp::new();
    s.absorb(x);
    s.commit();
    s.squeeze(n)
}

/// The PRNG: key, then nonces, then a commit, then output.
pub fn prng(key: &[u8], nonce: &[u8], n: usize) -> Vec<u8> {
    let mut s = Sp::new();
    s.absorb(key);
    s.absorb(nonce);
    s.commit();
    s.squeeze(n)
}
