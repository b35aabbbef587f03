//! Independent reference of both file formats.
//! v1: DCSO bloom (Go). v2: published poppy format.

pub fn fnv1(d: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in d {
        h = h.wrapping_mul(0x100000001b3);
        h ^= *b as u64;
    }
    h
}

const M1: u64 = 18446744073709551557;
const G1: u64 = 18446744073709550147;

#[derive(Clone)]
pub struct Ref1 {
    pub cap: u64,
    pub fpp: f64,
    pub k: u64,
    pub m: u64,
    pub count: u64,
    pub words: Vec<u64>,
}

impl Ref1 {
    pub fn new(cap: u64, fpp: f64) -> Self {
        let ln2 = f64::ln(2.0);
        let mut m = f64::abs(f64::ceil(cap as f64 * f64::ln(fpp) / ln2.powf(2.0))) as u64;
        if cap > 0 && m == 0 {
            m = 1; // documented deviation: a filter always has one bit
        }
        let k = f64::ceil(ln2 * m as f64 / cap as f64) as u64;
        let w = m / 64 + (m % 64 != 0) as u64;
        Ref1 { cap, fpp, k, m, count: 0, words: vec![0; w as usize] }
    }
    pub fn positions(&self, d: &[u8]) -> Vec<u64> {
        let mut h = fnv1(d) % M1;
        (0..self.k)
            .map(|_| {
                h = h.wrapping_mul(G1) % M1;
                h % self.m
            })
            .collect()
    }
    pub fn insert(&mut self, d: &[u8]) {
        let mut new = false;
        for p in self.positions(d) {
            let w = &mut self.words[(p / 64) as usize];
            new |= *w >> (p % 64) & 1 == 0;
            *w |= 1 << (p % 64);
        }
        self.count += new as u64;
    }
    pub fn contains(&self, d: &[u8]) -> bool {
        !self.words.is_empty()
            && self
                .positions(d)
                .into_iter()
                .all(|p| self.words[(p / 64) as usize] >> (p % 64) & 1 == 1)
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![1u8, 0, 0, 0, 0, 0, 0, 0];
        o.extend(self.cap.to_le_bytes());
        o.extend(self.fpp.to_bits().to_le_bytes());
        o.extend(self.k.to_le_bytes());
        o.extend(self.m.to_le_bytes());
        o.extend(self.count.to_le_bytes());
        for w in &self.words {
            o.extend(w.to_le_bytes());
        }
        o
    }
}

pub const SEED2: u64 = 0x706f707079533d42;
const BUCKET: usize = 4096;

#[derive(Clone)]
pub struct Ref2 {
    pub level: u8,
    pub cap: u64,
    pub fpp: f64,
    pub k: u64,
    pub count: u64,
    pub cache: Vec<u8>,
    pub nb: u64,
    pub buckets: Vec<u8>,
}

fn est_p(n: u64, m: u64) -> f64 {
    let k = f64::ceil(f64::ln(2.0) * m as f64 / n as f64) as u64 as f64;
    (1.0 - f64::exp(-k * n as f64 / m as f64)).powf(k)
}

impl Ref2 {
    pub fn new(cap: u64, fpp: f64, level: u8) -> Self {
        let bits = (BUCKET * 8) as f64;
        let ln2 = f64::ln(2.0);
        // entries a bucket can hold
        let per = f64::abs(bits * ln2.powf(2.0) / f64::ln(fpp)) as u64;
        let mut nb = (cap as f64 / per as f64).ceil() as u64;
        let mut k = f64::ceil(ln2 * bits / per as f64) as u64;
        let mut cache_bits = 0u64;
        if level >= 2 {
            cache_bits = cap.next_power_of_two();
            if level == 2 {
                nb = nb.next_power_of_two();
            }
            k = (ln2 * est_p(cap, cache_bits) * (bits / per as f64).round()).ceil() as u64;
            k = k.max(1); // documented deviation: at least one hash function
        }
        let cb = (cache_bits / 8 + (cache_bits % 8 != 0) as u64) as usize;
        Ref2 { level, cap, fpp, k, count: 0, cache: vec![0; cb], nb, buckets: vec![0; nb as usize * BUCKET] }
    }
    /// number of buckets and k without allocating
    pub fn size(cap: u64, fpp: f64, level: u8) -> u64 {
        let bits = (BUCKET * 8) as f64;
        let per = f64::abs(bits * f64::ln(2.0).powf(2.0) / f64::ln(fpp)) as u64;
        let mut nb = (cap as f64 / per as f64).ceil() as u64;
        let mut c = 0;
        if level >= 2 {
            c = cap.next_power_of_two() / 8;
            if level == 2 {
                nb = nb.next_power_of_two();
            }
        }
        nb.saturating_mul(BUCKET as u64).saturating_add(c)
    }
    pub fn h1(d: &[u8]) -> u64 {
        if d.len() > 8 {
            wyhash::wyhash(d, SEED2)
        } else {
            let mut t = [0u8; 8];
            t[..d.len()].copy_from_slice(d);
            u64::from_le_bytes(t)
        }
    }
    fn bh(h: u64) -> u64 {
        let mut s = h;
        s ^= s << 12;
        s ^= s >> 25;
        s ^= s << 27;
        s.wrapping_mul(2685821657736338717)
    }
    /// (cache bit, bucket, positions)
    pub fn place(&self, h1: u64) -> (Option<usize>, usize, Vec<u64>) {
        let b = Self::bh(h1);
        let cb = if self.cache.is_empty() { None } else { Some((b & (self.cache.len() as u64 * 8 - 1)) as usize) };
        let mut out = Vec::with_capacity(self.k as usize);
        let (mut x, mut y) = (h1, 0u64);
        for i in 0..self.k {
            if i == 1 {
                y = wyhash::wyhash(&x.to_be_bytes(), SEED2);
            }
            if i > 0 {
                x = x.wrapping_add(y);
                y = y.wrapping_add(i);
            }
            out.push(x % (BUCKET as u64 * 8));
        }
        // with a power of two number of buckets % and & are the same function
        (cb, (b % self.nb) as usize, out)
    }
    pub fn insert(&mut self, d: &[u8]) {
        let (cb, b, pos) = self.place(Self::h1(d));
        let mut new = false;
        let base = b * BUCKET;
        for p in pos {
            let x = &mut self.buckets[base + (p / 8) as usize];
            new |= *x >> (p % 8) & 1 == 0;
            *x |= 1 << (p % 8);
        }
        if let Some(c) = cb {
            self.cache[c / 8] |= 1 << (c % 8);
        }
        self.count += new as u64;
    }
    pub fn contains(&self, d: &[u8]) -> bool {
        if self.cap == 0 {
            return false;
        }
        let (cb, b, pos) = self.place(Self::h1(d));
        if let Some(c) = cb {
            if self.cache[c / 8] >> (c % 8) & 1 == 0 {
                return false;
            }
        }
        pos.into_iter().all(|p| self.buckets[b * BUCKET + (p / 8) as usize] >> (p % 8) & 1 == 1)
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![2u8, self.level, 0, 0, 0, 0, 0, 0];
        o.extend(self.cap.to_le_bytes());
        o.extend(self.fpp.to_bits().to_le_bytes());
        o.extend(self.k.to_le_bytes());
        o.extend(self.count.to_le_bytes());
        o.extend((self.cache.len() as u64 * 8).to_le_bytes());
        o.extend(&self.cache);
        o.extend(self.nb.to_le_bytes());
        o.extend(&self.buckets);
        o
    }
}
