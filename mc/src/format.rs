//! C04, C05: conformance with the reference model of the file formats.
use crate::ctx::{case, guard, Case, Ctx, Res};
use crate::ensure;
use crate::refm::*;
use crate::util::*;
use poppy_filters::{v2, BloomFilter, PoppyHash};

const MAX_SIZE: u64 = 64 << 20;

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let field = ["flags", "capacity", "fpp", "hash functions", "field 4", "field 5"].get(i / 8).copied().unwrap_or("bits");
    format!("lengths {} / {}, first difference at byte {i} ({field}): {} / {}", a.len(), b.len(), hex(&a[i.min(a.len())..(i + 8).min(a.len())]), hex(&b[i.min(b.len())..(i + 8).min(b.len())]))
}

trait Model: Clone {
    fn add(&mut self, d: &[u8]);
    fn has(&self, d: &[u8]) -> bool;
    fn image(&self) -> Vec<u8>;
}
impl Model for Ref1 {
    fn add(&mut self, d: &[u8]) {
        self.insert(d)
    }
    fn has(&self, d: &[u8]) -> bool {
        self.contains(d)
    }
    fn image(&self) -> Vec<u8> {
        self.bytes()
    }
}
impl Model for Ref2 {
    fn add(&mut self, d: &[u8]) {
        self.insert(d)
    }
    fn has(&self, d: &[u8]) -> bool {
        self.contains(d)
    }
    fn image(&self) -> Vec<u8> {
        self.bytes()
    }
}

/// Fills code and model with the same entries; images are compared after every insertion when small,
/// at the end otherwise. Then the model's file is loaded by the code and must be answered and rewritten.
fn conform<M: Model>(ctx: &Ctx, c: Cfg, m0: M, keys: &[Vec<u8>], each: bool) -> Res {
    ctx.crumb(&c.name());
    let mut b = guard(|| c.try_make())?.map_err(|e| format!("{}: {e}", c.name()))?;
    let mut m = m0;
    let s0 = ser(&b);
    ensure!(s0 == m.image(), "{}: empty filter: {}", c.name(), first_diff(&s0, &m.image()));
    let mut n = 0u64;
    for k in keys {
        guard(|| b.insert_bytes(k))?.map_err(|e| format!("{}: inserting {}: {e}", c.name(), hex(k)))?;
        m.add(k);
        n += 1;
        if each {
            let (x, y) = (ser(&b), m.image());
            ensure!(x == y, "{}: after inserting {}: {}", c.name(), hex(k), first_diff(&x, &y));
        }
    }
    let mut img = m.image();
    let x = ser(&b);
    ensure!(x == img, "{}: after {} entries: {}", c.name(), keys.len(), first_diff(&x, &img));
    // a file written by another tool, with attached data
    img.extend(b"attached");
    let l = guard(|| load(&img))?.map_err(|e| format!("{}: reference file refused: {e}", c.name()))?;
    for k in keys {
        ensure!(l.contains_bytes(k), "{}: entry {} of the reference file not found", c.name(), hex(k));
    }
    for i in 0..200u64 {
        let p = if i % 2 == 0 { long_key(900_000 + i) } else { len_key((i % 9) as usize, i + 77) };
        ensure!(l.contains_bytes(&p) == m.has(&p), "{}: answer for {} is not that of the format", c.name(), hex(&p));
    }
    ensure!(ser(&l) == img, "{}: reference file is not rewritten unchanged: {}", c.name(), first_diff(&ser(&l), &img));
    // a loaded reference file merges with a filter made here
    let mut u = c.make();
    guard(|| u.union_merge(&l))?.map_err(|e| format!("{}: merging a reference file: {e}", c.name()))?;
    ensure!(contents(&ser(&u)) == &img[48..img.len() - 8], "{}: merge of a reference file changed its bits", c.name());
    ctx.add("states", n + 1);
    ctx.add("transitions", n);
    ctx.add("traces", n + 2);
    ctx.sample(format!("{}: {} entries, image of {} bytes identical", c.name(), n, img.len()));
    Ok(())
}

/// Writer that only compares with what is expected.
struct Same<'a> {
    want: &'a [u8],
    at: usize,
    bad: Option<usize>,
}
impl std::io::Write for Same<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.bad.is_none() && self.want.get(self.at..self.at + b.len()) != Some(b) {
            self.bad = Some(self.at);
        }
        self.at += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A filter of more than 2^32 bits.
fn huge<M: Model>(ctx: &Ctx, c: Cfg, mut m: M) -> Res {
    let same = |b: &BloomFilter, img: &[u8], what: &str| -> Res {
        let mut w = Same { want: img, at: 0, bad: None };
        guard(|| b.write(&mut w))?.map_err(|e| format!("{}: {e}", c.name()))?;
        ensure!(w.bad.is_none() && w.at == img.len(), "{}: {what}: {} bytes instead of {}, first difference near byte {:?}", c.name(), w.at, img.len(), w.bad);
        ctx.beat();
        Ok(())
    };
    let keys: Vec<Vec<u8>> = (0..400u64).map(|i| if i % 4 == 0 { len_key((i / 4 % 9) as usize, i) } else { long_key(i) }).collect();
    let mut b = guard(|| c.try_make())?.map_err(|e| format!("{}: {e}", c.name()))?;
    for k in &keys {
        b.insert_bytes(k).map_err(|e| format!("{}: {e}", c.name()))?;
        m.add(k);
    }
    let img = m.image();
    drop(m);
    same(&b, &img, "filled filter")?;
    ensure!(b.size_in_bytes() as u64 <= img.len() as u64 && b.size_in_bytes() as u64 > 1 << 29, "{}: size {}", c.name(), b.size_in_bytes());
    drop(b);
    let l = guard(|| load(&img))?.map_err(|e| format!("{}: reference file refused: {e}", c.name()))?;
    for k in &keys {
        ensure!(l.contains_bytes(k), "{}: entry {} of the reference file not found", c.name(), hex(k));
    }
    same(&l, &img, "loaded reference file")?;
    ctx.add("states", 2);
    ctx.add("transitions", keys.len() as u64);
    ctx.add("traces", 2);
    Ok(())
}

fn model_cases<'a, M: Model + Send + Sync + 'a>(ctx: &Ctx, kinds: Vec<(u8, u8)>, mk: impl Fn(Cfg) -> M + Send + Sync + Copy + 'a, size: impl Fn(Cfg) -> u64 + Send + Sync + Copy + 'a) -> Vec<Case<'a>> {
    let quick = ctx.quick();
    let mut v = vec![];
    for (ver, o) in kinds {
        // every length
        for part in 0..4usize {
            v.push(case(format!("lengths v{ver}/O{o}/{part}"), move |ctx| {
                for len in (0..=1100usize).filter(|l| l % 4 == part) {
                    let keys: Vec<Vec<u8>> = (0..4).map(|i| if i == 3 { "0123456789abcdef".bytes().cycle().take(len).collect() } else { len_key(len, i) }).collect();
                    let c = cfg(ver, o, 10, 0.001);
                    conform(ctx, c, mk(c), &keys, false).map_err(|e| format!("length {len}: {e}"))?;
                }
                for len in [2000usize, 4095, 4096, 4097, 8191, 8192, 65536, 1 << 20] {
                    let c = cfg(ver, o, 10, 0.001);
                    conform(ctx, c, mk(c), &[len_key(len, 0)], false).map_err(|e| format!("length {len}: {e}"))?;
                }
                Ok(())
            }));
        }
        // every 1 and 2 byte entry
        v.push(case(format!("short entries v{ver}/O{o}"), move |ctx| {
            let mut keys: Vec<Vec<u8>> = vec![vec![]];
            keys.extend((0..=255u8).map(|b| vec![b]));
            let c = cfg(ver, o, 300, 0.0001);
            conform(ctx, c, mk(c), &keys, true)?;
            let keys: Vec<Vec<u8>> = (0..=u16::MAX).map(|b| b.to_le_bytes().to_vec()).collect();
            let c = cfg(ver, o, 70_000, 0.001);
            conform(ctx, c, mk(c), &keys, false)?;
            // single bit entries of 3 to 16 bytes
            let mut keys = vec![];
            for len in 3..=16usize {
                for bit in 0..len * 8 {
                    let mut k = vec![0u8; len];
                    k[bit / 8] = 1 << (bit % 8);
                    keys.push(k);
                }
            }
            let c = cfg(ver, o, 3000, 0.001);
            conform(ctx, c, mk(c), &keys, false)
        }));
        // parameters
        let fpps = [1.0, 0.99999, 0.999, 0.99, 0.9, 0.7, 0.61, 0.5, 0.4, 0.3, 0.25, 0.2, 0.1, 0.05, 0.01, 0.005, 0.001, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10, 1e-15, 1e-20, 1e-50, 1e-100, 1e-200, 1e-300, f64::MIN_POSITIVE];
        for fpp in fpps {
            v.push(case(format!("params v{ver}/O{o}/fpp={fpp:e}"), move |ctx| {
                let mut caps: Vec<usize> = (if ver == 1 { 1 } else { 0 }..=130).collect();
                for p in 7..=if quick { 19 } else { 22 } {
                    let b = 1usize << p;
                    caps.extend([b - 1, b, b + 1, b + b / 2, b + b / 3]);
                }
                for d in 2..=if quick { 6 } else { 7 } {
                    let b = 10usize.pow(d);
                    caps.extend([b, b - 1, 3 * b, 5 * b]);
                }
                for cap in caps {
                    let c = cfg(ver, o, cap, fpp);
                    if size(c) > if quick { 8 << 20 } else { MAX_SIZE } {
                        continue;
                    }
                    let n = if cap == 0 { 0 } else { 3.min(cap) };
                    let keys: Vec<Vec<u8>> = (0..n as u64).map(long_key).collect();
                    conform(ctx, c, mk(c), &keys, false)?;
                }
                Ok(())
            }));
        }
        // an entry is contained when all its bits are set, and only then
        v.push(case(format!("each bit v{ver}/O{o}"), move |ctx| {
            let mut n = 0;
            for cap in [1usize, 2, 10, 70, 1000] {
                for fpp in [0.5, 0.01, 1e-6, 1e-18, 1e-20, 1e-40, 1e-78, 1e-100, 1e-300] {
                    if cap > 100 && fpp < 1e-19 {
                        continue;
                    }
                    let c = cfg(ver, o, cap, fpp);
                    for k in [&b""[..], b"a", b"short", b"8 bytes!", b"an entry of some length"] {
                        let mut f = c.make();
                        f.insert_bytes(k).map_err(|e| format!("{}: {e}", c.name()))?;
                        let mut s = ser(&f);
                        let tail = s.len() - main_bits(&s).len();
                        let skip = if ver == 2 { tail - 8..tail } else { 0..0 };
                        for i in 48..s.len() {
                            if skip.contains(&i) {
                                continue;
                            }
                            for bit in (0..8).filter(|b| s[i] >> b & 1 == 1).collect::<Vec<_>>() {
                                s[i] ^= 1 << bit;
                                let g = load(&s).map_err(|e| format!("{}: {e}", c.name()))?;
                                s[i] ^= 1 << bit;
                                ensure!(!g.contains_bytes(k), "{}: {} is contained although bit {bit} of byte {i} is not set", c.name(), hex(k));
                                n += 1;
                            }
                        }
                        ensure!(load(&s).is_ok_and(|g| g.contains_bytes(k)), "{}: {} is not contained although all its bits are set", c.name(), hex(k));
                        ctx.beat();
                    }
                }
            }
            ctx.add("states", n);
            ctx.add("transitions", n);
            ctx.add("traces", n);
            ctx.sample(format!("v{ver} level {o}: {n} single bits of entries unset"));
            Ok(())
        }));
        // filled to capacity
        v.push(case(format!("filled v{ver}/O{o}"), move |ctx| {
            for (cap, fpp) in [(1usize, 0.5), (10, 0.1), (100, 0.01), (1000, 0.001), (5000, 0.001), (10_000, 1e-6), (50_000, 0.01), (65_536, 0.02), (100_000, 0.001), (200, 1e-100), (100, 1e-300)] {
                let c = cfg(ver, o, cap, fpp);
                let keys: Vec<Vec<u8>> = (0..cap as u64).map(|i| if i % 3 == 0 { format!("{i}").into_bytes() } else { long_key(i) }).collect();
                conform(ctx, c, mk(c), &keys, false)?;
            }
            Ok(())
        }));
    }
    v
}

pub fn c04(ctx: &Ctx) {
    let mut cases = model_cases(ctx, vec![(1, 0)], |c| Ref1::new(c.cap as u64, c.fpp), |c| {
        (c.cap as f64 * -c.fpp.ln() / 0.48 / 8.0) as u64
    });
    if !cfg!(debug_assertions) {
        cases.push(case("huge v1", |ctx| {
            let c = cfg(1, 0, 450_000_000, 0.01);
            huge(ctx, c, Ref1::new(c.cap as u64, c.fpp))
        }));
    }
    cases.push(case("positions v1", |ctx| {
        // positions of single entries through the public bit view
        for (cap, fpp) in [(1usize, 0.01), (7, 0.001), (100, 0.01), (1000, 1e-5)] {
            let c = cfg(1, 0, cap, fpp);
            let r = Ref1::new(cap as u64, fpp);
            let BloomFilter::V1(e) = c.make() else { return Err("version".into()) };
            ensure!(e.n_hash_fn() == r.k && e.n_bits() == r.m, "{}: k={} m={} instead of {} {}", c.name(), e.n_hash_fn(), e.n_bits(), r.k, r.m);
            for len in 0..300usize {
                let k = len_key(len, 9);
                let mut b = e.clone();
                b.insert_bytes(&k).map_err(|e| e.to_string())?;
                let mut want = vec![false; r.m as usize];
                for p in r.positions(&k) {
                    want[p as usize] = true;
                }
                ensure!(b.bits() == want, "{}: positions of an entry of length {len}", c.name());
            }
            ctx.add("states", 300);
            ctx.add("transitions", 300);
        }
        Ok(())
    }));
    ctx.par(cases);
}

fn int<T: PoppyHash + std::fmt::Debug>(c: Cfg, x: T, le: &[u8]) -> Res {
    let BloomFilter::V2(mut b) = c.make() else { return Err("version".into()) };
    b.insert(&x).map_err(|e| e.to_string())?;
    let mut r = Ref2::new(c.cap as u64, c.fpp, c.opt);
    let (cb, bu, pos) = r.place(wyhash::wyhash(le, SEED2));
    for p in pos {
        r.buckets[bu * 4096 + (p / 8) as usize] |= 1 << (p % 8);
    }
    if let Some(c) = cb {
        r.cache[c / 8] |= 1 << (c % 8);
    }
    r.count = 1;
    let s = ser(&BloomFilter::V2(b));
    ensure!(s == r.bytes(), "{}: integer {x:?}: {}", c.name(), first_diff(&s, &r.bytes()));
    Ok(())
}

pub fn c05(ctx: &Ctx) {
    let mut cases = model_cases(ctx, vec![(2, 0), (2, 1), (2, 2), (2, 3)], |c| Ref2::new(c.cap as u64, c.fpp, c.opt), |c| Ref2::size(c.cap as u64, c.fpp, c.opt));
    if !cfg!(debug_assertions) {
        for (o, nb) in [(0u8, 131_075usize), (2, 131_072), (3, 131_073)] {
            cases.push(case(format!("huge O{o}"), move |ctx| {
                let c = cfg(2, o, nb * 3418, 0.01);
                huge(ctx, c, Ref2::new(c.cap as u64, c.fpp, c.opt))
            }));
        }
    }
    for o in 0..4u8 {
        cases.push(case(format!("integers O{o}"), move |ctx| {
            for (cap, fpp) in [(3usize, 0.01), (50, 1e-300)] {
                let c = cfg(2, o, cap, fpp);
                for i in 0..64u32 {
                    for d in [0u64, u64::MAX] {
                        let v = (1u64 << i).wrapping_add(d);
                        int(c, v, &v.to_le_bytes())?;
                        int(c, v as u32, &(v as u32).to_le_bytes())?;
                        int(c, v as u16, &(v as u16).to_le_bytes())?;
                        int(c, v as u8, &(v as u8).to_le_bytes())?;
                        int(c, v as i64, &v.to_le_bytes())?;
                        int(c, v as i32, &(v as u32).to_le_bytes())?;
                        int(c, v as i16, &(v as u16).to_le_bytes())?;
                        int(c, v as i8, &(v as u8).to_le_bytes())?;
                        int(c, v as usize, &v.to_le_bytes())?;
                        int(c, v as u128, &(v as u128).to_le_bytes())?;
                        int(c, v as i128, &(v as i128).to_le_bytes())?;
                        ctx.add("transitions", 11);
                        ctx.add("states", 11);
                    }
                }
            }
            Ok(())
        }));
        // released files at every shape the header allows: number of buckets that is or is not a power of two,
        // cache present or not, whatever the level recorded
        cases.push(case(format!("foreign shapes O{o}"), move |ctx| {
            for nb in 1..=9u64 {
                for cache in [0usize, 1, 2, 4, 8, 64] {
                    for k in [1u64, 2, 3, 7, 100] {
                        let m = Ref2 { level: o, cap: 1000, fpp: 0.01, k, count: 0, cache: vec![0; cache], nb, buckets: vec![0; nb as usize * 4096] };
                        let mut m = m;
                        let keys: Vec<Vec<u8>> = (0..40u64).map(|i| len_key((i % 20) as usize, i)).collect();
                        for k in &keys[..20] {
                            m.insert(k);
                        }
                        let img = m.bytes();
                        let f = guard(|| load(&img))?.map_err(|e| format!("nb={nb} cache={cache} k={k}: refused: {e}"))?;
                        for key in &keys {
                            ensure!(f.contains_bytes(key) == m.contains(key), "nb={nb} cache={cache} k={k}: answer for {} is not that of the format", hex(key));
                        }
                        let mut g = f.clone();
                        for key in &keys[20..] {
                            g.insert_bytes(key).map_err(|e| e.to_string())?;
                            m.insert(key);
                        }
                        ensure!(ser(&g) == m.bytes(), "nb={nb} cache={cache} k={k}: {}", first_diff(&ser(&g), &m.bytes()));
                        ctx.add("states", 2);
                        ctx.add("transitions", 60);
                        ctx.add("traces", 1);
                    }
                }
            }
            Ok(())
        }));
    }
    cases.push(case("typed loaders", |ctx| {
        let mut m = Ref2::new(100, 0.01, 2);
        m.insert(b"abc");
        let f = v2::BloomFilter::from_reader(std::io::Cursor::new(m.bytes())).map_err(|e| e.to_string())?;
        ensure!(f.contains_bytes("abc"), "entry lost by v2::BloomFilter::from_reader");
        ctx.add("transitions", 1);
        Ok(())
    }));
    ctx.par(cases);
}
