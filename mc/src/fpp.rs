//! C12 (false positive probability) and C20 (count estimates).
use crate::ctx::{case, guard, Case, Ctx, Res};
use crate::ensure;
use crate::util::*;
use poppy_filters::BloomFilter;

#[derive(Clone, Copy, PartialEq)]
enum Uni {
    Long,
    Text,    // 20 byte text lines
    Bin16,   // 16 byte binary
    Decimal, // short decimal text
    Le4,     // 4 byte counters
    Be8,     // 8 byte big endian counters
}

fn key(u: Uni, i: u64, b: &mut Vec<u8>) {
    use std::io::Write;
    b.clear();
    match u {
        Uni::Long => write!(b, "entry-number-{i:08}-of-the-universe").unwrap(),
        Uni::Text => write!(b, "host{i}.example.com").unwrap(),
        Uni::Bin16 => {
            b.extend(i.to_le_bytes());
            b.extend((!i).to_le_bytes());
        }
        Uni::Decimal => write!(b, "{i}").unwrap(),
        Uni::Le4 => b.extend((i as u32).to_le_bytes()),
        Uni::Be8 => b.extend(i.to_be_bytes()),
    }
}

fn name(u: Uni) -> &'static str {
    match u {
        Uni::Long => "long",
        Uni::Text => "text",
        Uni::Bin16 => "bin16",
        Uni::Decimal => "decimal",
        Uni::Le4 => "le4",
        Uni::Be8 => "be8",
    }
}

/// Number of absent entries of the block following the inserted one reported as contained.
fn false_positives(ctx: &Ctx, f: &BloomFilter, u: Uni, from: u64, q: u64) -> u64 {
    let mut b = vec![];
    let mut n = 0;
    for i in 0..q {
        key(u, from + i, &mut b);
        n += f.contains_bytes(&b) as u64;
        if i & 0xfffff == 0 {
            ctx.beat();
        }
    }
    n
}

pub fn c12(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    let caps: Vec<usize> = if quick {
        vec![1000, 1024, 1025, 1500, 2000, 2278, 2279, 4095, 4096, 4097, 6000, 8191, 8192, 8193, 10_000, 12_000, 16_384, 20_000, 33_000, 50_000, 65_536, 65_537, 100_000, 131_072, 131_073, 250_000]
    } else {
        vec![500, 1000, 1024, 1025, 1500, 2000, 2278, 2279, 4095, 4096, 4097, 6000, 8191, 8192, 8193, 10_000, 12_000, 16_384, 20_000, 32_768, 33_000, 50_000, 65_536, 65_537, 100_000, 131_072, 131_073, 200_000, 250_000, 524_288, 1_000_000, 1_049_576]
    };
    let fpps: &[f64] = if quick { &[0.5, 0.25, 0.1, 0.05, 0.01, 0.005, 0.001] } else { &[0.9, 0.5, 0.25, 0.1, 0.05, 0.01, 0.005, 0.001, 1e-4] };
    for u in [Uni::Long, Uni::Text, Uni::Bin16, Uni::Decimal, Uni::Le4, Uni::Be8] {
        let short = matches!(u, Uni::Decimal | Uni::Le4 | Uni::Be8);
        for o in 0..4u8 {
            for &cap in &caps {
                if quick && (u == Uni::Bin16 || u == Uni::Text) && ![2000, 10_000, 100_000].contains(&cap) {
                    continue;
                }
                if short && ![1000, 10_000, 250_000, 1_049_576].contains(&cap) {
                    continue;
                }
                for (&fpp, hist) in fpps.iter().flat_map(|f| (0..4).map(move |h| (f, h))) {
                    // other histories than filling from empty: after a clear, with a reload half way, by union
                    if short && ![0.01, 0.001].contains(&fpp) {
                        continue;
                    }
                    if hist > 0 && (u != Uni::Long || ![1000, 10_000, 100_000].contains(&cap)) {
                        continue;
                    }
                    let c = cfg(2, o, cap, fpp);
                    let label = format!("{}/{}{}", name(u), c.name(), ["", "/cleared", "/reloaded", "/union"][hist]);
                    cases.push(case(label.clone(), move |ctx| {
                        let mut f = c.make();
                        let mut b = vec![];
                        let mut n = 0;
                        if hist == 1 {
                            for i in 0..cap as u64 {
                                key(u, i + (1 << 40), &mut b);
                                let _ = f.insert_bytes(&b);
                            }
                            f.clear();
                        }
                        let mut g = c.make();
                        for i in 0..cap as u64 {
                            key(u, i, &mut b);
                            if hist == 2 && i == cap as u64 / 2 {
                                f = load(&ser(&f)).map_err(|e| e.to_string())?;
                            }
                            let f = if hist == 3 && i % 2 == 1 { &mut g } else { &mut f };
                            match f.insert_bytes(&b) {
                                Ok(x) => n += x as u64,
                                Err(_) => break,
                            }
                        }
                        if hist == 3 {
                            f.union_merge(&g).map_err(|e| e.to_string())?;
                        }
                        let q = ((3000.0 / fpp) as u64).clamp(100_000, 20_000_000);
                        let fp = false_positives(ctx, &f, u, cap as u64, q);
                        let exp = 1.2 * fpp * q as f64;
                        // the block is a finite sample of the universe: 4 standard deviations of slack
                        let bound = (exp + 4.0 * exp.sqrt()).min(q as f64) as u64;
                        ctx.add("evaluations", q);
                        ctx.distinct([h64(label.as_bytes())]);
                        ctx.sample(format!("{label}: {n} new entries, {fp} false positives of {q} (allowed {bound})"));
                        if fp > bound {
                            let msg = format!("{fp} of {q} absent entries are reported as contained, more than {bound}");
                            match ctx.known_limit(&label) {
                                Some(l) if fp <= l => ctx.finding(&label, &ctx.known_key(&label).unwrap(), &msg),
                                _ => ctx.violation(&label, &format!("{msg} (fp={fp})")),
                            }
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
    ctx.par(cases);
}

/// Standard deviation of the estimate from the proportion of ones (linear counting), n entries over nb blocks
/// of m bits with k hash functions.
fn sigma(n: f64, nb: f64, m: f64, k: f64) -> f64 {
    let t = k * n / (nb * m);
    (nb * m / (k * k) * (t.exp() - t - 1.0).max(0.0)).sqrt()
}

struct Dim {
    nb: f64,
    m: f64,
    k: f64,
}

impl Dim {
    /// With more than 90% of the bits set, or with fewer than 40 zeros left, the estimator has no useful precision.
    fn useful(&self, n: f64) -> bool {
        let t = self.k * n / (self.nb * self.m);
        t < 2.3 && self.nb * self.m * (-t).exp() >= 40.0
    }
}

fn dims(f: &BloomFilter) -> Dim {
    let s = ser(f);
    let k = u64::from_le_bytes(s[24..32].try_into().unwrap()) as f64;
    match f {
        BloomFilter::V1(b) => Dim { nb: 1.0, m: b.n_bits() as f64, k },
        BloomFilter::V2(b) => Dim { nb: ((b.count_ones() + b.count_zeros()) / 32768) as f64, m: 32768.0, k },
    }
}

/// Allowed error for n represented entries.
fn tol(d: &Dim, n: f64) -> f64 {
    6.0 * sigma(n, d.nb, d.m, d.k) + d.nb + 1.0
}

fn filled(c: Cfg, r: std::ops::Range<u64>) -> Result<BloomFilter, String> {
    let mut f = c.make();
    for i in r {
        // FNV spreads entries that differ in their last characters only unevenly
        let k = if c.v == 1 { len_key(24, i) } else { long_key(i) };
        f.insert_bytes(k).map_err(|e| e.to_string())?;
    }
    Ok(f)
}

/// Estimate of a filter from its bits: count after a union with an empty filter.
fn est(c: Cfg, f: &BloomFilter) -> Result<u64, String> {
    let mut g = c.make();
    g.union_merge(f).map_err(|e| e.to_string())?;
    Ok(g.count_estimate())
}

fn pair(ctx: &Ctx, c: Cfg, n1: u64, n2: u64, common: u64) -> Res {
    let what = format!("{}: {n1} and {n2} entries, {common} in common", c.name());
    let a = filled(c, 0..n1)?;
    let b = filled(c, n1 - common..n1 - common + n2)?;
    let d = dims(&a);
    let n = (n1 + n2 - common) as f64;
    let useful = d.useful(n);
    let mut u = a.clone();
    guard(|| u.union_merge(&b))?.map_err(|e| format!("{what}: {e}"))?;
    let e = u.count_estimate() as f64;
    if useful {
        ensure!((e - n).abs() <= tol(&d, n), "{what}: union counts {e} entries, expected {n} +- {:.1}", tol(&d, n));
    }
    let cc = guard(|| a.count_common_entries(&b))?.map_err(|e| format!("{what}: {e}"))?;
    let cc2 = guard(|| b.count_common_entries(&a))?.map_err(|e| format!("{what}: {e}"))?;
    ensure!(cc == cc2, "{what}: common entries {cc} one way, {cc2} the other");
    let (ea, eb) = (est(c, &a)?, est(c, &b)?);
    ensure!(cc as u64 <= ea && cc as u64 <= eb, "{what}: common entries {cc} exceed the estimates {ea} and {eb}");
    if useful {
        ensure!(cc as f64 + tol(&d, common as f64) >= common as f64, "{what}: common entries estimated to {cc}");
        // chance coincidences of bits: p_a * p_b of the bits not due to common entries
        let occ = |n: f64| 1.0 - (-(d.k * n / (d.nb * d.m))).exp();
        let (pc, pa, pb) = (occ(common as f64), occ((n1 - common) as f64), occ((n2 - common) as f64));
        let p = (pc + (1.0 - pc) * pa * pb).min(0.99999);
        let exp = -(d.nb * d.m) * (1.0 - p).ln() / d.k;
        ensure!((cc as f64) <= exp + tol(&d, exp) + tol(&d, n), "{what}: common entries estimated to {cc}, at most {:.1} expected", exp + tol(&d, exp) + tol(&d, n));
    }
    if let (BloomFilter::V2(x), BloomFilter::V2(y)) = (&a, &b) {
        let mut i = x.clone();
        guard(|| i.intersection_merge(y))?.map_err(|e| format!("{what}: {e}"))?;
        let i = BloomFilter::V2(i);
        let e = i.count_estimate();
        ensure!(e <= ea && e <= eb, "{what}: the intersection counts {e} entries, more than {ea} or {eb}");
        if useful {
            ensure!(e as f64 + tol(&d, common as f64) >= common as f64, "{what}: the intersection counts {e} entries");
        }
        let diff = (e as i64 - cc as i64).unsigned_abs();
        ensure!(diff as f64 <= d.nb + 1.0, "{what}: the intersection counts {e} entries, common entries {cc}");
    }
    ctx.add("evaluations", 4);
    ctx.distinct([h64(what.as_bytes())]);
    Ok(())
}

pub fn c20(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases: Vec<Case> = vec![];
    for (v, o) in KINDS {
        for fpp in [0.5, 0.1, 0.01, 0.001, 1e-6] {
            cases.push(case(format!("small v{v}/O{o}/fpp={fpp:e}"), move |ctx| {
                for cap in [1u64, 2, 3, 10, 25] {
                    let c = cfg(v, o, cap as usize, fpp);
                    let lim = if quick { 10 } else { 25 };
                    for n1 in (0..=cap).filter(|n| *n <= lim || n % 5 == 0) {
                        for n2 in (0..=cap).filter(|n| *n <= lim || n % 5 == 0) {
                            for common in 0..=n1.min(n2) {
                                // collisions at high probabilities refuse nothing but may merge entries
                                if filled(c, 0..n1).is_err() {
                                    continue;
                                }
                                pair(ctx, c, n1, n2, common)?;
                            }
                        }
                        ctx.beat();
                    }
                }
                Ok(())
            }));
            cases.push(case(format!("large v{v}/O{o}/fpp={fpp:e}"), move |ctx| {
                for cap in [100u64, 1000, 5000, if quick { 50_000 } else { 150_000 }] {
                    let c = cfg(v, o, cap as usize, fpp);
                    for (x, y) in [(0, 0), (0, 10), (1, 1), (3, 3), (5, 5), (10, 10), (2, 9), (10, 5)] {
                        let (n1, n2) = (cap * x / 10, cap * y / 10);
                        let m = n1.min(n2);
                        for common in [0, m / 4, m / 2, m] {
                            pair(ctx, c, n1, n2, common)?;
                            ctx.beat();
                        }
                    }
                }
                Ok(())
            }));
        }
        // a low probability takes many blocks with few entries
        cases.push(case(format!("many blocks v{v}/O{o}"), move |ctx| {
            for nb in [65u64, 129, 257, 520, 1030].into_iter().chain(if quick { 0..0 } else { 2..5 }.map(|i| 1030 * i)) {
                let cap = 68 * nb;
                let c = cfg(v, o, cap as usize, 1e-100);
                for (n1, n2, common) in [(cap / 2, cap / 2, cap / 4), (cap / 2, cap / 2, 0)] {
                    pair(ctx, c, n1, n2, common)?;
                    ctx.beat();
                }
            }
            Ok(())
        }));
        cases.push(case(format!("saturated v{v}/O{o}"), move |ctx| {
            // all bits set, by a file and by unions; one bucket of several saturated
            for (cap, fpp) in [(1usize, 0.5), (3, 0.01), (1000, 0.001), (5000, 0.001), (60, 1e-300)] {
                let c = cfg(v, o, cap, fpp);
                let e = c.make();
                let s = ser(&e);
                let hdr = s.len() - main_bits(&s).len();
                let bits = match &e {
                    BloomFilter::V1(b) => b.n_bits() as usize,
                    _ => (s.len() - hdr) * 8,
                };
                let total = (s.len() - hdr) * 8;
                for nset in [bits, bits - 1, bits - bits.min(2), bits / 2, bits.min(32768), bits.min(32767)] {
                    let mut t = s.clone();
                    for i in 0..nset.min(total) {
                        t[hdr + i / 8] |= 1 << (i % 8);
                    }
                    if v == 2 {
                        let n = hdr - 8;
                        t[48..n].fill(0xff);
                    }
                    let f = load(&t).map_err(|e| e.to_string())?;
                    for how in 0..3 {
                        let mut g = if how == 0 { c.make() } else { f.clone() };
                        let r = guard(|| if how == 2 { intersect(&mut g, &f).unwrap_or(Ok(())) } else { g.union_merge(&f) });
                        r.map_err(|m| format!("{}, {nset} bits set: {m}", c.name()))?.map_err(|e| e.to_string())?;
                        if how == 2 && v == 1 {
                            continue;
                        }
                        if nset == bits {
                            ensure!(g.is_full(), "{}: all {bits} bits set but not full (count {})", c.name(), g.count_estimate());
                        }
                        let cc = guard(|| g.count_common_entries(&f)).map_err(|m| format!("{}, {nset} bits set: {m}", c.name()))?.map_err(|e| e.to_string())?;
                        if nset == bits {
                            ensure!(cc >= cap, "{}: all {bits} bits in common but {cc} common entries", c.name());
                        }
                        let r = guard(|| {
                            let mut h = g.clone();
                            let r = h.insert_bytes(b"one more");
                            (r, h.count_estimate(), h.is_full())
                        })
                        .map_err(|m| format!("{}, {nset} bits set, insertion: {m}", c.name()))?;
                        if nset == bits {
                            ensure!(matches!(r.0, Ok(false)) && r.2, "{}: insertion in a saturated filter: {}", c.name(), show(&r.0));
                        }
                        ctx.add("evaluations", 3);
                        ctx.distinct([h64(format!("{} {nset} {how}", c.name()).as_bytes())]);
                    }
                }
            }
            Ok(())
        }));
        // chains of unions well beyond capacity
        cases.push(case(format!("beyond capacity v{v}/O{o}"), move |ctx| {
            for (cap, fpp) in [(50u64, 0.1), (500, 0.01), (3000, 0.001)] {
                let c = cfg(v, o, cap as usize, fpp);
                let mut u = c.make();
                for r in 0..40u64 {
                    let f = filled(c, r * cap..(r + 1) * cap)?;
                    guard(|| u.union_merge(&f)).map_err(|m| format!("{} round {r}: {m}", c.name()))?.map_err(|e| e.to_string())?;
                    let d = dims(&u);
                    let n = ((r + 1) * cap) as f64;
                    let e = u.count_estimate() as f64;
                    if d.useful(n) {
                        ensure!((e - n).abs() <= tol(&d, n), "{}: union of {n} entries counts {e}", c.name());
                    }
                    if r > 1 {
                        ensure!(u.is_full(), "{}: union of {n} entries is not full (count {e})", c.name());
                    }
                    ctx.add("evaluations", 1);
                }
            }
            Ok(())
        }));
    }
    ctx.par(cases);
}
