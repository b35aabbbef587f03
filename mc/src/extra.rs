//! Bulk filling (C28), sizes and statistics helpers (C29), bit statistics (C31),
//! estimated probability (C32).
use crate::ctx::{case, guard, Ctx, Res};
use crate::ensure;
use crate::life::{one_slot, starts};
use crate::util::*;
use crate::world::*;
use poppy_filters::utils::{benchmark, time_it_once, ByteSize, Stats};
use poppy_filters::{BloomFilter, Error};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn one_by_one(f: &mut BloomFilter, keys: &[&[u8]]) -> Result<(), Error> {
    for k in keys {
        f.insert_bytes(k)?;
    }
    Ok(())
}

/// fill in each form its argument may take, compared with insertions one by one
fn filled(f: &BloomFilter, keys: &[&[u8]], ev: &mut u64) -> Res {
    let mut want = f.clone();
    let rw = one_by_one(&mut want, keys);
    let w = shown(&want);
    let text: Option<Vec<&str>> = keys.iter().map(|k| std::str::from_utf8(k).ok()).collect();
    for form in 0..5 {
        let mut g = f.clone();
        let r = guard(|| {
            Some(match form {
                0 => g.fill(keys.to_vec()),
                1 => g.fill(keys.iter().map(|k| k.to_vec()).collect::<Vec<_>>()),
                2 => g.fill(text.clone()?),
                3 => g.fill(text.clone()?.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
                _ => g.fill(keys.iter().collect::<Vec<_>>()),
            })
        });
        let r = match r {
            Err(m) => return Err(format!("fill: {m}")),
            Ok(None) => continue,
            Ok(Some(r)) => r,
        };
        *ev += 1;
        let names = || keys.iter().take(6).map(|k| hex(k)).collect::<Vec<_>>().join(", ");
        let k = |r: &Result<(), Error>| r.as_ref().map_err(kind).map(|_| "accepted").map_or_else(|e| e, |s| s.to_string());
        ensure!(k(&r) == k(&rw), "fill([{}]) (form {form}): {} although insertions one by one are {}", names(), k(&r), k(&rw));
        ensure!(shown(&g) == w, "fill([{}]) (form {form}) and insertions one by one give different filters", names());
    }
    Ok(())
}

pub fn c28(ctx: &Ctx) {
    let quick = ctx.quick();
    let depth = if quick { 4 } else { 5 };
    let mut cases = vec![];
    for c in grid(!quick) {
        cases.push(case(format!("fill {}", c.name()), move |ctx| {
            let w = one_slot(c);
            // all sequences of entries up to the depth
            let mut seqs: Vec<Vec<&[u8]>> = vec![vec![]];
            let mut last = 0;
            for _ in 0..depth {
                let n = seqs.len();
                for i in last..n {
                    for k in &w.keys {
                        let mut s = seqs[i].clone();
                        s.push(k);
                        seqs.push(s);
                    }
                }
                last = n;
            }
            let mut ev = 0;
            starts(ctx, c, depth, |f, d| {
                for q in seqs.iter().filter(|q| q.len() <= d) {
                    filled(f, q, &mut ev)?;
                    ctx.add("evaluations", 1);
                }
                ctx.beat();
                Ok(())
            })?;
            ctx.add("transitions", ev);
            ctx.add("traces", ev);
            Ok(())
        }));
    }
    for (v, o) in KINDS {
        cases.push(case(format!("fill large v{v}/O{o}"), move |ctx| {
            let mut ev = 0;
            for cap in (0..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 5000, 8192, 70_000]) {
                for fpp in [0.5, 0.01, 1e-6] {
                    if cap > 10_000 && fpp != 0.01 {
                        continue;
                    }
                    let f = cfg(v, o, cap, fpp).make();
                    let keys: Vec<Vec<u8>> = (0..cap as u64 + 3).map(|i| len_key(9 + (i % 23) as usize, i)).collect();
                    for n in [0, 1, cap / 2, cap.saturating_sub(1), cap, cap + 1, cap + 3] {
                        let n = n.min(keys.len());
                        let q: Vec<&[u8]> = keys[..n].iter().map(|k| &k[..]).collect();
                        filled(&f, &q, &mut ev).map_err(|e| format!("{} with {n} entries: {e}", cfg(v, o, cap, fpp).name()))?;
                        ctx.beat();
                    }
                    // with repetitions: only distinct entries need room
                    let q: Vec<&[u8]> = keys[..cap].iter().chain(keys[..cap].iter().rev()).map(|k| &k[..]).collect();
                    filled(&f, &q, &mut ev).map_err(|e| format!("{} with repetitions: {e}", cfg(v, o, cap, fpp).name()))?;
                }
            }
            ctx.add("states", ev);
            ctx.add("transitions", ev);
            ctx.add("traces", ev);
            Ok(())
        }));
    }
    // the macro: the same filter or, when an entry is refused, a panic
    cases.push(case("macro", |ctx| {
        use poppy_filters::bloom;
        macro_rules! lists {
            ($($l:tt),*) => {$(
                for cap in 0..=5usize {
                    for fpp in [0.5, 0.01, 1e-9] {
                        let mut want = cfg(2, 0, cap, fpp).make();
                        let list: Vec<&str> = vec!$l;
                        let keys: Vec<&[u8]> = list.iter().map(|k| k.as_bytes()).collect();
                        let r = one_by_one(&mut want, &keys);
                        let got = guard(|| bloom!(cap, fpp, $l));
                        ctx.add("evaluations", 1);
                        match got {
                            Ok(f) => ensure!(r.is_ok() && shown(&f) == shown(&want), "bloom!({cap}, {fpp}, {list:?}) does not give the filter of the insertions one by one ({})", if r.is_ok() { "accepted" } else { "refused" }),
                            Err(m) => ensure!(r.is_err(), "bloom!({cap}, {fpp}, {list:?}): {m}"),
                        }
                    }
                }
            )*};
        }
        lists!([""], ["a"], ["a", "a"], ["a", "b"], ["a", "b", "a"], ["one entry", "another entry", "a third one"], ["a", "a", "a", "a", "a", "a"], ["a", "b", "c", "d", "e"], ["a", "b", "c", "d", "e", "f"]);
        Ok(())
    }));
    ctx.par(cases);
}

fn unit(s: &str) -> Option<(f64, f64)> {
    let cut = s.find(|c: char| c.is_ascii_alphabetic())?;
    let u = match s[cut..].trim() {
        "B" => 1.0,
        "KB" => 1024.0,
        "MB" => 1048576.0,
        "GB" => 1073741824.0,
        _ => return None,
    };
    Some((s[..cut].trim().parse().ok()?, u))
}

fn size(n: usize) -> Res {
    let s = ByteSize::from_bytes(n);
    ensure!(s.in_bytes() == n, "from_bytes({n}).in_bytes() is {}", s.in_bytes());
    let mb = n as f64 / 1048576.0;
    ensure!((s.in_mb() - mb).abs() <= mb * 1e-12, "from_bytes({n}).in_mb() is {}", s.in_mb());
    // printed with the largest unit that fits, one digit after the point
    let t = s.to_string();
    let Some((x, u)) = unit(&t) else { return Err(format!("{n} bytes printed as {t:?}")) };
    ensure!((x * u - n as f64).abs() <= 0.05 * u * 1.0001 + n as f64 * 1e-12, "{n} bytes printed as {t:?}");
    ensure!((n as f64 >= u || u == 1.0) && ((n as f64) < u * 1024.0 || u == 1073741824.0), "{n} bytes printed as {t:?}");
    ensure!((s.in_unit() * u - n as f64).abs() <= n as f64 * 1e-12, "from_bytes({n}).in_unit() is {}", s.in_unit());
    let b = ByteSize::from_bytes(n).as_bytes();
    ensure!(b.in_bytes() == n && b.to_string() == format!("{n}.0B") || n as f64 as u128 != n as u128, "from_bytes({n}).as_bytes() is {b}");
    ensure!(b == s, "from_bytes({n}) differs from its as_bytes()");
    let f = ByteSize::from_bits(n);
    ensure!(f.in_bytes() == n / 8, "from_bits({n}) is {} bytes", f.in_bytes());
    let m = ByteSize::from_mb(n);
    ensure!(m.in_bytes() == n.saturating_mul(1 << 20), "from_mb({n}) is {} bytes", m.in_bytes());
    Ok(())
}

pub fn c29(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut v: Vec<usize> = (0..=4200).collect();
    for e in 0..64u32 {
        for d in 0..if quick { 100 } else { 3000usize } {
            v.push((1usize << e).saturating_add(d));
            v.push((1usize << e).saturating_sub(d));
            v.push((3usize << e.min(60)).saturating_add(d));
        }
    }
    for u in [1usize << 10, 1 << 20, 1 << 30] {
        for k in 1..1024 {
            v.push(u * k);
            v.push(u * k - 1);
            v.push(u * k + u / 20);
        }
    }
    v.push(usize::MAX);
    v.sort();
    v.dedup();
    let v = &v;
    let mut cases = vec![case("sizes", move |ctx| {
        for n in v {
            guard(|| size(*n))??;
        }
        ctx.add("evaluations", v.len() as u64);
        ctx.sample("every size up to 4200 bytes and around each unit border and power of two");
        ctx.distinct(v.iter().map(|x| *x as u64));
        Ok(())
    })];
    cases.push(case("order of sizes", move |ctx| {
        let s: Vec<usize> = v.iter().copied().step_by(if quick { 8 } else { 3 }).chain(v.windows(2).filter(|w| w[0] + 1 == w[1] && (w[1] & w[0]) == 0).flat_map(|w| [w[0], w[1]])).collect();
        let h = |b: &ByteSize| {
            let mut h = DefaultHasher::new();
            b.hash(&mut h);
            h.finish()
        };
        for a in &s {
            for b in &s {
                let (x, y) = (ByteSize::from_bytes(*a), ByteSize::from_bytes(*b));
                ensure!((x == y) == (a == b), "comparing {a} and {b} bytes for equality");
                ensure!(x.partial_cmp(&y) == Some(a.cmp(b)), "ordering {a} and {b} bytes");
                ensure!(x.as_bytes().partial_cmp(&y) == Some(a.cmp(b)), "ordering {a} and {b} bytes in different units");
            }
            ensure!(h(&ByteSize::from_bytes(*a)) == h(&ByteSize::from_bytes(*a).as_bytes()), "equal sizes of {a} bytes hash differently");
            ctx.beat();
        }
        ctx.add("evaluations", (s.len() * s.len()) as u64);
        Ok(())
    }));
    cases.push(case("statistics", move |ctx| {
        // all sequences of the four kinds of events
        let depth = if quick { 10 } else { 13 };
        for code in 0..4usize.pow(depth) {
            let mut s = Stats::new();
            let mut n = [0usize; 4];
            let mut x = code;
            for i in 0..depth as usize {
                let k = x % 4;
                x /= 4;
                n[k] += 1;
                match k {
                    0 => s.inc_tp(),
                    1 => s.inc_fp(),
                    2 => s.inc_tn(),
                    _ => s.inc_fn(),
                }
                ensure!(s.total() == i + 1, "total {} after {} events", s.total(), i + 1);
                let (r, neg) = (s.fp_rate(), (n[1] + n[2]) as f64);
                if neg == 0.0 {
                    ensure!(r.is_nan() || r == 0.0, "false positive rate {r} without negatives");
                } else {
                    ensure!((r - n[1] as f64 / neg).abs() < 1e-12, "false positive rate {r} with {} false positives and {} true negatives", n[1], n[2]);
                }
            }
        }
        ctx.add("evaluations", 4u64.pow(depth) * depth as u64);
        ctx.sample(format!("all sequences of {depth} lookup outcomes"));
        ctx.distinct((0..4u64.pow(depth)).map(|x| x + (1 << 40)));
        Ok(())
    }));
    cases.push(case("timings", move |ctx| {
        // the function is run exactly as often as asked
        for run in (0..=200u32).chain([1000]) {
            let mut n = 0u32;
            let t0 = std::time::Instant::now();
            let d = guard(|| benchmark(|| n += 1, run)).map_err(|m| format!("benchmark of {run} runs: {m}"))?;
            ensure!(n == run, "benchmark of {run} runs ran {n} times");
            ensure!(d <= t0.elapsed(), "benchmark of {run} runs reports a mean of {d:?}");
            ctx.add("evaluations", 1);
        }
        let mut n = 0;
        let d = guard(|| time_it_once(|| {
            n += 1;
            std::thread::sleep(std::time::Duration::from_millis(3));
        }))?;
        ensure!(n == 1 && d.as_millis() >= 3, "time_it_once ran {n} times in {d:?}");
        Ok(())
    }));
    ctx.par(cases);
}

pub fn stats(f: &BloomFilter) -> Res {
    let s = ser(f);
    let n = f.data().len();
    let bits = &main_bits(&s)[..main_bits(&s).len() - n];
    let ones: usize = bits.iter().map(|b| b.count_ones() as usize).sum();
    let (o, z) = match f {
        BloomFilter::V1(b) => {
            let l = b.bits();
            ensure!(l.len() as u64 == b.n_bits(), "{} bits listed of {}", l.len(), b.n_bits());
            for (i, x) in l.iter().enumerate() {
                ensure!(*x == (bits[i / 8] >> (i % 8) & 1 == 1), "bit {i} listed as {x} but saved otherwise");
            }
            ensure!(b.size_in_u64() * 8 == bits.len(), "{} words but {} bytes saved", b.size_in_u64(), bits.len());
            ensure!(b.size_in_bytes() == bits.len(), "{} bytes but {} saved", b.size_in_bytes(), bits.len());
            ensure!(b.n_hash_fn().to_le_bytes() == s[24..32] && b.n_bits().to_le_bytes() == s[32..40], "{} hash functions and {} bits are not those saved", b.n_hash_fn(), b.n_bits());
            let p = b.estimated_p();
            ensure!(p.is_nan() || (0.0..=1.0).contains(&p), "estimated probability {p}");
            (b.count_ones(), b.count_zeros())
        }
        BloomFilter::V2(b) => (b.count_ones(), b.count_zeros()),
    };
    ensure!(o == ones, "{o} ones counted but {ones} saved");
    ensure!(o + z == bits.len() * 8, "{o} ones and {z} zeros in {} bits", bits.len() * 8);
    Ok(())
}

pub fn c31(ctx: &Ctx) {
    let mut cases = vec![];
    for c in grid(!ctx.quick()) {
        cases.push(case(format!("world {}", c.name()), move |ctx| {
            let w = World::new(c, if c.fpp < 1e-100 { crate::life::bucket_keys(c) } else { std_keys() }, 2);
            w.explore(ctx, |s| s.f.iter().try_for_each(|f| guard(|| stats(f))?), |_, _, _, _| Ok(()))
        }));
    }
    for (v, o) in KINDS {
        cases.push(case(format!("shapes v{v}/O{o}"), move |ctx| {
            let mut n = 0;
            for cap in (0..=70usize).chain([127, 128, 129, 1000, 1024, 5000, 20_000]) {
                for fpp in [1.0, 0.9, 0.5, 0.1, 0.01, 1e-6, 1e-300] {
                    if cap > 1100 && fpp < 0.01 {
                        continue;
                    }
                    let c = cfg(v, o, cap, fpp);
                    let mut f = c.make();
                    let mut fill = 0;
                    for step in [0, cap / 3, cap] {
                        while fill < step {
                            let _ = f.insert_bytes(len_key(fill % 31, fill as u64));
                            fill += 1;
                        }
                        guard(|| stats(&f)).and_then(|r| r).map_err(|e| format!("{} with {fill} entries: {e}", c.name()))?;
                        n += 1;
                    }
                    set_data(&mut f, b"attached");
                    guard(|| stats(&f)).and_then(|r| r).map_err(|e| format!("{} with data: {e}", c.name()))?;
                    // all bits set
                    let mut s = ser(&cfg(v, o, cap, fpp).make());
                    let at = s.len() - main_bits(&s).len();
                    s[at..].fill(0xff);
                    if let Ok(f) = load(&s) {
                        guard(|| stats(&f)).and_then(|r| r).map_err(|e| format!("{} with all bits set: {e}", c.name()))?;
                    }
                    ctx.beat();
                }
            }
            ctx.add("states", n);
            ctx.add("transitions", n);
            ctx.add("traces", n);
            Ok(())
        }));
    }
    cases.extend(crate::big::cases(ctx, "C31"));
    ctx.par(cases);
}

/// probability of a filter of m bits with n entries and the best number of hash functions
fn expected_p(n: u64, m: u64) -> f64 {
    let (n, m) = (n as f64, m as f64);
    let k = (std::f64::consts::LN_2 * m / n).ceil();
    if n == 0.0 {
        return 0.0;
    }
    (1.0 - (-k * n / m).exp()).powf(k)
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * b.abs() + 1e-300
}

fn estimate(f: &BloomFilter) -> Res {
    if let BloomFilter::V1(b) = f {
        let (n, m, p) = (b.count_estimate(), b.n_bits(), b.estimated_p());
        if m > 0 {
            let want = expected_p(n, m);
            ensure!(near(p, want), "probability {p} estimated for {n} entries in {m} bits, {want} expected");
            ensure!((0.0..=1.0).contains(&p), "estimated probability {p}");
        }
    }
    Ok(())
}

pub fn c32(ctx: &Ctx) {
    let mut cases = vec![];
    for c in grid(!ctx.quick()).into_iter().filter(|c| c.v == 1) {
        cases.push(case(format!("world {}", c.name()), move |ctx| {
            let w = World::new(c, std_keys(), 2);
            w.explore(ctx, |s| s.f.iter().try_for_each(|f| guard(|| estimate(f))?), |_, _, _, _| Ok(()))
        }));
    }
    let quick = ctx.quick();
    for fpp in [1.0, 0.99, 0.9, 0.5, 0.3, 0.1, 0.01, 0.001, 1e-6, 1e-12, 1e-100, 1e-300] {
        cases.push(case(format!("fills fpp={fpp:e}"), move |ctx| {
            let caps: Vec<usize> = (1..=if quick { 70usize } else { 400 }).chain([127, 128, 129, 1000, 1024, 5000]).collect();
            let mut n = 0;
            for cap in caps {
                let mut f = cfg(1, 0, cap, fpp).make();
                for i in 0..=cap as u64 {
                    guard(|| estimate(&f)).and_then(|r| r).map_err(|e| format!("capacity {cap}, fpp {fpp}: {e}"))?;
                    let BloomFilter::V1(b) = &f else { return Err("not version 1".into()) };
                    let p = b.estimated_p();
                    if b.count_estimate() == 0 {
                        ensure!(p == 0.0, "capacity {cap}, fpp {fpp}: empty filter estimates {p}");
                    }
                    let _ = f.insert_bytes(long_key(i));
                    n += 1;
                }
                ctx.beat();
            }
            ctx.add("states", n);
            ctx.add("transitions", n);
            ctx.add("traces", n);
            ctx.sample(format!("fpp {fpp:e}: {n} fills"));
            Ok(())
        }));
    }
    // counts and sizes no insertion reaches: loaded
    cases.push(case("loaded counts", |ctx| {
        let mut n = 0;
        for m in [1u64, 2, 63, 64, 65, 1000, 65_536] {
            for count in [0u64, 1, 2, 3, 10, 63, 64, 65, 999, 1000, 1001, 100_000, 1 << 32, 1 << 53, u64::MAX] {
                let r = crate::refm::Ref1 { cap: 10, fpp: 0.1, k: 1, m, count, words: vec![0; m.div_ceil(64) as usize] };
                let f = load(&r.bytes()).map_err(|e| e.to_string())?;
                guard(|| estimate(&f))??;
                n += 1;
            }
        }
        ctx.add("states", n);
        ctx.add("transitions", n);
        ctx.add("traces", n);
        Ok(())
    }));
    ctx.par(cases);
}
