//! Histories: C01, C03, C06, C07, C11.
use crate::ctx::{case, guard, Case, Ctx, Res};
use crate::ensure;
use crate::util::*;
use crate::world::*;
use poppy_filters::{BloomFilter, Error};

fn worlds<'a>(ctx: &Ctx, f: impl Fn(&Ctx, &World) -> Res + Send + Sync + Clone + 'a) -> Vec<Case<'a>> {
    let mut v = vec![];
    for c in grid(!ctx.quick()) {
        let f = f.clone();
        let mut keys = std_keys();
        // three keys in the biggest spaces; several buckets need keys falling in different buckets
        if c.fpp < 1e-100 {
            keys = bucket_keys(c);
        }
        v.push(case(format!("world {}", c.name()), move |ctx| {
            f(ctx, &World::new(c, keys.clone(), 2).deeper(ctx))
        }));
    }
    // entries that collide by chance: same bit of the index cache, all bits those of other entries
    for (ver, o) in KINDS {
        for (cap, fpp) in [(2usize, 0.5), (3, 0.5), (3, 0.9), (4, 0.3)] {
            let f = f.clone();
            let c = cfg(ver, o, cap, fpp);
            v.push(case(format!("collisions {}", c.name()), move |ctx| f(ctx, &World::new(c, colliding_keys(c), 2).deeper(ctx))));
        }
    }
    v
}

/// Long entries found by trying: the second changes fewer bits after the first than alone, the third is
/// contained once both are in though it was never inserted, the fourth shares nothing with them.
pub fn colliding_keys(c: Cfg) -> Vec<Vec<u8>> {
    let grown = |b: &BloomFilter, k: &[u8]| {
        let mut n = b.clone();
        let _ = n.insert_bytes(k);
        let (x, y) = (ser(b), ser(&n));
        x[48..].iter().zip(&y[48..]).map(|(p, q)| (p ^ q).count_ones()).sum::<u32>()
    };
    let mut b = c.make();
    let x = long_key(1);
    let _ = b.insert_bytes(&x);
    let y = (2..3000).map(long_key).find(|k| !b.contains_bytes(k) && grown(&b, k) < grown(&c.make(), k)).unwrap_or_else(|| long_key(2));
    let _ = b.insert_bytes(&y);
    let z = (3000..400_000).map(long_key).find(|k| b.contains_bytes(k)).unwrap_or_else(|| long_key(3));
    let w = (400_000..403_000).map(long_key).find(|k| !b.contains_bytes(k) && grown(&b, k) == grown(&c.make(), k)).unwrap_or_else(|| long_key(4));
    vec![x, y, z, w]
}

/// Keys of a several buckets filter: two of them in the same bucket if possible.
pub fn bucket_keys(_c: Cfg) -> Vec<Vec<u8>> {
    vec![b"".to_vec(), b"b".to_vec(), long_key(1), long_key(2)]
}

pub fn c01(ctx: &Ctx) {
    let mut cases = worlds(ctx, |ctx, w| {
        w.explore(
            ctx,
            |s| {
                for (i, f) in s.f.iter().enumerate() {
                    for (k, key) in w.keys.iter().enumerate() {
                        if s.must[i] >> k & 1 == 1 {
                            let d = guard(|| denied(f, key)).map_err(|m| format!("query of an inserted entry: {m}"))?;
                            if let Some(form) = d {
                                return Err(format!("filter {} denies {} which it accepted (query form {form})", ["A", "B"][i], hex(key)));
                            }
                        }
                    }
                }
                Ok(())
            },
            |_, op, out, _| match (op, out) {
                (Op::Ins(..), Out::Panic(m)) => Err(format!("insertion: {m}")),
                _ => Ok(()),
            },
        )
    });
    cases.extend(sweep(ctx));
    cases.extend(crate::big::cases(ctx, "C01"));
    ctx.par(cases);
}

/// Fills filters of many shapes with entries of every length; all accepted entries must be found,
/// also after save/load, union into an empty filter, and refused insertions.
fn sweep<'a>(ctx: &Ctx) -> Vec<Case<'a>> {
    let mut v = vec![];
    let fpps: &[f64] = &[1.0, 0.999, 0.7, 0.5, 0.25, 0.1, 0.01, 0.001, 1e-6, 1e-9, 1e-15, 1e-40, 1e-120, 1e-300];
    for (ver, o) in KINDS {
        for &fpp in fpps {
            let quick = ctx.quick();
            v.push(case(format!("fill v{ver}/O{o}/fpp={fpp:e}"), move |ctx| {
                let mut caps: Vec<usize> = (1..=if quick { 70 } else { 300 }).collect();
                caps.extend([31, 32, 33, 44, 45, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025]);
                if fpp > 1e-20 {
                    caps.extend([4095, 4096, 4097, 6000]);
                    caps.extend([16383, 16384, 16385, 32768, 65536, 70000, 131073]);
                    if !quick {
                        caps.extend([262143, 262144, 262145, 1_000_000]);
                    }
                }
                caps.sort();
                caps.dedup();
                let mut n = 0u64;
                for cap in caps {
                    let c = cfg(ver, o, cap, fpp);
                    ctx.crumb(&c.name());
                    let mut b = c.make();
                    let mut ok = vec![];
                    // beyond capacity, so that refusals are mixed with accepted duplicates
                    for i in 0..(cap as u64 + 4) {
                        let key = len_key((i % 81) as usize, i);
                        if b.insert_bytes(&key).is_ok() {
                            ok.push(key);
                        }
                    }
                    let s = ser(&b);
                    let r = load(&s).map_err(|e| format!("{}: reload failed: {e}", c.name()))?;
                    let mut u = c.make();
                    u.union_merge(&b).map_err(|e| format!("{}: union failed: {e}", c.name()))?;
                    for key in &ok {
                        for (what, f) in [("filter", &b), ("reloaded filter", &r), ("union", &u)] {
                            ensure!(f.contains_bytes(key), "{}: {what} denies {} which it accepted", c.name(), hex(key));
                        }
                    }
                    n += ok.len() as u64;
                    ctx.add("states", 3);
                }
                ctx.add("transitions", n);
                ctx.add("traces", n);
                Ok(())
            }));
        }
    }
    // every length, one configuration per kind
    for (ver, o) in KINDS {
        v.push(case(format!("lengths v{ver}/O{o}"), move |ctx| {
            let mut b = cfg(ver, o, 5000, 0.001).make();
            let lens: Vec<usize> = (0..=1100).chain([2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20]).collect();
            for &l in &lens {
                b.insert_bytes(len_key(l, 7)).map_err(|e| format!("length {l} refused: {e}"))?;
            }
            for &l in &lens {
                ensure!(denied(&b, &len_key(l, 7)).is_none(), "entry of length {l} denied");
            }
            // every two byte entry
            let mut b = cfg(ver, o, 70000, 0.01).make();
            for i in 0..=u16::MAX {
                b.insert_bytes(i.to_le_bytes()).map_err(|e| format!("{i:04x} refused: {e}"))?;
            }
            for i in 0..=u16::MAX {
                ensure!(b.contains_bytes(i.to_le_bytes()), "entry {i:04x} denied");
            }
            ctx.add("transitions", 65536 + lens.len() as u64);
            Ok(())
        }));
    }
    v
}

/// Entries counted and capacity as the filter itself reports them.
fn full(f: &BloomFilter) -> bool {
    f.count_estimate() >= f.capacity() as u64
}

pub fn c06(ctx: &Ctx) {
    let mut cases = worlds(ctx, |ctx, w| {
        w.explore(
            ctx,
            |s| {
                for f in &s.f {
                    ensure!(f.is_full() == full(f), "is_full is {} with count {} and capacity {}", f.is_full(), f.count_estimate(), f.capacity());
                    if f.capacity() == 0 {
                        for k in &w.keys {
                            ensure!(!f.contains_bytes(k), "filter of capacity 0 contains {}", hex(k));
                        }
                    }
                }
                Ok(())
            },
            |p, op, out, n| {
                let Op::Ins(d, k) = op else { return Ok(()) };
                judge_full(&p.f[d], &w.keys[k], out, &n.f[d], w.cfg)
            },
        )
    });
    // filling beyond capacity at more shapes
    for (v, o) in KINDS {
        cases.push(case(format!("overfill v{v}/O{o}"), move |ctx| {
            for cap in [0usize, 1, 2, 3, 5, 7, 8, 9, 16, 17, 23, 100] {
                for fpp in [1.0, 0.9, 0.5, 0.1, 0.001, 1e-9, 1e-300] {
                    let c = cfg(v, o, cap, fpp);
                    ctx.crumb(&c.name());
                    let mut b = c.make();
                    let mut other = c.make();
                    let mut acc = vec![];
                    for i in 0..cap as u64 + 40 {
                        let key = len_key((i % 20) as usize, i);
                        step_full(&mut b, &key, c)?;
                        acc.push(key);
                        // entries already there
                        let again = acc[(i as usize * 7) % acc.len()].clone();
                        step_full(&mut b, &again, c)?;
                        let _ = other.insert_bytes(long_key(i));
                        ctx.add("transitions", 2);
                    }
                    // above capacity through a union, then through a reload
                    let _ = b.union_merge(&other);
                    for i in 0..30 {
                        step_full(&mut b, &long_key(i), c)?;
                        step_full(&mut b, &long_key(1000 + i), c)?;
                    }
                    let mut b = load(&ser(&b)).map_err(|e| format!("{}: {e}", c.name()))?;
                    for i in 0..30 {
                        step_full(&mut b, &long_key(i), c)?;
                        step_full(&mut b, &long_key(2000 + i), c)?;
                        ctx.add("transitions", 4);
                    }
                    ctx.add("states", 1);
                }
            }
            Ok(())
        }));
    }
    ctx.par(cases);
}

fn step_full(b: &mut BloomFilter, key: &[u8], c: Cfg) -> Res {
    let p = b.clone();
    let out = match guard(|| b.insert_bytes(key)) {
        Ok(r) => Out::Bool(r),
        Err(m) => Out::Panic(m),
    };
    judge_full(&p, key, &out, b, c).map_err(|e| format!("{}: insert {}: {e}", c.name(), hex(key)))?;
    ensure!(b.is_full() == full(b), "{}: is_full is {} with count {}", c.name(), b.is_full(), b.count_estimate());
    Ok(())
}

/// Would inserting this key change the main bits? Decided on an unconstrained twin: the same
/// filter with its capacity field raised in the saved form.
fn would_change(f: &BloomFilter, key: &[u8]) -> Option<bool> {
    let mut s = ser(f);
    let cap = f.count_estimate().max(f.capacity() as u64).saturating_add(10);
    s[8..16].copy_from_slice(&cap.to_le_bytes());
    let mut t = load(&s).ok()?;
    let before = main_bits(&ser(&t)).to_vec();
    guard(|| t.insert_bytes(key)).ok()?.ok()?;
    Some(before != main_bits(&ser(&t)))
}

fn judge_full(p: &BloomFilter, key: &[u8], out: &Out, n: &BloomFilter, c: Cfg) -> Res {
    let r = match out {
        Out::Bool(r) => r,
        Out::Panic(m) => return Err(m.clone()),
        _ => return Ok(()),
    };
    if c.cap == 0 {
        ensure!(matches!(r, Err(Error::TooManyEntries)), "filter of capacity 0 answered {}", show(r));
        ensure!(shown(p) == shown(n), "refused insertion changed the filter");
        return Ok(());
    }
    if r.is_err() {
        ensure!(matches!(r, Err(Error::TooManyEntries)), "unexpected {}", show(r));
        ensure!(full(p), "refused with count {} and capacity {}", p.count_estimate(), p.capacity());
        ensure!(shown(p) == shown(n), "refused insertion changed the filter");
    }
    if full(p) {
        let Some(ch) = would_change(p, key) else { return Ok(()) };
        if ch {
            ensure!(r.is_err(), "a full filter (count {}, capacity {}) accepted a new entry: {}", p.count_estimate(), p.capacity(), show(r));
        } else {
            ensure!(r.is_ok(), "a full filter refused an entry already present");
        }
    }
    Ok(())
}

pub fn c07(ctx: &Ctx) {
    let mut cases = worlds(ctx, |ctx, w| {
        w.explore(
            ctx,
            |_| Ok(()),
            |p, op, out, n| {
                let Op::Ins(d, k) = op else { return Ok(()) };
                match out {
                    Out::Panic(m) => Err(m.clone()),
                    Out::Bool(r) => judge_new(&p.f[d], &w.keys[k], r, &n.f[d], p.must[d] >> k & 1 == 1),
                    _ => Ok(()),
                }
            },
        )
    });
    for (v, o) in KINDS {
        for fpp in [0.9, 0.5, 0.1, 0.001, 1e-6, 1e-300] {
            let quick = ctx.quick();
            cases.push(case(format!("novelty v{v}/O{o}/fpp={fpp:e}"), move |ctx| {
                // one by one insertions with many natural collisions, in each form
                for cap in [3usize, 64, if quick { 300 } else { 2000 }] {
                    let c = cfg(v, o, cap, fpp);
                    ctx.crumb(&c.name());
                    for form in 0..NFORMS {
                        let mut b = c.make();
                        let mut n = 0u64;
                        for i in 0..cap as u64 + 5 {
                            let key: Vec<u8> = match i % 4 {
                                0 => (i as u32).to_le_bytes().to_vec(),
                                1 => format!("{i}").into_bytes(),
                                2 => long_key(i),
                                _ => long_key(i / 2),
                            };
                            for _ in 0..2 {
                                let p = b.clone();
                                let Some(r) = guard(|| insert_form(&mut b, &key, form))? else { continue };
                                judge_new(&p, &key, &r, &b, false).map_err(|e| format!("{}, entry {i} {}: {e}", c.name(), hex(&key)))?;
                                n += 1;
                            }
                        }
                        ctx.add("transitions", n);
                        ctx.add("traces", n);
                    }
                    ctx.add("states", 1);
                }
                Ok(())
            }));
        }
    }
    ctx.par(cases);
}

fn judge_new(p: &BloomFilter, key: &[u8], r: &Result<bool, Error>, n: &BloomFilter, inserted: bool) -> Res {
    let Ok(new) = r else { return Ok(()) };
    let (sp, sn) = (ser(p), ser(n));
    let changed = main_bits(&sp) != main_bits(&sn);
    ensure!(*new == changed, "returned {new} but the bits {}", if changed { "changed" } else { "did not change" });
    ensure!(
        n.count_estimate() == p.count_estimate() + *new as u64,
        "returned {new} and the count went from {} to {}", p.count_estimate(), n.count_estimate()
    );
    ensure!(!(*new && inserted), "entry {} was already inserted but is reported as new", hex(key));
    ensure!(!(*new && p.contains_bytes(key)), "entry {} was contained but is reported as new", hex(key));
    Ok(())
}

/// Everything observable of a filter.
pub fn observe(f: &BloomFilter, probes: &[Vec<u8>]) -> (Vec<u8>, String) {
    let mut s = format!(
        "v{} cap={} fpp={:?} n={} size={} full={} data={}:",
        f.version(), f.capacity(), f.fpp(), f.count_estimate(), f.size_in_bytes(), f.is_full(), hex(f.data())
    );
    for p in probes {
        s.push(if f.contains_bytes(p) { '1' } else { '0' });
    }
    match f {
        BloomFilter::V1(b) => s += &format!(" k={} m={} ones={} zeros={} p={}", b.n_hash_fn(), b.n_bits(), b.count_ones(), b.count_zeros(), b.estimated_p()),
        BloomFilter::V2(b) => s += &format!(" ones={} zeros={}", b.count_ones(), b.count_zeros()),
    }
    (ser(f), s)
}

pub fn probes(keys: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut v = keys.to_vec();
    for i in 0..40u64 {
        v.push(vec![i as u8]);
        v.push(long_key(i));
        v.push(len_key((i % 17) as usize, i));
    }
    v
}

/// Runs all operation sequences up to `depth` on both filters and compares everything observable
/// (`data` excluded if asked).
fn lockstep(ctx: &Ctx, keys: &[Vec<u8>], pr: &[Vec<u8>], a: &BloomFilter, b: &BloomFilter, other: &[BloomFilter], depth: usize, path: &mut Vec<String>, n: &mut u64) -> Res {
    if depth == 0 {
        return Ok(());
    }
    let nops = keys.len() + other.len() * 2 + 2;
    for op in 0..nops {
        let (mut x, mut y) = (a.clone(), b.clone());
        let apply = |f: &mut BloomFilter| -> (String, String) {
            if op < keys.len() {
                (format!("insert({})", hex(&keys[op])), show(&f.insert_bytes(&keys[op])))
            } else if op < keys.len() + other.len() {
                let r = f.union_merge(&other[op - keys.len()]);
                (format!("union(other{})", op - keys.len()), format!("{:?}", r.map_err(|e| kind(&e))))
            } else if op < keys.len() + 2 * other.len() {
                let i = op - keys.len() - other.len();
                let r = intersect(f, &other[i]).map(|r| r.map_err(|e| kind(&e)));
                (format!("intersection(other{i})"), format!("{r:?}"))
            } else if op == nops - 2 {
                f.clear();
                ("clear".into(), String::new())
            } else {
                let s = ser(f);
                match load(&s) {
                    Ok(g) => {
                        *f = g;
                        ("reload".into(), "Ok".into())
                    }
                    Err(e) => ("reload".into(), kind(&e)),
                }
            }
        };
        let rx = guard(|| apply(&mut x));
        let ry = guard(|| apply(&mut y));
        *n += 1;
        let name = rx.as_ref().map(|r| r.0.clone()).unwrap_or_else(|_| format!("op{op}"));
        path.push(name);
        let fmt = |r: Result<(String, String), String>| r.map(|r| r.1).unwrap_or_else(|m| m);
        let (rx, ry) = (fmt(rx), fmt(ry));
        ensure!(rx == ry, "after [{}]: results differ: {rx} / {ry}", path.join("; "));
        let (ox, oy) = (observe(&x, pr), observe(&y, pr));
        ensure!(ox.1 == oy.1, "after [{}]: observations differ:\n{}\n{}", path.join("; "), ox.1, oy.1);
        ensure!(ox.0 == oy.0, "after [{}]: saved bytes differ", path.join("; "));
        lockstep(ctx, keys, pr, &x, &y, other, depth - 1, path, n)?;
        path.pop();
    }
    Ok(())
}

fn others(c: Cfg, keys: &[Vec<u8>]) -> Vec<BloomFilter> {
    let mut o = c.make();
    let _ = o.insert_bytes(&keys[1]);
    let _ = o.insert_bytes(&keys[3]);
    vec![o]
}

/// Single slot state space used as starting points of lock-step runs.
pub fn one_slot(c: Cfg) -> World {
    let keys = if c.fpp < 1e-100 { bucket_keys(c) } else { std_keys() };
    World::new(c, keys, 1)
}

/// Calls with every filter a single slot reaches and, with less depth, every other one two slots reach
/// (merged with different filters, filled beyond their capacity).
pub fn starts(ctx: &Ctx, c: Cfg, depth: usize, mut go: impl FnMut(&BloomFilter, usize) -> Res) -> Res {
    let w = one_slot(c);
    let mut deep = std::collections::HashSet::new();
    let mut done = std::collections::HashSet::new();
    let id = |f: &BloomFilter| {
        let (s, t) = shown(f);
        (h64(&s), h64(t.as_bytes()))
    };
    w.explore(
        ctx,
        |s| {
            done.insert(id(&s.f[0]));
            if deep.insert(s.dh[0]) {
                go(&s.f[0], depth)?;
            }
            Ok(())
        },
        |_, _, _, _| Ok(()),
    )?;
    let two = World::new(c, w.keys.clone(), 2);
    two.explore(ctx, |s| if done.insert(id(&s.f[0])) { go(&s.f[0], depth.min(2)) } else { Ok(()) }, |_, _, _, _| Ok(()))
}

pub fn c03(ctx: &Ctx) {
    let depth = if ctx.quick() { 3 } else { 4 };
    let mut cases = vec![];
    for c in grid(!ctx.quick()) {
        cases.push(case(format!("roundtrip {}", c.name()), move |ctx| {
            let w = one_slot(c);
            let pr = probes(&w.keys);
            let oth = others(c, &w.keys);
            let mut n = 0;
            let r = starts(ctx, c, depth, |f, depth| roundtrip(ctx, f, &w.keys, &pr, &oth, depth, &mut n));
            ctx.add("lockstep_steps", n);
            ctx.add("traces", n);
            r
        }));
    }
    for (v, o) in KINDS {
        // attached data
        cases.push(case(format!("data v{v}/O{o}"), move |ctx| {
            for cap in [0usize, 1, 2000, 9000] {
                for len in [0usize, 1, 7, 8, 9, 47, 48, 49, 255, 4095, 4096, 4097, 8143, 8144, 8191, 8192, 8193, 16384, 20000, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3 << 20] {
                    if cap != 1 && len > 65537 {
                        continue;
                    }
                    let c = cfg(v, o, cap, 0.001);
                    let mut b = c.make();
                    for i in 0..cap.min(50) as u64 {
                        b.insert_bytes(long_key(i)).map_err(|e| format!("{}: {e}", c.name()))?;
                    }
                    set_data(&mut b, &len_key(len, 3));
                    let mut n = 0;
                    roundtrip(ctx, &b, &[long_key(1), long_key(1000)], &probes(&[]), &[], 1, &mut n)
                        .map_err(|e| format!("{}, {len} bytes of data: {e}", c.name()))?;
                    ctx.add("states", 1);
                    ctx.add("transitions", n);
                }
            }
            Ok(())
        }));
        // shapes: every small capacity and probability class, filled
        cases.push(case(format!("shapes v{v}/O{o}"), move |ctx| {
            for cap in (0..=40usize).chain([63, 64, 65, 127, 128, 129, 1023, 1024, 1025, 5000, 65535, 65536, 65537, 70000]) {
                for fpp in [1.0, 0.6, 0.1, 0.001, 1e-7, 1e-300] {
                    if cap > 3000 && fpp < 1e-3 {
                        continue;
                    }
                    let c = cfg(v, o, cap, fpp);
                    ctx.crumb(&c.name());
                    let mut b = c.make();
                    for i in 0..cap as u64 {
                        let _ = b.insert_bytes(len_key((i % 30) as usize, i));
                    }
                    let mut n = 0;
                    roundtrip(ctx, &b, &[long_key(1)], &probes(&[]), &[], 1, &mut n).map_err(|e| format!("{}: {e}", c.name()))?;
                    if cap <= 5000 {
                        // beyond the capacity
                        let mut o2 = c.make();
                        for i in 0..cap as u64 {
                            let _ = o2.insert_bytes(long_key(i));
                        }
                        let _ = b.union_merge(&o2);
                        roundtrip(ctx, &b, &[long_key(1)], &probes(&[]), &[], 1, &mut n).map_err(|e| format!("{} after a union: {e}", c.name()))?;
                    }
                    ctx.add("states", 1);
                    ctx.add("transitions", n);
                }
            }
            Ok(())
        }));
    }
    cases.extend(crate::big::cases(ctx, "C03"));
    ctx.par(cases);
}

fn roundtrip(ctx: &Ctx, f: &BloomFilter, keys: &[Vec<u8>], pr: &[Vec<u8>], oth: &[BloomFilter], depth: usize, n: &mut u64) -> Res {
    let s = guard(|| ser(f))?;
    let (os, ox) = observe(f, pr);
    let mut first = None;
    let after: Vec<u8> = b"something else".iter().chain(&s).copied().collect();
    for how in 0..6 {
        let r = guard(|| match how {
            0 => load(&s),
            5 => {
                // what precedes the filter in the reader is not its business
                let mut c = std::io::Cursor::new(&after);
                c.set_position(14);
                BloomFilter::from_reader(c)
            }
            1 => BloomFilter::from_reader(Dribble { c: std::io::Cursor::new(&s), n: 1 }),
            2 => typed_load(f.version(), std::io::Cursor::new(&s)),
            3 => BloomFilter::from_reader(Dribble { c: std::io::Cursor::new(&s), n: 4097 }),
            _ => typed_load(f.version(), Dribble { c: std::io::Cursor::new(&s), n: 7 }),
        })?
        .map_err(|e| format!("loading a saved filter (reader {how}) failed: {e}"))?;
        let (rs, rx) = guard(|| observe(&r, pr))?;
        ensure!(rx == ox, "loaded filter (reader {how}) differs:\nsaved  {ox}\nloaded {rx}");
        ensure!(rs == os, "saving the loaded filter (reader {how}) gives other bytes");
        ensure!(r.data() == f.data(), "attached data differs");
        ensure!(r.has_same_params(f) && f.has_same_params(&r), "loaded filter (reader {how}) does not have the same parameters as the original");
        // merging with the original
        let mut m = r.clone();
        guard(|| m.union_merge(f))?.map_err(|e| format!("merging the loaded filter with the original: {e}"))?;
        let mut m2 = f.clone();
        guard(|| m2.union_merge(&r))?.map_err(|e| format!("merging the original with the loaded filter: {e}"))?;
        *n += 4;
        if how == 0 {
            first = Some(r);
        }
    }
    lockstep(ctx, keys, pr, f, &first.unwrap(), oth, depth, &mut vec![], n)
}

pub fn c11(ctx: &Ctx) {
    let depth = if ctx.quick() { 3 } else { 4 };
    let mut cases = vec![];
    for c in grid(!ctx.quick()) {
        cases.push(case(format!("clear {}", c.name()), move |ctx| {
            let w = one_slot(c);
            let pr = probes(&w.keys);
            let oth = others(c, &w.keys);
            let mut n = 0;
            let r = starts(ctx, c, depth, |f, depth| cleared(ctx, f, c, &w.keys, &pr, &oth, depth, &mut n));
            ctx.add("lockstep_steps", n);
            ctx.add("traces", n);
            r
        }));
    }
    for (v, o) in KINDS {
        cases.push(case(format!("clear filled v{v}/O{o}"), move |ctx| {
            for cap in [1usize, 8, 9, 64, 100, 1000, 5000, 20000] {
                for fpp in [1.0, 0.5, 0.01, 1e-6] {
                    let c = cfg(v, o, cap, fpp);
                    ctx.crumb(&c.name());
                    let mut b = c.make();
                    let mut o2 = c.make();
                    for i in 0..cap as u64 {
                        let _ = b.insert_bytes(len_key((i % 30) as usize, i));
                        let _ = o2.insert_bytes(long_key(i));
                    }
                    let keys = [long_key(1), b"x".to_vec()];
                    let mut n = 0;
                    for step in 0..4 {
                        match step {
                            1 => {
                                let _ = b.union_merge(&o2);
                            }
                            2 => b = load(&ser(&b)).map_err(|e| e.to_string())?,
                            3 => {
                                let _ = intersect(&mut b, &o2);
                            }
                            _ => {}
                        }
                        cleared(ctx, &b, c, &keys, &probes(&keys), &[], 2, &mut n).map_err(|e| format!("{} step {step}: {e}", c.name()))?;
                        ctx.add("states", 1);
                    }
                    ctx.add("transitions", n);
                }
            }
            Ok(())
        }));
    }
    cases.extend(crate::big::cases(ctx, "C11"));
    ctx.par(cases);
}

fn cleared(ctx: &Ctx, f: &BloomFilter, c: Cfg, keys: &[Vec<u8>], pr: &[Vec<u8>], oth: &[BloomFilter], depth: usize, n: &mut u64) -> Res {
    let mut x = f.clone();
    guard(|| x.clear())?;
    set_data(&mut x, &[]);
    let fresh = c.make();
    let (a, b) = (guard(|| observe(&x, pr))?, observe(&fresh, pr));
    ensure!(a.1 == b.1, "cleared and new filter differ:\ncleared {}\nnew     {}", a.1, b.1);
    ensure!(a.0 == b.0, "cleared and new filter are saved differently");
    // the whole visible state must be that of the new filter
    lockstep(ctx, keys, pr, &x, &fresh, oth, depth, &mut vec!["clear".into()], n)?;
    if matches!(f, BloomFilter::V1(_)) || f.capacity() == 0 {
        return Ok(());
    }
    // clear of the inner type
    if let BloomFilter::V2(g) = f {
        let mut g = g.clone();
        g.clear();
        g.data.clear();
        ensure!(ser(&BloomFilter::V2(g)) == b.0, "cleared version 2 filter differs from a new one");
    }
    Ok(())
}
