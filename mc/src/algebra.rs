//! C08, C09, C10, C26: merges and content algebra.
use crate::ctx::{case, guard, Ctx, Res};
use crate::ensure;
use crate::life::bucket_keys;
use crate::util::*;
use crate::world::*;
use poppy_filters::BloomFilter;

fn combine(a: &[u8], b: &[u8], and: bool) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| if and { x & y } else { x | y }).collect()
}

fn wkeys(c: Cfg) -> Vec<Vec<u8>> {
    if c.fpp < 1e-100 {
        bucket_keys(c)
    } else {
        std_keys()
    }
}

fn monitors<'a>(ctx: &Ctx, and: bool) -> Vec<crate::ctx::Case<'a>> {
    let mut v = vec![];
    for c in grid(!ctx.quick()) {
        if and && c.v == 1 {
            continue;
        }
        v.push(case(format!("world {}", c.name()), move |ctx| {
            let keys = wkeys(c);
            let w = World::new(c, keys.clone(), 2).deeper(ctx);
            let pr = crate::life::probes(&keys);
            w.explore(
                ctx,
                |_| Ok(()),
                |p, op, out, n| {
                    let d = match op {
                        Op::Uni(d) if !and => d,
                        Op::Int(d) if and => d,
                        _ => return Ok(()),
                    };
                    let s = 1 - d;
                    match out {
                        Out::Panic(m) => return Err(m.clone()),
                        Out::Unit(Err(e)) => return Err(format!("compatible filters refused: {e}")),
                        _ => {}
                    }
                    ensure!(shown(&p.f[s]) == shown(&n.f[s]), "the second operand changed");
                    judge_merge(&p.f[d], &p.f[s], &n.f[d], and, &pr)
                },
            )
        }));
    }
    v
}

fn judge_merge(a: &BloomFilter, b: &BloomFilter, r: &BloomFilter, and: bool, pr: &[Vec<u8>]) -> Res {
    let (sa, sb, sr) = (ser(a), ser(b), ser(r));
    let (x, y, z) = (contents(&sa), contents(&sb), contents(&sr));
    if !and {
        ensure!(z == combine(x, y, false), "bits of the union are not those of both operands");
        ensure!(sa[..32] == sr[..32], "union changed the parameters");
    }
    for p in pr {
        let (i, j, k) = (a.contains_bytes(p), b.contains_bytes(p), r.contains_bytes(p));
        if and {
            ensure!(!k || (i && j), "the intersection contains {} which one operand ({i}, {j}) does not contain", hex(p));
        } else {
            ensure!(k || !(i || j), "the union does not contain {} which one operand contains", hex(p));
        }
    }
    if and {
        ensure!(sa[..32] == sr[..32], "intersection changed the parameters");
    }
    Ok(())
}

fn subset(c: Cfg, keys: &[Vec<u8>], m: usize) -> Result<BloomFilter, String> {
    let mut f = c.make();
    for (i, k) in keys.iter().enumerate() {
        if m >> i & 1 == 1 {
            guard(|| f.insert_bytes(k))?.map_err(|e| e.to_string())?;
        }
    }
    Ok(f)
}

type Bin = fn(&BloomFilter, &BloomFilter, usize) -> Option<Result<BloomFilter, String>>;

/// union in the ways the API offers
fn uni(a: &BloomFilter, b: &BloomFilter, how: usize) -> Option<Result<BloomFilter, String>> {
    let e = |e: poppy_filters::Error| e.to_string();
    match (how, a, b) {
        (0, _, _) => {
            let mut x = a.clone();
            Some(x.union_merge(b).map_err(e).map(|_| x))
        }
        (1, BloomFilter::V2(a), BloomFilter::V2(b)) => Some(a.clone().union(b.clone()).map(BloomFilter::V2).map_err(e)),
        (2, BloomFilter::V2(a), BloomFilter::V2(b)) => {
            let mut x = a.clone();
            Some(x.union_merge(b).map_err(e).map(|_| BloomFilter::V2(x)))
        }
        (2, BloomFilter::V1(a), BloomFilter::V1(b)) => {
            let mut x = a.clone();
            Some(x.union_merge(b).map_err(e).map(|_| BloomFilter::V1(x)))
        }
        _ => None,
    }
}
fn int(a: &BloomFilter, b: &BloomFilter, how: usize) -> Option<Result<BloomFilter, String>> {
    let e = |e: poppy_filters::Error| e.to_string();
    match (how, a, b) {
        (0, BloomFilter::V2(a), BloomFilter::V2(b)) => {
            let mut x = a.clone();
            Some(x.intersection_merge(b).map_err(e).map(|_| BloomFilter::V2(x)))
        }
        (1, BloomFilter::V2(a), BloomFilter::V2(b)) => Some(a.clone().intersection(b.clone()).map(BloomFilter::V2).map_err(e)),
        _ => None,
    }
}

fn algebra_configs(thorough: bool) -> Vec<Cfg> {
    let mut v = vec![];
    for (ver, o) in KINDS {
        for (cap, fpp) in [(5usize, 0.5), (5, 0.01), (64, 0.001), (3000, 0.01)] {
            v.push(cfg(ver, o, cap, fpp));
        }
        if ver == 2 {
            v.push(cfg(ver, o, 45, 1e-300));
            v.push(cfg(ver, o, 70, 1e-300));
        }
        for cap in [6usize, 8, 9, 17, 65, 129, 1000] {
            v.push(cfg(ver, o, cap, 0.1));
        }
        if thorough {
            for cap in [6usize, 7, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 128, 129, 1000, 10000] {
                v.push(cfg(ver, o, cap, 0.15));
                v.push(cfg(ver, o, cap, 1e-4));
            }
        }
    }
    v
}

fn laws<'a>(ctx: &Ctx, and: bool) -> Vec<crate::ctx::Case<'a>> {
    let mut v = vec![];
    for c in algebra_configs(!ctx.quick()) {
        if and && c.v == 1 {
            continue;
        }
        v.push(case(format!("laws {}", c.name()), move |ctx| {
            let op: Bin = if and { int } else { uni };
            let keys = if c.fpp < 1e-100 { (0..4).map(long_key).collect::<Vec<_>>() } else { std_keys() };
            let pr = crate::life::probes(&keys);
            let fs: Vec<BloomFilter> = (0..16).map(|m| subset(c, &keys, m)).collect::<Result<_, _>>()?;
            let cs: Vec<Vec<u8>> = fs.iter().map(|f| contents(&ser(f)).to_vec()).collect();
            let bin = |a: &BloomFilter, b: &BloomFilter, how: usize| -> Result<Option<BloomFilter>, String> {
                match guard(|| op(a, b, how))? {
                    None => Ok(None),
                    Some(r) => r.map(Some),
                }
            };
            let cont = |f: &BloomFilter| contents(&ser(f)).to_vec();
            let mut n = 0u64;
            for a in 0..16usize {
                for b in 0..16usize {
                    let mut base: Option<Vec<u8>> = None;
                    for how in 0..3 {
                        let Some(r) = bin(&fs[a], &fs[b], how)? else { continue };
                        n += 1;
                        judge_merge(&fs[a], &fs[b], &r, and, &pr).map_err(|e| format!("sets {a:04b} {b:04b} way {how}: {e}"))?;
                        let cr = cont(&r);
                        match &base {
                            None => base = Some(cr.clone()),
                            Some(x) => ensure!(*x == cr, "sets {a:04b} {b:04b}: way {how} gives other bits"),
                        }
                        if !and {
                            ensure!(cr == cs[a | b], "union of the sets {a:04b} and {b:04b} differs from a filter given all entries");
                        }
                        for (i, k) in keys.iter().enumerate() {
                            let both = (a & b) >> i & 1 == 1;
                            if and && both {
                                ensure!(denied(&r, k).is_none(), "intersection lost {} given to both", hex(k));
                            }
                            if !and && (a | b) >> i & 1 == 1 {
                                ensure!(denied(&r, k).is_none(), "union lost {}", hex(k));
                            }
                        }
                    }
                    let ab = bin(&fs[a], &fs[b], 0)?.unwrap();
                    let ba = bin(&fs[b], &fs[a], 0)?.unwrap();
                    ensure!(cont(&ab) == cont(&ba), "not commutative on {a:04b} {b:04b}");
                    if a == b {
                        ensure!(cont(&ab) == cs[a], "not idempotent on {a:04b}");
                    }
                    let again = bin(&ab, &fs[b], 0)?.unwrap();
                    ensure!(cont(&again) == cont(&ab), "applying {b:04b} twice to {a:04b} differs");
                    n += 3;
                    for d in 0..16usize {
                        let l = bin(&ab, &fs[d], 0)?.unwrap();
                        let r = bin(&fs[a], &bin(&fs[b], &fs[d], 0)?.unwrap(), 0)?.unwrap();
                        ensure!(cont(&l) == cont(&r), "not associative on {a:04b} {b:04b} {d:04b}");
                        n += 3;
                    }
                    ctx.beat();
                }
            }
            ctx.add("states", 16);
            ctx.add("transitions", n);
            ctx.add("traces", n);
            Ok(())
        }));
    }
    // big fills
    for (ver, o) in KINDS {
        if and && ver == 1 {
            continue;
        }
        v.push(case(format!("big v{ver}/O{o}"), move |ctx| {
            for (cap, fpp) in [(100usize, 0.3), (1000, 0.01), (5000, 0.001), (20_000, 1e-4), (66_000, 0.01)] {
                let c = cfg(ver, o, cap, fpp);
                ctx.crumb(&c.name());
                let n = cap as u64 / 2;
                let (mut a, mut b, mut all) = (c.make(), c.make(), c.make());
                for i in 0..n {
                    a.insert_bytes(long_key(i)).map_err(|e| e.to_string())?;
                    b.insert_bytes(long_key(i + n / 2)).map_err(|e| e.to_string())?;
                }
                for i in 0..n + n / 2 {
                    all.insert_bytes(long_key(i)).map_err(|e| e.to_string())?;
                }
                let pr: Vec<Vec<u8>> = (0..4 * n).map(long_key).collect();
                let r = if and { int(&a, &b, 0) } else { uni(&a, &b, 0) }.unwrap()?;
                judge_merge(&a, &b, &r, and, &pr).map_err(|e| format!("{}: {e}", c.name()))?;
                if and {
                    for i in n / 2..n {
                        ensure!(r.contains_bytes(long_key(i)), "{}: common entry {i} lost", c.name());
                    }
                } else {
                    ensure!(contents(&ser(&r)) == contents(&ser(&all)), "{}: union differs from a filter given all entries", c.name());
                }
                ctx.add("transitions", 1);
            }
            Ok(())
        }));
    }
    v
}

pub fn c08(ctx: &Ctx) {
    let mut cases = monitors(ctx, false);
    cases.extend(laws(ctx, false));
    cases.extend(crate::big::cases(ctx, "C08"));
    ctx.par(cases);
}

pub fn c09(ctx: &Ctx) {
    let mut cases = monitors(ctx, true);
    cases.extend(laws(ctx, true));
    cases.extend(crate::big::cases(ctx, "C09"));
    ctx.par(cases);
}

/// parameters and shape as recorded in the saved form
fn shape(s: &[u8]) -> Vec<u8> {
    let mut v = s[..2].to_vec();
    v.extend(&s[8..32]);
    if s[0] == 1 {
        v[1] = 0;
        v.extend(&s[32..40]);
    } else {
        v.extend(&s[40..48]);
        let c = u64::from_le_bytes(s[40..48].try_into().unwrap()) as usize / 8;
        v.extend(&s[48 + c..56 + c]);
    }
    v
}

pub fn c10(ctx: &Ctx) {
    let mut fs: Vec<(String, BloomFilter)> = vec![];
    let p = 0.01f64;
    let p2 = f64::from_bits(p.to_bits() + 1);
    for (v, o) in KINDS {
        for (cap, fpp) in [(0usize, p), (1, p), (2, p), (3, p), (3, p2), (3, 0.02), (3, 1.0), (1000, p), (1001, p), (1000, p2), (5000, p), (5000, 0.001)] {
            fs.push((cfg(v, o, cap, fpp).name(), cfg(v, o, cap, fpp).make()));
        }
    }
    // shapes that creation does not give: same parameters, other hash count, size, cache or buckets
    let put = |s: &mut Vec<u8>, off: usize, x: u64| s[off..off + 8].copy_from_slice(&x.to_le_bytes());
    for (v, o) in KINDS {
        let s = ser(&cfg(v, o, 3, p).make());
        let mut t = s.clone();
        put(&mut t, 24, 3);
        if let Ok(f) = load(&t) {
            fs.push((format!("v{v}/O{o} edited k"), f));
        }
        if v == 1 {
            let mut t = s.clone();
            put(&mut t, 32, 20);
            if let Ok(f) = load(&t) {
                fs.push(("v1 edited bit size".into(), f));
            }
            let mut t = s.clone();
            put(&mut t, 32, 200);
            t.extend([0u8; 24]);
            if let Ok(f) = load(&t) {
                fs.push(("v1 more words".into(), f));
            }
        } else {
            let m = crate::refm::Ref2 { level: o, cap: 3, fpp: p, k: 7, count: 0, cache: vec![0; if o >= 2 { 4 } else { 1 }], nb: 1, buckets: vec![0; 4096] };
            if let Ok(f) = load(&m.bytes()) {
                fs.push((format!("v2/O{o} other cache"), f));
            }
            let m = crate::refm::Ref2 { level: o, cap: 3, fpp: p, k: u64::from_le_bytes(s[24..32].try_into().unwrap()), count: 0, cache: vec![0; if o >= 2 { 1 } else { 0 }], nb: 3, buckets: vec![0; 3 * 4096] };
            if let Ok(f) = load(&m.bytes()) {
                fs.push((format!("v2/O{o} other buckets"), f));
            }
        }
    }
    let n = fs.len();
    let fs = &fs;
    let mut cases = vec![];
    for i in 0..n {
        cases.push(case(format!("pairs of {}", fs[i].0), move |ctx| {
            let keys = [b"x".to_vec(), long_key(3)];
            let mut ev = 0;
            let mut seen = vec![];
            for j in 0..n {
                for fill in 0..8usize {
                    let (mut a, mut b) = (fs[i].1.clone(), fs[j].1.clone());
                    if fill & 1 == 1 {
                        let _ = a.insert_bytes(&keys[0]);
                        let _ = a.insert_bytes(&keys[1]);
                    }
                    if fill & 2 == 2 {
                        let _ = b.insert_bytes(&keys[1]);
                    }
                    if fill & 4 == 4 {
                        a = load(&ser(&a)).map_err(|e| e.to_string())?;
                    }
                    let (sa, sb) = (ser(&a), ser(&b));
                    let same = shape(&sa) == shape(&sb);
                    let what = format!("{} with {} (fill {fill})", fs[i].0, fs[j].0);
                    for op in 0..10 {
                        let (mut x, y) = (a.clone(), b.clone());
                        let e = |e: poppy_filters::Error| e.to_string();
                        let r: Option<Result<(), String>> = guard(|| match (op, &mut x, &y) {
                            (0, x, y) => Some(x.union_merge(y).map_err(e)),
                            (1, x, y) => Some(x.count_common_entries(y).map(|_| ()).map_err(e)),
                            (2, x, y) => Some(if x.has_same_params(y) { Ok(()) } else { Err(String::new()) }),
                            (3, BloomFilter::V2(x), BloomFilter::V2(y)) => Some(x.union_merge(y).map_err(e)),
                            (4, BloomFilter::V2(x), BloomFilter::V2(y)) => Some(x.intersection_merge(y).map_err(e)),
                            (5, BloomFilter::V2(x), BloomFilter::V2(y)) => Some(x.clone().union(y.clone()).map(|_| ()).map_err(e)),
                            (6, BloomFilter::V2(x), BloomFilter::V2(y)) => Some(x.clone().intersection(y.clone()).map(|_| ()).map_err(e)),
                            (7, BloomFilter::V2(x), BloomFilter::V2(y)) => Some(x.count_common_entries(y).map(|_| ()).map_err(e)),
                            (7, BloomFilter::V1(x), BloomFilter::V1(y)) => Some(x.count_common_entries(y).map(|_| ()).map_err(e)),
                            (8, BloomFilter::V1(x), BloomFilter::V1(y)) => Some(x.union_merge(y).map_err(e)),
                            (9, BloomFilter::V2(x), BloomFilter::V2(y)) => Some(if x.has_same_params(y) { Ok(()) } else { Err(String::new()) }),
                            (9, BloomFilter::V1(x), BloomFilter::V1(y)) => Some(if x.has_same_params(y) { Ok(()) } else { Err(String::new()) }),
                            _ => None,
                        })
                        .map_err(|m| format!("{what}, operation {op}: {m}"))?;
                        let Some(r) = r else { continue };
                        ev += 1;
                        seen.push((h64(what.as_bytes()) << 4) | op as u64);
                        ensure!(r.is_ok() == same, "{what}, operation {op}: {} although parameters are {}", if r.is_ok() { "accepted" } else { "refused" }, if same { "the same" } else { "different" });
                        ensure!(ser(&y) == sb, "{what}, operation {op}: second operand changed");
                        if !same || [1, 2, 5, 6, 7, 9].contains(&op) {
                            ensure!(ser(&x) == sa, "{what}, operation {op}: first operand changed");
                        }
                    }
                }
            }
            ctx.add("evaluations", ev);
            ctx.distinct(seen);
            ctx.sample(format!("{} against {} configurations x 8 fills x 10 operations", fs[i].0, n));
            Ok(())
        }));
    }
    cases.extend(crate::big::cases(ctx, "C10"));
    ctx.par(cases);
}

/// Filters of the determinism check, as digests.
fn digests() -> Vec<(String, u64)> {
    let mut v = vec![];
    for (ver, o) in KINDS {
        for (cap, fpp) in [(1usize, 0.5), (10, 0.1), (1000, 0.001), (5000, 1e-6), (60, 1e-300), (70_000, 0.01)] {
            let c = cfg(ver, o, cap, fpp);
            let mut f = c.make();
            for i in 0..cap as u64 {
                let _ = f.insert_bytes(len_key((i % 40) as usize, i));
            }
            let mut g = c.make();
            let _ = g.insert_bytes(long_key(5));
            let _ = g.union_merge(&f);
            v.push((c.name(), h64(&ser(&f))));
            v.push((c.name() + " union", h64(&ser(&g))));
            if let BloomFilter::V2(f) = c.make() {
                let mut f = f;
                for i in 0..cap as u64 {
                    let _ = f.insert(&i);
                    let _ = f.insert(&Some(i as u16));
                }
                v.push((c.name() + " integers", h64(&ser(&BloomFilter::V2(f)))));
            }
        }
    }
    v
}

pub fn digest_main() {
    // shift the addresses and the allocation pattern with respect to other runs
    let n: usize = std::env::var("MC_PAD").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let _pad = vec![1u8; n * 7919];
    for (n, d) in digests() {
        println!("{n}\t{d:016x}");
    }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

pub fn c26(ctx: &Ctx) {
    let nk = 5;
    let mut cases = vec![];
    for c in algebra_configs(!ctx.quick()) {
        cases.push(case(format!("orders {}", c.name()), move |ctx| {
            let mut keys = std_keys();
            keys.push(len_key(100, 1));
            keys.truncate(nk);
            if c.cap < keys.len() {
                return Ok(());
            }
            let base = contents(&ser(&subset(c, &keys, (1 << nk) - 1)?)).to_vec();
            let mut ev = 0u64;
            let mut seen = vec![];
            let ins = |f: &mut BloomFilter, k: &[u8]| -> Res {
                guard(|| f.insert_bytes(k))?.map(|_| ()).map_err(|e| e.to_string())
            };
            for p in perms(nk) {
                // plain, doubled, each entry repeated at the end, with a reload in the middle
                'mode: for mode in 0..5 {
                    let mut f = c.make();
                    for (i, k) in p.iter().enumerate() {
                        // the count is an estimate after a union and may be above the number of entries
                        if mode == 4 && f.is_full() {
                            continue 'mode;
                        }
                        ins(&mut f, &keys[*k])?;
                        match mode {
                            1 => ins(&mut f, &keys[*k])?,
                            2 => ins(&mut f, &keys[p[0]])?,
                            3 if i == nk / 2 => f = load(&ser(&f)).map_err(|e| e.to_string())?,
                            4 => {
                                let mut g = c.make();
                                g.union_merge(&f).map_err(|e| e.to_string())?;
                                f = g;
                            }
                            _ => {}
                        }
                    }
                    ensure!(contents(&ser(&f)) == base, "entries inserted in order {p:?} (mode {mode}) give other bits");
                    ev += 1;
                    seen.push(h64(format!("{} {p:?} {mode}", c.name()).as_bytes()));
                }
            }
            // splits over up to 3 filters, merged in every order
            let mut code = 0;
            while code < 3usize.pow(nk as u32) {
                let mut fs = vec![c.make(), c.make(), c.make()];
                let mut x = code;
                for k in &keys {
                    ins(&mut fs[x % 3], k)?;
                    x /= 3;
                }
                for p in perms(3) {
                    let mut f = fs[p[0]].clone();
                    f.union_merge(&fs[p[1]]).map_err(|e| e.to_string())?;
                    let f2 = load(&ser(&f)).map_err(|e| e.to_string())?;
                    let mut f = fs[p[2]].clone();
                    f.union_merge(&f2).map_err(|e| e.to_string())?;
                    ensure!(contents(&ser(&f)) == base, "entries split {code} and merged in order {p:?} give other bits");
                    ev += 1;
                }
                seen.push(h64(format!("{} split {code}", c.name()).as_bytes()));
                code += 1;
                ctx.beat();
            }
            ctx.add("evaluations", ev);
            ctx.distinct(seen);
            ctx.sample(format!("{}: {} orders x 5 modes, {} splits x 6 merge orders", c.name(), perms(nk).len(), 3usize.pow(nk as u32)));
            Ok(())
        }));
    }
    // filled filters: forward, backward, interleaved, split
    for (ver, o) in KINDS {
        cases.push(case(format!("filled v{ver}/O{o}"), move |ctx| {
            for (cap, fpp) in [(100usize, 0.1), (1000, 0.001), (5000, 0.01), (30_000, 1e-4)] {
                let c = cfg(ver, o, cap, fpp);
                ctx.crumb(&c.name());
                let n = cap as u64;
                let orders: Vec<Vec<u64>> = vec![
                    (0..n).collect(),
                    (0..n).rev().collect(),
                    (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect(),
                    (0..n).flat_map(|i| [i, i / 2]).collect(),
                ];
                let mut base: Option<Vec<u8>> = None;
                for (i, ord) in orders.iter().enumerate() {
                    let mut f = c.make();
                    for k in ord {
                        f.insert_bytes(len_key(9 + (*k % 40) as usize, *k)).map_err(|e| format!("{} order {i}: {e}", c.name()))?;
                    }
                    let s = contents(&ser(&f)).to_vec();
                    match &base {
                        None => base = Some(s),
                        Some(b) => ensure!(*b == s, "{}: order {i} gives other bits", c.name()),
                    }
                    ctx.add("evaluations", 1);
                }
            }
            Ok(())
        }));
    }
    // other threads and processes
    cases.push(case("processes", |ctx| {
        let here = digests();
        let there = std::thread::spawn(digests).join().map_err(|_| "thread".to_string())?;
        ensure!(here == there, "another thread builds other filters");
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        for i in 0..3 {
            let o = std::process::Command::new(&exe)
                .arg("digest")
                .env("MC_PAD", format!("{i}"))
                .env("TZ", ["UTC", "Asia/Tokyo", ""][i])
                .output()
                .expect("running digest process");
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let want: String = here.iter().map(|(n, d)| format!("{n}\t{d:016x}\n")).collect();
            for (a, b) in t.lines().zip(want.lines()) {
                ensure!(a == b, "another process builds another filter: {a} / {b}");
            }
            ensure!(o.status.success() && t == want, "another process builds other filters");
            ctx.add("evaluations", here.len() as u64);
            std::thread::sleep(std::time::Duration::from_millis(1100));
        }
        Ok(())
    }));
    cases.extend(crate::big::cases(ctx, "C26"));
    ctx.par(cases);
}
