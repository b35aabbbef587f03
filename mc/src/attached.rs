//! Attached data and entries do not influence each other (C34).
use crate::ctx::{case, guard, Ctx};
use crate::ensure;
use crate::util::*;
use crate::world::*;
use poppy_filters::BloomFilter;
use std::io::Cursor;

fn outcome(o: &Out) -> String {
    match o {
        Out::Bool(r) => show(r),
        Out::Unit(Ok(())) => "Ok".into(),
        Out::Unit(Err(e)) => format!("Err({})", kind(e)),
        Out::Panic(m) => format!("panic {m}"),
        Out::Na => "-".into(),
    }
}

/// what a filter shows apart from its data
fn bare(f: &BloomFilter) -> (Vec<u8>, String) {
    let mut s = ser(f);
    s.truncate(s.len().saturating_sub(f.data().len()));
    let more = match f {
        BloomFilter::V1(b) => format!("{} {}", b.n_bits(), b.estimated_p()),
        BloomFilter::V2(b) => format!("{} {}", b.count_ones(), b.count_zeros()),
    };
    (s, format!("{} {} {} {} {} {} {more}", f.version(), f.capacity(), f.fpp(), f.count_estimate(), f.is_full(), f.size_in_bytes()))
}

/// data of several lengths; some look like parts of a filter file
fn samples() -> Vec<Vec<u8>> {
    let file = ser(&cfg(2, 3, 3, 0.1).make());
    vec![vec![], b"x".to_vec(), vec![0; 8], vec![0xff; 48], file[..48].to_vec(), vec![0xaa; 4096], file]
}

pub fn c34(ctx: &Ctx) {
    let mut cases = vec![];
    for c in grid(!ctx.quick()) {
        cases.push(case(format!("world {}", c.name()), move |ctx| {
            let w = World::new(c, std_keys(), 2);
            let all = samples();
            let mut turn = 0;
            w.explore(
                ctx,
                |_| Ok(()),
                |s, op, out, n| {
                    // the same operation on the same filters with data, each pair of data in turn
                    turn += 1;
                    let d = [&all[turn % all.len()][..], &all[(turn / all.len()) % all.len()][..]];
                    let mut t = s.clone();
                    for i in 0..2 {
                        set_data(&mut t.f[i], d[i]);
                    }
                    let (t, got) = w.apply(&t, op);
                    let what = || format!("with {} and {} bytes of data", d[0].len(), d[1].len());
                    ensure!(outcome(&got) == outcome(out), "{}: {} instead of {} without data", what(), outcome(&got), outcome(out));
                    for i in 0..2 {
                        ensure!(guard(|| bare(&t.f[i]))? == guard(|| bare(&n.f[i]))?, "{}: filter {i} differs from the one without data", what());
                        for k in &w.keys {
                            ensure!(t.f[i].contains_bytes(k) == n.f[i].contains_bytes(k), "{}: query of {} in filter {i} differs from the one without data", what(), hex(k));
                        }
                        let want = match op {
                            Op::Clr(x) if x == i => continue,
                            Op::Cpy(x) if x == i => d[1 - i],
                            _ => d[i],
                        };
                        ensure!(t.f[i].data() == want, "{}: the data of filter {i} is {} afterwards", what(), hex(t.f[i].data()));
                    }
                    Ok(())
                },
            )
        }));
    }
    let quick = ctx.quick();
    for (v, o) in KINDS {
        // operations outside the state space
        cases.push(case(format!("operations v{v}/O{o}"), move |ctx| {
            let mut n = 0;
            for cap in [0usize, 1, 3, 10, 100, 5000] {
                for fpp in [0.5, 0.01, 1e-9] {
                    let c = cfg(v, o, cap, fpp);
                    let mut plain = [c.make(), c.make()];
                    for i in 0..cap as u64 {
                        let _ = plain[(i % 3 == 0) as usize].insert_bytes(long_key(i));
                    }
                    for da in samples() {
                        for db in [&b""[..], b"other", &da] {
                            let what = || format!("{} with {} and {} bytes of data", c.name(), da.len(), db.len());
                            let mut f = plain.clone();
                            set_data(&mut f[0], &da);
                            set_data(&mut f[1], db);
                            let [a, b] = &mut f;
                            ensure!(a.has_same_params(b) && b.has_same_params(a), "{}: parameters differ", what());
                            ensure!(guard(|| a.count_common_entries(b).ok())? == guard(|| plain[0].count_common_entries(&plain[1]).ok())?, "{}: common entries differ", what());
                            // a merge refused
                            let mut other = cfg(v, o, cap + 1, fpp).make();
                            set_data(&mut other, b"foreign");
                            ensure!(a.union_merge(&other).is_err() && other.union_merge(a).is_err(), "{}: different filters merged", what());
                            ensure!(a.data() == da && other.data() == b"foreign", "{}: refused union changed data", what());
                            if let Some(r) = intersect(a, &other) {
                                ensure!(r.is_err() && a.data() == da && other.data() == b"foreign", "{}: refused intersection changed data", what());
                            }
                            // by value
                            if let Some(r) = union_by_value(a, b) {
                                let u = r.map_err(|e| e.to_string())?;
                                let w = union_by_value(&plain[0], &plain[1]).unwrap().map_err(|e| e.to_string())?;
                                ensure!(bare(&u) == bare(&w), "{}: union by value differs", what());
                                ensure!(u.data() == da, "{}: data of the union is {}", what(), hex(u.data()));
                            }
                            if let (BloomFilter::V2(x), BloomFilter::V2(y), BloomFilter::V2(p), BloomFilter::V2(q)) = (&*a, &*b, &plain[0], &plain[1]) {
                                let u = BloomFilter::V2(x.clone().intersection(y.clone()).map_err(|e| e.to_string())?);
                                let w = BloomFilter::V2(p.clone().intersection(q.clone()).map_err(|e| e.to_string())?);
                                ensure!(bare(&u) == bare(&w), "{}: intersection by value differs", what());
                                ensure!(u.data() == da, "{}: data of the intersection is {}", what(), hex(u.data()));
                            }
                            // in bulk, accepted or refused
                            for m in [0usize, 1, cap / 3 + 1, cap + 20] {
                                let (mut x, mut y) = (a.clone(), plain[0].clone());
                                let l: Vec<Vec<u8>> = (0..m as u64).map(|i| long_key(i + 1_000_000)).collect();
                                let (r, w) = (x.fill(l.clone()).is_ok(), y.fill(l).is_ok());
                                ensure!(r == w && bare(&x) == bare(&y), "{}: bulk insertion of {m} entries differs", what());
                                ensure!(x.data() == da, "{}: bulk insertion changed the data", what());
                            }
                            // every form of entry
                            for form in 0..NFORMS {
                                let (mut x, mut y) = (a.clone(), plain[0].clone());
                                let k = b"an entry in some form";
                                let (r, w) = (insert_form(&mut x, k, form), insert_form(&mut y, k, form));
                                ensure!(r.as_ref().map(show) == w.as_ref().map(show) && bare(&x) == bare(&y), "{}: form {form} differs", what());
                                ensure!(query_form(&x, k, form) == query_form(&y, k, form) && x.data() == da, "{}: form {form} changed the data", what());
                            }
                            // replaced and removed again
                            let mut x = a.clone();
                            set_data(&mut x, db);
                            ensure!(x.data() == db && bare(&x) == bare(&plain[0]), "{}: replaced data", what());
                            set_data(&mut x, b"");
                            ensure!(ser(&x) == ser(&plain[0]), "{}: removed data leaves a trace", what());
                            ensure!(a.data() == da && b.data() == db, "{}: data of a copied filter changed", what());
                            n += 1;
                            ctx.beat();
                        }
                    }
                }
            }
            ctx.add("states", n);
            ctx.add("transitions", n * 20);
            ctx.add("traces", n);
            ctx.sample(format!("v{v} level {o}: {n} pairs of filters with data"));
            Ok(())
        }));
        // every length through a file
        cases.push(case(format!("lengths v{v}/O{o}"), move |ctx| {
            let mut n = 0;
            let lens: Vec<usize> = (0..=if quick { 600 } else { 20_000 }).chain([4087, 4088, 4095, 4096, 4097, 8143, 8144, 8191, 8192, 8193, 8240, 16_384, 65_535, 65_536, 65_537, 1 << 20]).collect();
            for c in [cfg(v, o, 0, 0.01), cfg(v, o, 5, 0.01), cfg(v, o, 45, 1e-300)] {
                let mut plain = c.make();
                let _ = plain.insert_bytes("some entry of the filter");
                let bits = ser(&plain);
                for len in &lens {
                    let d = len_key(*len, 5);
                    let mut f = plain.clone();
                    set_data(&mut f, &d);
                    let s = ser(&f);
                    ensure!(s.len() == bits.len() + d.len() && s[..bits.len()] == bits && s[bits.len()..] == d, "{}: file with {len} bytes of data is not the filter followed by the data", c.name());
                    for (how, g) in [("load", load(&s)), ("metadata load", BloomFilter::partial_from_reader(Cursor::new(&s))), ("typed load", typed_load(v, Cursor::new(&s)))] {
                        let g = g.map_err(|e| format!("{}: {how} with {len} bytes of data: {e}", c.name()))?;
                        ensure!(g.data() == d, "{}: {how} gives {} bytes of data instead of {len}", c.name(), g.data().len());
                        ensure!((g.count_estimate(), g.size_in_bytes(), g.is_full()) == (plain.count_estimate(), plain.size_in_bytes(), plain.is_full()), "{}: {how} with {len} bytes of data changes the filter", c.name());
                    }
                    n += 1;
                    if n % 64 == 0 {
                        ctx.beat();
                    }
                }
            }
            ctx.add("states", n);
            ctx.add("transitions", n * 3);
            ctx.add("traces", n);
            Ok(())
        }));
    }
    ctx.par(cases);
}

