//! C02: representations of entries.
use crate::ctx::{case, guard, Ctx, Res};
use crate::ensure;
use crate::util::*;
use poppy_filters::{v2, BloomFilter, Error, PoppyHash};
use std::fmt::Debug;

#[derive(Hash, Debug, Clone, PartialEq)]
struct Custom {
    a: i64,
    s: String,
    t: Option<u16>,
}
impl PoppyHash for Custom {}

#[derive(Hash, Debug, Clone)]
enum Tag {
    A,
    B(u8),
    C { x: [u8; 9] },
}
impl PoppyHash for Tag {}

fn values<T: PoppyHash + Debug + Clone>(c: Cfg, vals: &[T], n: &mut u64) -> Res {
    let BloomFilter::V2(empty) = c.make() else { return Ok(()) };
    for x in vals {
        let mut a = empty.clone();
        let r = a.insert(x);
        ensure!(r.is_ok(), "{}: inserting {x:?}: {}", c.name(), show(&r));
        let eq = x.clone();
        ensure!(a.contains(&eq), "{}: {x:?} is not found again", c.name());
        let prep = v2::BloomFilter::build_index_iter(&eq);
        ensure!(matches!(a.contains_iter(prep), Ok(true)), "{}: prepared {x:?} is not found", c.name());
        let mut b = empty.clone();
        b.insert_iter(prep).map_err(|e| e.to_string())?;
        ensure!(b.contains(x), "{}: {x:?} inserted prepared is not found", c.name());
        ensure!(ser(&BloomFilter::V2(a.clone())) == ser(&BloomFilter::V2(b)), "{}: prepared and direct insertion of {x:?} give different filters", c.name());
        ensure!(matches!(a.insert(&eq), Ok(false)), "{}: {x:?} is new when inserted again", c.name());
        *n += 1;
    }
    // together
    let mut a = empty.clone();
    for x in vals {
        let _ = a.insert(x);
    }
    if vals.len() <= c.cap {
        for x in vals {
            ensure!(a.contains(x), "{}: {x:?} is not found in a filter of {} values", c.name(), vals.len());
        }
    }
    Ok(())
}

macro_rules! ints {
    ($c:expr, $n:expr, $($t:ty),*) => {$(
        {
            let mut v: Vec<$t> = vec![<$t>::MIN, <$t>::MAX, 0, 1, 2, 7, 63, 64, 100, 127];
            for s in 0..<$t>::BITS { v.push((1 as $t).wrapping_shl(s)); v.push((1 as $t).wrapping_shl(s).wrapping_sub(1)); }
            v.sort(); v.dedup();
            values($c, &v, $n)?;
            let o: Vec<Option<$t>> = v.iter().map(|x| Some(*x)).chain([None]).collect();
            values($c, &o, $n)?;
        }
    )*}
}

pub fn c02(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    let mut cfgs = vec![];
    for (v, o) in KINDS {
        for (cap, fpp) in [(1usize, 0.5), (400, 0.001), (3000, 0.01), (50, 1e-300)] {
            cfgs.push(cfg(v, o, cap, fpp));
        }
    }
    for c in cfgs.clone() {
        cases.push(case(format!("forms {}", c.name()), move |ctx| {
            let mut ev = 0;
            let lens: Vec<usize> = if quick { (0..=600).chain([1023, 1024, 1025, 4096, 8192, 65536]).collect() } else { (0..=4100).chain([8192, 65536, 1 << 20]).collect() };
            for len in lens {
                for variant in 0..10u64 {
                    // binary, text, zeros, trailing zeros, multi byte text, then what text handling could change
                    let key = match variant {
                        0 => len_key(len, 1),
                        1 => "abcdefghijklmnopqrstuvwxyz0123456789".bytes().cycle().take(len).collect(),
                        2 => vec![0; len],
                        3 => {
                            let mut k = len_key(len, 2);
                            if let Some(l) = k.last_mut() {
                                *l = 0
                            }
                            k
                        }
                        4 => "é€x".bytes().cycle().take(len).collect::<Vec<u8>>(),
                        5 => vec![b' '; len],
                        6 => "Ab\t".bytes().cycle().take(len).collect(),
                        7 => " \n\r\n".bytes().cycle().take(len).collect(),
                        8 => "0".bytes().chain("1 ".bytes().cycle()).take(len).collect(),
                        _ => "\u{feff}e\u{301}\u{a0}".bytes().cycle().take(len).collect(),
                    };
                    let mut base: Option<Vec<u8>> = None;
                    for fi in 0..NFORMS {
                        let mut b = c.make();
                        let Some(r) = guard(|| insert_form(&mut b, &key, fi))? else { continue };
                        ensure!(matches!(r, Ok(true)), "{}: inserting {} in form {fi}: {}", c.name(), hex(&key), show(&r));
                        for fq in 0..NFORMS {
                            if let Some(false) = guard(|| query_form(&b, &key, fq))? {
                                return Err(format!("{}: {} inserted in form {fi} is not found in form {fq}", c.name(), hex(&key)));
                            }
                            ev += 1;
                        }
                        for f2 in 0..NFORMS {
                            let mut b2 = b.clone();
                            if let Some(r) = insert_form(&mut b2, &key, f2) {
                                ensure!(matches!(r, Ok(false)), "{}: {} inserted in form {fi} then {f2}: {}", c.name(), hex(&key), show(&r));
                            }
                        }
                        let s = ser(&b);
                        match &base {
                            None => base = Some(s),
                            Some(x) => ensure!(*x == s, "{}: {} inserted in form {fi} gives another filter than as bytes", c.name(), hex(&key)),
                        }
                    }
                    ctx.distinct([h64(&key) ^ h64(c.name().as_bytes())]);
                }
            }
            ctx.add("evaluations", ev);
            ctx.sample(format!("{}: all insertion x query forms", c.name()));
            Ok(())
        }));
        if c.v == 2 {
            cases.push(case(format!("values {}", c.name()), move |ctx| {
                let mut n = 0;
                ints!(c, &mut n, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
                if c.cap >= 400 {
                    values(c, &(0..=255u8).collect::<Vec<_>>(), &mut n)?;
                }
                let custom: Vec<Custom> = (0..20)
                    .map(|i| Custom { a: i - 3, s: "x".repeat(i as usize), t: if i % 2 == 0 { None } else { Some(i as u16) } })
                    .collect();
                values(c, &custom, &mut n)?;
                let opt: Vec<Option<Custom>> = custom.iter().cloned().map(Some).chain([None]).collect();
                values(c, &opt, &mut n)?;
                let tags: Vec<Tag> = (0..=255u8).step_by(51).map(Tag::B).chain([Tag::A]).chain((0..4).map(|i| Tag::C { x: [i; 9] })).collect();
                values(c, &tags, &mut n)?;
                let strs: Vec<Option<String>> = (0..30).map(|i| Some("y".repeat(i))).chain([None]).collect();
                values(c, &strs, &mut n)?;
                ctx.add("evaluations", n);
                ctx.distinct((0..n).map(|i| i ^ h64(c.name().as_bytes())));
                Ok(())
            }));
        }
    }
    // one prepared entry on many filters
    let v2c: Vec<Cfg> = cfgs.iter().copied().filter(|c| c.v == 2).collect();
    cases.push(case("prepared on many filters", move |ctx| {
        let mut fs: Vec<v2::BloomFilter> = vec![];
        for c in &v2c {
            if let BloomFilter::V2(f) = c.make() {
                fs.push(f);
            }
        }
        let mut n = 0;
        for len in 0..64usize {
            let key = len_key(len, 5);
            let prep = v2::BloomFilter::build_index_iter(&key.as_slice());
            for order in 0..2 {
                let mut copy: Vec<v2::BloomFilter> = fs.clone();
                let idx: Vec<usize> = if order == 0 { (0..copy.len()).collect() } else { (0..copy.len()).rev().collect() };
                for i in idx {
                    let mut direct = fs[i].clone();
                    let _ = direct.insert_bytes(&key);
                    ensure!(copy[i].insert_iter(prep).is_ok(), "prepared entry refused by filter {i}");
                    ensure!(matches!(copy[i].contains_iter(prep), Ok(true)), "prepared entry of length {len} not found in {}", v2c[i].name());
                    ensure!(copy[i].contains_bytes(&key), "entry of length {len} inserted prepared not found in {}", v2c[i].name());
                    ensure!(ser(&BloomFilter::V2(copy[i].clone())) == ser(&BloomFilter::V2(direct)), "entry of length {len}: prepared and direct insertions differ in {}", v2c[i].name());
                    n += 1;
                }
            }
        }
        // unprepared
        for (i, f) in fs.iter().enumerate() {
            let mut g = f.clone();
            let r = guard(|| g.insert_iter(Default::default()))?;
            ensure!(matches!(r, Err(Error::UninitIter)), "unprepared entry: insert answers {} in {}", show(&r), v2c[i].name());
            ensure!(ser(&BloomFilter::V2(g)) == ser(&BloomFilter::V2(f.clone())), "unprepared entry changed {}", v2c[i].name());
            let r = guard(|| f.contains_iter(Default::default()))?;
            ensure!(matches!(r, Err(Error::UninitIter)), "unprepared entry: contains answers {} in {}", show(&r), v2c[i].name());
            n += 2;
        }
        let f0 = v2::BloomFilter::with_capacity(0, 0.1).map_err(|e| e.to_string())?;
        let r = guard(|| f0.contains_iter(Default::default()))?;
        ensure!(matches!(r, Err(Error::UninitIter)), "unprepared entry: contains answers {} with capacity 0", show(&r));
        ctx.add("evaluations", n);
        Ok(())
    }));
    ctx.par(cases);
}
