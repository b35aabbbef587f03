//! Causes reported by failing calls (C33).
use crate::ctx::{case, guard, Ctx, Res};
use crate::ensure;
use crate::util::*;
use poppy_filters::{v1, v2, BloomFilter, Error, OptLevel, OptLevelError, Params};
use std::io::{self, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};

/// the value an error names
#[derive(Clone, Copy, Debug)]
enum Cause {
    Fpp(f64),
    Version(u8),
    Level(u8),
    Full,
    Merge,
    Uninit,
    Io(ErrorKind),
}

fn is(e: &Error, c: Cause) -> bool {
    match (e, c) {
        (Error::WrongFpp(a), Cause::Fpp(b)) => *a == b || a.is_nan() && b.is_nan(),
        (Error::InvalidVersion(a), Cause::Version(b)) => *a == b,
        (Error::OptLevel(OptLevelError::Invalid(a)), Cause::Level(b)) => *a == b,
        (Error::TooManyEntries, Cause::Full) | (Error::Merge(_), Cause::Merge) | (Error::UninitIter, Cause::Uninit) => true,
        (Error::IoError(e), Cause::Io(k)) => e.kind() == k,
        _ => false,
    }
}

// the last arms allow for further kinds of errors
#[allow(unreachable_patterns)]
/// the call fails for one of the causes and its message names the value
fn fails<T>(what: impl Fn() -> String, r: Result<Result<T, Error>, String>, causes: &[Cause]) -> Res {
    let e = match r.map_err(|m| format!("{}: {m}", what()))? {
        Ok(_) => return Err(format!("{}: no error", what())),
        Err(e) => e,
    };
    ensure!(causes.iter().any(|c| is(&e, *c)), "{}: the error is {e:?} instead of {causes:?}", what());
    let m = e.to_string();
    let named = match &e {
        Error::WrongFpp(x) => m.contains(&x.to_string()),
        Error::InvalidVersion(x) => m.contains(&x.to_string()),
        Error::OptLevel(OptLevelError::Invalid(x)) => m.contains(&x.to_string()),
        Error::IoError(x) => m.contains(&x.to_string()),
        Error::Merge(x) => m.contains(x.as_str()),
        _ => !m.is_empty(),
    };
    ensure!(named, "{}: the message {m:?} does not name the cause {e:?}", what());
    Ok(())
}

const KINDS_IO: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
];

/// reader and writer whose call number at fails
struct Io<'a> {
    c: Cursor<&'a [u8]>,
    chunk: usize,
    call: usize,
    at: usize,
    k: ErrorKind,
    hit: bool,
}
impl Io<'_> {
    fn step(&mut self) -> io::Result<()> {
        self.call += 1;
        if self.call > self.at {
            self.hit = true;
            return Err(io::Error::new(self.k, "the medium is broken"));
        }
        Ok(())
    }
}
impl Read for Io<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.step()?;
        let n = self.chunk.min(b.len());
        self.c.read(&mut b[..n])
    }
}
impl Seek for Io<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.step()?;
        self.c.seek(p)
    }
}
impl Write for Io<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.step()?;
        Ok(self.chunk.min(b.len()))
    }
    fn flush(&mut self) -> io::Result<()> {
        self.step()
    }
}

/// all ways of reading a filter
fn read<R: Read + Seek>(how: usize, r: R) -> Result<Result<BloomFilter, Error>, String> {
    guard(|| match how {
        0 => BloomFilter::from_reader(r),
        1 => BloomFilter::partial_from_reader(r),
        2 => v1::BloomFilter::from_reader(r).map(BloomFilter::V1),
        _ => v2::BloomFilter::from_reader(r).map(BloomFilter::V2),
    })
}

fn saved(c: Cfg) -> Vec<u8> {
    let mut f = c.make();
    for i in 0..c.cap as u64 {
        let _ = f.insert_bytes(long_key(i));
    }
    ser(&f)
}

pub fn c33(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::MAX, -1.0, -0.5, -1e-300, -0.0, 0.0, 1.0 + f64::EPSILON, 1.5, 2.0, 1e300, f64::MAX];
    cases.push(case("constructors", move |ctx| {
        let mut seen = vec![];
        for v in 0..=255u8 {
            for cap in [0usize, 1, 5, 1000] {
                for fpp in bad.into_iter().chain([0.1, 1.0, 1e-10]) {
                    let mut causes = vec![];
                    if !(fpp > 0.0 && fpp <= 1.0) {
                        causes.push(Cause::Fpp(fpp));
                    }
                    if v != 1 && v != 2 {
                        causes.push(Cause::Version(v));
                    }
                    if causes.is_empty() {
                        continue;
                    }
                    for o in 0..4u8 {
                        let l = OptLevel::try_from(o).map_err(|e| e.to_string())?;
                        let w = |n: &str| format!("{n}(version {v}, capacity {cap}, fpp {fpp:?}, level {o})");
                        fails(|| w("with_version_capacity_opt"), guard(|| BloomFilter::with_version_capacity_opt(v, cap, fpp, l)), &causes)?;
                        fails(|| w("with_version_capacity"), guard(|| BloomFilter::with_version_capacity(v, cap, fpp)), &causes)?;
                        let p = Params::new(cap, fpp).version(v).opt(l);
                        fails(|| w("Params"), guard(|| BloomFilter::try_from(p)), &causes)?;
                        if let Some(c @ Cause::Fpp(_)) = causes.first() {
                            let c = [*c];
                            fails(|| w("try_into_v1"), guard(|| p.try_into_v1()), &c)?;
                            fails(|| w("try_into_v2"), guard(|| p.try_into_v2()), &c)?;
                            fails(|| w("with_capacity"), guard(|| BloomFilter::with_capacity(cap, fpp)), &c)?;
                            fails(|| w("v1"), guard(|| v1::BloomFilter::with_capacity(cap as u64, fpp)), &c)?;
                            fails(|| w("v2"), guard(|| v2::BloomFilter::with_capacity(cap as u64, fpp)), &c)?;
                        }
                        ctx.add("evaluations", 3);
                        seen.push(h64(w("").as_bytes()));
                    }
                }
            }
        }
        ctx.distinct(seen);
        ctx.sample(format!("every version x {} probabilities x 4 capacities x 4 levels", bad.len() + 3));
        Ok(())
    }));
    cases.push(case("levels", |ctx| {
        for o in 4..=255u8 {
            fails(|| format!("level {o}"), guard(|| OptLevel::try_from(o).map_err(Error::from)), &[Cause::Level(o)])?;
            ctx.add("evaluations", 1);
            ctx.distinct([o as u64]);
        }
        let names: std::collections::HashSet<String> = (0..4u8).filter_map(|o| OptLevel::try_from(o).ok()).map(|l| l.to_string()).collect();
        ensure!(names.len() == 4 && names.iter().all(|n| !n.is_empty()), "names of the levels {names:?}");
        Ok(())
    }));
    for (v, o) in KINDS {
        let sizes: &[(usize, f64)] = if quick { &[(0, 0.1), (3, 0.01), (40, 1e-300)] } else { &[(0, 0.1), (1, 0.5), (3, 0.01), (40, 1e-300), (70, 1e-300), (3000, 0.001)] };
        for &(cap, fpp) in sizes {
            let c = cfg(v, o, cap, fpp);
            cases.push(case(format!("inputs {}", c.name()), move |ctx| {
                let s = saved(c);
                let mut seen = vec![];
                for how in 0..4 {
                    let own = how < 2 || how - 1 == v as usize;
                    let w = |n: String| format!("{} read by {}: {n}", c.name(), ["from_reader", "partial_from_reader", "v1::from_reader", "v2::from_reader"][how]);
                    for b in 0..=255u8 {
                        let mut t = s.clone();
                        t[0] = b;
                        if !match how {
                            0 | 1 => b == 1 || b == 2,
                            _ => b as usize == how - 1,
                        } {
                            fails(|| w(format!("version {b}")), read(how, Cursor::new(&t)), &[Cause::Version(b)])?;
                            ctx.add("evaluations", 1);
                        }
                        if own && v == 2 && b > 3 {
                            let mut t = s.clone();
                            t[1] = b;
                            fails(|| w(format!("level {b}")), read(how, Cursor::new(&t)), &[Cause::Level(b)])?;
                            ctx.add("evaluations", 1);
                        }
                    }
                    if !own {
                        continue;
                    }
                    for p in bad.into_iter().filter(|_| v == 2) {
                        let mut t = s.clone();
                        t[16..24].copy_from_slice(&p.to_le_bytes());
                        fails(|| w(format!("fpp {p:?}")), read(how, Cursor::new(&t)), &[Cause::Fpp(p)])?;
                        ctx.add("evaluations", 1);
                    }
                    // cut anywhere
                    for len in (0..s.len().min(200)).chain((200..s.len()).step_by(97)).chain([s.len() - 1]) {
                        if len >= s.len() {
                            continue;
                        }
                        fails(|| w(format!("cut at {len}")), read(how, Cursor::new(&s[..len])), &[Cause::Io(ErrorKind::UnexpectedEof)])?;
                        ctx.add("evaluations", 1);
                        seen.push(h64(format!("{how} cut {len} {}", c.name()).as_bytes()));
                    }
                    // each call of the reader
                    for chunk in [13usize, 4096, 1 << 20] {
                        let mk = |at, k| Io { c: Cursor::new(&s), chunk, call: 0, at, k, hit: false };
                        let mut r = mk(usize::MAX, ErrorKind::Other);
                        read(how, &mut r)?.map_err(|e| w(e.to_string()))?;
                        let calls = r.call;
                        for at in (0..calls.min(40)).chain(calls.saturating_sub(5).max(40)..calls) {
                            for k in KINDS_IO {
                                let mut r = mk(at, k);
                                let x = read(how, &mut r);
                                if r.hit {
                                    fails(|| w(format!("{k:?} at call {at} of {calls}")), x, &[Cause::Io(k)])?;
                                }
                                ctx.add("evaluations", 1);
                                seen.push(h64(format!("{how} {chunk} {k:?} {at} {}", c.name()).as_bytes()));
                            }
                        }
                    }
                    ctx.beat();
                }
                // each call of the writer
                let f = load(&s).map_err(|e| e.to_string())?;
                for chunk in [101usize, 4096, 1 << 20] {
                    let mk = |at, k| Io { c: Cursor::new(&[]), chunk, call: 0, at, k, hit: false };
                    let mut r = mk(usize::MAX, ErrorKind::Other);
                    f.write(&mut r).map_err(|e| e.to_string())?;
                    let calls = r.call;
                    for at in 0..calls {
                        for k in KINDS_IO {
                            let mut r = mk(at, k);
                            let x = guard(|| f.write(&mut r));
                            if r.hit {
                                fails(|| format!("{} written: {k:?} at call {at} of {calls}", c.name()), x, &[Cause::Io(k)])?;
                            }
                            ctx.add("evaluations", 1);
                            seen.push(h64(format!("write {chunk} {k:?} {at} {}", c.name()).as_bytes()));
                        }
                    }
                    let mut none: &mut [u8] = &mut [];
                    fails(|| format!("{} written to nowhere", c.name()), guard(|| f.write(&mut none)), &[Cause::Io(ErrorKind::WriteZero)])?;
                    ctx.beat();
                }
                ctx.distinct(seen);
                Ok(())
            }));
        }
    }
    cases.push(case("insertions", |ctx| {
        for (v, o) in KINDS {
            for cap in 0..=20usize {
                for fpp in [0.5, 0.01, 1e-300] {
                    let c = cfg(v, o, cap, fpp);
                    let mut f = c.make();
                    let mut n = 0u64;
                    while !f.is_full() {
                        f.insert_bytes(long_key(n)).map_err(|e| format!("{}: entry {n}: {e}", c.name()))?;
                        n += 1;
                    }
                    for i in 0..20 {
                        let k = long_key(1000 + i);
                        if f.contains_bytes(&k) {
                            continue;
                        }
                        for form in 0..8 {
                            let mut g = f.clone();
                            let r = guard(|| insert_form(&mut g, &k, form));
                            let r = match r {
                                Ok(None) => continue,
                                Ok(Some(r)) => Ok(r),
                                Err(m) => Err(m),
                            };
                            fails(|| format!("{}: entry into the full filter, form {form}", c.name()), r, &[Cause::Full])?;
                            ctx.add("evaluations", 1);
                        }
                        fails(|| format!("{}: fill of the full filter", c.name()), guard(|| f.clone().fill(vec![k.clone()])), &[Cause::Full])?;
                    }
                    if let BloomFilter::V2(b) = &f {
                        fails(|| format!("{}: insertion of an entry not prepared", c.name()), guard(|| b.clone().insert_iter(Default::default())), &[Cause::Uninit])?;
                        fails(|| format!("{}: query of an entry not prepared", c.name()), guard(|| b.contains_iter(Default::default())), &[Cause::Uninit])?;
                    }
                    ctx.distinct([h64(c.name().as_bytes())]);
                }
            }
        }
        Ok(())
    }));
    cases.push(case("mismatched filters", |ctx| {
        let all: Vec<Cfg> = KINDS.iter().flat_map(|(v, o)| [(0usize, 0.1), (1, 0.1), (3, 0.1), (3, 0.01), (4000, 0.001)].map(|(cap, fpp)| cfg(*v, *o, cap, fpp))).collect();
        for (i, a) in all.iter().enumerate() {
            for (j, b) in all.iter().enumerate() {
                if i == j {
                    continue;
                }
                let (f, g) = (a.make(), b.make());
                let w = |n: &str| format!("{n} of {} and {}", a.name(), b.name());
                fails(|| w("union"), guard(|| f.clone().union_merge(&g)), &[Cause::Merge])?;
                fails(|| w("common entries"), guard(|| f.count_common_entries(&g)), &[Cause::Merge])?;
                match (&f, &g) {
                    (BloomFilter::V1(f), BloomFilter::V1(g)) => {
                        fails(|| w("v1 union"), guard(|| f.clone().union_merge(g)), &[Cause::Merge])?;
                        fails(|| w("v1 common entries"), guard(|| f.count_common_entries(g)), &[Cause::Merge])?;
                    }
                    (BloomFilter::V2(f), BloomFilter::V2(g)) => {
                        fails(|| w("v2 union"), guard(|| f.clone().union_merge(g)), &[Cause::Merge])?;
                        fails(|| w("v2 intersection"), guard(|| f.clone().intersection_merge(g)), &[Cause::Merge])?;
                        fails(|| w("v2 common entries"), guard(|| f.count_common_entries(g)), &[Cause::Merge])?;
                    }
                    _ => {}
                }
                ctx.add("evaluations", 2);
                ctx.distinct([(i * 1000 + j) as u64]);
            }
        }
        Ok(())
    }));
    ctx.par(cases);
}
