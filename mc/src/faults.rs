//! C13 (hostile input), C14 (metadata), C15 (failing writers).
use crate::alloc::measured;
use crate::ctx::{case, guard, Case, Ctx, Res};
use crate::ensure;
use crate::refm::{Ref1, Ref2};
use crate::util::*;
use poppy_filters::{BloomFilter, Error};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

const U: &[u64] = &[
    0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 127, 128, 255, 256, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 51, (1 << 52) - 1, 1 << 52, 1 << 53, 1 << 56, 1 << 60,
    (1 << 61) - 1, 1 << 61, (1 << 61) + 1, 1 << 62, i64::MAX as u64 - 7, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX - 4096, u64::MAX - 63, u64::MAX - 7, u64::MAX - 1, u64::MAX,
];

fn floats() -> Vec<u64> {
    [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, -1.0, 5e-324, f64::MIN_POSITIVE, 1e-300, 0.5, 1.0, 1.0 + f64::EPSILON, 2.0, f64::MAX]
        .iter()
        .map(|f| f.to_bits())
        .collect()
}

/// A valid image and the offsets of its 8 byte fields.
struct Image {
    name: String,
    bytes: Vec<u8>,
    fields: Vec<usize>,
    bits_end: usize,
}

fn images() -> Vec<Image> {
    let mut v = vec![];
    let keys: Vec<Vec<u8>> = vec![b"a".to_vec(), long_key(1)];
    for (cap, fpp) in [(3u64, 0.5), (4, 0.01), (0, 0.1)] {
        let mut m = Ref1::new(cap.max(1), fpp);
        if cap == 0 {
            m = Ref1 { cap: 0, fpp, k: 0, m: 0, count: 0, words: vec![] };
        } else {
            for k in &keys {
                m.insert(k);
            }
        }
        let mut bytes = m.bytes();
        let bits_end = bytes.len();
        bytes.extend(b"tail");
        v.push(Image { name: format!("v1 cap={cap} fpp={fpp}"), bytes, fields: vec![8, 16, 24, 32, 40], bits_end });
    }
    for (lvl, cap, fpp) in [(0u8, 3u64, 0.5), (2, 3, 0.01), (3, 20, 0.01), (1, 0, 0.1), (3, 30, 1e-300)] {
        let mut m = Ref2::new(cap, fpp, lvl);
        if cap > 0 {
            for k in &keys {
                m.insert(k);
            }
        }
        let mut bytes = m.bytes();
        let bits_end = bytes.len();
        bytes.extend(b"tail");
        v.push(Image { name: format!("v2 O{lvl} cap={cap} fpp={fpp}"), bytes, fields: vec![8, 16, 24, 32, 40, 48 + m.cache.len()], bits_end });
    }
    v
}

/// Every operation on a loaded filter must be usable.
fn exercise(f: &BloomFilter, full: bool) -> Res {
    guard(|| {
        let mut f = f.clone();
        let keys: Vec<Vec<u8>> = vec![vec![], b"a".to_vec(), b"12345678".to_vec(), long_key(1), long_key(2)];
        let _ = (f.version(), f.capacity(), f.fpp(), f.count_estimate(), f.size_in_bytes(), f.is_full(), f.data().len());
        match &f {
            BloomFilter::V1(b) => {
                let _ = (b.n_bits(), b.n_hash_fn(), b.count_ones(), b.count_zeros(), b.estimated_p(), b.size_in_u64());
                if full {
                    let _ = b.bits();
                }
            }
            BloomFilter::V2(b) => {
                let _ = (b.count_ones(), b.count_zeros());
            }
        }
        if !full {
            return;
        }
        for k in &keys {
            let _ = f.contains_bytes(k);
        }
        for k in &keys {
            let _ = f.insert_bytes(k);
            let _ = f.contains_bytes(k);
        }
        let mut out = vec![];
        let _ = f.write(&mut out);
        let g = f.clone();
        let _ = f.count_common_entries(&g);
        let _ = f.union_merge(&g);
        let _ = (f.count_estimate(), f.is_full());
        let _ = f.insert_bytes(&keys[4]);
        let _ = intersect(&mut f, &g);
        let _ = f.insert_bytes(&keys[3]);
        f.clear();
        let _ = f.insert_bytes(&keys[1]);
        let _ = f.contains_bytes(&keys[2]);
        let mut out = vec![];
        let _ = f.write(&mut out);
    })
    .map_err(|m| format!("using the loaded filter: {m}"))
}

/// Loads arbitrary bytes in all ways; returns whether the complete load succeeded.
fn swallow(ctx: &Ctx, b: &[u8]) -> Result<bool, String> {
    let lim = (64u64 << 20) + 16 * b.len() as u64;
    let mut ok = false;
    for how in 0..3 {
        let (r, peak) = measured(|| {
            guard(|| match how {
                0 => BloomFilter::from_reader(Cursor::new(b)),
                1 => BloomFilter::partial_from_reader(Cursor::new(b)),
                _ => typed_load(b.first().copied().unwrap_or(2), Cursor::new(b)),
            })
        });
        let r = r.map_err(|m| format!("{}: {m}", ["from_reader", "partial_from_reader", "typed from_reader"][how]))?;
        ensure!(peak <= lim, "{} bytes of input made the loader ({how}) allocate {peak} bytes", b.len());
        if how == 0 {
            ok = r.is_ok();
        }
        if let Ok(f) = r {
            if how < 2 {
                let (e, peak) = measured(|| exercise(&f, how == 0));
                e?;
                ensure!(peak <= lim, "using a filter loaded from {} bytes allocates {peak} bytes", b.len());
            }
        }
    }
    ctx.beat();
    Ok(ok)
}

pub fn c13(ctx: &Ctx) {
    let imgs = images();
    let imgs = &imgs;
    let mut cases: Vec<Case> = vec![];
    for (ii, im) in imgs.iter().enumerate() {
        let vals = |off: usize| -> Vec<u64> {
            if off == 16 {
                floats()
            } else {
                U.to_vec()
            }
        };
        // fields one by one and two by two
        for a in 0..im.fields.len() {
            for b in a..im.fields.len() {
                cases.push(case(format!("fields {a},{b} of {}", im.name), move |ctx| {
                    let (fa, fb) = (im.fields[a], im.fields[b]);
                    let (mut n, mut acc) = (0u64, 0u64);
                    let mut seen = vec![];
                    for x in vals(fa) {
                        for y in vals(fb) {
                            if a == b && x != y && !(x.is_nan_bits() && y.is_nan_bits()) {
                                continue;
                            }
                            let mut t = im.bytes.clone();
                            t[fa..fa + 8].copy_from_slice(&x.to_le_bytes());
                            t[fb..fb + 8].copy_from_slice(&y.to_le_bytes());
                            ctx.crumb(&format!("field at {fa}={x:#x}, field at {fb}={y:#x}"));
                            let ok = swallow(ctx, &t).map_err(|e| format!("{} with field at {fa} = {x:#x} and field at {fb} = {y:#x}: {e}", im.name))?;
                            n += 1;
                            acc += ok as u64;
                            seen.push(h64(&t));
                        }
                    }
                    ctx.add("evaluations", n);
                    ctx.add("inputs_accepted", acc);
                    ctx.distinct(seen);
                    Ok(())
                }));
            }
        }
        // all fields together over a few values
        for first in 0..6usize {
            cases.push(case(format!("all fields of {}, {first}", im.name), move |ctx| {
                let few = |off: usize| -> Vec<u64> {
                    let own = u64::from_le_bytes(im.bytes[off..off + 8].try_into().unwrap());
                    match off {
                        16 => vec![own, 0, 1f64.to_bits(), f64::NAN.to_bits(), 1e-300f64.to_bits(), 0.9f64.to_bits()],
                        _ => vec![own, 0, 1, 65, 1 << 33, u64::MAX],
                    }
                };
                let vals: Vec<Vec<u64>> = im.fields.iter().map(|f| few(*f)).collect();
                let (mut n, mut acc) = (0u64, 0u64);
                let mut seen = vec![];
                for code in 0..6usize.pow(im.fields.len() as u32 - 1) {
                    let mut t = im.bytes.clone();
                    let mut x = code * 6 + first;
                    let mut what = String::new();
                    for (f, v) in im.fields.iter().zip(&vals) {
                        t[*f..f + 8].copy_from_slice(&v[x % 6].to_le_bytes());
                        what += &format!(" field at {f}={:#x}", v[x % 6]);
                        x /= 6;
                    }
                    ctx.crumb(&what);
                    let ok = swallow(ctx, &t).map_err(|e| format!("{} with{what}: {e}", im.name))?;
                    n += 1;
                    acc += ok as u64;
                    seen.push(h64(&t));
                }
                ctx.add("evaluations", n);
                ctx.add("inputs_accepted", acc);
                ctx.distinct(seen);
                Ok(())
            }));
        }
        // every byte of the header
        cases.push(case(format!("header bytes of {}", im.name), move |ctx| {
            let end = im.fields.last().unwrap() + 8;
            let offs: Vec<usize> = (0..48).chain(im.fields.last().copied().unwrap()..end).collect();
            let mut seen = vec![];
            for off in offs {
                for x in 0..=255u8 {
                    let mut t = im.bytes.clone();
                    if off >= t.len() {
                        continue;
                    }
                    t[off] = x;
                    ctx.crumb(&format!("byte {off}={x:#x}"));
                    let ok = swallow(ctx, &t).map_err(|e| format!("{} with byte {off} = {x:#x}: {e}", im.name))?;
                    seen.push(h64(&t));
                    ctx.add("evaluations", 1);
                    ctx.add("inputs_accepted", ok as u64);
                    if off == 0 && x != 1 && x != 2 {
                        ensure!(!ok, "{}: version {x} accepted", im.name);
                    }
                }
            }
            ctx.distinct(seen);
            Ok(())
        }));
        // every truncation
        cases.push(case(format!("truncations of {}", im.name), move |ctx| {
            let mut seen = vec![];
            for len in 0..=im.bytes.len() {
                let t = &im.bytes[..len];
                let ok = swallow(ctx, t).map_err(|e| format!("{} cut at {len}: {e}", im.name))?;
                ensure!(ok == (len >= im.bits_end), "{} of {} bytes (bits end at {}) cut at {len} is {}", im.name, im.bytes.len(), im.bits_end, if ok { "accepted" } else { "refused" });
                seen.push(h64(t));
                ctx.add("evaluations", 1);
            }
            ctx.distinct(seen);
            ctx.sample(format!("{}: cut at every length 0..{}", im.name, im.bytes.len()));
            Ok(())
        }));
        // reader faults
        cases.push(case(format!("reader faults on {}", im.name), move |ctx| {
            for chunk in [1usize, 7, 8, 48, 64, 4096, 1 << 20] {
                let full = load(&im.bytes).map_err(|e| format!("{}: {e}", im.name))?;
                let part = BloomFilter::partial_from_reader(Cursor::new(&im.bytes)).map_err(|e| format!("{}: {e}", im.name))?;
                for partial in [false, true] {
                    // count the calls
                    let run = |fault: Option<(usize, Fault)>| {
                        let mut r = Faulty { c: Cursor::new(&im.bytes), chunk, call: 0, fault, hit: false };
                        let x = guard(|| if partial { BloomFilter::partial_from_reader(&mut r) } else { BloomFilter::from_reader(&mut r) });
                        (x, r.call, r.hit)
                    };
                    let (r, calls, _) = run(None);
                    let r = r.map_err(|m| format!("{} in chunks of {chunk}: {m}", im.name))?;
                    let r = r.map_err(|e| format!("{} in chunks of {chunk}: refused: {e}", im.name))?;
                    let want = if partial { &part } else { &full };
                    ensure!(ser(&r) == ser(want) && r.size_in_bytes() == want.size_in_bytes(), "{}: short reads of {chunk} change the filter", im.name);
                    for i in 0..calls {
                        for f in [Fault::Err, Fault::Eof, Fault::Intr] {
                            let (r, _, hit) = run(Some((i, f)));
                            let r = r.map_err(|m| format!("{}: {f:?} at reader call {i} (chunks of {chunk}): {m}", im.name))?;
                            ctx.add("evaluations", 1);
                            match (f, r) {
                                (Fault::Err, Ok(_)) if hit => return Err(format!("{}: error of reader call {i} (chunks of {chunk}, partial {partial}) is not reported", im.name)),
                                (Fault::Eof, Ok(g)) if hit => {
                                    // an early end may only lose attached data
                                    if !partial {
                                        let (a, b) = (ser(&g), ser(want));
                                        ensure!(a[..im.bits_end] == b[..im.bits_end], "{}: early end at reader call {i} (chunks of {chunk}) gives another filter", im.name);
                                    }
                                    exercise(&g, !partial)?;
                                }
                                (Fault::Intr, Ok(g)) => {
                                    ensure!(ser(&g) == ser(want), "{}: interruption of reader call {i} (chunks of {chunk}) changes the filter", im.name);
                                }
                                _ => {}
                            }
                        }
                        ctx.beat();
                    }
                    ctx.distinct((0..calls as u64).map(|c| c << 8 | (ii as u64) << 40 | (chunk as u64) << 44 | partial as u64));
                }
            }
            Ok(())
        }));
    }
    // bits of any value, sizes that do not match, saturated filters
    cases.push(case("saturated bits", |ctx| {
        for im in imgs {
            for fill in [0u8, 0xff, 0xaa] {
                let mut t = im.bytes.clone();
                let start = if im.bytes[0] == 1 { 48 } else { im.fields[5] + 8 };
                t[start..im.bits_end].fill(fill);
                if im.bytes[0] == 2 {
                    t[48..im.fields[5]].fill(fill);
                }
                for cap in [0u64, 1, 3, u64::MAX] {
                    for count in [0u64, 1, 3, u64::MAX] {
                        t[8..16].copy_from_slice(&cap.to_le_bytes());
                        let co = if im.bytes[0] == 1 { 40 } else { 32 };
                        t[co..co + 8].copy_from_slice(&count.to_le_bytes());
                        swallow(ctx, &t).map_err(|e| format!("{} filled with {fill:#x}, capacity {cap}, count {count}: {e}", im.name))?;
                        ctx.add("evaluations", 1);
                    }
                }
            }
        }
        Ok(())
    }));
    // short inputs: everything up to 2 bytes, then constant fillings of any length
    cases.push(case("tiny inputs", |ctx| {
        swallow(ctx, &[])?;
        for a in 0..=255u8 {
            swallow(ctx, &[a])?;
            for b in 0..=255u8 {
                let ok = swallow(ctx, &[a, b])?;
                ensure!(!ok, "2 bytes accepted as a filter");
            }
            for len in [8usize, 16, 47, 48, 49, 55, 56, 57, 64, 100, 4096, 4152, 4153, 5000] {
                for first in [1u8, 2] {
                    let mut t = vec![a; len];
                    t[0] = first;
                    for lvl in 0..4u8 {
                        t[1] = lvl;
                        swallow(ctx, &t).map_err(|e| format!("{len} bytes of {a:#x} after version {first} level {lvl}: {e}"))?;
                        ctx.add("evaluations", 1);
                    }
                }
            }
        }
        ctx.add("evaluations", 65536 + 257);
        Ok(())
    }));
    cases.extend(crate::big::cases(ctx, "C13"));
    ctx.par(cases);
}

trait NanBits {
    fn is_nan_bits(&self) -> bool;
}
impl NanBits for u64 {
    fn is_nan_bits(&self) -> bool {
        false
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Err,
    Eof,
    Intr,
}

struct Faulty<'a> {
    c: Cursor<&'a Vec<u8>>,
    chunk: usize,
    call: usize,
    fault: Option<(usize, Fault)>,
    hit: bool,
}
impl Read for Faulty<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let i = self.call;
        self.call += 1;
        if let Some((at, f)) = self.fault {
            // errors and ends are sticky, as on a broken medium; an interruption happens once
            if i == at || (i > at && f != Fault::Intr) {
                self.hit = true;
                match f {
                    Fault::Err => return Err(io::Error::other("injected")),
                    Fault::Eof => return Ok(0),
                    Fault::Intr => return Err(io::Error::from(io::ErrorKind::Interrupted)),
                }
            }
        }
        let n = self.chunk.min(b.len());
        self.c.read(&mut b[..n])
    }
}
impl Seek for Faulty<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let i = self.call;
        self.call += 1;
        if let Some((at, Fault::Err)) = self.fault {
            if i >= at {
                self.hit = true;
                return Err(io::Error::other("injected"));
            }
        }
        self.c.seek(p)
    }
}

pub fn c14(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    let meta = |f: &BloomFilter| format!("version={} capacity={} fpp={:?} count={} full={} size={}", f.version(), f.capacity(), f.fpp(), f.count_estimate(), f.is_full(), f.size_in_bytes());
    for (v, o) in KINDS {
        let mut shapes: Vec<(usize, f64)> = vec![];
        for cap in (0..=20usize).chain([63, 64, 65, 100, 128, 129, 500, 1000, 1024, 1025, 5000, 65536, 66000, 70001, 140_000]) {
            for fpp in [1.0, 0.5, 0.01, 0.001, 1e-12] {
                shapes.push((cap, fpp));
            }
        }
        shapes.push((30, 1e-300));
        shapes.push((50, 1e-300));
        shapes.push((70_040, 1e-100));
        for (i, chunk) in shapes.chunks(12).enumerate() {
            let chunk = chunk.to_vec();
            cases.push(case(format!("metadata v{v}/O{o}/{i}"), move |ctx| {
                for (cap, fpp) in &chunk {
                    let c = cfg(v, o, *cap, *fpp);
                    let small = *cap <= 1025;
                    // histories: empty, some entries, full, merged above capacity, cleared
                    for hist in 0..5 {
                        let mut b = c.make();
                        let n = match hist {
                            0 => 0,
                            1 => (*cap as u64).div_ceil(2),
                            _ => *cap as u64,
                        };
                        for i in 0..n {
                            let _ = b.insert_bytes(long_key(i));
                        }
                        if hist == 3 {
                            let mut g = c.make();
                            for i in 0..n {
                                let _ = g.insert_bytes(long_key(i + n));
                            }
                            let _ = b.union_merge(&g);
                        }
                        if hist == 4 {
                            b.clear();
                        }
                        let lens: Vec<usize> = if small && hist < 2 {
                            vec![0, 1, 8, 100, 4000, 4095, 4096, 8100, 8143, 8144, 8145, 8191, 8192, 8193, 16384, 20000]
                        } else if hist == 2 && *cap < 3 {
                            vec![0, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1]
                        } else {
                            vec![0, 5, 9000]
                        };
                        for dl in lens {
                            set_data(&mut b, &len_key(dl, 4));
                            let s = ser(&b);
                            let Some(bits) = s.len().checked_sub(dl + if v == 1 { 48 } else { 56 }) else {
                                return Err(format!("{}: only {} bytes saved with {dl} bytes of data", c.name(), s.len()));
                            };
                            let full = load(&s).map_err(|e| format!("{}: {e}", c.name()))?;
                            for how in 0..6 {
                                if how >= 2 && (!small || hist > 1) {
                                    continue;
                                }
                                let pre = [0usize, 0, 0, 1, 4096, 8192][how];
                                let mut buf = vec![0x5au8; pre];
                                buf.extend(&s);
                                let mut cur = Cursor::new(buf.as_slice());
                                cur.set_position(pre as u64);
                                let p = guard(|| match how {
                                    1 => BloomFilter::partial_from_reader(Dribble { c: cur, n: 1 }),
                                    2 => BloomFilter::partial_from_reader(Dribble { c: cur, n: 4095 }),
                                    _ => BloomFilter::partial_from_reader(cur),
                                })?
                                .map_err(|e| format!("{} hist {hist}, {dl} bytes of data, reader {how}: metadata load failed: {e}", c.name()))?;
                                let w = || format!("{} hist {hist}, {dl} bytes of data, reader {how}", c.name());
                                ensure!(meta(&p) == meta(&full), "{}: metadata load says {}, complete load {}", w(), meta(&p), meta(&full));
                                ensure!(p.data() == full.data() && p.data() == b.data(), "{}: attached data differs ({} bytes / {})", w(), p.data().len(), full.data().len());
                                ensure!(p.size_in_bytes() == bits, "{}: size is {} but the bits take {bits} bytes", w(), p.size_in_bytes());
                                ensure!(meta(&p) == meta(&b), "{}: metadata {} differs from the saved filter {}", w(), meta(&p), meta(&b));
                                ctx.add("evaluations", 1);
                            }
                            ctx.distinct([h64(&s[..48]) ^ (dl as u64) << 3 ^ hist]);
                        }
                        ctx.beat();
                    }
                }
                Ok(())
            }));
        }
    }
    // files written by other tools / older versions: level recorded without cache, cache at other levels, one bucket more
    cases.push(case("foreign shapes", move |ctx| {
        for lvl in 0..4u8 {
            for nb in [1u64, 2, 3, 5] {
                for cache in [0usize, 1, 2, 3, 8191, 8192, 8193, 20000] {
                    for dl in [0usize, 3, 8192] {
                        let m = Ref2 { level: lvl, cap: 10, fpp: 0.1, k: 3, count: 4, cache: vec![0x11; cache], nb, buckets: vec![0x22; nb as usize * 4096] };
                        let mut s = m.bytes();
                        s.extend(len_key(dl, 1));
                        let (Ok(f), Ok(p)) = (guard(|| load(&s))?, guard(|| BloomFilter::partial_from_reader(Cursor::new(&s)))?) else { continue };
                        ensure!(meta(&f) == meta(&p) && f.data() == p.data(), "level {lvl}, {nb} buckets, cache of {cache} bytes: metadata load says {}, complete load {}", meta(&p), meta(&f));
                        ensure!(p.size_in_bytes() == s.len() - 56 - dl, "level {lvl}, {nb} buckets, cache of {cache} bytes: size {}", p.size_in_bytes());
                        ctx.add("evaluations", 1);
                    }
                }
            }
        }
        for m in [1u64, 63, 64, 65, 127, 128, 129, 1000, 65536, 70000] {
            let w = m.div_ceil(64);
            let r = Ref1 { cap: 3, fpp: 0.1, k: 1, m, count: 2, words: vec![1; w as usize] };
            for dl in [0usize, 5, 8200] {
                let mut s = r.bytes();
                s.extend(len_key(dl, 1));
                let f = load(&s).map_err(|e| e.to_string())?;
                let p = guard(|| BloomFilter::partial_from_reader(Cursor::new(&s)))?.map_err(|e| e.to_string())?;
                ensure!(meta(&f) == meta(&p) && f.data() == p.data(), "v1 of {m} bits: metadata load says {}, complete load {}", meta(&p), meta(&f));
                ensure!(p.size_in_bytes() == s.len() - 48 - dl, "v1 of {m} bits: size {}", p.size_in_bytes());
                ctx.add("evaluations", 1);
            }
        }
        Ok(())
    }));
    cases.extend(crate::cli::show_cases(quick));
    ctx.par(cases);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum WFault {
    Err,
    Zero,
    Short,
    Intr,
    FlushErr,
    Block,
}

struct Sink {
    got: Vec<u8>,
    call: usize,
    at: usize,
    f: Option<WFault>,
    max: usize,
    hit: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let i = self.call;
        self.call += 1;
        let mut n = b.len().min(self.max);
        if i >= self.at {
            match self.f {
                Some(WFault::Err) => {
                    self.hit = true;
                    return Err(io::Error::other("injected"));
                }
                Some(WFault::Block) => {
                    self.hit = true;
                    return Err(io::Error::from(io::ErrorKind::WouldBlock));
                }
                Some(WFault::Zero) => {
                    self.hit = true;
                    return Ok(0);
                }
                Some(WFault::Short) => {
                    self.hit = true;
                    n = n.min(1 + (i - self.at) % 3);
                }
                Some(WFault::Intr) if i == self.at => {
                    self.hit = true;
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                _ => {}
            }
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.f == Some(WFault::FlushErr) {
            self.hit = true;
            return Err(io::Error::other("injected"));
        }
        Ok(())
    }
}

pub fn c15(ctx: &Ctx) {
    let mut cases = vec![];
    for (v, o) in KINDS {
        for (cap, fpp) in [(0usize, 0.1), (1, 0.5), (100, 0.01), (2500, 0.001), (5000, 0.001), (7000, 0.01), (66_000, 0.1)] {
            cases.push(case(format!("writer v{v}/O{o}/cap={cap}"), move |ctx| {
                let c = cfg(v, o, cap, fpp);
                for dl in [0usize, 1, 100, 4000, 4096, 8100, 8135, 8136, 8143, 8144, 8145, 8191, 8192, 8193, 16384, 16500, 65535, 65536, 70001] {
                    if dl > 20_000 && cap != 100 {
                        continue;
                    }
                    let mut b = c.make();
                    for i in 0..cap.min(200) as u64 {
                        let _ = b.insert_bytes(long_key(i));
                    }
                    set_data(&mut b, &len_key(dl, 8));
                    let want = ser(&b);
                    let run = |f: Option<WFault>, at: usize, max: usize| {
                        let mut s = Sink { got: vec![], call: 0, at, f, max, hit: false };
                        let inner = dl % 2 == 1;
                        let r = guard(|| match &b {
                            BloomFilter::V1(b) if inner => b.write(&mut s),
                            BloomFilter::V2(b) if inner => b.write(&mut s),
                            b => b.write(&mut s),
                        });
                        (r, s)
                    };
                    // a file that grows
                    for max in [usize::MAX, 4096, 1000] {
                        let (r, s) = run(None, 0, max);
                        let r = r.map_err(|m| format!("{}: {m}", c.name()))?;
                        ensure!(r.is_ok() && s.got == want, "{}, {dl} bytes of data, at most {max} bytes per call: not all bytes written", c.name());
                        let calls = s.call;
                        let what = format!("{}, {dl} bytes of data, at most {max} bytes per call", c.name());
                        for at in 0..calls {
                            for f in [WFault::Err, WFault::Zero, WFault::Short, WFault::Intr, WFault::Block] {
                                let (r, s) = run(Some(f), at, max);
                                let r = r.map_err(|m| format!("{what}: {f:?} at call {at}: {m}"))?;
                                ctx.add("evaluations", 1);
                                match f {
                                    WFault::Err | WFault::Zero | WFault::Block => {
                                        ensure!(r.is_err() || !s.hit, "{what}: {f:?} at call {at} of {calls} is not reported");
                                        ensure!(want.starts_with(&s.got), "{what}: {f:?} at call {at}: bytes out of order");
                                    }
                                    _ => {
                                        // handled or reported, never lost
                                        ensure!(r.is_err() || s.got == want, "{what}: {f:?} at call {at} of {calls}: success but bytes lost or duplicated");
                                        ensure!(r.is_ok(), "{what}: {f:?} at call {at} is not handled");
                                    }
                                }
                                ctx.distinct([(at as u64) << 8 | f as u64 | h64(what.as_bytes()) << 30]);
                            }
                        }
                        ctx.beat();
                    }
                    // size limits: the medium accepts exactly n bytes
                    for n in [0usize, 1, 47, 48, 49, 55, 56, 57, 4096, 8191, 8192, 8193, want.len() / 2, want.len().saturating_sub(dl + 1), want.len().saturating_sub(dl), want.len() - 1] {
                        if n >= want.len() {
                            continue;
                        }
                        let mut buf = vec![0u8; n];
                        let mut sl = buf.as_mut_slice();
                        let r = guard(|| b.write(&mut sl)).map_err(|m| format!("{}: {m}", c.name()))?;
                        ensure!(r.is_err(), "{}, {dl} bytes of data: success on a medium of {n} bytes instead of {}", c.name(), want.len());
                        ensure!(matches!(r, Err(Error::IoError(_))), "{}: wrong error", c.name());
                        ctx.add("evaluations", 1);
                    }
                    let (r, s) = run(Some(WFault::FlushErr), usize::MAX, usize::MAX);
                    let r = r.map_err(|m| format!("{}: {m}", c.name()))?;
                    ensure!(!s.hit || r.is_err(), "{}: flush error is not reported", c.name());
                    ctx.add("evaluations", 1);
                    // buffered media: bytes may only be lost if flush was not called, which is then the caller's duty
                }
                ctx.sample(format!("{}: each writer call x 5 faults", c.name()));
                Ok(())
            }));
        }
    }
    ctx.par(cases);
}
