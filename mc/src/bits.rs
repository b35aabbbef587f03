//! C21 (bit sets), C22 (creation).
use crate::ctx::{case, guard, Ctx, Res};
use crate::ensure;
use crate::util::*;
use poppy_filters::bitset::{array::BitSet, vec::VecBitSet};
use poppy_filters::{bloom, v1, v2, BloomFilter, Error, OptLevel, Params};

/// Common face of both bit sets.
trait Bits: Clone {
    fn bytes(&self) -> &[u8];
    fn put(&mut self, b: &[u8]);
    fn get(&self, i: usize) -> bool;
    fn set(&mut self, i: usize) -> bool;
    fn unset(&mut self, i: usize) -> bool;
    fn clear_(&mut self);
    fn uni(&mut self, o: &Self);
    fn int(&mut self, o: &Self);
    fn common(&self, o: &Self) -> usize;
    fn ones(&self) -> usize;
    fn zeros(&self) -> usize;
    fn lens(&self) -> (usize, usize);
}
macro_rules! face {
    ($t:ty $(, $g:tt)*) => {
        fn bytes(&self) -> &[u8] { self.as_slice() }
        fn put(&mut self, b: &[u8]) { self.as_mut_slice().copy_from_slice(b) }
        fn get(&self, i: usize) -> bool { self.get_nth_bit(i) }
        fn set(&mut self, i: usize) -> bool { self.set_nth_bit(i) }
        fn unset(&mut self, i: usize) -> bool { self.unset_nth_bit(i) }
        fn clear_(&mut self) { self.clear() }
        fn uni(&mut self, o: &Self) { self.union(o) }
        fn int(&mut self, o: &Self) { self.intersection(o) }
        fn common(&self, o: &Self) -> usize { self.count_ones_in_common(o) }
        fn ones(&self) -> usize { self.count_ones() }
        fn zeros(&self) -> usize { self.count_zeros() }
        fn lens(&self) -> (usize, usize) { (self.bit_len(), self.byte_len()) }
    };
}
impl<const N: usize> Bits for BitSet<N> {
    face!(BitSet<N>);
}
impl Bits for VecBitSet {
    face!(VecBitSet);
}

/// Set of indexes read through the API.
fn read<B: Bits>(b: &B) -> Vec<bool> {
    (0..b.lens().0).map(|i| b.get(i)).collect()
}

/// All 2^bits states of a small set x all operations x all (or representative) second operands.
fn complete<B: Bits>(ctx: &Ctx, empty: B, bits: usize, full_pairs: bool) -> Res {
    let nst = 1u32 << bits;
    // states are reached through the API only: set each index
    let mk = |s: u32| {
        let mut b = empty.clone();
        for i in 0..bits {
            if s >> i & 1 == 1 {
                b.set(i);
            }
        }
        b
    };
    let val = |b: &B| (0..bits).fold(0u32, |a, i| a | (b.get(i) as u32) << i);
    let mut tr = 0u64;
    let reps: Vec<u32> = if full_pairs {
        (0..nst).collect()
    } else {
        let m = nst - 1;
        let mut v: Vec<u32> = (0..bits).flat_map(|i| [1 << i, m ^ (1 << i)]).collect();
        v.extend([0, m, 0x5555 & m, 0xaaaa & m, 0x00ff & m, 0xff00 & m, 0x0f0f & m, 0x1234 & m, 0x8001 & m]);
        v
    };
    let others: Vec<(u32, B)> = reps.iter().map(|s| (*s, mk(*s))).collect();
    for s in 0..nst {
        if s % 1024 == 0 {
            ctx.beat();
        }
        let b = mk(s);
        ensure!(val(&b) == s, "state {s:b} reads back as {:b}", val(&b));
        ensure!(b.ones() == s.count_ones() as usize && b.zeros() == bits - s.count_ones() as usize, "state {s:b}: {} ones, {} zeros", b.ones(), b.zeros());
        for i in 0..bits {
            for set in [true, false] {
                let mut c = b.clone();
                let old = if set { c.set(i) } else { c.unset(i) };
                let want = if set { s | 1 << i } else { s & !(1 << i) };
                ensure!(old == (s >> i & 1 == 1), "state {s:b}: {} {i} returns {old}", if set { "set" } else { "unset" });
                ensure!(val(&c) == want, "state {s:b}: {} {i} gives {:b}", if set { "set" } else { "unset" }, val(&c));
                tr += 1;
            }
        }
        for (t, o) in &others {
            let mut c = b.clone();
            c.uni(o);
            ensure!(val(&c) == s | t, "{s:b} union {t:b} = {:b}", val(&c));
            ensure!(val(o) == *t, "union changed its operand");
            let mut c = b.clone();
            c.int(o);
            ensure!(val(&c) == s & t, "{s:b} intersection {t:b} = {:b}", val(&c));
            ensure!(b.common(o) == (s & t).count_ones() as usize, "{s:b} and {t:b}: {} in common", b.common(o));
            tr += 3;
        }
        let mut c = b.clone();
        c.clear_();
        ensure!(val(&c) == 0, "clear of {s:b} gives {:b}", val(&c));
        // raw bytes view round trips
        let raw = b.bytes().to_vec();
        let mut d = empty.clone();
        d.put(&raw);
        ensure!(val(&d) == s && read(&d) == read(&b), "bytes of state {s:b} read back as {:b}", val(&d));
        tr += 2;
    }
    ctx.add("states", nst as u64);
    ctx.add("transitions", tr);
    ctx.add("traces", tr);
    Ok(())
}

/// Each index of a larger set, from the empty, full and striped states.
fn indexes<B: Bits>(ctx: &Ctx, empty: B) -> Res {
    let (nb, ny) = empty.lens();
    ensure!(nb == ny * 8 && empty.bytes().len() == ny, "lengths {nb} bits, {ny} bytes, {} slice", empty.bytes().len());
    let mut full = empty.clone();
    for i in 0..nb {
        ensure!(!full.get(i), "index {i} of a new set is set");
        ensure!(!full.set(i), "set {i} says it was set");
        ensure!(full.ones() == i + 1 && full.zeros() == nb - i - 1, "{} ones after setting {} indexes", full.ones(), i + 1);
        if i % 512 == 0 {
            ctx.beat();
        }
    }
    ensure!(full.bytes().iter().all(|b| *b == 0xff), "setting all indexes does not set all bits");
    let mut stripes = vec![];
    for k in [2usize, 3, 5, 8, 9, 64] {
        let mut s = empty.clone();
        (0..nb).step_by(k).for_each(|i| {
            s.set(i);
        });
        ensure!(s.ones() == nb.div_ceil(k), "{} ones in a stripe of {k}", s.ones());
        stripes.push((k, s));
    }
    for (k, a) in &stripes {
        for (l, b) in &stripes {
            let (mut u, mut n) = (a.clone(), a.clone());
            u.uni(b);
            n.int(b);
            let mut c = 0;
            for i in 0..nb {
                let (x, y) = (i % k == 0, i % l == 0);
                ensure!(u.get(i) == (x || y), "stripes {k} {l}: union at {i}");
                ensure!(n.get(i) == (x && y), "stripes {k} {l}: intersection at {i}");
                c += (x && y) as usize;
            }
            ensure!(a.common(b) == c, "stripes {k} {l}: {} in common instead of {c}", a.common(b));
        }
    }
    let want_one = |i: usize, on: bool| {
        let mut v = vec![if on { 0u8 } else { 0xff }; ny];
        if on {
            v[i / 8] = 1 << (i % 8)
        } else {
            v[i / 8] = !(1 << (i % 8))
        };
        v
    };
    // byte view is compared through a set built by put(), so no bit order is assumed beyond this one
    for i in 0..nb {
        let mut e = empty.clone();
        e.set(i);
        ensure!(e.ones() == 1 && e.get(i), "set {i} on an empty set: {} ones", e.ones());
        let mut f = full.clone();
        ensure!(f.unset(i), "unset {i} says it was not set");
        ensure!(f.zeros() == 1 && !f.get(i), "unset {i} on a full set: {} zeros", f.zeros());
        ensure!(!f.unset(i), "second unset {i} says it was set");
        ensure!(e.bytes() == want_one(i, true) && f.bytes() == want_one(i, false), "index {i} is stored elsewhere");
        ensure!(e.set(i), "second set {i} says it was not set");
        ensure!(e.common(&f) == 0, "index {i} is in common with its complement");
        f.uni(&e);
        ensure!(f.zeros() == 0, "union with index {i}");
        f.int(&e);
        ensure!(f.ones() == 1 && f.get(i), "intersection with index {i}");
        e.unset(i);
        ensure!(e.ones() == 0, "unset {i}");
        if i % 512 == 0 {
            ctx.beat();
        }
    }
    full.clear_();
    ensure!(full.ones() == 0 && full.bytes().iter().all(|b| *b == 0), "clear leaves bits");
    // out of range
    for i in (nb..nb + 17).chain([nb * 2, nb * 8, u32::MAX as usize, usize::MAX / 2, usize::MAX - 7, usize::MAX]) {
        if i < nb {
            continue;
        }
        let mut e = empty.clone();
        ensure!(guard(|| e.get(i)).is_err(), "get of index {i} accepted in a set of {nb}");
        ensure!(guard(|| e.set(i)).is_err(), "set of index {i} accepted in a set of {nb}");
        ensure!(guard(|| e.unset(i)).is_err(), "unset of index {i} accepted in a set of {nb}");
        ensure!(e.bytes() == empty.bytes(), "out of range index {i} changed the set");
    }
    ctx.add("states", 2 * nb as u64);
    ctx.add("transitions", 12 * nb as u64);
    ctx.add("traces", 12 * nb as u64);
    Ok(())
}

pub fn c21(ctx: &Ctx) {
    let mut cases = vec![
        case("BitSet<1> complete", |c| complete(c, BitSet::<1>::new(), 8, true)),
        case("BitSet<2> complete", |c| complete(c, BitSet::<2>::new(), 16, false)),
        case("VecBitSet 8 complete", |c| complete(c, VecBitSet::with_bit_capacity(8), 8, true)),
        case("VecBitSet 5 complete", |c| complete(c, VecBitSet::with_bit_capacity(5), 8, true)),
        case("VecBitSet 16 complete", |c| complete(c, VecBitSet::with_bit_capacity(16), 16, false)),
        case("BitSet<0>", |c| indexes(c, BitSet::<0>::new())),
        case("BitSet<1>", |c| indexes(c, BitSet::<1>::new())),
        case("BitSet<3>", |c| indexes(c, BitSet::<3>::new())),
        case("BitSet<8>", |c| indexes(c, BitSet::<8>::new())),
        case("BitSet<9>", |c| indexes(c, BitSet::<9>::new())),
        case("BitSet<257>", |c| indexes(c, BitSet::<257>::new())),
        case("BitSet<4096>", |c| indexes(c, BitSet::<4096>::new())),
        case("sizes", |c| {
            ensure!(BitSet::<5>::byte_size() == 5 && BitSet::<5>::bit_size() == 40, "sizes of BitSet<5>");
            ensure!(BitSet::<0>::byte_size() == 0 && BitSet::<4096>::bit_size() == 32768, "sizes of BitSet");
            for n in (0..5000usize).chain([1 << 16, (1 << 16) + 1, (1 << 20) - 1, 1 << 25, (1 << 25) + 1, 123_456_789]) {
                let v = VecBitSet::with_bit_capacity(n);
                ensure!(v.byte_len() == n.div_ceil(8), "bit set of {n} bits has {} bytes", v.byte_len());
                ensure!(v.bit_len() == n.div_ceil(8) * 8, "bit set of {n} bits has {} bits", v.bit_len());
                ensure!(v.is_empty() == (n == 0), "is_empty of a set of {n} bits");
                ensure!(v.as_slice().len() == v.byte_len() && v.count_ones() == 0 && v.count_zeros() == v.bit_len(), "new set of {n} bits");
                c.add("transitions", 1);
            }
            Ok(())
        }),
    ];
    for n in (0..=72usize).chain([4095, 4096, 4097]) {
        cases.push(case(format!("VecBitSet {n}"), move |c| indexes(c, VecBitSet::with_bit_capacity(n))));
    }
    if !ctx.quick() {
        cases.push(case("VecBitSet 70000", |c| indexes(c, VecBitSet::with_bit_capacity(70_000))));
    }
    // histories on three small sets driven through set/unset/union/intersection/clear, to the fixpoint
    cases.push(case("histories", |ctx| {
        use std::collections::{HashMap, VecDeque};
        type S = (u8, u8);
        let idx = [0usize, 3, 7];
        let mut seen: HashMap<S, ()> = HashMap::new();
        let mut q: VecDeque<(BitSet<1>, VecBitSet, BitSet<1>, VecBitSet)> = VecDeque::new();
        q.push_back((BitSet::new(), VecBitSet::with_bit_capacity(8), BitSet::new(), VecBitSet::with_bit_capacity(8)));
        seen.insert((0, 0), ());
        let mut tr = 0;
        while let Some((a, va, b, vb)) = q.pop_front() {
            let (sa, sb) = (a.as_slice()[0], b.as_slice()[0]);
            for op in 0..18 {
                let (mut a2, mut va2, mut b2, mut vb2) = (a.clone(), va.clone(), b.clone(), vb.clone());
                let (mut wa, mut wb) = (sa, sb);
                match op {
                    0..=2 => {
                        a2.set_nth_bit(idx[op]);
                        va2.set_nth_bit(idx[op]);
                        wa |= 1 << idx[op];
                    }
                    3..=5 => {
                        a2.unset_nth_bit(idx[op - 3]);
                        va2.unset_nth_bit(idx[op - 3]);
                        wa &= !(1 << idx[op - 3]);
                    }
                    6..=8 => {
                        b2.set_nth_bit(idx[op - 6]);
                        vb2.set_nth_bit(idx[op - 6]);
                        wb |= 1 << idx[op - 6];
                    }
                    9..=11 => {
                        b2.unset_nth_bit(idx[op - 9]);
                        vb2.unset_nth_bit(idx[op - 9]);
                        wb &= !(1 << idx[op - 9]);
                    }
                    12 => {
                        a2.union(&b2);
                        va2.union(&vb2);
                        wa |= wb;
                    }
                    13 => {
                        b2.union(&a2);
                        vb2.union(&va2);
                        wb |= wa;
                    }
                    14 => {
                        a2.intersection(&b2);
                        va2.intersection(&vb2);
                        wa &= wb;
                    }
                    15 => {
                        b2.intersection(&a2);
                        vb2.intersection(&va2);
                        wb &= wa;
                    }
                    16 => {
                        a2.clear();
                        va2.clear();
                        wa = 0;
                    }
                    _ => {
                        b2.clear();
                        vb2.clear();
                        wb = 0;
                    }
                }
                tr += 1;
                ensure!(a2.as_slice() == [wa] && va2.as_slice() == [wa] && b2.as_slice() == [wb] && vb2.as_slice() == [wb], "operation {op} on {sa:08b} {sb:08b}");
                ensure!(a2.count_ones_in_common(&b2) == (wa & wb).count_ones() as usize && va2.count_ones_in_common(&vb2) == (wa & wb).count_ones() as usize, "common ones of {wa:08b} {wb:08b}");
                if seen.insert((wa, wb), ()).is_none() {
                    q.push_back((a2, va2, b2, vb2));
                }
            }
        }
        ctx.add("states", seen.len() as u64);
        ctx.add("transitions", tr);
        ctx.add("traces", tr);
        ctx.sample(format!("two sets of each kind over indexes 0,3,7: {} states, {tr} transitions, fixpoint", seen.len()));
        Ok(())
    }));
    ctx.par(cases);
}

pub fn c22(ctx: &Ctx) {
    let fpps = [
        f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, -1.0, -1e-300, -5e-324, 5e-324, 1e-310, 2.2e-308, f64::MIN_POSITIVE, 1e-307, 1e-300, 1e-200, 1e-100, 1e-50, 1e-20, 1e-10, 1e-6, 0.001,
        0.01, 0.1, 0.25, 0.5, 0.61, 0.75, 0.9, 0.99, 0.999999, 1.0 - f64::EPSILON, f64::from_bits(1.0f64.to_bits() - 1), 1.0, 1.0 + f64::EPSILON, 1.5, 2.0, 100.0, f64::MAX, -f64::MAX,
    ];
    let caps: Vec<usize> = (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 1000, 1023, 1024, 1025, 4096, 10_000, 65_535, 65_536, 65_537]).collect();
    let quick = ctx.quick();
    let mut cases = vec![];
    for fpp in fpps {
        let caps = caps.clone();
        cases.push(case(format!("fpp {fpp:?}"), move |ctx| {
            let ok = fpp > 0.0 && fpp <= 1.0;
            let free = fpp.is_subnormal();
            let mut ev = 0u64;
            let mut seen = vec![];
            for &cap in &caps {
                if quick && cap > 5000 && (0.0..1e-40).contains(&fpp) {
                    continue;
                }
                let mut judge = |what: String, want_ok: bool, v: u8, o: u8, r: Result<Result<BloomFilter, Error>, String>| -> Res {
                    ev += 1;
                    seen.push(h64(what.as_bytes()));
                    let r = r.map_err(|m| format!("{what}: {m}"))?;
                    if free && want_ok {
                        return Ok(());
                    }
                    ensure!(r.is_ok() == (want_ok && ok), "{what}: {}", if r.is_ok() { "accepted" } else { "refused" });
                    let Ok(f) = r else { return Ok(()) };
                    ensure!(f.version() == v && f.capacity() == cap && f.fpp() == fpp, "{what}: reports version {} capacity {} fpp {}", f.version(), f.capacity(), f.fpp());
                    ensure!(f.count_estimate() == 0, "{what}: new filter has {} entries", f.count_estimate());
                    ensure!(f.is_full() == (cap == 0), "{what}: new filter full = {}", f.is_full());
                    ensure!(f.data().is_empty(), "{what}: new filter has data");
                    for k in [&b""[..], b"a", b"\0\0\0\0\0\0\0\0", b"some longer entry"] {
                        ensure!(!f.contains_bytes(k), "{what}: new filter contains {}", hex(k));
                    }
                    let ones = match &f {
                        BloomFilter::V1(f) => f.count_ones(),
                        BloomFilter::V2(f) => f.count_ones(),
                    };
                    ensure!(ones == 0, "{what}: new filter has {ones} bits set");
                    ensure!(ser(&f) == ser(&cfg(v, o, cap, fpp).make()), "{what}: not the same filter as through the other constructors");
                    Ok(())
                };
                for v in [0u8, 1, 2, 3, 4, 7, 127, 128, 254, 255] {
                    let vok = v == 1 || v == 2;
                    if !vok && cap > 3 {
                        continue;
                    }
                    for o in 0..4u8 {
                        let lvl = OptLevel::try_from(o).map_err(|e| e.to_string())?;
                        let w = |n: &str| format!("{n}(version {v}, capacity {cap}, fpp {fpp:?}, level {o})");
                        judge(w("with_version_capacity_opt"), vok, v, o, guard(|| BloomFilter::with_version_capacity_opt(v, cap, fpp, lvl)))?;
                        judge(w("Params"), vok, v, o, guard(|| BloomFilter::try_from(Params::new(cap, fpp).version(v).opt(lvl))))?;
                        if v == 2 {
                            judge(w("try_into_v2"), true, 2, o, guard(|| Params::new(cap, fpp).opt(lvl).try_into_v2().map(BloomFilter::V2)))?;
                        }
                    }
                    let w = |n: &str| format!("{n}(version {v}, capacity {cap}, fpp {fpp:?})");
                    judge(w("with_version_capacity"), vok, v, 0, guard(|| BloomFilter::with_version_capacity(v, cap, fpp)))?;
                }
                let w = |n: &str| format!("{n}(capacity {cap}, fpp {fpp:?})");
                judge(w("with_capacity"), true, 2, 0, guard(|| BloomFilter::with_capacity(cap, fpp)))?;
                judge(w("v1::with_capacity"), true, 1, 0, guard(|| v1::BloomFilter::with_capacity(cap as u64, fpp).map(BloomFilter::V1)))?;
                judge(w("v2::with_capacity"), true, 2, 0, guard(|| v2::BloomFilter::with_capacity(cap as u64, fpp).map(BloomFilter::V2)))?;
                judge(w("try_into_v1"), true, 1, 0, guard(|| Params::new(cap, fpp).try_into_v1().map(BloomFilter::V1)))?;
                judge(w("Params default"), true, 2, 0, guard(|| BloomFilter::try_from(Params::new(cap, fpp))))?;
                if ok && !free {
                    judge(w("bloom!"), true, 2, 0, guard(|| Ok(bloom!(cap, fpp))))?;
                }
                ctx.beat();
            }
            ctx.add("evaluations", ev);
            ctx.distinct(seen);
            Ok(())
        }));
    }
    cases.push(case("versions and levels", |ctx| {
        for v in 0..=255u8 {
            for o in 0..=255u8 {
                let r = OptLevel::try_from(o);
                ensure!(r.is_ok() == (o < 4), "level {o} is {}", if r.is_ok() { "accepted" } else { "refused" });
                if let Ok(l) = r {
                    ensure!(l as u8 == o, "level {o} becomes {}", l as u8);
                    let f = guard(|| BloomFilter::with_version_capacity_opt(v, 5, 0.1, l))?;
                    ensure!(f.is_ok() == (v == 1 || v == 2), "version {v} level {o}");
                    if let Ok(f) = f {
                        ensure!(ser(&f)[0] == v, "saved version of a version {v} filter is {}", ser(&f)[0]);
                        ensure!(v == 1 || ser(&f)[1] == o, "saved level of a level {o} filter is {}", ser(&f)[1]);
                    }
                }
                ctx.add("evaluations", 1);
            }
        }
        ctx.distinct((0..256 * 256).map(|x| x as u64));
        let p = Params::new(7, 0.3);
        ensure!(p.capacity == 7 && p.fpp == 0.3 && p.version == 2 && p.opt == OptLevel::None, "defaults of Params {p:?}");
        let b = bloom!(10, 0.1, ["x", "y"]);
        ensure!(b.contains_bytes("x") && b.contains_bytes("y") && b.count_estimate() == 2 && b.capacity() == 10, "bloom! with values");
        ctx.sample("every version 0..255 x every level 0..255");
        Ok(())
    }));
    ctx.par(cases);
}
