//! Filters of many blocks: what holds for a few blocks holds for the last of a thousand (C01, C03, C08-C11, C13, C26, C31).
use crate::ctx::{case, guard, Case, Ctx, Res};
use crate::ensure;
use crate::util::*;
use poppy_filters::BloomFilter;

const BLOCKS: [usize; 5] = [65, 129, 257, 520, 1030];

fn key(i: usize) -> Vec<u8> {
    len_key(24, i as u64)
}

/// a low probability takes many blocks with few entries
fn filled(c: Cfg, r: impl Iterator<Item = usize>) -> Result<BloomFilter, String> {
    let mut f = c.make();
    for i in r {
        f.insert_bytes(key(i)).map_err(|e| e.to_string())?;
    }
    Ok(f)
}

/// the same filter with one block (or word) more
fn longer(f: &BloomFilter) -> Result<BloomFilter, String> {
    let mut s = ser(f);
    let at = if f.version() == 1 { 32 } else { s.len() - main_bits(&s).len() - 8 };
    let (n, more) = if f.version() == 1 { (64, 8) } else { (1, 4096) };
    let x = u64::from_le_bytes(s[at..at + 8].try_into().unwrap()) + n;
    s[at..at + 8].copy_from_slice(&x.to_le_bytes());
    s.extend(vec![0; more]);
    load(&s).map_err(|e| e.to_string())
}

fn judge(prop: &str, c: Cfg, nb: usize) -> Res {
    let a = filled(c, 0..2 * nb)?;
    let all = 0..4 * nb;
    let had: Vec<bool> = all.clone().map(|i| a.contains_bytes(key(i))).collect();
    ensure!(had[..2 * nb].iter().all(|x| *x), "an inserted entry is not contained");
    let b = || filled(c, nb..3 * nb);
    match prop {
        "C01" => {
            let mut u = b()?;
            u.union_merge(&a).map_err(|e| e.to_string())?;
            let l = load(&ser(&u)).map_err(|e| e.to_string())?;
            for i in 0..3 * nb {
                ensure!(u.contains_bytes(key(i)), "entry {i} is not contained after the union");
                ensure!(l.contains_bytes(key(i)), "entry {i} is not contained after union, save and load");
            }
        }
        "C03" => {
            let s = ser(&a);
            let l = load(&s).map_err(|e| e.to_string())?;
            ensure!(shown(&l).1 == shown(&a).1, "loaded {} instead of {}", shown(&l).1, shown(&a).1);
            for i in all {
                ensure!(l.contains_bytes(key(i)) == had[i], "entry {i}: {} before the save, {} after the load", had[i], !had[i]);
            }
            ensure!(ser(&l) == s, "saved again, other bytes");
        }
        "C08" => {
            let b = b()?;
            let sb = ser(&b);
            let mut u = a.clone();
            u.union_merge(&b).map_err(|e| e.to_string())?;
            ensure!(ser(&b) == sb, "the second operand changes");
            let one = filled(c, 0..3 * nb)?;
            ensure!(contents(&ser(&u)) == contents(&ser(&one)), "not the bits of one filter with all entries");
            let mut v = b.clone();
            v.union_merge(&a).map_err(|e| e.to_string())?;
            ensure!(contents(&ser(&v)) == contents(&ser(&u)), "not commutative");
        }
        "C09" => {
            let b = b()?;
            let sb = ser(&b);
            let mut m = a.clone();
            match intersect(&mut m, &b) {
                None => return Ok(()),
                Some(r) => r.map_err(|e| e.to_string())?,
            }
            ensure!(ser(&b) == sb, "the second operand changes");
            for i in all {
                let (x, y, z) = (had[i], b.contains_bytes(key(i)), m.contains_bytes(key(i)));
                ensure!(!z || x && y, "entry {i} is in the intersection of two filters that contain it: {x}, {y}");
                ensure!(z || !(nb..2 * nb).contains(&i), "entry {i} of both is not in the intersection");
            }
            let mut v = b.clone();
            intersect(&mut v, &a).unwrap().map_err(|e| e.to_string())?;
            ensure!(contents(&ser(&v)) == contents(&ser(&m)), "not commutative");
        }
        "C10" => {
            let l = longer(&a)?;
            let (sa, sl) = (ser(&a), ser(&l));
            for (x, y) in [(&a, &l), (&l, &a)] {
                let mut t = x.clone();
                ensure!(!x.has_same_params(y), "filters of different shape have the same parameters");
                ensure!(t.union_merge(y).is_err(), "filters of different shape are merged");
                ensure!(intersect(&mut t, y).is_none_or(|r| r.is_err()), "filters of different shape are intersected");
                ensure!(x.count_common_entries(y).is_err(), "filters of different shape are compared");
                ensure!(ser(&t) == ser(x), "a refused merge changes the filter");
            }
            ensure!(ser(&a) == sa && ser(&l) == sl, "a refused merge changes a filter");
        }
        "C11" => {
            let mut f = a.clone();
            f.clear();
            ensure!(ser(&f) == ser(&c.make()), "not the bytes of a new filter");
            ensure!(all.clone().all(|i| !f.contains_bytes(key(i))), "a cleared filter contains an entry");
        }
        "C13" => {
            let s = ser(&a);
            let n = s.len();
            let step = if c.v == 1 { 8 * 500 } else { 4096 * 8 };
            for cut in (1..n).rev().step_by(step).chain([n - 1, n - 2, n - 4095, n - 4096, n - 4097]) {
                ensure!(load(&s[..cut]).is_err(), "the first {cut} of {n} bytes are loaded as a filter");
            }
        }
        "C26" => {
            let s = ser(&a);
            let r = filled(c, (0..2 * nb).rev())?;
            ensure!(contents(&ser(&r)) == contents(&s), "other bits when inserted in reverse order");
            let mut p = filled(c, (0..2 * nb).filter(|i| i % 3 == 0))?;
            let q = filled(c, (0..2 * nb).filter(|i| i % 3 > 0))?;
            p = load(&ser(&p)).map_err(|e| e.to_string())?;
            p.union_merge(&q).map_err(|e| e.to_string())?;
            ensure!(contents(&ser(&p)) == contents(&s), "other bits when merged from two parts");
        }
        "C31" => {
            crate::extra::stats(&a)?;
            let mut u = b()?;
            u.union_merge(&a).map_err(|e| e.to_string())?;
            crate::extra::stats(&u)?;
        }
        _ => unreachable!(),
    }
    Ok(())
}

pub fn cases<'a>(ctx: &Ctx, prop: &'static str) -> Vec<Case<'a>> {
    let more: &[usize] = if ctx.quick() { &[] } else { &[2100, 4200] };
    KINDS
        .iter()
        .map(|(v, o)| {
            case(format!("many blocks v{v}/O{o}"), move |ctx| {
                for nb in BLOCKS.iter().chain(more) {
                    let c = cfg(*v, *o, 68 * nb, 1e-100);
                    guard(|| judge(prop, c, *nb)).and_then(|r| r).map_err(|e| format!("{}: {e}", c.name()))?;
                    ctx.add("states", 3);
                    ctx.add("transitions", 4 * *nb as u64);
                    ctx.distinct([h64(c.name().as_bytes())]);
                    ctx.beat();
                }
                Ok(())
            })
        })
        .collect()
}
