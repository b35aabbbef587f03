//! conc (par|alone=I) SCENARIO VERSION LEVEL: threads using filters at the same time. Prints the
//! results of each thread; they must be those of the thread running alone in its own process.
use poppy_filters::{v2, BloomFilter, OptLevel, Params};
use std::fmt::Write;
use std::io::Cursor;
use std::sync::Arc;

fn make(v: u8, o: u8, cap: usize, fpp: f64) -> BloomFilter {
    let p = Params::new(cap, fpp).version(v).opt(OptLevel::try_from(o).unwrap());
    BloomFilter::try_from(p).unwrap()
}

fn bytes(f: &BloomFilter) -> Vec<u8> {
    let mut v = vec![];
    f.write(&mut v).unwrap();
    v
}

/// fnv-1a, computed after the threads ended
fn fnv(b: &[u8]) -> String {
    let h = b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
    format!("{}:{:x}", b.len(), h)
}

struct Shared {
    v: u8,
    o: u8,
    f: BloomFilter,
    g: BloomFilter,
    own: Vec<BloomFilter>,
    saved: Vec<Vec<u8>>,
}

const KEYS: [&str; 6] = ["a", "entry longer than eight", "12345678", "another long entry of the set", "", "b"];

fn setup(v: u8, o: u8) -> Shared {
    let mut f = make(v, o, 8, 0.01);
    for k in &KEYS[..3] {
        f.insert_bytes(k).unwrap();
    }
    let mut g = make(v, o, 8, 0.01);
    for k in &KEYS[1..5] {
        g.insert_bytes(k).unwrap();
    }
    let own = (0..3)
        .map(|i| {
            let mut x = make(v, o, 4, 0.01);
            for k in &KEYS[..i] {
                x.insert_bytes(k).unwrap();
            }
            x
        })
        .collect();
    let saved = vec![bytes(&f), bytes(&make(3 - v, 0, 3, 0.1)), bytes(&g)];
    Shared { v, o, f, g, own, saved }
}

fn job(sc: &str, i: usize, s: &Shared, mut own: BloomFilter) -> (String, Vec<Vec<u8>>) {
    let mut r = String::new();
    let mut saved = vec![];
    match sc {
        // queries on a shared filter, in another order in each thread
        "query" => {
            for k in 0..KEYS.len() {
                let key = KEYS[(k + i * 3) % KEYS.len()];
                let _ = write!(r, "{}", s.f.contains_bytes(key) as u8);
            }
            let _ = write!(r, " {} {}", s.f.count_estimate(), s.f.is_full());
        }
        "one" => {
            let key = KEYS[i * 2];
            let _ = write!(r, "{}{}", s.f.contains_bytes(key) as u8, s.f.contains_bytes("absent") as u8);
        }
        "typed" => {
            for k in 0..3 {
                let key = KEYS[(k + i * 2) % KEYS.len()];
                match &s.f {
                    BloomFilter::V1(f) => {
                        let _ = write!(r, "{}", f.contains_bytes(key) as u8);
                    }
                    BloomFilter::V2(f) => {
                        let it = v2::BloomFilter::build_index_iter(&key);
                        let _ = write!(r, "{}{}{}", f.contains(&key) as u8, f.contains_iter(it.clone()).unwrap() as u8, f.contains_iter(it).unwrap() as u8);
                    }
                }
            }
        }
        // all that can be asked through a shared reference
        "read" => {
            if i == 0 {
                saved.push(bytes(&s.f));
                let _ = write!(r, "{:?}", s.f.count_common_entries(&s.g).unwrap());
            } else {
                let _ = write!(r, "{:?} ", s.g.count_common_entries(&s.f).unwrap());
                let _ = write!(r, "{} {} {} {} {}", s.f.capacity(), s.f.fpp(), s.f.size_in_bytes(), s.f.has_same_params(&s.g), s.f.contains_bytes(KEYS[1]));
                saved.push(bytes(&s.f.clone()));
            }
        }
        // insertions in distinct filters, up to their capacity
        "insert" => {
            for k in 0..4 {
                let key = KEYS[(k + i) % KEYS.len()];
                let x = own.insert_bytes(key).map(|b| b as i32).unwrap_or(-1);
                let _ = write!(r, "{x} ");
            }
            saved.push(bytes(&own));
        }
        "insert1" => {
            let x = own.insert_bytes(KEYS[3 - i]).map(|b| b as i32).unwrap_or(-1);
            let _ = write!(r, "{x} {}{}", own.contains_bytes(KEYS[3]) as u8, own.contains_bytes(KEYS[2]) as u8);
        }
        // other operations on distinct filters
        "merge" => {
            let mut x = s.f.clone();
            if i == 0 {
                let _ = write!(r, "{:?} ", x.union_merge(&s.g).is_ok());
                saved.push(bytes(&x));
                x.clear();
                let _ = write!(r, "{:?}", x.insert_bytes("new entry"));
            } else {
                if let (BloomFilter::V2(a), BloomFilter::V2(b)) = (&mut x, &s.g) {
                    let _ = write!(r, "{:?} ", a.intersection_merge(b).is_ok());
                }
                let _ = write!(r, "{:?} ", x.union_merge(&own).is_ok());
                let _ = write!(r, "{:?} ", x.insert_bytes(KEYS[5]));
                saved.push(bytes(&x));
            }
        }
        // filters of other parameters created in each thread
        "make" => {
            let (v, o) = if i == 0 { (s.v, s.o) } else { (3 - s.v, (s.o + 1) % 4) };
            let mut x = make(v, o, 3 + i * 2, if i == 0 { 0.01 } else { 0.2 });
            for k in 0..4 {
                let y = x.insert_bytes(KEYS[k + i]).map(|b| b as i32).unwrap_or(-1);
                let _ = write!(r, "{y} ");
            }
            saved.push(bytes(&x));
        }
        "load" => {
            let mut x = BloomFilter::from_reader(Cursor::new(&s.saved[i])).unwrap();
            let p = BloomFilter::partial_from_reader(Cursor::new(&s.saved[i])).unwrap();
            let _ = write!(r, "{} {} {} ", p.capacity(), p.fpp(), p.count_estimate());
            let _ = write!(r, "{:?} ", x.insert_bytes("loaded").map(|b| b as i32).unwrap_or(-1));
            saved.push(bytes(&x));
        }
        _ => panic!("unknown scenario"),
    }
    (r, saved)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (how, sc) = (&a[0], a[1].clone());
    let (v, o): (u8, u8) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let n: usize = a[4].parse().unwrap();
    let s = Arc::new(setup(v, o));
    let threads: Vec<usize> = match how.strip_prefix("alone=") {
        Some(i) => vec![i.parse().unwrap()],
        None => (0..n).collect(),
    };
    let own: Vec<BloomFilter> = threads.iter().map(|i| s.own[*i].clone()).collect();
    let hs: Vec<_> = threads
        .iter()
        .copied()
        .zip(own)
        .map(|(i, own)| {
            let (s, sc) = (s.clone(), sc.clone());
            std::thread::spawn(move || job(&sc, i, &s, own))
        })
        .collect();
    let r: Vec<_> = hs.into_iter().map(|h| h.join().expect("thread")).collect();
    for (i, (r, saved)) in threads.iter().zip(r) {
        let saved: Vec<String> = saved.iter().map(|b| fnv(b)).collect();
        println!("{i}: {r} {}", saved.join(" "));
    }
    // the shared filters did not change
    println!("{} {}", fnv(&bytes(&s.f)), fnv(&bytes(&s.g)));
}
