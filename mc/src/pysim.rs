//! C23: the Python module and the library run the same operations in lock-step.
use crate::ctx::{case, Case, Ctx, Res};
use crate::ensure;
use crate::proc::{engine, Dir};
use crate::util::*;
use poppy_filters::{BloomFilter, OptLevel, Params};
use std::io::{BufRead, BufReader, Cursor, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Py {
    ch: Child,
    i: Option<ChildStdin>,
    o: BufReader<ChildStdout>,
    last: String,
}

impl Py {
    fn new() -> Self {
        let mut ch = Command::new("/usr/bin/python3")
            .args(["-I", "/verif/py/drv.py", "/verif/target/pymod"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| engine(&format!("python: {e}")));
        let (i, o) = (ch.stdin.take().unwrap(), BufReader::new(ch.stdout.take().unwrap()));
        let mut p = Py { ch, i: Some(i), o, last: String::new() };
        match p.ask("1 + 1") {
            Ok(ref s) if s == "ok 2" => {}
            r => engine(&format!("python module does not load: {r:?}")),
        }
        p
    }
    /// One line of Python; the answer is "ok value" or "exc classes message".
    fn ask(&mut self, code: &str) -> Result<String, String> {
        self.last = code.to_string();
        let _ = writeln!(self.i.as_mut().unwrap(), "{code}");
        let mut l = String::new();
        if !matches!(self.o.read_line(&mut l), Ok(n) if n > 0) {
            let st = self.ch.wait().map(|s| s.to_string()).unwrap_or_default();
            return Err(format!("the interpreter died ({st}) in `{code}`"));
        }
        Ok(l.trim_end().to_string())
    }
    /// Same value, or same error as a ValueError.
    fn lib<E: ToString>(&mut self, code: &str, want: Result<String, E>) -> Res {
        let got = self.ask(code)?;
        let cut = |s: &str| if s.len() > 160 { format!("{}.. ({} characters)", s.chars().take(160).collect::<String>(), s.len()) } else { s.to_string() };
        match want {
            Ok(v) => {
                let v = if v.is_empty() { "ok".to_string() } else { format!("ok {v}") };
                ensure!(got == v, "`{code}` gives `{}`, the library `{}`", cut(&got), cut(&v));
            }
            Err(e) => {
                let m = e.to_string();
                ensure!(got.starts_with("exc ") && got.split(' ').nth(1).unwrap_or("").split(',').any(|c| c == "ValueError"), "`{code}` gives `{}`, the library fails with {m:?}", cut(&got));
                ensure!(got.contains(&m.replace('\n', " ")), "`{code}` raises `{}`, the library fails with {m:?}", cut(&got));
            }
        }
        Ok(())
    }
    /// Some exception that is not a crash of the library.
    fn refused(&mut self, code: &str, class: &str) -> Res {
        let got = self.ask(code)?;
        ensure!(got.starts_with("exc ") && got.split(' ').nth(1).unwrap_or("").split(',').any(|c| c == class), "`{code}` gives `{got}` instead of {class}");
        Ok(())
    }
    fn state(&mut self, name: &str, f: &BloomFilter) -> Res {
        self.lib(&format!("S({name})"), val(state(f)))
    }
}

impl Drop for Py {
    fn drop(&mut self) {
        self.i = None;
        let _ = self.ch.wait();
    }
}

fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn val(s: String) -> Result<String, String> {
    Ok(s)
}
fn done() -> Result<String, String> {
    Ok(String::new())
}
fn none() -> Result<String, String> {
    Ok("None".into())
}
fn tf(b: bool) -> String {
    if b { "True" } else { "False" }.to_string()
}

/// repr of a float as Python writes it
fn float(x: f64) -> String {
    let s = format!("{x:?}");
    match s.split_once('e') {
        Some((m, e)) => {
            let (sign, d) = e.strip_prefix('-').map(|d| ("-", d)).unwrap_or(("+", e));
            let m = m.strip_suffix(".0").unwrap_or(m);
            format!("{m}e{sign}{d:0>2}")
        }
        None => s,
    }
}

fn state(f: &BloomFilter) -> String {
    format!("{} {} {} {} {} d{} {}", f.version(), f.capacity(), float(f.fpp()), f.count_estimate(), tf(f.is_full()), hx(f.data()), hx(&ser(f)))
}

const OPS: usize = 17;
const K: [&str; 4] = ["k", "a longer entry of the set", "é€", "third"];

struct Pair {
    a: BloomFilter,
    b: BloomFilter,
    c: BloomFilter,
}

fn step(py: &mut Py, s: &mut Pair, op: usize, path: &str) -> Res {
    let ins = |r: Result<bool, poppy_filters::Error>| r.map(tf);
    match op {
        0 => py.lib(&format!("a.insert_bytes(B('{}'))", hx(K[0].as_bytes())), ins(s.a.insert_bytes(K[0]))),
        1 => py.lib(&format!("a.insert_str(T('{}'))", hx(K[1].as_bytes())), ins(s.a.insert_bytes(K[1]))),
        2 => py.lib(&format!("b.insert_bytes(B('{}'))", hx(K[1].as_bytes())), ins(s.b.insert_bytes(K[1]))),
        3 => py.lib(&format!("b.insert_str(T('{}'))", hx(K[2].as_bytes())), ins(s.b.insert_bytes(K[2]))),
        4 => {
            let r = s.a.union_merge(&s.b).map(|_| "None".to_string());
            py.lib("a.union_merge(b)", r)
        }
        5 => {
            let r = s.b.union_merge(&s.a).map(|_| "None".to_string());
            py.lib("b.union_merge(a)", r)
        }
        6 => py.lib("a.count_common_entries(b)", s.a.count_common_entries(&s.b).map(|n| n.to_string())),
        7 => {
            for k in K {
                py.lib(&format!("a.contains_bytes(B('{}'))", hx(k.as_bytes())), val(tf(s.a.contains_bytes(k))))?;
                py.lib(&format!("b.contains_str(T('{}'))", hx(k.as_bytes())), val(tf(s.b.contains_bytes(k))))?;
            }
            Ok(())
        }
        8 => {
            s.b = load(&ser(&s.a)).map_err(|e| e.to_string())?;
            py.lib("!b = loads(a.dumps())", done())
        }
        9 => {
            // over a longer file
            std::fs::write(&path, vec![0x5a; ser(&s.a).len() + 100]).map_err(|e| e.to_string())?;
            py.lib(&format!("a.save('{path}')"), none())?;
            let file = std::fs::read(path).map_err(|e| e.to_string())?;
            ensure!(file == ser(&s.a), "save writes other bytes than the library");
            s.b = load(&file).map_err(|e| e.to_string())?;
            py.lib(&format!("!b = load('{path}')"), done())
        }
        10 => {
            let r = s.a.union_merge(&s.c).map(|_| "None".to_string());
            py.lib("a.union_merge(c)", r)
        }
        11 => py.lib("b.count_common_entries(c)", s.b.count_common_entries(&s.c).map(|n| n.to_string())),
        12 => py.lib(&format!("a.insert_bytes(B('{}'))", hx(K[3].as_bytes())), ins(s.a.insert_bytes(K[3]))),
        13 => {
            // the library saves, Python loads
            std::fs::write(path, ser(&s.b)).map_err(|e| e.to_string())?;
            s.a = s.b.clone();
            py.lib(&format!("!a = load('{path}')"), done())
        }
        14 => {
            // a filter merged with itself: refused or done
            let r = py.ask("a.union_merge(a)")?;
            if r.starts_with("ok") {
                let o = s.a.clone();
                s.a.union_merge(&o).map_err(|e| e.to_string())?;
            } else {
                ensure!(r.split(' ').nth(1).unwrap_or("").split(',').any(|c| c == "Exception") && !r.contains("Panic"), "a.union_merge(a): {r}");
            }
            Ok(())
        }
        15 => py.refused("a.insert_bytes(12)", "TypeError"),
        _ => {
            py.refused("b.insert_str(b'x')", "TypeError")?;
            py.refused("a.insert_str('\\ud800')", "Exception")?;
            py.refused("a.union_merge(None)", "TypeError")
        }
    }
}

fn traces<'a>(v: u8, o: u8, cap: usize, depth: usize, first: usize) -> Case<'a> {
    case(format!("traces v{v}/O{o}/cap={cap}/depth={depth}/first={first}"), move |ctx| {
        let d = Dir::new();
        let path = d.0.join("f.pop").display().to_string();
        let mut py = Py::new();
        let mut n = 0u64;
        let mut calls = 0u64;
        // every sequence of exactly depth operations starting with `first`; results are compared at each
        // step and states at the end, shorter sequences being their prefixes
        let total = OPS.pow(depth as u32 - 1);
        for code in 0..total {
            let mut s = Pair { a: cfg(v, o, cap, 0.01).make(), b: cfg(v, o, cap, 0.01).make(), c: cfg(3 - v, 0, cap, 0.02).make() };
            let o2 = if v == 1 { 0 } else { o };
            py.lib(&format!("!a = BloomFilter.with_params({v},{cap},0.01,{o2}); b = BloomFilter.with_params({v},{cap},0.01,{o2}); c = BloomFilter.with_params({},{cap},0.02,0)", 3 - v), done())?;
            let mut ops = vec![first];
            let mut x = code;
            for _ in 1..depth {
                ops.push(x % OPS);
                x /= OPS;
            }
            let (c0, ops2) = (ops.clone(), ops);
            for op in ops2 {
                step(&mut py, &mut s, op, &path).map_err(|e| format!("operations {c0:?}: {e}"))?;
                calls += 1;
            }
            py.state("a", &s.a).map_err(|e| format!("after operations {c0:?}: {e}"))?;
            py.state("b", &s.b).map_err(|e| format!("after operations {c0:?}: {e}"))?;
            py.state("c", &s.c).map_err(|e| format!("after operations {c0:?}: {e}"))?;
            n += 1;
            ctx.beat();
        }
        ctx.add("states", n);
        ctx.add("transitions", calls);
        ctx.add("traces", n);
        if first == 0 {
            ctx.sample(format!("v{v}/O{o}: every sequence of {depth} of {OPS} operations on three filters"));
        }
        Ok(())
    })
}

fn make(v: u8, cap: usize, fpp: f64, o: u8) -> Result<BloomFilter, String> {
    let o = OptLevel::try_from(o).map_err(|e| poppy_filters::Error::from(e).to_string())?;
    BloomFilter::try_from(Params::new(cap, fpp).version(v).opt(o)).map_err(|e| e.to_string())
}

pub fn c23(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    for (v, o) in KINDS {
        for first in 0..OPS {
            // one process per first operation
            cases.push(traces(v, o, 2, if quick { 3 } else { 4 }, first));
        }
    }
    cases.push(case("constructors", |ctx| {
        let mut py = Py::new();
        let fpps = ["0.0", "-0.0", "1.0", "0.5", "0.01", "1e-300", "5e-324", "2.5", "-1.0", "math.nan", "math.inf", "-math.inf", "1", "1.0000000000000002", "0.9999999999999999"];
        let num = |s: &str| match s {
            "math.nan" => f64::NAN,
            "math.inf" => f64::INFINITY,
            "-math.inf" => f64::NEG_INFINITY,
            s => s.parse().unwrap(),
        };
        for cap in [0usize, 1, 2, 7, 1000, 5000] {
            for f in fpps {
                let x = num(f);
                let small = x == 1e-300 && cap > 10;
                if small || x == 5e-324 {
                    continue;
                }
                let want = BloomFilter::with_capacity(cap, x);
                py.lib(&format!("!a = BloomFilter({cap},{f})"), want.as_ref().map(|_| String::new()))?;
                if let Ok(w) = &want {
                    py.state("a", w)?;
                }
                for v in [0u8, 1, 2, 3, 255] {
                    let want = BloomFilter::with_version_capacity(v, cap, x).map_err(|e| e.to_string());
                    py.lib(&format!("!a = BloomFilter.with_version({v},{cap},{f})"), want.as_ref().map(|_| String::new()))?;
                    if let Ok(w) = &want {
                        py.state("a", w)?;
                    }
                    for o in [0u8, 1, 2, 3, 4, 255] {
                        let want = make(v, cap, x, o);
                        py.lib(&format!("!a = BloomFilter.with_params({v},{cap},{f},{o})"), want.as_ref().map(|_| String::new()))?;
                        if let Ok(w) = &want {
                            py.state("a", w)?;
                        }
                        ctx.add("states", 1);
                        ctx.add("transitions", 1);
                        ctx.add("traces", 1);
                        ctx.beat();
                    }
                }
            }
        }
        // keywords, as documented
        py.lib("!a = BloomFilter(capacity=10,fpp=0.1)", done())?;
        py.state("a", &BloomFilter::with_capacity(10, 0.1).map_err(|e| e.to_string())?)?;
        for bad in ["BloomFilter(-1,0.1)", "BloomFilter('a',0.1)", "BloomFilter(1,'x')", "BloomFilter()", "BloomFilter.with_version(256,1,0.1)", "BloomFilter.with_version(-1,1,0.1)", "BloomFilter.with_params(2,1,0.1,256)", "BloomFilter.with_params(2,1,0.1,-1)", "loads(12)", "load(12)", "loads('text')"] {
            py.refused(bad, "Exception")?;
        }
        Ok(())
    }));
    for (v, o) in KINDS {
        cases.push(case(format!("entries v{v}/O{o}"), move |ctx| {
            // every way of giving an entry
            let mut py = Py::new();
            for (cap, as_text) in [(40usize, false), (40, true), (6000, false), (6000, true)] {
                let mut f = cfg(v, o, cap, 0.001).make();
                py.lib(&format!("!a = BloomFilter.with_params({v},{cap},0.001,{o})"), done())?;
                let mut keys: Vec<Vec<u8>> = (0..=70).map(|n| len_key(n, 3)).collect();
                keys.extend((0..=255u8).map(|b| vec![b]));
                keys.extend(["é", "€uro", "日本語のエントリー", "\u{10ffff}", "a\0b", "\0", "e\u{301}", "\u{feff}x", "line\nend"].map(|s| s.as_bytes().to_vec()));
                // case, spaces and NULs at both ends, short and long
                for w in ["x", "Straße", "a longer entry of text"] {
                    keys.push(w.to_uppercase().into_bytes());
                    for pad in [" ", "\0", "\t", "\n", "\r\n", "\u{a0}", "\u{feff}", "'", "\"", "\\"] {
                        keys.extend([format!("{pad}{w}"), format!("{w}{pad}"), format!("{pad}{w}{pad}")].map(String::into_bytes));
                    }
                }
                for k in &keys {
                    let r = f.insert_bytes(k).map(tf);
                    match std::str::from_utf8(k) {
                        Ok(_) if as_text => py.lib(&format!("a.insert_str(T('{}'))", hx(k)), r)?,
                        _ => py.lib(&format!("a.insert_bytes(B('{}'))", hx(k)), r)?,
                    }
                    ctx.add("transitions", 1);
                }
                for k in keys.iter().flat_map(|k| [k.clone(), [k.clone(), vec![b'?']].concat()]) {
                    let r = tf(f.contains_bytes(&k));
                    py.lib(&format!("a.contains_bytes(B('{}'))", hx(&k)), val(r.clone()))?;
                    if std::str::from_utf8(&k).is_ok() {
                        py.lib(&format!("a.contains_str(T('{}'))", hx(&k)), val(r))?;
                    }
                    ctx.add("transitions", 1);
                    ctx.beat();
                }
                py.state("a", &f)?;
                ctx.add("states", 1);
                ctx.add("traces", 1);
            }
            Ok(())
        }));
        cases.push(case(format!("files v{v}/O{o}"), move |ctx| {
            let d = Dir::new();
            let p = d.0.join("f.pop").display().to_string();
            let mut py = Py::new();
            for cap in [0usize, 1, 10, 500, 9000] {
                for fpp in [1.0, 0.5, 0.01, 1e-6] {
                    for (n, dl) in [(0usize, 0usize), (3, 1), (cap.min(50), 300), (2, 9000), (1, if cap == 10 { 70_000 } else { 8 })] {
                        let mut f = cfg(v, o, cap, fpp).make();
                        for i in 0..n {
                            let _ = f.insert_bytes(format!("entry {i}"));
                        }
                        set_data(&mut f, &len_key(dl, 1));
                        let s = ser(&f);
                        // from the library to Python, by bytes and by file, and back
                        py.lib(&format!("!a = loads(B('{}'))", hx(&s)), done())?;
                        py.state("a", &f)?;
                        d.put("f.pop", &s);
                        py.lib(&format!("!a = load('{p}')"), done())?;
                        py.state("a", &f)?;
                        d.put("f.pop", b"something else that is longer");
                        py.lib(&format!("a.save('{p}')"), none())?;
                        ensure!(d.get("f.pop").as_deref() == Some(&s[..]), "save writes other bytes than the library");
                        ctx.add("states", 3);
                        ctx.add("traces", 3);
                        ctx.add("transitions", 3);
                        ctx.beat();
                    }
                }
            }
            // truncated or damaged: same decision, same error
            let mut f = cfg(v, o, 100, 0.01).make();
            for i in 0..20 {
                let _ = f.insert_bytes(format!("entry {i}"));
            }
            set_data(&mut f, b"data");
            let s = ser(&f);
            py.lib(&format!("!full = B('{}')", hx(&s)), done())?;
            let step = if quick { 37 } else { 1 };
            for cut in (0..=60).chain((60..s.len()).step_by(step)).chain(s.len() - 20..=s.len()) {
                let want = BloomFilter::from_reader(Cursor::new(&s[..cut]));
                py.lib(&format!("!x = loads(full[:{cut}])"), want.as_ref().map(|_| String::new()))?;
                d.put("cut.pop", &s[..cut]);
                py.lib(&format!("!y = load('{}')", d.0.join("cut.pop").display()), want.as_ref().map(|_| String::new()))?;
                if let Ok(w) = &want {
                    py.state("x", w)?;
                    py.state("y", w)?;
                }
                ctx.add("transitions", 2);
                ctx.add("traces", 1);
                ctx.beat();
            }
            for (pos, val) in [(0usize, 0u8), (0, 3), (0, 255), (8, 255), (23, 255), (16, 255), (31, 127), (40, 1)] {
                let mut t = s.clone();
                t[pos] = val;
                let want = BloomFilter::from_reader(Cursor::new(&t));
                py.lib(&format!("!x = loads(B('{}'))", hx(&t)), want.as_ref().map(|_| String::new()))?;
                if let Ok(w) = &want {
                    py.state("x", w)?;
                }
            }
            // files that cannot be read or written
            let dir = d.0.display().to_string();
            py.lib(&format!("!a = loads(B('{}'))", hx(&s)), done())?;
            py.refused(&format!("load('{dir}/missing')"), "OSError")?;
            py.refused(&format!("load('{dir}')"), "Exception")?;
            py.refused(&format!("a.save('{dir}')"), "OSError")?;
            py.refused(&format!("a.save('{dir}/no/such')"), "OSError")?;
            py.refused("a.save('/dev/full')", "Exception")?;
            // the disk fills up after n bytes
            let mut lims: Vec<usize> = (0..=64).step_by(if quick { 8 } else { 1 }).chain([s.len() / 2, s.len() - 5, s.len() - 4, s.len() - 1, s.len(), s.len() + 1]).collect();
            lims.extend((64..s.len()).step_by(if quick { 997 } else { 61 }));
            for n in lims {
                py.lib(&format!("limit({n})"), none())?;
                let r = py.ask(&format!("a.save('{dir}/lim')"))?;
                py.lib("limit(-1)", none())?;
                if r.starts_with("ok") {
                    ensure!(d.get("lim").as_deref() == Some(&s[..]), "save returns without error after writing {n} of {} bytes", s.len());
                } else {
                    ensure!(n < s.len(), "save fails although all bytes fit: {r}");
                    ensure!(r.split(' ').nth(1).unwrap_or("").split(',').any(|c| c == "Exception"), "save: {r}");
                }
                ctx.add("transitions", 1);
                ctx.beat();
            }
            py.state("a", &f)?;
            ctx.sample(format!("v{v}/O{o}: files exchanged both ways, truncated at each length, refused writes"));
            Ok(())
        }));
    }
    cases.push(case("merging", |ctx| {
        // all ordered pairs of configurations
        let mut py = Py::new();
        let mut cs = vec![];
        for (v, o) in KINDS {
            for (cap, fpp) in [(5usize, 0.01), (5, 0.02), (6, 0.01), (0, 0.01)] {
                cs.push((v, o, cap, fpp));
            }
        }
        for x in &cs {
            for y in &cs {
                let mk = |c: &(u8, u8, usize, f64), n: usize| {
                    let mut f = cfg(c.0, c.1, c.2, c.3).make();
                    for i in 0..n {
                        let _ = f.insert_bytes(format!("entry {i} of the filter"));
                    }
                    f
                };
                let (mut a, b) = (mk(x, 2), mk(y, 3));
                for (n, f) in [("a", &a), ("b", &b)] {
                    py.lib(&format!("!{n} = loads(B('{}'))", hx(&ser(f))), done())?;
                }
                py.lib("a.count_common_entries(b)", a.count_common_entries(&b).map(|n| n.to_string()))?;
                let r = a.union_merge(&b).map(|_| "None".to_string());
                py.lib("a.union_merge(b)", r)?;
                py.state("a", &a)?;
                py.state("b", &b)?;
                let r = a.insert_bytes("after").map(tf);
                py.lib("a.insert_str('after')", r)?;
                py.state("a", &a)?;
                ctx.add("states", 2);
                ctx.add("transitions", 3);
                ctx.add("traces", 1);
                ctx.beat();
            }
        }
        ctx.sample("union and common entries on all ordered pairs of 20 configurations");
        Ok(())
    }));
    ctx.par(cases);
}
