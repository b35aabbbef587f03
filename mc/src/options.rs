//! Options of the command line tool (C35).
use crate::cli::{is_size, table};
use crate::ctx::{case, Ctx, Res};
use crate::ensure;
use crate::proc::*;
use crate::util::*;

/// ways of writing an option
const STYLES: usize = 4;
fn write(style: usize, short: Option<&str>, long: &str, val: &str) -> Vec<String> {
    match (style, short) {
        (0, Some(s)) => vec![format!("-{s}"), val.into()],
        (1, Some(s)) => vec![format!("-{s}{val}")],
        (2, _) | (0, None) => vec![format!("--{long}"), val.into()],
        _ => vec![format!("--{long}={val}")],
    }
}

const VERSIONS: [(Option<&str>, u8); 3] = [(None, 2), (Some("1"), 1), (Some("2"), 2)];
const LEVELS: [(Option<&str>, u8); 5] = [(None, 0), (Some("0"), 0), (Some("1"), 1), (Some("2"), 2), (Some("3"), 3)];
const CAPS: [(Option<&str>, usize); 6] = [(None, 10_000), (Some("0"), 0), (Some("1"), 1), (Some("37"), 37), (Some("9999"), 9999), (Some("40000"), 40_000)];
const PROBS: [(Option<&str>, f64); 7] = [(None, 0.01), (Some("1"), 1.0), (Some("0.5"), 0.5), (Some("0.01"), 0.01), (Some("0.0001"), 1e-4), (Some("1e-6"), 1e-6), (Some(".25"), 0.25)];

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

/// create with these options gives exactly this filter
fn creates(ctx: &Ctx, d: &Dir, a: &[String], c: Cfg) -> Res {
    d.del("f.pop");
    let r = Run::new(a).go(d);
    ctx.add("evaluations", 1);
    ctx.distinct([h64(a.join("\n").as_bytes())]);
    ctx.beat();
    ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
    ensure!(d.get("f.pop").as_deref() == Some(&ser(&c.make())[..]), "{}: the file is not the new filter {} of the library", a.join(" "), c.name());
    Ok(())
}

pub fn c35(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    // every combination of given and omitted options
    for (vs, v) in VERSIONS {
        for (os, o) in LEVELS {
            cases.push(case(format!("create version {vs:?} level {os:?}"), move |ctx| {
                let d = Dir::new();
                let mut n = 0;
                for (cs, c) in CAPS {
                    for (ps, p) in PROBS {
                        let style = n % STYLES;
                        n += 1;
                        let mut a = vec!["create".to_string()];
                        let given = [(None, "version", vs), (Some("O"), "opt-lvl", os), (Some("c"), "capacity", cs), (Some("p"), "probability", ps)];
                        for (i, (s, l, x)) in given.iter().enumerate() {
                            if let Some(x) = x {
                                a.extend(write((style + i) % STYLES, *s, l, x));
                            }
                        }
                        a.insert(if n % 2 == 0 { a.len() } else { 1 }, "f.pop".into());
                        creates(ctx, &d, &a, cfg(v, o, c, p))?;
                    }
                }
                ctx.sample(format!("create --version {vs:?} -O {os:?} with all capacities and probabilities"));
                Ok(())
            }));
        }
    }
    // every order and every way of writing
    cases.push(case("create order", move |ctx| {
        let d = Dir::new();
        for order in permutations(5) {
            for style in 0..STYLES {
                let parts = [
                    write(style, None, "version", "2"),
                    write(style, Some("O"), "opt-lvl", "3"),
                    write(style, Some("c"), "capacity", "70"),
                    write(style, Some("p"), "probability", "0.02"),
                    vec!["f.pop".to_string()],
                ];
                let a: Vec<String> = std::iter::once("create".to_string()).chain(order.iter().flat_map(|i| parts[*i].clone())).collect();
                creates(ctx, &d, &a, cfg(2, 3, 70, 0.02))?;
            }
        }
        Ok(())
    }));
    // the capacity is not used with a dataset; jobs and verbose change no result
    for (v, o) in KINDS {
        cases.push(case(format!("results v{v}/O{o}"), move |ctx| {
            let d = Dir::new();
            let text = |f: usize, n: usize| (0..n).flat_map(|i| format!("line {i} of file {f}\n").into_bytes()).collect::<Vec<u8>>();
            let sizes: &[usize] = if quick { &[0, 1, 5, 40] } else { &[0, 1, 2, 3, 5, 8, 40, 500] };
            for n in sizes {
                let names: Vec<String> = (0..3).map(|f| format!("in{f}.txt")).collect();
                for (f, name) in names.iter().enumerate() {
                    d.put(name, &text(f, n + f));
                }
                for nf in 1..=3 {
                    let create = |pre: &[&str], more: &[&str]| -> Result<Vec<u8>, String> {
                        d.del("f.pop");
                        let mut a: Vec<String> = pre.iter().map(|s| s.to_string()).collect();
                        a.extend(["create", "--version", &v.to_string(), "-O", &o.to_string(), "-p", "0.001"].map(String::from));
                        a.extend(more.iter().map(|s| s.to_string()));
                        a.push("f.pop".into());
                        a.extend(names[..nf].iter().cloned());
                        let r = Run::new(&a).go(&d);
                        ctx.add("evaluations", 1);
                        ctx.distinct([h64(format!("{v} {o} {n} {a:?}").as_bytes())]);
                        ctx.beat();
                        ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
                        ensure!(r.out.is_empty(), "{} prints {:?}", a.join(" "), String::from_utf8_lossy(&r.out));
                        d.get("f.pop").ok_or("no file".to_string())
                    };
                    let want = create(&[], &[])?;
                    for c in ["0", "1", "2", "10000", "1000000"] {
                        ensure!(create(&[], &["-c", c])? == want, "create -c {c} from {nf} files of {n} lines differs from the one without -c");
                    }
                    ensure!(create(&["-v"], &[])? == want && create(&["--verbose"], &["-c", "3"])? == want, "create -v from {nf} files of {n} lines differs from the one without -v");
                    // the default of jobs is 2
                    ensure!(create(&["-j", "2"], &[])? == want && create(&["--jobs=2", "-v"], &[])? == want, "create from {nf} files of {n} lines does not use 2 jobs");
                    for j in ["0", "1", "3", "4", "50"] {
                        let g = create(&["-j", j], &[])?;
                        ensure!(contents(&g) == contents(&want) && g[..32] == want[..32], "create -j {j} from {nf} files of {n} lines has other contents");
                        ensure!(create(&["-v", "-j", j], &[])? == g, "create -v -j {j} from {nf} files of {n} lines differs from the one without -v");
                    }
                }
            }
            // standard input is read when asked or when there is no file
            let mut base = cfg(v, o, 60, 1e-6).make();
            let _ = base.insert_bytes("old");
            set_data(&mut base, b"data");
            let base = ser(&base);
            d.put("in0.txt", b"from the file\nboth\n");
            let stdin = b"from stdin\nboth\n";
            for j in [None, Some("1"), Some("3")] {
                for verbose in [false, true] {
                    for (file, flag) in [(false, false), (false, true), (true, false), (true, true)] {
                        let mut pre: Vec<&str> = vec![];
                        if let Some(j) = j {
                            pre.extend(["-j", j]);
                        }
                        if verbose {
                            pre.push("-v");
                        }
                        let reads = flag || !file;
                        let mut all: Vec<&str> = vec![];
                        if file {
                            all.extend(["from the file", "both"]);
                        }
                        if reads {
                            all.extend(["from stdin", "both"]);
                        }
                        let args = |cmd: &'static str, more: &[&'static str]| {
                            let mut a = pre.clone();
                            a.push(cmd);
                            a.extend(more);
                            if flag {
                                a.push("--stdin");
                            }
                            a.push("f.pop");
                            if file {
                                a.push("in0.txt");
                            }
                            a
                        };
                        d.put("f.pop", &base);
                        let a = args("insert", &[]);
                        let r = Run::new(&a).stdin(stdin).go(&d);
                        ensure!(r.ok() && r.out.is_empty(), "{}: {}", a.join(" "), r.how());
                        let f = load(&d.get("f.pop").unwrap_or_default()).map_err(|e| e.to_string())?;
                        for l in ["old", "from the file", "from stdin", "both"] {
                            let want = l == "old" || all.contains(&l);
                            ensure!(f.contains_bytes(l) == want, "{}: {l:?} is {}in the filter", a.join(" "), if want { "not " } else { "" });
                        }
                        ensure!(f.data() == b"data", "{}: data changed", a.join(" "));
                        // check on a filter that holds some of these lines
                        let mut g = load(&base).map_err(|e| e.to_string())?;
                        for l in ["from the file", "from stdin"] {
                            let _ = g.insert_bytes(l);
                        }
                        let g = ser(&g);
                        d.put("f.pop", &g);
                        for (more, want) in [
                            (&[][..], all.iter().filter(|l| **l != "both").map(|l| l.to_string()).collect::<Vec<_>>()),
                            (&["--verify"][..], all.iter().filter(|l| **l == "both").map(|l| format!("{l}: NOK")).collect()),
                            (&["--silent"][..], vec![]),
                        ] {
                            let a = args("check", more);
                            let r = Run::new(&a).stdin(stdin).go(&d);
                            let mut got: Vec<String> = String::from_utf8_lossy(&r.out).lines().map(|l| l.to_string()).collect();
                            let mut want = want.clone();
                            got.sort();
                            want.sort();
                            ensure!(r.ok() && got == want, "{} prints {got:?} instead of {want:?}: {}", a.join(" "), r.how());
                            ensure!(d.get("f.pop").as_deref() == Some(&g[..]), "{} changes the filter", a.join(" "));
                            ctx.add("evaluations", 1);
                            ctx.distinct([h64(format!("{v} {o} {a:?}").as_bytes())]);
                        }
                        ctx.add("evaluations", 1);
                        ctx.beat();
                    }
                }
            }
            Ok(())
        }));
    }
    // bench makes its own filter
    for (vs, v) in VERSIONS {
        for (os, o) in LEVELS {
            cases.push(case(format!("bench version {vs:?} level {os:?}"), move |ctx| {
                let d = Dir::new();
                let input: Vec<u8> = (0..200).flat_map(|i| format!("entry number {i} to bench\n").into_bytes()).collect();
                for (ps, p) in [(None, 0.001), (Some("0.5"), 0.5), (Some("0.01"), 0.01), (Some("1e-5"), 1e-5)] {
                    for style in 0..STYLES {
                        let mut a = vec!["bench".to_string(), "--runs=1".into(), "-f".into(), "1000".into()];
                        for (s, l, x) in [(Some("v"), "version", vs), (Some("O"), "opt", os), (None, "fpp", ps)] {
                            if let Some(x) = x {
                                a.extend(write(style, s, l, x));
                            }
                        }
                        let r = Run::new(&a).stdin(&input).go(&d);
                        ctx.add("evaluations", 1);
                        ctx.distinct([h64(a.join("\n").as_bytes())]);
                        ctx.beat();
                        ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
                        let t = table(&String::from_utf8_lossy(&r.out));
                        let num = |k: &str| t.get(k).and_then(|v| v.parse::<f64>().ok());
                        let mut own = cfg(v, o, 200, p).make();
                        for i in 0..200 {
                            let _ = own.insert_bytes(format!("entry number {i} to bench"));
                        }
                        let size = own.size_in_bytes();
                        ensure!(
                            num("version") == Some(v as f64) && num("capacity") == Some(200.0) && num("fpp") == Some(p) && is_size(t.get("size of bloom").map_or("", |s| s), size),
                            "{}: the benchmarked filter is {t:?}",
                            a.join(" ")
                        );
                        // filled with the entries, in whichever order
                        let n = own.count_estimate() as f64;
                        ensure!(num("estimated").is_some_and(|g| g >= n * 0.7 && g <= 200.0), "{}: the benchmarked filter is not filled with the 200 entries: {t:?}", a.join(" "));
                    }
                }
                Ok(())
            }));
        }
    }
    // entries beyond the size are not used, those well within it are
    for (v, o) in KINDS {
        cases.push(case(format!("bench size v{v}/O{o}"), move |ctx| {
            let d = Dir::new();
            let big: Vec<String> = (0..450).map(|i| format!("{i:09} {}", "b".repeat(9990))).collect();
            let input: Vec<u8> = big.iter().flat_map(|l| format!("{l}\n").into_bytes()).collect();
            for have in [0usize, 95, 108, 150, 190, 215, 300, 318, 400, 450] {
                let mut f = cfg(v, o, 460, 1e-6).make();
                for l in &big[..have] {
                    let _ = f.insert_bytes(l);
                }
                d.put("f.pop", &ser(&f));
                for (spelling, mb) in [("-s1", 1usize), ("-s=2", 2), ("--size-mb=3", 3), ("-s0", 0)] {
                    let a = ["bench", "--runs=1", "--test-size=5", "-f=1e7", spelling, "f.pop"];
                    let r = Run::new(&a).stdin(&input).go(&d);
                    ctx.add("evaluations", 1);
                    ctx.distinct([h64(format!("{v} {o} {have} {mb}").as_bytes())]);
                    ctx.beat();
                    ensure!(r.signal.is_none() && r.code != Some(101), "{}: {}", a.join(" "), r.how());
                    // MB of 2^20 or 10^6 bytes
                    if mb > 0 && have >= mb * 105 + 3 {
                        ensure!(r.ok(), "{} with the first {have} of 450 entries of 10000 bytes in the filter: {}", a.join(" "), r.how());
                    }
                    if have < if mb == 0 { 450 } else { mb * 99 } {
                        ensure!(!r.ok(), "{} with the first {have} of 450 entries of 10000 bytes in the filter succeeds", a.join(" "));
                    }
                }
            }
            Ok(())
        }));
    }
    // values that mean nothing are refused and no file is touched
    cases.push(case("refused", move |ctx| {
        let d = Dir::new();
        let big = (u64::MAX as u128 + 1).to_string();
        let bad: Vec<(Option<&str>, &str, Vec<&str>)> = vec![
            (None, "version", vec!["0", "3", "4", "17", "128", "255", "256", "257", "258", "-1", "x", "1.0", ""]),
            (Some("O"), "opt-lvl", vec!["4", "5", "128", "255", "256", "259", "-1", "x", "best", ""]),
            (Some("p"), "probability", vec!["0", "0.0", "-0.01", "1.0001", "2", "100", "nan", "-nan", "inf", "-inf", "x", "1%", ""]),
            (Some("c"), "capacity", vec!["-1", "x", "1.5", "1e3", &big, ""]),
        ];
        let old = ser(&cfg(2, 0, 5, 0.1).make());
        for (s, l, vals) in &bad {
            for x in vals {
                for style in 0..STYLES {
                    if style == 1 && (x.is_empty() || s.is_none()) {
                        continue;
                    }
                    for (exists, data) in [(false, false), (true, false), (false, true), (true, true)] {
                        d.del("f.pop");
                        d.put("in0.txt", b"a\nb\n");
                        if exists {
                            d.put("f.pop", &old);
                        }
                        let before = d.snapshot();
                        let mut a = vec!["create".to_string()];
                        a.extend(write(style, *s, l, x));
                        a.push("f.pop".into());
                        if data {
                            a.push("in0.txt".into());
                        }
                        let r = Run::new(&a).go(&d);
                        ctx.add("evaluations", 1);
                        ctx.distinct([h64(format!("{exists} {a:?}").as_bytes())]);
                        ensure!(!r.ok(), "{} succeeds", a.join(" "));
                        ensure!(r.signal.is_none() && r.code != Some(101), "{}: {}", a.join(" "), r.how());
                        ensure!(d.snapshot() == before, "{} fails but changes files", a.join(" "));
                        ctx.beat();
                    }
                }
            }
        }
        // bench
        for a in [["-v", "0"], ["-v", "3"], ["-v", "256"], ["-O", "4"], ["-O", "255"], ["--fpp", "0"], ["--fpp", "1.5"], ["--fpp", "nan"], ["--fpp", "x"], ["--runs", "x"], ["--test-size", "-1"], ["-s", "x"], ["-f", "x"]] {
            let a: Vec<&str> = ["bench"].into_iter().chain(a).collect();
            let r = Run::new(&a).stdin(b"a\nb\n").go(&d);
            ensure!(!r.ok() && r.signal.is_none() && r.code != Some(101), "{}: {}", a.join(" "), r.how());
            ctx.add("evaluations", 1);
        }
        // unknown or missing words
        d.put("f.pop", &old);
        d.put("in0.txt", b"a\nb\n");
        let before = d.snapshot();
        for a in [
            "",
            "create",
            "insert",
            "check",
            "show",
            "remove f.pop",
            "creat f.pop",
            "create --stdin f.pop",
            "create --unknown f.pop",
            "create -x f.pop",
            "insert --verify f.pop in0.txt",
            "insert --capacity 5 f.pop in0.txt",
            "check --force f.pop in0.txt",
            "show f.pop in0.txt",
            "show --all f.pop",
            "-j x create f.pop",
            "-j -1 insert f.pop in0.txt",
            "--jobs= insert f.pop in0.txt",
            "create -p",
            "create -p 0.1 -p 0.2 f.pop",
            "create --version 1 --version 2 f.pop",
        ] {
            let w: Vec<&str> = a.split_whitespace().collect();
            let r = Run::new(&w).stdin(b"c\n").go(&d);
            ctx.add("evaluations", 1);
            ensure!(!r.ok() && r.signal.is_none() && r.code != Some(101), "`{a}`: {}", r.how());
            ensure!(d.snapshot() == before, "`{a}` changes files");
        }
        ctx.sample("every invalid value of every option, with and without an existing file".to_string());
        Ok(())
    }));
    ctx.par(cases);
}
