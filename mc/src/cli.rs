//! Checks of the command line tool: C16, C17, C18, C19, C25, C27 and the show part of C14.
use crate::ctx::{case, Case, Ctx, Res};
use crate::ensure;
use crate::proc::*;
use crate::util::*;
use poppy_filters::BloomFilter;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// Lines as a reader of text files understands them: separated by \n, a final \r removed.
fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
    // what follows the last \n is a line only if it is not empty
    let tail = v.pop().unwrap_or_default();
    for l in &mut v {
        if l.last() == Some(&b'\r') {
            l.pop();
        }
    }
    if !tail.is_empty() {
        // without \n, a final \r belongs to the line
        v.push(tail);
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Ending {
    Lf,
    Crlf,
    NoFinal,
}
const ENDINGS: [Ending; 3] = [Ending::Lf, Ending::Crlf, Ending::NoFinal];

fn text(ls: &[String], e: Ending) -> Vec<u8> {
    let mut b = vec![];
    for (i, l) in ls.iter().enumerate() {
        b.extend(l.as_bytes());
        match e {
            Ending::Lf => b.push(b'\n'),
            Ending::Crlf => b.extend(b"\r\n"),
            Ending::NoFinal => {
                if i + 1 < ls.len() {
                    b.push(b'\n')
                }
            }
        }
    }
    b
}

fn word(i: usize) -> String {
    // short, long, numeric, non ascii and blank-padded lines
    match i % 5 {
        0 => format!("w{i}"),
        1 => format!("a much longer line number {i} of the input"),
        2 => format!("{i}"),
        3 => format!("é{i} €"),
        _ => format!(" padded {i}\t "),
    }
}

/// Distributions of lines over files: number of lines in each.
fn patterns() -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![];
    for n in 1..=3usize {
        for code in 0..3usize.pow(n as u32) {
            let mut x = code;
            let mut p = vec![];
            for _ in 0..n {
                p.push(x % 3);
                x /= 3;
            }
            v.push(p);
        }
    }
    for n in 4..=7usize {
        v.push(vec![1; n]);
        v.push((0..n).collect());
        v.push((0..n).rev().map(|i| i % 3).collect());
    }
    v
}

fn mkfiles(p: &[usize], e: Ending) -> Vec<Vec<u8>> {
    let mut i = 0;
    p.iter()
        .map(|n| {
            let ls: Vec<String> = (0..*n)
                .map(|_| {
                    i += 1;
                    word(i)
                })
                .collect();
            text(&ls, e)
        })
        .collect()
}

fn put_files(d: &Dir, fs: &[Vec<u8>]) -> Vec<String> {
    fs.iter()
        .enumerate()
        .map(|(i, f)| {
            let n = format!("in{i}.txt");
            d.put(&n, f);
            n
        })
        .collect()
}

/// The file holds a filter containing all these lines and everything of the old one.
fn holds(d: &Dir, file: &str, all: &[Vec<u8>], old: Option<&[u8]>) -> Result<BloomFilter, String> {
    let s = d.get(file).ok_or("the filter file does not exist")?;
    let f = load(&s).map_err(|e| format!("the filter file of {} bytes is not valid: {e}", s.len()))?;
    for l in all {
        ensure!(f.contains_bytes(l), "line {:?} is not in the filter", String::from_utf8_lossy(l));
    }
    if let Some(o) = old {
        let of = load(o).map_err(|e| e.to_string())?;
        ensure!(f.version() == of.version() && f.capacity() == of.capacity() && f.fpp() == of.fpp() && s.len() == o.len() && s[..2] == o[..2] && s[8..32] == o[8..32], "parameters of the filter changed");
        ensure!(f.data() == of.data(), "attached data of the filter changed");
        let n = o.len() - of.data().len();
        ensure!(o[48..n].iter().zip(&s[48..n]).all(|(a, b)| a & b == *a), "entries of the filter before the command are lost");
    }
    Ok(f)
}

fn create_args(file: &str, v: u8, o: u8, fpp: f64, jobs: Option<usize>, inputs: &[String]) -> Vec<String> {
    let mut a = vec![];
    if let Some(j) = jobs {
        a.extend(["-j".to_string(), j.to_string()]);
    }
    a.push("create".into());
    a.extend(["--version".to_string(), v.to_string(), "-O".into(), o.to_string(), "-p".into(), fpp.to_string()]);
    a.push(file.into());
    a.extend(inputs.iter().cloned());
    a
}

fn insert_args(file: &str, jobs: Option<usize>, stdin: bool, inputs: &[String]) -> Vec<String> {
    let mut a = vec![];
    if let Some(j) = jobs {
        a.extend(["-j".to_string(), j.to_string()]);
    }
    a.push("insert".into());
    if stdin {
        a.push("--stdin".into());
    }
    a.push(file.into());
    a.extend(inputs.iter().cloned());
    a
}

fn made(d: &Dir, v: u8, o: u8, fpp: f64, all: &[Vec<u8>], old: bool) -> Res {
    let f = holds(d, "f.pop", all, None)?;
    let s = d.get("f.pop").unwrap();
    ensure!(f.version() == v && f.fpp() == fpp && (v == 1 || s[1] == o), "filter created with version {} level {} probability {}", f.version(), s[1], f.fpp());
    let distinct: BTreeSet<&Vec<u8>> = all.iter().collect();
    ensure!(f.capacity() >= distinct.len(), "capacity {} for {} entries", f.capacity(), distinct.len());
    ensure!(!old || f.data().is_empty(), "new filter has data");
    Ok(())
}

fn seen(ctx: &Ctx, s: &str) {
    ctx.distinct([h64(s.as_bytes())]);
}

fn base_filter(v: u8, o: u8, cap: usize, fpp: f64, n: usize, data: &[u8]) -> Vec<u8> {
    let mut f = cfg(v, o, cap, fpp).make();
    for i in 0..n {
        let _ = f.insert_bytes(format!("before-{i}"));
    }
    set_data(&mut f, data);
    ser(&f)
}

fn similar() -> Vec<&'static str> {
    vec!["", " ", "  ", "\t", "\0", "\0\0", "\u{a0}", "a", "A", " a", "a ", "a\t", "\ta", "a\0", "\0a", "\u{feff}a", "e\u{301}", "\u{e9}", "0", "00", "1", "1.0", "-", "--", "#a", "a,b", "\"a\"", "a: NOK"]
}

fn create_cases<'a>(quick: bool) -> Vec<Case<'a>> {
    let mut v = vec![];
    let jobs: &[Option<usize>] = if quick { &[None, Some(0), Some(1), Some(3), Some(7)] } else { &[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(7), Some(16)] };
    for (ver, o) in KINDS {
        for &j in jobs {
            v.push(case(format!("create v{ver}/O{o}/jobs={j:?}"), move |ctx| {
                let d = Dir::new();
                for (pi, p) in patterns().iter().enumerate() {
                    for (ei, e) in ENDINGS.iter().enumerate() {
                        if quick && (pi + ei) % 3 != (ver + o) as usize % 3 && p.len() < 4 {
                            continue;
                        }
                        let fs = mkfiles(p, *e);
                        let names = put_files(&d, &fs);
                        d.del("f.pop");
                        // an existing valid filter is replaced
                        let old = pi % 2 == 1;
                        if old {
                            d.put("f.pop", &base_filter(2, 3, 5, 0.1, 3, b"old data"));
                        }
                        let all: Vec<Vec<u8>> = fs.iter().flat_map(|f| lines(f)).collect();
                        let mut a = create_args("f.pop", ver, o, 0.001, j, &names);
                        if pi % 4 == 2 {
                            a.insert(0, "-v".into());
                        }
                        let what = format!("{} with lines {p:?} ending {ei}", a.join(" "));
                        let r = Run::new(&a).go(&d);
                        ctx.add("evaluations", 1);
                        seen(ctx, &what);
                        // datasets without any line: capacity 0 filters may be made or refused
                        ensure!(r.ok(), "{what}: {}", r.how());
                        made(&d, ver, o, 0.001, &all, old).map_err(|e| format!("{what}: {e}"))?;
                        ctx.beat();
                    }
                }
                ctx.sample(format!("create v{ver} -O {o} jobs {j:?}: all distributions of lines over 1..7 files"));
                Ok(())
            }));
        }
    }
    v.push(case("create empty and special", |ctx| {
        let d = Dir::new();
        for (ver, o) in KINDS {
            for cap in [0usize, 1, 10, 1000, 70_000] {
                for fpp in [0.5, 0.01, 1e-6] {
                    d.del("f.pop");
                    let a = ["create", "--version", &ver.to_string(), "-O", &o.to_string(), "-p", &fpp.to_string(), "-c", &cap.to_string(), "f.pop"].map(|s| s.to_string());
                    let r = Run::new(&a).go(&d);
                    ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
                    let want = ser(&cfg(ver, o, cap, fpp).make());
                    ensure!(d.get("f.pop").as_deref() == Some(&want[..]), "{}: file is not the new filter of the library", a.join(" "));
                    ctx.add("evaluations", 1);
                }
            }
        }
        // defaults: version 2, capacity 10000, probability 0.01, level 0
        d.del("f.pop");
        let r = Run::new(&["create", "f.pop"]).go(&d);
        ensure!(r.ok() && d.get("f.pop").as_deref() == Some(&ser(&cfg(2, 0, 10000, 0.01).make())[..]), "create with defaults: {}", r.how());
        // the same file twice, lines around buffer sizes, duplicates, empty lines, NUL
        let mut long = vec![];
        for n in [0usize, 1, 8190, 8191, 8192, 8193, 16384, 20000, 65535, 65536, 65537, 1 << 20] {
            long.extend(vec![b'x'; n]);
            long.push(b'\n');
        }
        let odd = b"\n\n\0\n \na\0b\n\xc3\xa9\r\r\nsame\nsame\nsame\n".to_vec();
        let names = put_files(&d, &[long.clone(), odd.clone()]);
        for (ver, o) in KINDS {
            for j in [1, 2, 3, 9] {
                for ins in [vec![0, 0], vec![0, 1], vec![1, 0, 1], vec![1, 1, 0, 0, 1]] {
                    d.del("f.pop");
                    let n: Vec<String> = ins.iter().map(|i| names[*i].clone()).collect();
                    let a = create_args("f.pop", ver, o, 0.01, Some(j), &n);
                    let r = Run::new(&a).go(&d);
                    ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
                    let mut all = vec![];
                    if ins.contains(&1) {
                        all.extend(lines(&odd));
                    }
                    if ins.contains(&0) {
                        all.extend(lines(&long));
                    }
                    made(&d, ver, o, 0.01, &all, false).map_err(|e| format!("{}: {e}", a.join(" ")))?;
                    ctx.add("evaluations", 1);
                }
            }
        }
        Ok(())
    }));
    for (ver, o) in KINDS {
        v.push(case(format!("similar lines v{ver}/O{o}"), move |ctx| {
            // all pairs of lines that are easily taken for one another or for nothing: each needs its place
            let d = Dir::new();
            let l = similar();
            for i in 0..l.len() {
                for j in 0..i {
                    for (fs, stdin) in [(vec![vec![i, j]], false), (vec![vec![j], vec![i]], false), (vec![vec![j]], true)] {
                        let files: Vec<Vec<u8>> = fs.iter().map(|f| f.iter().flat_map(|k| [l[*k].as_bytes(), b"\n"].concat()).collect()).collect();
                        let names = put_files(&d, &files);
                        let sin = if stdin { [l[i].as_bytes(), b"\n"].concat() } else { vec![] };
                        let all = vec![l[i].as_bytes().to_vec(), l[j].as_bytes().to_vec()];
                        d.del("f.pop");
                        let a = if stdin {
                            d.put("f.pop", &base_filter(ver, o, 4, 1e-6, 2, b""));
                            insert_args("f.pop", None, true, &names)
                        } else {
                            create_args("f.pop", ver, o, 1e-6, Some(1), &names)
                        };
                        let r = Run::new(&a).stdin(&sin).go(&d);
                        ctx.add("evaluations", 1);
                        let what = format!("{} with lines {:?} and {:?}", a.join(" "), l[i], l[j]);
                        seen(ctx, &what);
                        ensure!(r.ok(), "{what}: {}", r.how());
                        if stdin {
                            holds(&d, "f.pop", &all, None).map_err(|e| format!("{what}: {e}"))?;
                        } else {
                            made(&d, ver, o, 1e-6, &all, false).map_err(|e| format!("{what}: {e}"))?;
                        }
                        ctx.beat();
                    }
                }
            }
            Ok(())
        }));
        v.push(case(format!("create large v{ver}/O{o}"), move |ctx| {
            let d = Dir::new();
            for (nf, nl, j) in [(1usize, 140_001usize, 2), (3, 9000, 2), (5, 4000, 3), (8, 2500, 4), (300, 3, 1), (300, 2, 2), (260, 1, 7), (2, 2, 1)] {
                let mut fs: Vec<Vec<u8>> = (0..nf).map(|f| (0..nl).flat_map(|i| format!("file {f} line {i} of many\n").into_bytes()).collect()).collect();
                if nl == 2 && nf == 2 {
                    // lines that differ only far from their beginning
                    fs[1] = [1usize << 16, 1 << 20, (1 << 20) + 9].iter().flat_map(|n| ["a", "b"].map(|e| format!("{}{e}\n", "w".repeat(*n)))).collect::<String>().into_bytes();
                }
                let names = put_files(&d, &fs);
                d.del("f.pop");
                let a = create_args("f.pop", ver, o, 0.001, Some(j), &names);
                let r = Run::new(&a).go(&d);
                ensure!(r.ok(), "{} ({nf} files of {nl} lines): {}", a.join(" "), r.how());
                let all: Vec<Vec<u8>> = fs.iter().flat_map(|f| lines(f)).collect();
                made(&d, ver, o, 0.001, &all, false).map_err(|e| format!("{} ({nf} files of {nl} lines): {e}", a.join(" ")))?;
                ctx.add("evaluations", 1);
                ctx.beat();
            }
            Ok(())
        }));
    }
    v
}

fn insert_cases<'a>(quick: bool) -> Vec<Case<'a>> {
    let mut v = vec![];
    let jobs: &[Option<usize>] = if quick { &[None, Some(1), Some(3), Some(8)] } else { &[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(8), Some(16)] };
    for (ver, o) in KINDS {
        for &j in jobs {
            v.push(case(format!("insert v{ver}/O{o}/jobs={j:?}"), move |ctx| {
                let d = Dir::new();
                for (pi, p) in [vec![]].iter().chain(patterns().iter()).enumerate() {
                    for (ei, e) in ENDINGS.iter().enumerate() {
                        if quick && (pi + ei) % 3 != (ver + o) as usize % 3 && p.len() > 1 {
                            continue;
                        }
                        for sin in 0..3 {
                            // 0: no --stdin, 1: --stdin with lines, 2: --stdin without lines
                            let fs = mkfiles(p, *e);
                            let names = put_files(&d, &fs);
                            let mut all: Vec<Vec<u8>> = fs.iter().flat_map(|f| lines(f)).collect();
                            let sl = text(&["from stdin".to_string(), word(1), "s3".to_string()], *e);
                            let stdin = if sin == 2 { vec![] } else { sl };
                            if sin == 1 || p.is_empty() {
                                all.extend(lines(&stdin));
                            }
                            let distinct: BTreeSet<&Vec<u8>> = all.iter().collect();
                            // the smallest capacity that fits, so that nothing may be counted twice
                            let cap = 4 + distinct.len() + if pi % 2 == 0 { 0 } else { 3 };
                            let old = base_filter(ver, o, cap, 1e-5, 4, if pi % 3 == 0 { b"" } else { b"attached data" });
                            d.put("f.pop", &old);
                            let mut a = insert_args("f.pop", j, sin > 0, &names);
                            if pi % 4 == 2 {
                                a.insert(0, "--verbose".into());
                            }
                            let what = format!("{} with lines {p:?} ending {ei} stdin {sin}", a.join(" "));
                            let r = Run::new(&a).stdin(&stdin).go(&d);
                            ctx.add("evaluations", 1);
                            seen(ctx, &what);
                            ensure!(r.ok(), "{what}: {}", r.how());
                            holds(&d, "f.pop", &all, Some(&old)).map_err(|e| format!("{what}: {e}"))?;
                            ctx.beat();
                        }
                    }
                }
                ctx.sample(format!("insert v{ver} -O {o} jobs {j:?}: all distributions of lines over stdin and 0..7 files"));
                Ok(())
            }));
        }
        v.push(case(format!("insert special v{ver}/O{o}"), move |ctx| {
            // lines around buffer sizes, empty, repeated and odd ones, from files and standard input
            let d = Dir::new();
            let mut long = vec![];
            for n in [0usize, 1, 8190, 8191, 8192, 8193, 16384, 20000] {
                long.extend(vec![b'x'; n]);
                long.push(b'\n');
            }
            let mut huge = vec![];
            for n in [65535usize, 65536, 65537, 1 << 20] {
                huge.extend(vec![b'x'; n]);
                huge.push(b'\n');
            }
            let odd = b"\n\n\0\n \na\0b\n\xc3\xa9\r\r\n-\n# same\nsame\nsame\n\xef\xbb\xbfbom".to_vec();
            let srcs = [long, odd, huge];
            let names = put_files(&d, &srcs);
            for s in 0..3 {
                for ins in [vec![], vec![0], vec![1], vec![0, 1], vec![1, 1, 0, 1], vec![2], vec![0, 2]] {
                    for pipe in [false, true] {
                        for mr in [0usize, 1, 5000] {
                            if mr == 1 && (s == 2 || ins.contains(&2)) {
                                continue;
                            }
                            let old = base_filter(ver, o, 60, 1e-5, 4, b"attached data");
                            d.put("f.pop", &old);
                            let n: Vec<String> = ins.iter().map(|i: &usize| names[*i].clone()).collect();
                            let a = insert_args("f.pop", Some(2), true, &n);
                            let mut r = Run::new(&a).stdin(&srcs[s]);
                            r.pipe = pipe;
                            r.maxread = mr;
                            let r = r.go(&d);
                            ctx.add("evaluations", 1);
                            let what = format!("{} with special lines {s} on standard input (pipe {pipe}, reads {mr})", a.join(" "));
                            seen(ctx, &what);
                            ensure!(r.ok(), "{what}: {}", r.how());
                            let all: Vec<Vec<u8>> = lines(&srcs[s]).into_iter().chain(ins.iter().flat_map(|i| lines(&srcs[*i]))).collect();
                            holds(&d, "f.pop", &all, Some(&old)).map_err(|e| format!("{what}: {e}"))?;
                        }
                    }
                }
            }
            Ok(())
        }));
        v.push(case(format!("pipes v{ver}/O{o}"), move |ctx| {
            // an input that can be read only once, at each position among the files
            let d = Dir::new();
            let fs = mkfiles(&[3, 2, 4], Ending::Lf);
            let names = put_files(&d, &fs);
            let stdin = text(&["from the pipe".to_string(), word(1), "p3".to_string()], Ending::Lf);
            for cmd in ["create", "insert"] {
                for n in 0..=3usize {
                    for at in 0..=n {
                        for j in [1usize, 2, 4] {
                            for pipe in [false, true] {
                                let mut ins: Vec<String> = names[..n].to_vec();
                                ins.insert(at, "/dev/stdin".into());
                                let all: Vec<Vec<u8>> = fs[..n].iter().flat_map(|f| lines(f)).chain(lines(&stdin)).collect();
                                let old = base_filter(ver, o, 40, 1e-5, 4, b"");
                                d.del("f.pop");
                                let a = if cmd == "create" {
                                    create_args("f.pop", ver, o, 0.001, Some(j), &ins)
                                } else {
                                    d.put("f.pop", &old);
                                    insert_args("f.pop", Some(j), false, &ins)
                                };
                                let mut r = Run::new(&a).stdin(&stdin);
                                r.pipe = pipe;
                                let r = r.go(&d);
                                ctx.add("evaluations", 1);
                                let what = format!("{} with a {} as /dev/stdin", a.join(" "), if pipe { "pipe" } else { "file" });
                                seen(ctx, &what);
                                // a dataset that cannot be read twice may be refused
                                if r.ok() {
                                    holds(&d, "f.pop", &all, if cmd == "create" { None } else { Some(&old) }).map_err(|e| format!("{what}: {e}"))?;
                                } else {
                                    ensure!(pipe && cmd == "create", "{what}: {}", r.how());
                                }
                                ctx.beat();
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
        v.push(case(format!("insert repeated v{ver}/O{o}"), move |ctx| {
            // very many lines
            let d = Dir::new();
            let big: Vec<u8> = (0..70_001).flat_map(|i| format!("line {i} of very many\n").into_bytes()).collect();
            let big = [big];
            let bn = put_files(&d, &big);
            for sin in [false, true] {
                let old = base_filter(ver, o, 71_000, 0.01, 4, b"data");
                d.put("f.pop", &old);
                let a = insert_args("f.pop", None, sin, if sin { &[] } else { &bn });
                let r = Run::new(&a).stdin(&big[0]).go(&d);
                ctx.add("evaluations", 1);
                ensure!(r.ok(), "{} of 70001 lines: {}", a.join(" "), r.how());
                holds(&d, "f.pop", &lines(&big[0]), Some(&old)).map_err(|e| format!("{} of 70001 lines: {e}", a.join(" ")))?;
                ctx.beat();
            }
            // several commands in a row, on a filter of several buckets
            let d = Dir::new();
            let mut old = base_filter(ver, o, 20_000, 0.001, 100, b"keep me");
            d.put("f.pop", &old);
            let mut all: Vec<Vec<u8>> = (0..100).map(|i| format!("before-{i}").into_bytes()).collect();
            for round in 0..6usize {
                let fs: Vec<Vec<u8>> = (0..round + 1).map(|f| (0..400).flat_map(|i| format!("round {round} file {f} line {}\n", i % 350).into_bytes()).collect()).collect();
                let names = put_files(&d, &fs);
                let a = insert_args("f.pop", Some(round), round % 2 == 0, &names);
                let r = Run::new(&a).stdin(format!("stdin of round {round}\n").as_bytes()).go(&d);
                ensure!(r.ok(), "round {round}: {}", r.how());
                all.extend(fs.iter().flat_map(|f| lines(f)));
                if round % 2 == 0 {
                    all.push(format!("stdin of round {round}").into_bytes());
                }
                holds(&d, "f.pop", &all, Some(&old)).map_err(|e| format!("round {round}: {e}"))?;
                old = d.get("f.pop").unwrap();
                ctx.add("evaluations", 1);
                ctx.beat();
            }
            Ok(())
        }));
    }
    v
}

/// Number of files and jobs in all combinations; one file among them is long.
fn many_files<'a>(quick: bool, cmd: &'static str) -> Vec<Case<'a>> {
    let mut v = vec![];
    for (ver, o) in KINDS {
        if quick && ver == 2 && o % 3 != 0 {
            continue;
        }
        let (nf, nj) = if quick { (20, 12) } else { (70, 40) };
        for jobs in (0..=nj).chain([63, 64, 65, 200]) {
            v.push(case(format!("{cmd} many files v{ver}/O{o}/jobs={jobs}"), move |ctx| {
                let d = Dir::new();
                let mut fs: Vec<Vec<u8>> = (0..nf).map(|i| format!("only in {i}\nlast of {i}, in {}\n", i / 2).into_bytes()).collect();
                fs[3] = (0..500).flat_map(|i| format!("line {i} of a long file\n").into_bytes()).collect();
                fs[7] = vec![];
                let names = put_files(&d, &fs);
                for n in 1..=nf {
                    let all: Vec<Vec<u8>> = fs[..n].iter().flat_map(|f| lines(f)).collect();
                    let base = base_filter(ver, o, all.len() + 4, 0.001, 4, b"data");
                    let a = match cmd {
                        "create" => {
                            d.del("f.pop");
                            create_args("f.pop", ver, o, 0.001, Some(jobs), &names[..n])
                        }
                        "insert" => {
                            d.put("f.pop", &base);
                            insert_args("f.pop", Some(jobs), false, &names[..n])
                        }
                        _ => {
                            let mut f = load(&base).map_err(|e| e.to_string())?;
                            for l in all.iter().step_by(2) {
                                let _ = f.insert_bytes(l);
                            }
                            d.put("f.pop", &ser(&f));
                            check_args(Flag::Plain, Some(jobs), false, &names[..n])
                        }
                    };
                    let what = format!("{cmd} -j {jobs} with {n} files");
                    let r = Run::new(&a).go(&d);
                    ctx.add("evaluations", 1);
                    seen(ctx, &format!("{ver} {o} {what}"));
                    ensure!(r.ok(), "{what}: {}", r.how());
                    match cmd {
                        "create" => made(&d, ver, o, 0.001, &all, false),
                        "insert" => holds(&d, "f.pop", &all, Some(&base)).map(|_| ()),
                        _ => {
                            let f = load(&d.get("f.pop").unwrap_or_default()).map_err(|e| e.to_string())?;
                            interleaves(&r.out, &expect(&f, &fs[..n], Flag::Plain))
                        }
                    }
                    .map_err(|e| format!("{what}: {e}"))?;
                    ctx.beat();
                }
                Ok(())
            }));
        }
    }
    v
}

/// Read fragmentation of create and insert.
fn fragment_cases<'a>(quick: bool) -> Vec<Case<'a>> {
    let mut v = vec![];
    for (ver, o) in KINDS {
        for cmd in ["create", "insert"] {
            v.push(case(format!("fragments {cmd} v{ver}/O{o}"), move |ctx| {
                let d = Dir::new();
                let fs = mkfiles(&[2, 0, 2], Ending::Crlf);
                let names = put_files(&d, &fs);
                let stdin = b"x1\r\nlast line".to_vec();
                let mut all: Vec<Vec<u8>> = fs.iter().flat_map(|f| lines(f)).collect();
                let old = base_filter(ver, o, 30, 0.001, 3, b"data");
                let a = if cmd == "create" {
                    create_args("f.pop", ver, o, 0.001, None, &names)
                } else {
                    all.extend(lines(&stdin));
                    insert_args("f.pop", None, true, &names)
                };
                let reset = || {
                    if cmd == "create" {
                        d.del("f.pop")
                    } else {
                        d.put("f.pop", &old)
                    }
                };
                let go = |fault: String, mr: usize, what: String, must: bool| -> Result<Out, String> {
                    reset();
                    let mut r = Run::new(&a).stdin(&stdin);
                    r.fault = fault;
                    r.maxread = mr;
                    let o = r.go(&d);
                    ctx.add("evaluations", 1);
                    ctx.beat();
                    ensure!(o.ok() || !must, "{} with {what}: {}", a.join(" "), o.how());
                    if o.ok() {
                        holds(&d, "f.pop", &all, (cmd == "insert").then_some(&old[..])).map_err(|e| format!("{} with {what}: {e}", a.join(" ")))?;
                    }
                    Ok(o)
                };
                let b = go(String::new(), 0, "nothing".into(), true)?;
                for mr in [1usize, 2, 3, 5, 7, 11, 47, 48, 49, 4095] {
                    if quick && mr < 3 && ver == 2 && o > 0 && cmd == "insert" {
                        continue;
                    }
                    go(String::new(), mr, format!("reads of at most {mr} bytes"), true)?;
                }
                for (i, c) in b.io.iter().enumerate() {
                    if c.kind == 'r' {
                        go(format!("{i}:err=4"), 0, format!("read {i} interrupted"), true)?;
                        for k in [1, 2, 5] {
                            go(format!("{i}:short={k}"), 0, format!("read {i} of {k} bytes"), true)?;
                        }
                    }
                    if c.kind == 'w' && c.name != "<stderr>" {
                        go(format!("{i}:err=4"), 0, format!("write {i} interrupted"), true)?;
                        for k in [1, 100, 4095] {
                            go(format!("{i}:short={k}"), 0, format!("write {i} of {k} bytes"), true)?;
                        }
                    }
                    seen(ctx, &format!("{cmd} {ver} {o} {i}"));
                }
                Ok(())
            }));
        }
    }
    v
}

struct Sc {
    name: String,
    run: Run,
    files: Vec<(String, Vec<u8>)>,
    /// files removed before each run
    fresh: Vec<String>,
}

impl Sc {
    fn prepare(&self, d: &Dir) {
        for (n, b) in &self.files {
            d.put(n, b);
        }
        for n in &self.fresh {
            d.del(n);
        }
    }
}

type Judge = dyn Fn(&Dir, &Out) -> Res + Send + Sync;

/// Shards of a schedule exploration.
fn sched_cases<'a>(ctx: &Ctx, sc: Sc, plan: &[(i32, u32)], judge: Box<Judge>) -> Vec<Case<'a>> {
    let sc = std::sync::Arc::new(sc);
    let judge: std::sync::Arc<Judge> = judge.into();
    let mut v = vec![];
    let limit = if ctx.quick() { 40_000 } else { 200_000 };
    for &(mode, bound) in plan {
        for shard in 0..8 {
            let (sc, judge) = (sc.clone(), judge.clone());
            v.push(case(format!("schedules {} mode {mode} bound {bound} shard {shard}", sc.name), move |ctx| {
                let d = Dir::new();
                let mut r = sc.run.clone();
                r.bin = "MC_POPPY_TSAN";
                r.mode = mode;
                schedules(ctx, &d, &r, bound, (shard, 8), limit, &|d| sc.prepare(d), &*judge)?;
                if shard == 0 {
                    ctx.sample(format!("{}: all schedules with at most {bound} preemptions at {}", sc.name, ["calls", "atomics and calls", "every memory access"][mode as usize]));
                }
                ctx.distinct([h64(sc.name.as_bytes()) ^ (mode as u64) << 8 ^ bound as u64]);
                Ok(())
            }));
        }
    }
    v
}

fn plan(ctx: &Ctx, wide: bool) -> Vec<(i32, u32)> {
    match (ctx.quick(), wide) {
        (true, false) => vec![(1, 2), (2, 1)],
        (true, true) => vec![(1, 1)],
        (false, false) => vec![(1, 3), (2, 1)],
        (false, true) => vec![(1, 2), (2, 1)],
    }
}

pub fn c16(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    // schedules first: the longest
    for (name, nf, jobs, wide) in [("2 files", 2usize, 2usize, false), ("3 files", 3, 2, true), ("3 files 3 jobs", 3, 3, true)] {
        for cmd in ["create", "insert"] {
            if quick && nf == 3 && jobs == 3 && cmd == "create" {
                continue;
            }
            let fs: Vec<(String, Vec<u8>)> = (0..nf).map(|i| (format!("in{i}.txt"), format!("line {i} of the file\nshared\n").into_bytes())).collect();
            let names: Vec<String> = fs.iter().map(|f| f.0.clone()).collect();
            let all: Vec<Vec<u8>> = fs.iter().flat_map(|f| lines(&f.1)).collect();
            let old = base_filter(2, 2, 10, 0.001, 2, b"data");
            let mut files = fs.clone();
            let (a, fresh) = if cmd == "create" {
                (create_args("f.pop", 2, 2, 0.001, Some(jobs), &names), vec!["f.pop".to_string()])
            } else {
                files.push(("f.pop".into(), old.clone()));
                (insert_args("f.pop", Some(jobs), false, &names), vec![])
            };
            let sc = Sc { name: format!("{cmd} {name}"), run: Run::new(&a), files, fresh };
            let ins = cmd == "insert";
            let plan = if quick && !ins && !wide { vec![(1, 1), (2, 1)] } else { plan(ctx, wide) };
            cases.extend(sched_cases(ctx, sc, &plan, Box::new(move |d, o| {
                ensure!(o.ok(), "{}", o.how());
                if ins {
                    holds(d, "f.pop", &all, Some(&old)).map(|_| ())
                } else {
                    made(d, 2, 2, 0.001, &all, false)
                }
            })));
        }
    }
    cases.extend(create_cases(quick));
    cases.extend(insert_cases(quick));
    cases.extend(fragment_cases(quick));
    cases.extend(many_files(quick, "create"));
    cases.extend(many_files(quick, "insert"));
    ctx.par(cases);
}

/// Output is an interleaving of what each source must print.
fn interleaves(out: &[u8], want: &[Vec<Vec<u8>>]) -> Res {
    let mut got: Vec<Vec<u8>> = out.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
    let tail = got.pop().unwrap_or_default();
    ensure!(tail.is_empty(), "output does not end with a line end: {:?}", String::from_utf8_lossy(&tail));
    let mut a: BTreeMap<&[u8], i64> = BTreeMap::new();
    for l in want.iter().flatten() {
        *a.entry(l).or_default() += 1;
    }
    for l in &got {
        *a.entry(l).or_default() -= 1;
    }
    if let Some((l, n)) = a.iter().find(|x| *x.1 != 0) {
        let l = String::from_utf8_lossy(&l[..l.len().min(80)]).to_string();
        return Err(if *n > 0 { format!("line {l:?} is missing from the output ({n} times)") } else { format!("unexpected line {l:?} in the output ({} times)", -n) });
    }
    // order inside each source, for the lines only it prints
    for (i, w) in want.iter().enumerate() {
        let mine: Vec<&Vec<u8>> = w.iter().filter(|l| !want.iter().enumerate().any(|(j, o)| j != i && o.contains(l))).collect();
        let set: BTreeSet<&Vec<u8>> = mine.iter().copied().collect();
        let printed: Vec<&Vec<u8>> = got.iter().filter(|l| set.contains(l)).collect();
        ensure!(mine == printed, "lines of source {i} are printed in another order");
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum Flag {
    Plain,
    Verify,
    Silent,
}

fn expect(f: &BloomFilter, src: &[Vec<u8>], fl: Flag) -> Vec<Vec<Vec<u8>>> {
    src.iter()
        .map(|b| {
            lines(b)
                .into_iter()
                .filter_map(|l| {
                    let ok = f.contains_bytes(&l);
                    match fl {
                        Flag::Plain if ok => Some(l),
                        Flag::Verify if !ok => {
                            let mut l = l;
                            l.extend(b": NOK");
                            Some(l)
                        }
                        _ => None,
                    }
                })
                .collect()
        })
        .collect()
}

fn check_args(fl: Flag, jobs: Option<usize>, stdin: bool, names: &[String]) -> Vec<String> {
    let mut a = vec![];
    if let Some(j) = jobs {
        a.extend(["-j".to_string(), j.to_string()]);
    }
    a.push("check".into());
    if stdin {
        a.push("--stdin".into());
    }
    match fl {
        Flag::Verify => a.push("--verify".into()),
        Flag::Silent => a.push("--silent".into()),
        _ => {}
    }
    a.push("f.pop".into());
    a.extend(names.iter().cloned());
    a
}

pub fn c17(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    let filter = |v: u8, o: u8, fpp: f64| {
        let mut f = cfg(v, o, 40, fpp).make();
        for i in (0..40).filter(|i| i % 2 == 0) {
            let _ = f.insert_bytes(word(i));
        }
        f
    };
    for (name, nf, jobs, long, wide, fl) in [
        ("2 files", 2usize, 2usize, false, false, Flag::Plain),
        ("3 files", 3, 3, false, true, Flag::Plain),
        ("verify", 2, 2, false, true, Flag::Verify),
        ("long lines", 2, 2, true, true, Flag::Plain),
    ] {
        let f = filter(2, 2, 0.001);
        let mut f = f;
        let mut files = vec![];
        let mut src = vec![];
        for i in 0..nf {
            let mut b = vec![];
            for k in 0..if nf == 3 { 2 } else { 3 } {
                let l = if long { format!("{i}{k}{}", "y".repeat(700 + 500 * k)) } else { format!("file {i} line {k}") };
                if k != 1 || fl == Flag::Plain {
                    let _ = f.insert_bytes(&l);
                }
                b.extend(l.as_bytes());
                b.push(b'\n');
            }
            b.extend(b"absent\n");
            files.push((format!("in{i}.txt"), b.clone()));
            src.push(b);
        }
        let names: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
        files.push(("f.pop".into(), ser(&f)));
        let want = expect(&f, &src, fl);
        let sc = Sc { name: format!("check {name}"), run: Run::new(&check_args(fl, Some(jobs), false, &names)), files, fresh: vec![] };
        cases.extend(sched_cases(ctx, sc, &plan(ctx, wide), Box::new(move |_, o| {
            ensure!(o.ok(), "{}", o.how());
            interleaves(&o.out, &want)
        })));
    }
    let jobs: &[Option<usize>] = if quick { &[None, Some(0), Some(1), Some(3), Some(8)] } else { &[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(8), Some(16)] };
    for (ver, o) in KINDS {
        for &j in jobs {
            for fl in [Flag::Plain, Flag::Verify, Flag::Silent] {
                cases.push(case(format!("check v{ver}/O{o}/jobs={j:?}/flag {}", fl as u8), move |ctx| {
                    let d = Dir::new();
                    // one filter with false positives, one without
                    for (fi, fpp) in [0.001, 0.5].iter().enumerate() {
                        let f = filter(ver, o, *fpp);
                        d.put("f.pop", &ser(&f));
                        for (pi, p) in [vec![]].iter().chain(patterns().iter()).enumerate() {
                            if quick && (pi + fi) % 2 == 1 && p.len() > 1 {
                                continue;
                            }
                            for (ei, e) in ENDINGS.iter().enumerate() {
                                for sin in [false, true] {
                                    if quick && (pi + ei + sin as usize) % 3 != 0 && p.len() > 1 {
                                        continue;
                                    }
                                    let mut src = mkfiles(p, *e);
                                    let names = put_files(&d, &src);
                                    let stdin = text(&[word(2), word(3), "nothing".into(), word(2), word(24)], *e);
                                    if sin || p.is_empty() {
                                        src.push(stdin.clone());
                                    }
                                    let a = check_args(fl, j, sin, &names);
                                    let what = format!("{} with lines {p:?} ending {ei} (fpp {fpp})", a.join(" "));
                                    let r = Run::new(&a).stdin(&stdin).go(&d);
                                    ctx.add("evaluations", 1);
                                    seen(ctx, &what);
                                    ensure!(r.ok(), "{what}: {}", r.how());
                                    interleaves(&r.out, &expect(&f, &src, fl)).map_err(|e| format!("{what}: {e}"))?;
                                    ctx.beat();
                                }
                            }
                        }
                    }
                    ctx.sample(format!("check v{ver} -O {o} jobs {j:?}: all distributions of lines over stdin and 0..7 files"));
                    Ok(())
                }));
            }
        }
        cases.push(case(format!("check special v{ver}/O{o}"), move |ctx| {
            let d = Dir::new();
            let mut f = filter(ver, o, 0.001);
            let long: Vec<String> = [0usize, 1, 1022, 1023, 1024, 1025, 2047, 2048, 8191, 8192, 8193, 30_000, 65_535, 65_536, 65_537].iter().map(|n| "z".repeat(*n)).collect();
            for l in long.iter().step_by(2) {
                let _ = f.insert_bytes(l);
            }
            d.put("f.pop", &ser(&f));
            let odd = format!("\n\n{}\n{}\n{}\n\0\na\0b\n\u{e9}\r\r\n: NOK\n", word(2), word(2), word(2)).into_bytes();
            let lg = text(&long, Ending::Lf);
            let many: Vec<u8> = (0..3000).flat_map(|i| format!("{}\n", word(i % 60)).into_bytes()).collect();
            let names = put_files(&d, &[lg.clone(), odd.clone(), many.clone()]);
            let srcs = [lg, odd, many];
            for fl in [Flag::Plain, Flag::Verify, Flag::Silent] {
                for j in [1usize, 2, 3, 5] {
                    for ins in [vec![0], vec![1], vec![2], vec![0, 0], vec![0, 1, 2], vec![2, 2, 2, 2], vec![1, 0, 1, 2, 0]] {
                        let n: Vec<String> = ins.iter().map(|i| names[*i].clone()).collect();
                        let src: Vec<Vec<u8>> = ins.iter().map(|i| srcs[*i].clone()).collect();
                        let a = check_args(fl, Some(j), false, &n);
                        for (mr, mw) in [(0, 0), (3, 0), (0, 1), (0, 1000)] {
                            if mr + mw > 0 && (j != 2 || (mw == 1 && ins.contains(&2))) {
                                continue;
                            }
                            let mut r = Run::new(&a);
                            r.maxread = mr;
                            r.maxwrite = mw;
                            let r = r.go(&d);
                            ctx.add("evaluations", 1);
                            ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
                            interleaves(&r.out, &expect(&f, &src, fl)).map_err(|e| format!("{} (reads {mr}, writes {mw}): {e}", a.join(" ")))?;
                            ctx.beat();
                        }
                    }
                }
                // the same on standard input
                for s in &srcs {
                    let a = check_args(fl, None, false, &[]);
                    for mr in [0usize, 1, 1000] {
                        if mr == 1 && s.len() > 100_000 {
                            continue;
                        }
                        let mut r = Run::new(&a).stdin(s);
                        r.maxread = mr;
                        let r = r.go(&d);
                        ctx.add("evaluations", 1);
                        ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
                        interleaves(&r.out, &expect(&f, &[s.clone()], fl)).map_err(|e| format!("{} on stdin (reads {mr}): {e}", a.join(" ")))?;
                        ctx.beat();
                    }
                }
            }
            // standard input as a pipe, and named as a file
            for (i, s) in srcs.iter().enumerate() {
                for fl in [Flag::Plain, Flag::Verify, Flag::Silent] {
                    for named in [false, true] {
                        let a = check_args(fl, None, false, &if named { vec![names[1].clone(), "/dev/stdin".to_string()] } else { vec![] });
                        let mut r = Run::new(&a).stdin(s);
                        r.pipe = true;
                        let r = r.go(&d);
                        ctx.add("evaluations", 1);
                        ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
                        let src = if named { vec![srcs[1].clone(), s.clone()] } else { vec![s.clone()] };
                        interleaves(&r.out, &expect(&f, &src, fl)).map_err(|e| format!("{} with a pipe of source {i}: {e}", a.join(" ")))?;
                    }
                }
            }
            // each of the similar lines alone in a filter, all of them looked up
            let l = similar();
            let inp: Vec<u8> = l.iter().flat_map(|x| [x.as_bytes(), b"\n"].concat()).collect();
            d.put("similar.txt", &inp);
            for x in &l {
                let mut g = cfg(ver, o, 3, 1e-6).make();
                let _ = g.insert_bytes(x);
                d.put("f.pop", &ser(&g));
                for fl in [Flag::Plain, Flag::Verify, Flag::Silent] {
                    for sin in [false, true] {
                        let a = check_args(fl, None, false, &if sin { vec![] } else { vec!["similar.txt".to_string()] });
                        let r = Run::new(&a).stdin(&inp).go(&d);
                        ctx.add("evaluations", 1);
                        ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
                        interleaves(&r.out, &expect(&g, &[inp.clone()], fl)).map_err(|e| format!("{} of similar lines with {x:?} in the filter (stdin {sin}): {e}", a.join(" ")))?;
                    }
                }
                ctx.beat();
            }
            d.put("f.pop", &ser(&f));
            // a very long line and very many lines, in a file and on standard input
            let big: Vec<u8> = (0..70_001).flat_map(|i| format!("{}\n", word(i % 61)).into_bytes()).collect();
            let mut wide = "z".repeat(65_536).into_bytes();
            wide.extend(format!("\n{}\n{}", "z".repeat(1 << 20), word(2)).into_bytes());
            let bn = put_files(&d, &[srcs[0].clone(), srcs[1].clone(), srcs[2].clone(), big.clone(), wide.clone()]);
            for fl in [Flag::Plain, Flag::Verify] {
                for (s, n) in [(&big, &bn[3]), (&wide, &bn[4])] {
                    for sin in [false, true] {
                        let a = check_args(fl, None, false, &if sin { vec![] } else { vec![n.clone()] });
                        let r = Run::new(&a).stdin(s).go(&d);
                        ctx.add("evaluations", 1);
                        ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
                        interleaves(&r.out, &expect(&f, &[s.clone()], fl)).map_err(|e| format!("{} (large input, stdin {sin}): {e}", a.join(" ")))?;
                        ctx.beat();
                    }
                }
            }
            // characters that text handling may drop or change: before, inside, after, alone
            let mut odd: Vec<String> = vec![];
            for c in ["\u{feff}", "\0", "\u{1}", "\u{b}", "\u{c}", "\u{1b}[0m", "\u{85}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{301}", "\\", "\\n", "\"", "'", "%", "%s", "{}", "{line}", "#", ";", ",", ": NOK", "\u{7f}", "\u{fffd}", "\t", " ", "-", "--", "*"] {
                odd.extend([format!("{c}odd"), format!("o{c}dd"), format!("odd{c}"), c.to_string(), format!("{c}{c}")]);
            }
            let mut g = cfg(ver, o, odd.len() * 2, 1e-6).make();
            for l in odd.iter().step_by(2) {
                let _ = g.insert_bytes(l);
            }
            let t = text(&odd, Ending::Lf);
            let od = Dir::new();
            od.put("f.pop", &ser(&g));
            let on = put_files(&od, &[t.clone(), t.clone()]);
            for fl in [Flag::Plain, Flag::Verify, Flag::Silent] {
                for (n, sin) in [(1usize, false), (2, false), (0, true), (1, true)] {
                    let a = check_args(fl, Some(1), sin, &on[..n].to_vec());
                    let r = Run::new(&a).stdin(&t).go(&od);
                    ctx.add("evaluations", 1);
                    ensure!(r.ok(), "{}: {}", a.join(" "), r.how());
                    let mut want: Vec<Vec<u8>> = expect(&g, &vec![t.clone(); n + sin as usize], fl).concat();
                    let mut got = lines(&r.out);
                    want.sort();
                    got.sort();
                    if let Some(l) = want.iter().find(|l| !got.contains(l)) {
                        return Err(format!("{} (unusual characters): line {:?} is missing", a.join(" "), String::from_utf8_lossy(l)));
                    }
                    ensure!(want == got, "{} (unusual characters) prints {} lines instead of {}", a.join(" "), got.len(), want.len());
                }
            }
            // very many files
            let many: Vec<Vec<u8>> = (0..300).map(|i| format!("{}\nfile {i}\n{}\n", word(i % 61), word((i + 7) % 61)).into_bytes()).collect();
            let m = Dir::new();
            m.put("f.pop", &ser(&f));
            let mn = put_files(&m, &many);
            for fl in [Flag::Plain, Flag::Verify, Flag::Silent] {
                for j in [None, Some(1), Some(7), Some(50)] {
                    let a = check_args(fl, j, false, &mn);
                    let r = Run::new(&a).go(&m);
                    ctx.add("evaluations", 1);
                    ensure!(r.ok(), "check of 300 files with jobs {j:?}: {}", r.how());
                    let mut want: Vec<Vec<u8>> = expect(&f, &many, fl).concat();
                    let mut got = lines(&r.out);
                    want.sort();
                    got.sort();
                    ensure!(want == got, "check of 300 files with jobs {j:?} prints {} lines instead of {}, or others", got.len(), want.len());
                    ctx.beat();
                }
            }
            // a filter in another directory, names with spaces, a file given by its absolute path
            let _ = std::fs::create_dir(d.0.join("sub dir"));
            d.put("sub dir/f 1.pop", &ser(&f));
            d.put("sub dir/in put.txt", &srcs[1]);
            let abs = d.0.join("in0.txt").display().to_string();
            let r = Run::new(&["check", "sub dir/f 1.pop", "sub dir/in put.txt", "./sub dir/../in1.txt", &abs]).go(&d);
            ctx.add("evaluations", 1);
            ensure!(r.ok(), "check with other paths: {}", r.how());
            interleaves(&r.out, &expect(&f, &[srcs[1].clone(), srcs[1].clone(), srcs[0].clone()], Flag::Plain)).map_err(|e| format!("check with other paths: {e}"))?;
            // interruptions of each call
            let a = check_args(Flag::Plain, Some(2), true, &names[..2]);
            let stdin = srcs[1].clone();
            let src = vec![srcs[0].clone(), srcs[1].clone(), stdin.clone()];
            let b = Run::new(&a).stdin(&stdin).go(&d);
            for (i, c) in b.io.iter().enumerate() {
                if (c.kind == 'r' || c.kind == 'w') && c.name != "<stderr>" {
                    for act in ["err=4", "short=1"] {
                        let mut r = Run::new(&a).stdin(&stdin);
                        r.fault = format!("{i}:{act}");
                        let r = r.go(&d);
                        if !r.hit(ctx, i, c) {
                            continue;
                        }
                        ctx.add("evaluations", 1);
                        ensure!(r.ok(), "{} with {act} at call {i} ({} {}): {}", a.join(" "), c.kind, c.name, r.how());
                        interleaves(&r.out, &expect(&f, &src, Flag::Plain)).map_err(|e| format!("{} with {act} at call {i}: {e}", a.join(" ")))?;
                        ctx.beat();
                    }
                }
            }
            Ok(())
        }));
    }
    cases.extend(many_files(quick, "check"));
    ctx.par(cases);
}

#[derive(Clone, Debug)]
enum Bad {
    Missing,
    Directory,
    NotUtf8,
    NotUtf8Late,
}
const BADS: [Bad; 4] = [Bad::Missing, Bad::Directory, Bad::NotUtf8, Bad::NotUtf8Late];

fn put_bad(d: &Dir, b: &Bad) -> String {
    match b {
        Bad::Missing => "does-not-exist.txt".into(),
        Bad::Directory => {
            let _ = std::fs::create_dir(d.0.join("adir"));
            "adir".into()
        }
        Bad::NotUtf8 => {
            d.put("bad.txt", b"good\n\xff\xfe bad\nafter\n");
            "bad.txt".into()
        }
        Bad::NotUtf8Late => {
            let mut v: Vec<u8> = (0..2000).flat_map(|i| format!("line {}\n", i % 3).into_bytes()).collect();
            v.extend(b"\xc3");
            d.put("bad2.txt", &v);
            "bad2.txt".into()
        }
    }
}

fn failed(d: &Dir, o: &Out, before: &BTreeMap<String, Vec<u8>>, what: &str) -> Res {
    ensure!(o.signal.is_none(), "{what}: {}", o.how());
    ensure!(!o.ok(), "{what}: ends with success");
    let after = d.snapshot();
    ensure!(before.get("f.pop") == after.get("f.pop"), "{what}: fails but the filter file {}", match (before.get("f.pop"), after.get("f.pop")) {
        (None, Some(b)) => format!("was created with {} bytes", b.len()),
        (Some(_), None) => "was removed".into(),
        (Some(a), Some(b)) => format!("changed from {} to {} bytes", a.len(), b.len()),
        _ => String::new(),
    });
    for (n, b) in before {
        ensure!(after.get(n) == Some(b), "{what}: {n} changed");
    }
    Ok(())
}

fn unchanged(d: &Dir, before: &BTreeMap<String, Vec<u8>>, what: &str) -> Res {
    let after = d.snapshot();
    for (n, b) in before {
        ensure!(after.get(n) == Some(b), "{what}: {n} changed");
    }
    for n in after.keys() {
        ensure!(before.contains_key(n), "{what}: {n} was created");
    }
    Ok(())
}

pub fn c18(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    // an input that cannot be read, at each position
    for (ver, o) in KINDS {
        for cmd in ["create", "insert"] {
            cases.push(case(format!("bad input {cmd} v{ver}/O{o}"), move |ctx| {
                let d = Dir::new();
                let old = base_filter(ver, o, 30_000, 0.001, 3, b"data");
                for bad in &BADS {
                    for n in 0..4usize {
                        for pos in 0..=n {
                            for j in [1usize, 2, 3, 8] {
                                for exists in [true, false] {
                                    if cmd == "insert" && !exists {
                                        continue;
                                    }
                                    if quick && j == 8 && n < 3 {
                                        continue;
                                    }
                                    let mut names: Vec<String> = (0..n).map(|i| format!("in{i}.txt")).collect();
                                    for x in &names {
                                        d.put(x, b"one\ntwo\n");
                                    }
                                    names.insert(pos, put_bad(&d, bad));
                                    d.del("f.pop");
                                    if exists {
                                        d.put("f.pop", &old);
                                    }
                                    let before = d.snapshot();
                                    for stdin in [false, true] {
                                        let a = if cmd == "create" {
                                            if stdin {
                                                continue;
                                            }
                                            create_args("f.pop", ver, o, 0.001, Some(j), &names)
                                        } else {
                                            insert_args("f.pop", Some(j), stdin, &names)
                                        };
                                        let what = format!("{} ({bad:?})", a.join(" "));
                                        let r = Run::new(&a).stdin(b"from stdin\n").go(&d);
                                        ctx.add("evaluations", 1);
                                        seen(ctx, &format!("{what} {exists}"));
                                        failed(&d, &r, &before, &what)?;
                                        ctx.beat();
                                    }
                                }
                            }
                        }
                    }
                }
                // bad standard input
                if cmd == "insert" {
                    for stdin in [&b"\xff\n"[..], b"good\nbad \xc3\n", b"a\nb\n\xe2\x82"] {
                        for with in [false, true] {
                            d.put("f.pop", &old);
                            d.put("in0.txt", b"one\n");
                            let before = d.snapshot();
                            let ins: Vec<String> = if with { vec!["in0.txt".into()] } else { vec![] };
                            let a = insert_args("f.pop", None, with, &ins);
                            let r = Run::new(&a).stdin(stdin).go(&d);
                            ctx.add("evaluations", 1);
                            failed(&d, &r, &before, &format!("{} with stdin that is not text", a.join(" ")))?;
                        }
                    }
                }
                ctx.sample(format!("{cmd}: an unreadable input at each position among 1..4 files x jobs"));
                Ok(())
            }));
            // each read or open of the command fails
            cases.push(case(format!("faults {cmd} v{ver}/O{o}"), move |ctx| {
                let d = Dir::new();
                let old = base_filter(ver, o, 3000, 0.001, 3, b"data");
                for exists in [true, false] {
                    if cmd == "insert" && !exists {
                        continue;
                    }
                    for j in [1usize, 3] {
                        let names = put_files(&d, &mkfiles(&[2, 1, 2], Ending::Lf));
                        let a = if cmd == "create" { create_args("f.pop", ver, o, 0.001, Some(j), &names) } else { insert_args("f.pop", Some(j), true, &names) };
                        let reset = || {
                            d.del("f.pop");
                            if exists {
                                d.put("f.pop", &old);
                            }
                        };
                        reset();
                        let b = Run::new(&a).stdin(b"s1\ns2\n").go(&d);
                        ensure!(b.ok(), "{}: {}", a.join(" "), b.how());
                        for (i, c) in b.io.iter().enumerate() {
                            // up to the opening for writing, failures come before saving
                            let acts: &[&str] = match c.kind {
                                'r' => &["err=5", "errs=5", "errs=21"],
                                'o' => &["err=13", "err=5", "err=24"],
                                'T' | 'O' => &["err=13", "err=28", "err=30"],
                                _ => &[],
                            };
                            for act in acts {
                                reset();
                                let before = d.snapshot();
                                let mut r = Run::new(&a).stdin(b"s1\ns2\n");
                                r.fault = format!("{i}:{act}");
                                let r = r.go(&d);
                                if !r.hit(ctx, i, c) {
                                    continue;
                                }
                                ctx.add("evaluations", 1);
                                let what = format!("{} with {act} at call {i} ({} of {})", a.join(" "), c.kind, c.name);
                                seen(ctx, &what);
                                failed(&d, &r, &before, &what)?;
                                ctx.beat();
                            }
                        }
                    }
                }
                ctx.sample(format!("{cmd}: each open and read of the command fails in turn"));
                Ok(())
            }));
        }
        // too many entries with one job, or in one file
        cases.push(case(format!("too many v{ver}/O{o}"), move |ctx| {
            let d = Dir::new();
            for cap in [0usize, 1, 3, 10] {
                for n in 0..=cap {
                    let old = base_filter(ver, o, cap, 1e-6, n, b"data");
                    let f = load(&old).map_err(|e| e.to_string())?;
                    let many: Vec<String> = (0..cap + 2).map(|i| format!("new entry {i}")).collect();
                    let mut t = f.clone();
                    // the library decides whether this filter refuses
                    if many.iter().all(|l| t.insert_bytes(l).is_ok()) {
                        continue;
                    }
                    for how in 0..4 {
                        d.put("f.pop", &old);
                        d.put("in0.txt", &text(&many, Ending::Lf));
                        d.put("in1.txt", b"");
                        let before = d.snapshot();
                        let (a, stdin) = match how {
                            0 => (insert_args("f.pop", None, false, &[]), text(&many, Ending::Lf)),
                            1 => (insert_args("f.pop", None, false, &["in0.txt".into()]), vec![]),
                            2 => (insert_args("f.pop", Some(2), false, &["in1.txt".into(), "in0.txt".into()]), vec![]),
                            _ => (insert_args("f.pop", Some(1), true, &["in0.txt".into(), "in1.txt".into()]), text(&many[..1], Ending::Lf)),
                        };
                        let r = Run::new(&a).stdin(&stdin).go(&d);
                        ctx.add("evaluations", 1);
                        failed(&d, &r, &before, &format!("{} of {} lines in a filter of {n}/{cap}", a.join(" "), many.len()))?;
                        ctx.beat();
                    }
                }
            }
            Ok(())
        }));
    }
    cases.push(case("parameters", |ctx| {
        let d = Dir::new();
        d.put("in0.txt", b"a\nb\n");
        let old = base_filter(2, 0, 10, 0.1, 3, b"data");
        for exists in [false, true] {
            for ds in [false, true] {
                let mut sets: Vec<Vec<&str>> = vec![];
                for p in ["0", "-0", "-1", "1.5", "2", "nan", "inf", "-inf", "x", ""] {
                    sets.push(vec!["--probability", p]);
                }
                for v in ["0", "3", "4", "255", "256", "-1", "x"] {
                    sets.push(vec!["--version", v]);
                }
                for o in ["4", "5", "255", "256", "x"] {
                    sets.push(vec!["--opt-lvl", o]);
                }
                for c in ["-1", "x", "1.5"] {
                    sets.push(vec!["--capacity", c]);
                }
                sets.push(vec!["--unknown"]);
                for s in sets {
                    let s: Vec<String> = if s.len() == 2 { vec![format!("{}={}", s[0], s[1])] } else { s.iter().map(|x| x.to_string()).collect() };
                    d.del("f.pop");
                    if exists {
                        d.put("f.pop", &old);
                    }
                    let before = d.snapshot();
                    let mut a = vec!["create".to_string()];
                    a.extend(s);
                    a.push("f.pop".into());
                    if ds {
                        a.push("in0.txt".into());
                    }
                    let r = Run::new(&a).go(&d);
                    ctx.add("evaluations", 1);
                    seen(ctx, &format!("{a:?} {exists}"));
                    failed(&d, &r, &before, &a.join(" "))?;
                    ctx.beat();
                }
            }
        }
        Ok(())
    }));
    // existing files that are not filters
    for (ver, o) in KINDS {
        cases.push(case(format!("not a filter v{ver}/O{o}"), move |ctx| {
            let d = Dir::new();
            let good = base_filter(ver, o, 200, 0.01, 3, b"");
            let mut bad: Vec<(String, Vec<u8>)> = vec![
                ("empty".into(), vec![]),
                ("text".into(), b"one\ntwo\nthree\n".to_vec()),
                ("zeros".into(), vec![0; 5000]),
                ("ones".into(), vec![1; 5000]),
                ("twos".into(), vec![2; 5000]),
            ];
            for n in [1usize, 7, 8, 9, 16, 40, 47, 48, 49, 55, 56, good.len() / 2, good.len() - 1] {
                bad.push((format!("cut at {n}"), good[..n].to_vec()));
            }
            for v in [0u8, 3, 9, 255] {
                let mut g = good.clone();
                g[0] = v;
                bad.push((format!("version {v}"), g));
            }
            d.put("in0.txt", b"a\n");
            for (n, b) in bad {
                if load(&b).is_ok() {
                    continue;
                }
                d.put("f.pop", &b);
                let before = d.snapshot();
                for a in [
                    vec!["create", "f.pop"],
                    vec!["create", "f.pop", "in0.txt"],
                    vec!["insert", "f.pop", "in0.txt"],
                    vec!["insert", "f.pop"],
                    vec!["insert", "--stdin", "f.pop", "in0.txt"],
                ] {
                    let r = Run::new(&a).stdin(b"x\n").go(&d);
                    ctx.add("evaluations", 1);
                    seen(ctx, &format!("{a:?} {n}"));
                    failed(&d, &r, &before, &format!("{} on a file that is not a filter ({n})", a.join(" ")))?;
                    ctx.beat();
                }
                for a in [vec!["check", "f.pop", "in0.txt"], vec!["show", "f.pop"], vec!["bench", "--runs", "1", "f.pop"]] {
                    let r = Run::new(&a).stdin(b"x\n").go(&d);
                    ctx.add("evaluations", 1);
                    ensure!(r.signal.is_none(), "{}: {}", a.join(" "), r.how());
                    unchanged(&d, &before, &a.join(" "))?;
                }
            }
            // output that is a directory, filter that does not exist
            let _ = std::fs::create_dir(d.0.join("sub"));
            d.del("f.pop");
            let before = d.snapshot();
            for a in [vec!["create", "sub"], vec!["create", "sub", "in0.txt"], vec!["insert", "sub", "in0.txt"], vec!["insert", "f.pop", "in0.txt"], vec!["insert", "f.pop"], vec!["create", "no/such/dir/f.pop", "in0.txt"]] {
                let r = Run::new(&a).stdin(b"x\n").go(&d);
                ctx.add("evaluations", 1);
                failed(&d, &r, &before, &a.join(" "))?;
            }
            Ok(())
        }));
        // commands that only read
        cases.push(case(format!("readers v{ver}/O{o}"), move |ctx| {
            let d = Dir::new();
            let good = base_filter(ver, o, 200, 0.01, 3, b"data");
            d.put("f.pop", &good);
            let names = put_files(&d, &mkfiles(&[2, 1], Ending::Lf));
            let n = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
            for mut a in [
                n(&["check", "f.pop"]),
                n(&["check", "--stdin", "f.pop"]),
                n(&["check", "--verify", "f.pop", &names[0], &names[1]]),
                n(&["check", "--silent", "f.pop", &names[0]]),
                n(&["check", "f.pop", "missing.txt"]),
                n(&["check", "f.pop", &names[0], "f.pop"]),
                n(&["check", "missing.pop", &names[0]]),
                n(&["show", "f.pop"]),
                n(&["show", "missing.pop"]),
                n(&["bench", "--runs", "1", "f.pop"]),
                n(&["bench", "--runs", "1", "--fpp", "0.1"]),
                n(&["bench", "--runs", "1", "missing.pop"]),
            ] {
                for (stdin, v) in [(&b"before-0\nbefore-1\n"[..], false), (b"", false), (b"x\n", true), (b"\xff\n", false)] {
                    if v {
                        a.insert(0, "-v".into());
                    }
                    let before = d.snapshot();
                    let r = Run::new(&a).stdin(stdin).go(&d);
                    ctx.add("evaluations", 1);
                    seen(ctx, &format!("{a:?}"));
                    ensure!(r.signal.is_none(), "{}: {}", a.join(" "), r.how());
                    unchanged(&d, &before, &a.join(" "))?;
                    // and when each of their reads fails
                    for (i, c) in r.io.iter().enumerate() {
                        if c.kind == 'r' || c.kind == 'o' {
                            let mut q = Run::new(&a).stdin(stdin);
                            q.fault = format!("{i}:errs=5");
                            let q = q.go(&d);
                            ctx.add("evaluations", 1);
                            ensure!(q.signal.is_none(), "{}: {}", a.join(" "), q.how());
                            unchanged(&d, &before, &format!("{} with a read error", a.join(" ")))?;
                        }
                    }
                    ctx.beat();
                }
            }
            Ok(())
        }));
    }
    // a failing thread among others, in any order
    for cmd in ["create", "insert"] {
        let mut files = vec![("in0.txt".to_string(), b"one\n".to_vec()), ("in1.txt".to_string(), b"two\n\xff\n".to_vec()), ("in2.txt".to_string(), b"three\n".to_vec())];
        let names: Vec<String> = files.iter().map(|f| f.0.clone()).collect();
        let old = base_filter(2, 0, 10, 0.01, 2, b"");
        files.push(("f.pop".into(), old.clone()));
        let a = if cmd == "create" { create_args("f.pop", 2, 0, 0.01, Some(3), &names) } else { insert_args("f.pop", Some(3), false, &names) };
        let sc = Sc { name: format!("failing {cmd}"), run: Run::new(&a), files, fresh: vec![] };
        cases.extend(sched_cases(ctx, sc, &[(1, if quick { 1 } else { 2 })], Box::new(move |d, o| {
            ensure!(!o.ok(), "ends with success although an input is not text");
            ensure!(d.get("f.pop").as_deref() == Some(&old[..]), "the command fails but the filter file changed");
            Ok(())
        })));
    }
    ctx.par(cases);
}

/// What a later user of the file would see.
fn torn(d: &Dir, ctx: &Ctx, label: &str, old: Option<&[u8]>, new: &[u8], entries: &[Vec<u8>], what: &str) -> Res {
    let Some(now) = d.get("f.pop") else {
        ensure!(old.is_none(), "{what}: the filter file is gone");
        return Ok(());
    };
    if Some(&now[..]) == old || now == new {
        return Ok(());
    }
    // neither the old nor the new filter: every command must refuse it
    d.put("probe.txt", b"");
    let hold = now.clone();
    for a in [vec!["check", "--silent", "f.pop", "probe.txt"], vec!["show", "f.pop"], vec!["insert", "f.pop", "probe.txt"], vec!["bench", "--runs", "1", "f.pop"], vec!["create", "f.pop", "probe.txt"]] {
        let r = Run::new(&a).go(d);
        d.put("f.pop", &hold);
        if !r.ok() {
            continue;
        }
        // accepted: has it lost anything?
        let f = load(&now);
        let lost = match &f {
            Ok(f) => entries.iter().filter(|e| !f.contains_bytes(e)).count(),
            Err(_) => usize::MAX,
        };
        if lost == 0 && new.starts_with(&now) {
            ctx.finding(label, "torn-attached-data", &format!("{what}: {} accepts a file whose attached data is cut", a[0]));
            break;
        }
        return Err(format!("{what}: `{}` accepts the torn file of {} bytes (complete: {}){}", a.join(" "), now.len(), new.len(), if lost == usize::MAX { String::new() } else { format!(", {lost} entries lost") }));
    }
    Ok(())
}

pub fn c19(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    for (ver, o) in KINDS {
        for (size, cap, fpp) in [("small", 6usize, 0.01), ("medium", 12_000, 0.01), ("large", 60_000, 0.001)] {
            for cmd in ["create", "create over", "insert"] {
                if quick && size == "large" && cmd != "insert" {
                    continue;
                }
                let label = format!("save {cmd} {size} v{ver}/O{o}");
                let lb = label.clone();
                cases.push(case(label, move |ctx| {
                    let d = Dir::new();
                    let data: &[u8] = if cmd == "insert" { b"attached data of the filter" } else { b"" };
                    let old = (cmd != "create").then(|| base_filter(ver, o, cap, fpp, 3, data));
                    let mut fs = mkfiles(&[2, 1], Ending::Lf);
                    let mut entries: Vec<Vec<u8>> = fs.iter().flat_map(|f| lines(f)).collect();
                    if cmd == "insert" {
                        entries.extend((0..3).map(|i| format!("before-{i}").into_bytes()));
                    } else if size != "small" {
                        // a data set that needs several buckets
                        let t: Vec<u8> = (0..cap).flat_map(|i| format!("{}\n", i).into_bytes()).collect();
                        entries.extend(lines(&t));
                        fs.push(t);
                    }
                    let names = put_files(&d, &fs);
                    let a = if cmd == "insert" { insert_args("f.pop", None, false, &names) } else { create_args("f.pop", ver, o, fpp, None, &names) };
                    let reset = || {
                        d.del("f.pop");
                        if let Some(o) = &old {
                            d.put("f.pop", o);
                        }
                    };
                    reset();
                    let before = d.snapshot();
                    let b = Run::new(&a).go(&d);
                    ensure!(b.ok(), "{}: {}", a.join(" "), b.how());
                    let new = d.get("f.pop").unwrap_or_default();
                    let nf = load(&new).map_err(|e| format!("saved filter is not valid: {e}"))?;
                    ensure!(entries.iter().all(|e| nf.contains_bytes(e)), "saved filter lost entries");
                    // calls that belong to saving: from the first that opens something for writing
                    let first = b.io.iter().position(|c| "TO".contains(c.kind)).ok_or("no file is opened for writing")?;
                    let nw = b.io.iter().filter(|c| c.kind == 'w').count();
                    for (i, c) in b.io.iter().enumerate().skip(first) {
                        if c.name.starts_with('<') {
                            continue;
                        }
                        let mut acts: Vec<String> = vec!["kill".into(), "killa".into()];
                        match c.kind {
                            'w' => {
                                let n = c.len;
                                let mut ks = vec![1, 7, 8, 47, 48, 49, 56, 100, 4095, 4096, n / 2, n - 28, n - 27, n - 1];
                                if !quick {
                                    ks.extend((0..n).step_by((n as usize / 60).max(1)));
                                }
                                ks.retain(|k| *k > 0 && *k < n);
                                ks.sort();
                                ks.dedup();
                                acts.extend(ks.iter().map(|k| format!("killp={k}")));
                                acts.extend(["err=28", "errs=28", "errs=5", "errs=27", "err=4", "short=1", "short=100", "zero"].map(String::from));
                                acts.extend(ks.iter().map(|k| format!("short={k},{}:errs=28", i + 1)));
                            }
                            'f' | 't' | 'm' | 'l' | 's' => acts.extend(["err=5", "errs=28"].map(String::from)),
                            'T' | 'O' => acts.extend(["err=28", "errs=13"].map(String::from)),
                            'c' => acts.push("err=5".into()),
                            _ => {}
                        }
                        // many buckets are written by as many calls: the middle ones are alike
                        if nw > 40 && quick && i > first + 12 && i + 12 < b.io.len() && i % 9 != 0 {
                            continue;
                        }
                        for act in acts {
                            reset();
                            let mut r = Run::new(&a);
                            r.fault = format!("{i}:{act}");
                            let r = r.go(&d);
                            if !r.hit(ctx, i, c) {
                                continue;
                            }
                            ctx.add("evaluations", 1);
                            let what = format!("{} with {act} at call {i} ({} of {}, {} bytes)", a.join(" "), c.kind, c.name, c.len);
                            seen(ctx, &format!("{ver} {o} {size} {what}"));
                            ensure!(r.signal.is_none(), "{what}: {}", r.how());
                            if r.ok() {
                                ensure!(d.get("f.pop").as_deref() == Some(&new[..]), "{what}: ends with success but the file is not the complete filter");
                            } else {
                                // interruptions and short writes are no failures
                                ensure!(act != "err=4" && act != "short=1" && act != "short=100", "{what}: {}", r.how());
                                torn(&d, ctx, &lb, old.as_deref(), &new, &entries, &what)?;
                            }
                            for (n, b) in &before {
                                if n != "f.pop" {
                                    ensure!(d.get(n).as_deref() == Some(&b[..]), "{what}: {n} changed");
                                }
                            }
                            ctx.beat();
                        }
                    }
                    ctx.sample(format!("{}: {} calls while saving, each killed, failing, short", a.join(" "), b.io.len() - first));
                    Ok(())
                }));
            }
        }
    }
    // any truncation of a saved filter is refused by every command
    for (ver, o) in KINDS {
        cases.push(case(format!("truncated v{ver}/O{o}"), move |ctx| {
            let d = Dir::new();
            for (cap, fpp) in [(20usize, 0.01), (5000, 0.01)] {
                let full = base_filter(ver, o, cap, fpp, 3, b"");
                let e: Vec<Vec<u8>> = (0..3).map(|i| format!("before-{i}").into_bytes()).collect();
                let n = full.len();
                let mut cuts: Vec<usize> = (0..70).chain([n / 4, n / 2, 3 * n / 4, n - 9, n - 8, n - 2, n - 1]).chain((1..12).map(|i| 48 + 8 + 4096 * i)).filter(|c| *c < n).collect();
                cuts.sort();
                cuts.dedup();
                for c in cuts {
                    if quick && c > 1 && c < 47 && c % 8 > 1 {
                        continue;
                    }
                    d.put("f.pop", &full[..c]);
                    torn(&d, ctx, "truncated", None, &full, &e, &format!("filter v{ver}/O{o} capacity {cap} cut at {c}"))?;
                    ctx.add("evaluations", 1);
                    ctx.beat();
                }
            }
            Ok(())
        }));
    }
    ctx.par(cases);
}

fn fp_rates(out: &[u8]) -> Vec<f64> {
    String::from_utf8_lossy(out)
        .lines()
        .filter(|l| l.contains("fp rate"))
        .filter_map(|l| l.split('=').nth(1).and_then(|x| x.trim().parse().ok()))
        .collect()
}

pub fn c25(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    let entry = |i: usize| format!("entry number {i} of the data set");
    for (ver, o) in KINDS {
        cases.push(case(format!("missing v{ver}/O{o}"), move |ctx| {
            // each entry in turn is missing from the filter
            let d = Dir::new();
            let n = if quick { 24 } else { 100 };
            for pos in 0..=n {
                let mut f = cfg(ver, o, n + 5, 1e-4).make();
                for i in (0..n).filter(|i| *i != pos) {
                    let _ = f.insert_bytes(entry(i));
                }
                if pos < n && f.contains_bytes(entry(pos)) {
                    continue;
                }
                d.put("f.pop", &ser(&f));
                let all: Vec<String> = (0..n).map(entry).collect();
                for (e, sz) in [(Ending::Lf, "0"), (Ending::NoFinal, "1"), (Ending::Crlf, "100")] {
                    let a = ["bench", "--runs", "1", "-s", sz, "f.pop"];
                    let r = Run::new(&a).stdin(&text(&all, e)).go(&d);
                    ctx.add("evaluations", 1);
                    seen(ctx, &format!("{ver}{o}{pos}{sz}"));
                    ensure!(r.signal.is_none() && r.code != Some(101), "{}: {}", a.join(" "), r.how());
                    ensure!(r.ok() == (pos == n), "bench -s {sz} with {} missing: {}", if pos == n { "nothing".into() } else { format!("entry {pos} of {n}") }, r.how());
                }
                ctx.beat();
            }
            // one of two entries that are easily confused is missing
            let close = ["some entry", " some entry", "some entry ", "\tsome entry", "Some entry", "some  entry", "some entry\u{b}", "some entr", "some entryy", "some", "", " ", "some entry\u{301}", "\u{feff}some entry", "#some entry", "some entry,"];
            for (i, x) in close.iter().enumerate() {
                for (j, y) in close.iter().enumerate().filter(|(j, _)| *j != i) {
                    let mut f = cfg(ver, o, 10, 1e-6).make();
                    let _ = f.insert_bytes(x);
                    let both = [x.to_string(), y.to_string()];
                    for full in [false, true] {
                        if full {
                            let _ = f.insert_bytes(y);
                        }
                        if !full && f.contains_bytes(y) {
                            continue;
                        }
                        d.put("f.pop", &ser(&f));
                        for order in 0..2 {
                            if order == 1 && (quick && (i + j) % 4 > 0) {
                                continue;
                            }
                            let all: Vec<String> = if order == 0 { both.to_vec() } else { both.iter().rev().cloned().collect() };
                            let a = ["bench", "--runs", "1", "-f", "1e7", "f.pop"];
                            let r = Run::new(&a).stdin(&text(&all, Ending::Lf)).go(&d);
                            ctx.add("evaluations", 1);
                            seen(ctx, &format!("{ver}{o} {all:?} {full}"));
                            ensure!(r.ok() == full, "bench of {all:?} with {} in the filter: {}", if full { "both".into() } else { format!("only {x:?}") }, r.how());
                        }
                    }
                }
                ctx.beat();
            }
            // an empty filter, duplicates, nothing at all
            d.put("f.pop", &ser(&cfg(ver, o, 10, 0.01).make()));
            let r = Run::new(&["bench", "--runs", "1", "f.pop"]).stdin(b"x\n").go(&d);
            ensure!(!r.ok(), "bench of an empty filter succeeds");
            d.put("f.pop", &base_filter(ver, o, 10, 1e-6, 3, b"x"));
            let r = Run::new(&["bench", "--runs", "1", "f.pop"]).stdin(b"before-0\nbefore-0\nbefore-2\nbefore-0\n").go(&d);
            ensure!(r.ok(), "bench with duplicates: {}", r.how());
            ctx.add("evaluations", 2);
            ctx.sample(format!("v{ver} -O {o}: each of {n} entries missing in turn"));
            Ok(())
        }));
        cases.push(case(format!("short entries v{ver}/O{o}"), move |ctx| {
            // entries so short that changing them gives other entries, or the same
            let d = Dir::new();
            let one: Vec<String> = (33..127u8).map(|b| (b as char).to_string()).collect();
            let two: Vec<String> = ('a'..='z').flat_map(|a| ('a'..='z').map(move |b| format!("{a}{b}"))).collect();
            let long: Vec<String> = (0..300).map(entry).collect();
            for (si, set) in [one, two, long].iter().enumerate() {
                for n in [1usize, 2, 3, 5, 20, 60, 94, 300, 676] {
                    for empty in [false, true] {
                        if n > set.len() {
                            continue;
                        }
                        let mut all: Vec<String> = set[..n].to_vec();
                        if empty {
                            all.insert(n / 2, String::new());
                        }
                        for fpp in [1e-3, 1e-9] {
                            let c = cfg(ver, o, all.len(), fpp);
                            let mut f = c.make();
                            for l in &all {
                                let _ = f.insert_bytes(l);
                            }
                            // complete universes of changed entries: 256 and 65536
                            let kept: HashSet<&[u8]> = all.iter().map(|l| l.as_bytes()).collect();
                            let wrong = match si {
                                0 => (0..=255u8).any(|b| !kept.contains(&[b][..]) && f.contains_bytes([b])),
                                1 => (0..=65535u16).any(|b| !kept.contains(&b.to_le_bytes()[..]) && f.contains_bytes(b.to_le_bytes())),
                                _ => fpp > 1e-6,
                            };
                            d.put("f.pop", &ser(&f));
                            for file in [true, false] {
                                let mut a: Vec<String> = ["bench", "--runs", "1", "-s", "0", "-f", "0.2"].map(String::from).to_vec();
                                a.extend(if file { vec!["f.pop".to_string()] } else { vec!["-v".into(), ver.to_string(), "-O".into(), o.to_string(), "--fpp".into(), fpp.to_string()] });
                                let r = Run::new(&a).stdin(&text(&all, Ending::Lf)).go(&d);
                                ctx.add("evaluations", 1);
                                ctx.beat();
                                let what = format!("{} on {n} entries of kind {si}{}", a.join(" "), if empty { " and an empty one" } else { "" });
                                seen(ctx, &format!("{ver} {o} {fpp} {what}"));
                                ensure!(r.signal.is_none() && r.code != Some(101), "{what}: {}", r.how());
                                if !wrong {
                                    ensure!(r.ok(), "{what}: the filter has no false positive at all: {}", r.how());
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
        cases.push(case(format!("certain v{ver}/O{o}"), move |ctx| {
            // no rate exceeds a probability of 1
            let d = Dir::new();
            let mut s = ser(&cfg(ver, o, 100, 1.0).make());
            let at = s.len() - main_bits(&s).len();
            s[48..at - if ver == 2 { 8 } else { 0 }].fill(0xff);
            s[at..].fill(0xff);
            d.put("f.pop", &s);
            for n in 0..=40usize {
                let all: Vec<String> = (0..n).map(entry).collect();
                for tol in ["0", "0.2"] {
                    let a = ["bench", "--runs", "1", "-f", tol, "f.pop"];
                    let r = Run::new(&a).stdin(&text(&all, Ending::Lf)).go(&d);
                    ctx.add("evaluations", 1);
                    ctx.beat();
                    seen(ctx, &format!("{ver} {o} {n} {tol}"));
                    ensure!(r.ok(), "{} on {n} entries in a filter of probability 1: {}", a.join(" "), r.how());
                }
            }
            Ok(())
        }));
        cases.push(case(format!("few entries v{ver}/O{o}"), move |ctx| {
            // a filter that contains everything: each lookup of an absent entry is a false positive
            let d = Dir::new();
            let mut s = ser(&cfg(ver, o, 100, 0.01).make());
            let at = s.len() - main_bits(&s).len();
            s[48..at - if ver == 2 { 8 } else { 0 }].fill(0xff);
            s[at..].fill(0xff);
            d.put("f.pop", &s);
            for n in 0..=16usize {
                for test in 0..=n {
                    let all: Vec<String> = (0..n).map(entry).collect();
                    let a = ["bench".to_string(), "--runs".into(), "1".into(), "-f".into(), "1".into(), "--test-size".into(), test.to_string(), "f.pop".into()];
                    let r = Run::new(&a).stdin(&text(&all, Ending::Lf)).go(&d);
                    ctx.add("evaluations", 1);
                    ctx.beat();
                    seen(ctx, &format!("{ver} {o} {n} {test}"));
                    let what = format!("{} on {n} entries", a.join(" "));
                    ensure!(r.signal.is_none() && r.code != Some(101), "{what}: {}", r.how());
                    if fp_rates(&r.out).iter().any(|x| *x > 0.5) {
                        ensure!(!r.ok(), "{what}: succeeds though every lookup was a false positive");
                    }
                }
            }
            Ok(())
        }));
        cases.push(case(format!("rates v{ver}/O{o}"), move |ctx| {
            // filters from well below to far above their capacity; the verdict must follow the rates
            let d = Dir::new();
            let n = 3000usize;
            let all: Vec<String> = (0..n).map(entry).collect();
            let inp = text(&all, Ending::Lf);
            // also low probabilities, not far exceeded
            let low = [1e-3, 1e-4, 1e-5].into_iter().flat_map(|p| [n * 3 / 4, n * 3 / 5, n * 2 / 5].map(|c| (c, p)));
            for (cap, fpp) in [(n * 4, 0.01), (n, 0.01), (n, 0.1), (n / 2, 0.01), (n / 2, 0.1), (n / 8, 0.01), (n / 64, 0.001)].into_iter().chain(low) {
                let c = cfg(ver, o, cap, fpp);
                // beyond capacity by unions
                let mut f = c.make();
                let mut part = c.make();
                for l in &all {
                    if part.insert_bytes(l).is_err() {
                        f.union_merge(&part).map_err(|e| e.to_string())?;
                        part.clear();
                        let _ = part.insert_bytes(l);
                    }
                }
                f.union_merge(&part).map_err(|e| e.to_string())?;
                d.put("f.pop", &ser(&f));
                // measured with the library on a complete block of absent entries
                let q = if fpp < 0.005 { 40_000usize } else { 200_000 };
                let fp = (0..q).filter(|i| f.contains_bytes(format!("absent entry {i:08} of the same kind"))).count();
                let real = fp as f64 / q as f64;
                for tol in ["0", "0.2", "1", "10", "1000"] {
                    let a = ["bench", "--runs", "1", "-s", "0", "-f", tol, "f.pop"];
                    let r = Run::new(&a).stdin(&inp).go(&d);
                    ctx.add("evaluations", 1);
                    ctx.beat();
                    seen(ctx, &format!("{} {tol}", c.name()));
                    let what = format!("{} on {} entries in {} (measured rate {real})", a.join(" "), n, c.name());
                    ensure!(r.signal.is_none() && r.code != Some(101), "{what}: {}", r.how());
                    let lim = fpp * (1.0 + tol.parse::<f64>().unwrap());
                    let rates: Vec<f64> = fp_rates(&r.out).into_iter().filter(|x| !x.is_nan()).collect();
                    if rates.len() >= 10 {
                        let avg = rates.iter().sum::<f64>() / rates.len() as f64;
                        if (avg - lim).abs() > 1e-9 {
                            ensure!(r.ok() == (avg <= lim), "{what}: printed rates average {avg}, limit {lim}: {}", r.how());
                        }
                    }
                    // independent of what is printed, with margins for its smaller test set
                    if real > lim * 2.0 + 0.02 {
                        ensure!(!r.ok(), "{what}: succeeds although the limit is {lim}");
                    }
                    if real < lim * 0.5 && lim > 0.009 {
                        ensure!(r.ok(), "{what}: fails although the limit is {lim}: {}", r.how());
                    }
                }
            }
            Ok(())
        }));
        cases.push(case(format!("limits v{ver}/O{o}"), move |ctx| {
            // data sets larger than the limit: entries within it must be there
            let d = Dir::new();
            let big: Vec<String> = (0..300).map(|i| format!("{i:09} {}", "b".repeat(9990))).collect();
            let inp = text(&big, Ending::Lf);
            for pos in [None, Some(0usize), Some(50), Some(150), Some(299)] {
                let mut f = cfg(ver, o, 310, 1e-4).make();
                for (_, l) in big.iter().enumerate().filter(|(i, _)| Some(*i) != pos) {
                    let _ = f.insert_bytes(l);
                }
                if pos.is_some_and(|p| f.contains_bytes(&big[p])) {
                    continue;
                }
                d.put("f.pop", &ser(&f));
                for sz in ["0", "1", "2", "3", "100", "17592186044416"] {
                    let mb: usize = sz.parse().unwrap();
                    // entries before the limit, which is in MB of 2^20 or 10^6 bytes
                    let within = if mb == 0 || mb > 2 { 300 } else { mb * 99 };
                    let a = ["bench", "--runs", "1", "-f", "1000", "-s", sz, "--test-size", "20", "f.pop"];
                    let r = Run::new(&a).stdin(&inp).go(&d);
                    ctx.add("evaluations", 1);
                    ctx.beat();
                    seen(ctx, &format!("{ver} {o} {pos:?} {a:?}"));
                    ensure!(r.signal.is_none() && r.code != Some(101), "{}: {}", a.join(" "), r.how());
                    match pos {
                        None => ensure!(r.ok(), "{} on a good filter: {}", a.join(" "), r.how()),
                        Some(p) if p < within => ensure!(!r.ok(), "{} with entry {p} of 300 missing: succeeds", a.join(" ")),
                        _ => {}
                    }
                }
            }
            // numbers of runs and of tests
            let few: Vec<String> = (0..200).map(entry).collect();
            let inp = text(&few, Ending::Lf);
            let mut good = cfg(ver, o, 200, 0.001).make();
            for l in &few {
                let _ = good.insert_bytes(l);
            }
            let mut s = ser(&good);
            let at = s.len() - main_bits(&s).len();
            s[48..at - if ver == 2 { 8 } else { 0 }].fill(0xff);
            s[at..].fill(0xff);
            let full = load(&s).map_err(|e| e.to_string())?;
            for (f, ok) in [(&good, true), (&full, false)] {
                d.put("f.pop", &ser(f));
                for runs in ["0", "1", "2", "3"] {
                    for test in [None, Some("0"), Some("1"), Some("2"), Some("100"), Some("199"), Some("200"), Some("201"), Some("100000"), Some("18446744073709551615")] {
                        let mut a = vec!["bench", "--runs", runs, "-f", "20"];
                        if let Some(t) = test {
                            a.extend(["--test-size", t]);
                        }
                        a.push("f.pop");
                        let r = Run::new(&a).stdin(&inp).go(&d);
                        ctx.add("evaluations", 1);
                        ctx.beat();
                        seen(ctx, &format!("{ver} {o} {ok} {a:?}"));
                        ensure!(r.signal.is_none() && r.code != Some(101), "{}: {}", a.join(" "), r.how());
                        if ok {
                            ensure!(r.ok(), "{} on a good filter: {}", a.join(" "), r.how());
                        } else if test.map_or(200, |t| t.parse::<u64>().unwrap()) >= 100 {
                            ensure!(!r.ok(), "{} on a filter with all its bits set: succeeds", a.join(" "));
                        }
                    }
                }
            }
            Ok(())
        }));
        cases.push(case(format!("dataset v{ver}/O{o}"), move |ctx| {
            // without a file, a filter is made from the data set
            let d = Dir::new();
            for (n, fpp, tol) in [(0usize, 0.01, "0.2"), (1, 0.01, "0.2"), (2, 0.5, "10"), (100, 0.1, "5"), (5000, 0.01, "1"), (5000, 0.001, "4")] {
                let all: Vec<String> = (0..n).map(entry).collect();
                for sz in ["0", "1"] {
                    let a = ["bench".to_string(), "--runs".into(), "1".into(), "-s".into(), sz.into(), "-f".into(), tol.into(), "-v".into(), ver.to_string(), "-O".into(), o.to_string(), "--fpp".into(), fpp.to_string()];
                    let r = Run::new(&a).stdin(&text(&all, Ending::Lf)).go(&d);
                    ctx.add("evaluations", 1);
                    ctx.beat();
                    ensure!(r.ok(), "{} on {n} entries: {}", a.join(" "), r.how());
                    // the entries are in the filter that was benchmarked, if it is described
                    let t = String::from_utf8_lossy(&r.out).to_string();
                    let est = t.lines().filter(|l| l.contains("estimated")).find_map(|l| l.rsplit(':').next()?.trim().parse::<f64>().ok());
                    if let Some(e) = est {
                        ensure!(e <= n as f64 && e >= n as f64 * (1.0 - 2.0 * fpp) - 1.0, "{} on {n} entries: the filter has {e} of them", a.join(" "));
                    }
                }
            }
            Ok(())
        }));
    }
    ctx.par(cases);
}

pub fn c27(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases = vec![];
    for (ver, o) in KINDS {
        for jobs in [1usize, 2, 3, 8] {
            let label = format!("capacity v{ver}/O{o}/jobs={jobs}");
            let lb = label.clone();
            cases.push(case(label, move |ctx| {
                let d = Dir::new();
                let more: &[(usize, usize)] = if jobs == 1 { &[(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (9, 8)] } else { &[] };
                for &(cap, base) in [(3usize, 0usize), (4, 2), (4, 4), (6, 3)].iter().chain(more) {
                    let old = base_filter(ver, o, cap, 1e-6, base, b"data");
                    let mut dists: Vec<(usize, Vec<usize>)> = vec![];
                    for s in 0..=cap + 1 {
                        dists.push((s, vec![]));
                        for a in 0..=cap + 1 {
                            dists.push((s, vec![a]));
                            for b in 0..=cap + 1 - a.min(cap + 1) {
                                dists.push((s, vec![a, b]));
                            }
                        }
                    }
                    dists.push((0, vec![1, 1, 1]));
                    dists.push((0, vec![2, 0, 1]));
                    dists.push((1, vec![1, 1, 1]));
                    dists.push((0, vec![1, 1, 1, 1, 1]));
                    for (s, fs) in dists {
                        if quick && s > 1 && !fs.is_empty() && (s + fs[0]) % 2 == 0 {
                            continue;
                        }
                        for dup in [false, true] {
                            // dup: lines the filter already contains, which need no room
                            if dup && (s > 1 || fs.len() > 2) {
                                continue;
                            }
                            let mut k = 0;
                            let mut mk = |n: usize| -> Vec<u8> {
                                let mut l: Vec<String> = (0..n)
                                    .map(|_| {
                                        k += 1;
                                        format!("new line {k}")
                                    })
                                    .collect();
                                if dup {
                                    l.extend((0..base).map(|i| format!("before-{i}")));
                                }
                                text(&l, Ending::Lf)
                            };
                            let stdin = mk(s);
                            let files: Vec<Vec<u8>> = fs.iter().map(|n| mk(*n)).collect();
                            let names = put_files(&d, &files);
                            d.put("f.pop", &old);
                            let before = d.snapshot();
                            let all: Vec<Vec<u8>> = lines(&stdin).into_iter().chain(files.iter().flat_map(|f| lines(f))).collect();
                            // the library, one entry after the other, decides
                            let mut f = load(&old).map_err(|e| e.to_string())?;
                            let fits = all.iter().all(|l| f.insert_bytes(l).is_ok());
                            let a = insert_args("f.pop", Some(jobs), true, &names);
                            let what = format!("{} with {s} lines on stdin and {fs:?} in files (dup {dup}), filter of {base}/{cap}", a.join(" "));
                            let r = Run::new(&a).stdin(&stdin).go(&d);
                            ctx.add("evaluations", 1);
                            seen(ctx, &format!("{ver} {o} {what}"));
                            ctx.beat();
                            ensure!(r.signal.is_none(), "{what}: {}", r.how());
                            if fits {
                                ensure!(r.ok(), "{what}: {} lines fit but the command fails: {}", all.len(), r.how());
                                holds(&d, "f.pop", &all, Some(&old)).map_err(|e| format!("{what}: {e}"))?;
                            } else if r.ok() {
                                // can a single job see the excess? jobs work on copies made after stdin was read
                                let per = (names.len() / jobs).max(1);
                                let room = cap - base.min(cap);
                                let seen_by_one = s > room || fs.chunks(per).any(|c| c.iter().sum::<usize>() + s > room);
                                if seen_by_one || names.len() < 2 || jobs < 2 {
                                    return Err(format!("{what}: succeeds although the capacity is exceeded"));
                                }
                                ctx.finding(&lb, &format!("parallel/cap={cap}/base={base}/stdin={s}/files={}", fs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("+")), &format!("{what}: succeeds although the capacity is exceeded"));
                            } else {
                                failed(&d, &r, &before, &what)?;
                                let e = String::from_utf8_lossy(&r.err).to_lowercase();
                                ensure!(e.contains("toomanyentries") || e.contains("too many entries"), "{what}: fails with another error: {}", r.how());
                            }
                        }
                    }
                }
                ctx.sample(format!("v{ver} -O {o} jobs {jobs}: all distributions of lines around the capacity over stdin and 0..5 files"));
                Ok(())
            }));
        }
        // create sizes the filter from its data set: it never refuses it
        cases.push(case(format!("create fits v{ver}/O{o}"), move |ctx| {
            let d = Dir::new();
            for p in patterns() {
                let names = put_files(&d, &mkfiles(&p, Ending::Lf));
                for j in [1usize, 2, 4] {
                    for fpp in [0.5, 1e-6] {
                        d.del("f.pop");
                        let a = create_args("f.pop", ver, o, fpp, Some(j), &names);
                        let r = Run::new(&a).go(&d);
                        ctx.add("evaluations", 1);
                        ensure!(r.ok(), "{} with {p:?} lines: {}", a.join(" "), r.how());
                        ctx.beat();
                    }
                }
            }
            Ok(())
        }));
    }
    ctx.par(cases);
}

/// Commands that cannot read all their input or print all their output must not report success.
pub fn c30(ctx: &Ctx) {
    let mut cases = vec![];
    for (ver, o) in KINDS {
        for cmd in ["check", "check --verify", "check --silent", "check --stdin", "check none", "show", "bench", "bench none"] {
            cases.push(case(format!("faults of {cmd} v{ver}/O{o}"), move |ctx| {
                let d = Dir::new();
                let mut f = cfg(ver, o, 60, 1e-4).make();
                // long lines so that output is written before the end, by several calls
                let ls: Vec<String> = (0..12).map(|i| format!("line {i} {}", "x".repeat(i * 150))).collect();
                for l in &ls {
                    let _ = f.insert_bytes(l);
                }
                let mut inp = text(&ls, Ending::Lf);
                if !cmd.starts_with("bench") {
                    inp.extend(b"absent line\nanother absent one\n");
                }
                let fs = [inp.clone(), b"line 0 \n".to_vec(), inp.clone()];
                let names = put_files(&d, &fs);
                d.put("f.pop", &ser(&f));
                for jobs in [1usize, 3] {
                    let (a, reads_stdin): (Vec<String>, bool) = match cmd {
                        "check" => (check_args(Flag::Plain, Some(jobs), false, &names), false),
                        "check --verify" => (check_args(Flag::Verify, Some(jobs), false, &names), false),
                        "check --silent" => (check_args(Flag::Silent, Some(jobs), false, &names), false),
                        "check --stdin" => (check_args(Flag::Plain, Some(jobs), true, &names[..1]), true),
                        "check none" => (check_args(Flag::Plain, Some(jobs), false, &[]), true),
                        "show" => (["show", "f.pop"].map(String::from).to_vec(), false),
                        "bench" => (["bench", "--runs", "1", "f.pop"].map(String::from).to_vec(), true),
                        _ => (["bench", "--runs", "1", "-v", &ver.to_string(), "-O", &o.to_string(), "-f", "100", "--fpp", "0.5"].map(String::from).to_vec(), true),
                    };
                    if jobs > 1 && !cmd.starts_with("check") {
                        continue;
                    }
                    let b = Run::new(&a).stdin(&inp).go(&d);
                    ensure!(b.ok(), "{}: {}", a.join(" "), b.how());
                    let total: usize = b.out.len();
                    for (i, c) in b.io.iter().enumerate() {
                        let acts: &[&str] = match c.kind {
                            'r' => &["err=5", "errs=5", "errs=21", "err=4", "short=1"],
                            'o' => &["err=13", "err=24", "err=2"],
                            'w' if c.name == "<stdout>" => &["err=28", "errs=28", "errs=5", "errs=32", "zero", "err=4", "short=1"],
                            _ => &[],
                        };
                        for act in acts {
                            let mut r = Run::new(&a).stdin(&inp);
                            r.fault = format!("{i}:{act}");
                            let r = r.go(&d);
                            if !r.hit(ctx, i, c) {
                                continue;
                            }
                            ctx.add("evaluations", 1);
                            ctx.beat();
                            let what = format!("{} with {act} at call {i} ({} of {})", a.join(" "), c.kind, c.name);
                            seen(ctx, &format!("{ver}{o}{what}"));
                            ensure!(r.signal.is_none(), "{what}: {}", r.how());
                            if *act == "err=4" || *act == "short=1" {
                                // not failures
                                ensure!(r.ok(), "{what}: {}", r.how());
                                if !cmd.starts_with("bench") {
                                    ensure!(r.out.len() == total, "{what}: prints {} bytes instead of {total}", r.out.len());
                                }
                            } else {
                                ensure!(!r.ok(), "{what}: ends with success");
                            }
                        }
                    }
                    // input that is not text, or not there, at each place
                    if cmd.starts_with("check") && !names.is_empty() && cmd != "check none" {
                        let n = if cmd == "check --stdin" { 1 } else { names.len() };
                        for bad in &BADS {
                            for pos in 0..=n {
                                let mut x = a.clone();
                                x.insert(x.len() - n + pos, put_bad(&d, bad));
                                let r = Run::new(&x).stdin(&inp).go(&d);
                                ctx.add("evaluations", 1);
                                seen(ctx, &format!("{ver}{o}{x:?}"));
                                ensure!(r.signal.is_none(), "{} ({bad:?}): {}", x.join(" "), r.how());
                                ensure!(!r.ok(), "{} ({bad:?}): ends with success", x.join(" "));
                            }
                        }
                    }
                    if reads_stdin {
                        for bad in [&b"\xff\n"[..], b"line 0 \n\xc3\nline 0 \n", b"line 0 \n\xe2\x82"] {
                            let r = Run::new(&a).stdin(bad).go(&d);
                            ctx.add("evaluations", 1);
                            ensure!(r.signal.is_none() && !r.ok(), "{} with standard input that is not text: {}", a.join(" "), r.how());
                        }
                    }
                }
                // a filter that is not there or not valid
                let a: Vec<&str> = match cmd {
                    "check" => vec!["check", "g.pop", "in0.txt"],
                    "check none" => vec!["check", "g.pop"],
                    "show" => vec!["show", "g.pop"],
                    "bench" => vec!["bench", "--runs", "1", "g.pop"],
                    _ => return Ok(()),
                };
                let good = ser(&f);
                let bits_end = good.len();
                let mut bad: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(b"some text\n".to_vec())];
                bad.extend([1usize, 8, 47, 48, 55, 56, bits_end / 2, bits_end - 1].map(|n| Some(good[..n].to_vec())));
                for x in [0u8, 3, 255] {
                    let mut g = good.clone();
                    g[0] = x;
                    bad.push(Some(g));
                }
                for b in bad {
                    d.del("g.pop");
                    if let Some(b) = &b {
                        d.put("g.pop", b);
                    }
                    let r = Run::new(&a).stdin(&inp).go(&d);
                    ctx.add("evaluations", 1);
                    ensure!(r.signal.is_none() && !r.ok(), "{} on an invalid filter ({:?} bytes): {}", a.join(" "), b.map(|b| b.len()), r.how());
                }
                ctx.sample(format!("{cmd}: each open, read and write to standard output fails in turn"));
                Ok(())
            }));
        }
    }
    ctx.par(cases);
}

/// Printed size (number with a unit) is n bytes, up to the digits printed.
pub fn is_size(t: &str, n: usize) -> bool {
    let t = t.replace(' ', "");
    let cut = t.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(t.len());
    let Ok(x) = t[..cut].parse::<f64>() else { return false };
    let u = match t[cut..].to_uppercase().as_str() {
        "" | "B" | "BYTES" => 1.0,
        "K" | "KB" | "KIB" => 1024.0,
        "M" | "MB" | "MIB" => 1024.0 * 1024.0,
        _ => return false,
    };
    (x * u - n as f64).abs() <= 0.0501 * u
}

/// Properties of a filter as printed by show and bench.
pub fn table(t: &str) -> BTreeMap<&'static str, String> {
    let mut got = BTreeMap::new();
    for l in t.lines() {
        if let Some((k, v)) = l.rsplit_once(':') {
            let k = k.to_lowercase();
            for name in ["version", "capacity", "estimated", "fpp", "length of data", "size of bloom"] {
                if k.contains(name) {
                    got.insert(name, v.trim().to_string());
                }
            }
        }
    }
    got
}

/// The show command prints the values of the complete filter.
pub fn show_cases<'a>(quick: bool) -> Vec<Case<'a>> {
    let mut v = vec![];
    for (ver, o) in KINDS {
        v.push(case(format!("show v{ver}/O{o}"), move |ctx| {
            let d = Dir::new();
            for cap in [0usize, 1, 10, 64, 1000, 5000, 70_000] {
                for fpp in [0.5, 0.01, 1e-6] {
                    for (n, dl) in [(0usize, 0usize), (3, 5), (9, 1500), (cap, 0)] {
                        if quick && n > 2000 {
                            continue;
                        }
                        let s = base_filter(ver, o, cap, fpp, n, &len_key(dl, 2));
                        let f = load(&s).map_err(|e| e.to_string())?;
                        d.put("f.pop", &s);
                        let r = Run::new(&["show", "f.pop"]).go(&d);
                        ctx.add("evaluations", 1);
                        ensure!(r.ok(), "show: {}", r.how());
                        let t = String::from_utf8_lossy(&r.out).to_string();
                        let got = table(&t);
                        let num = |k: &str| got.get(k).and_then(|v| v.parse::<f64>().ok());
                        let what = format!("show of {} with {n} entries and {dl} bytes of data", cfg(ver, o, cap, fpp).name());
                        ensure!(num("version") == Some(ver as f64), "{what}: version {:?}", got.get("version"));
                        ensure!(num("capacity") == Some(cap as f64), "{what}: capacity {:?}", got.get("capacity"));
                        ensure!(num("estimated") == Some(f.count_estimate() as f64), "{what}: count {:?} instead of {}", got.get("estimated"), f.count_estimate());
                        ensure!(num("fpp") == Some(fpp), "{what}: probability {:?}", got.get("fpp"));
                        for (k, n) in [("length of data", dl), ("size of bloom", f.size_in_bytes())] {
                            let g = got.get(k).cloned().unwrap_or_default();
                            ensure!(is_size(&g, n), "{what}: {k} {g:?} instead of {n} bytes");
                        }
                        ctx.beat();
                    }
                }
            }
            Ok(())
        }));
    }
    v
}
