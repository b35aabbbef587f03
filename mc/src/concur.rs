//! C24: threads using filters at the same time, under every schedule within bounds.
use crate::ctx::{case, Case, Ctx, Res};
use crate::ensure;
use crate::proc::*;
use crate::util::*;

fn args(how: &str, sc: &str, v: u8, o: u8, n: usize) -> Vec<String> {
    [how, sc, &v.to_string(), &o.to_string(), &n.to_string()].iter().map(|s| s.to_string()).collect()
}

fn conc(a: &[String]) -> Run {
    let mut r = Run::new(a);
    r.bin = "MC_CONC";
    r
}

/// What each thread prints alone in its own process.
fn alone(d: &Dir, sc: &str, v: u8, o: u8, n: usize) -> Result<String, String> {
    let mut t = String::new();
    let mut last = String::new();
    for i in 0..n {
        let r = conc(&args(&format!("alone={i}"), sc, v, o, n)).go(d);
        ensure!(r.ok(), "thread {i} alone: {}", r.how());
        let s = String::from_utf8_lossy(&r.out).to_string();
        let (a, b) = s.split_once('\n').unwrap_or((&s, ""));
        t.push_str(a);
        t.push('\n');
        last = b.to_string();
    }
    Ok(t + &last)
}

pub fn c24(ctx: &Ctx) {
    let quick = ctx.quick();
    let mut cases: Vec<Case> = vec![];
    let scen = ["query", "one", "typed", "read", "insert", "insert1", "merge", "make", "load"];
    for (v, o) in KINDS {
        for sc in scen {
            let mut plans: Vec<(usize, i32, u32)> = vec![(2, 1, 2), (2, 2, 1)];
            if sc != "load" {
                plans.push((3, 1, 1));
            }
            if !quick {
                plans.push((3, 1, 2));
                plans.push((2, 1, 3));
                if sc == "one" || sc == "insert1" {
                    plans.push((2, 2, 2));
                }
                if sc != "load" {
                    plans.push((3, 2, 1));
                }
            }
            for (n, mode, bound) in plans {
                // these go through every byte of the buckets: too long for the quick tier
                if quick && mode == 2 && (sc == "read" || sc == "merge") && v == 2 {
                    continue;
                }
                for shard in 0..4 {
                    cases.push(case(format!("{sc} v{v}/O{o} {n} threads mode {mode} bound {bound} shard {shard}"), move |ctx| {
                        let d = Dir::new();
                        let want = alone(&d, sc, v, o, n)?;
                        let mut r = conc(&args("par", sc, v, o, n));
                        r.mode = mode;
                        let judge = |_: &Dir, out: &Out| -> Res {
                            ensure!(out.ok(), "{}", out.how());
                            let got = String::from_utf8_lossy(&out.out);
                            for (a, b) in got.lines().zip(want.lines()) {
                                ensure!(a == b, "result of a thread is {a:?} and {b:?} when it runs alone");
                            }
                            ensure!(got == want, "results {got:?} instead of {want:?}");
                            Ok(())
                        };
                        schedules(ctx, &d, &r, bound, (shard, 4), if quick { 5_000 } else { 60_000 }, &|_| {}, &judge)?;
                        ctx.distinct([h64(format!("{sc}{v}{o}{n}{mode}{bound}").as_bytes())]);
                        if shard == 0 && v == 2 && o == 2 {
                            ctx.sample(format!("{sc}: {n} threads, all schedules with at most {bound} preemptions at {}", ["calls", "atomics and calls", "every memory access"][mode as usize]));
                        }
                        Ok(())
                    }));
                }
            }
        }
    }
    ctx.par(cases);
}
