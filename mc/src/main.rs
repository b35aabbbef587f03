mod algebra;
mod alloc;
mod attached;
mod big;
mod bits;
mod cli;
mod concur;
mod ctx;
mod errors;
mod extra;
mod faults;
mod forms;
mod format;
mod fpp;
mod life;
mod options;
mod proc;
mod pysim;
mod refm;
mod util;
mod world;

use ctx::{esc, Ctx, Tier};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Tracking = alloc::Tracking;

fn dispatch(ctx: &Ctx) -> bool {
    match ctx.prop.as_str() {
        "C01" => life::c01(ctx),
        "C02" => forms::c02(ctx),
        "C03" => life::c03(ctx),
        "C04" => format::c04(ctx),
        "C05" => format::c05(ctx),
        "C06" => life::c06(ctx),
        "C07" => life::c07(ctx),
        "C08" => algebra::c08(ctx),
        "C09" => algebra::c09(ctx),
        "C10" => algebra::c10(ctx),
        "C11" => life::c11(ctx),
        "C12" => fpp::c12(ctx),
        "C13" => faults::c13(ctx),
        "C14" => faults::c14(ctx),
        "C15" => faults::c15(ctx),
        "C16" => cli::c16(ctx),
        "C17" => cli::c17(ctx),
        "C18" => cli::c18(ctx),
        "C19" => cli::c19(ctx),
        "C20" => fpp::c20(ctx),
        "C21" => bits::c21(ctx),
        "C22" => bits::c22(ctx),
        "C23" => pysim::c23(ctx),
        "C24" => concur::c24(ctx),
        "C25" => cli::c25(ctx),
        "C26" => algebra::c26(ctx),
        "C27" => cli::c27(ctx),
        "C28" => extra::c28(ctx),
        "C29" => extra::c29(ctx),
        "C30" => cli::c30(ctx),
        "C31" => extra::c31(ctx),
        "C32" => extra::c32(ctx),
        "C33" => errors::c33(ctx),
        "C34" => attached::c34(ctx),
        "C35" => options::c35(ctx),
        _ => return false,
    }
    true
}

static CTX: std::sync::OnceLock<Ctx> = std::sync::OnceLock::new();

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn _exit(code: i32) -> !;
}

extern "C" fn on_abort(sig: i32) {
    // best effort: name the cases that were running
    let l = CTX.get().map(|c| c.running()).unwrap_or_default();
    println!("C signal {sig}: {}", esc(&l));
    unsafe { _exit(99) }
}

fn worker(prop: &str, tier: Tier, only: Option<String>) -> i32 {
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    ctx::install_panic_hook();
    let ctx = CTX.get_or_init(|| Ctx::new(prop, tier, seed, only));
    for s in [6, 8, 11, 4, 7] {
        unsafe { signal(s, on_abort as usize) };
    }
    if !dispatch(ctx) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    proc::cleanup();
    ctx.emit();
    println!("E");
    if ctx.violations() > 0 {
        1
    } else {
        0
    }
}

#[derive(Default)]
struct Merged {
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    notes: Vec<String>,
    viol: Vec<(String, String)>,
    known: BTreeMap<String, String>,
    ended: bool,
    crash: Option<String>,
}

struct Meta {
    level: &'static str,
    rule: &'static str,
    profiles: &'static [&'static str],
    assumptions: &'static str,
}

fn meta(p: &str) -> Meta {
    let both: &'static [&'static str] = &["debug", "release"];
    // the code under test is another program: one build of the driver is enough
    let one: &'static [&'static str] = &["release"];
    let (level, rule, profiles, assumptions) = match p {
        "C01" | "C06" | "C07" => ("model_checking", "distinct states of two filters (all fields + ghost sets) visited by breadth first search", both, "entries restricted to colliding representatives; capacities <= 45 in the state space"),
        "C03" => ("model_checking", "distinct filter states, each saved, loaded and run in lock-step with the original", both, "lock-step depth bounded"),
        "C11" => ("model_checking", "distinct filter states, each cleared and run in lock-step with a fresh filter", both, "lock-step depth bounded"),
        "C08" | "C09" => ("model_checking", "distinct states visited by breadth first search plus operand pairs and triples", both, "entries restricted to colliding representatives"),
        "C21" => ("model_checking", "distinct bit set states x operations", both, "complete up to 16 bits; per-index for larger sets"),
        "C02" => ("exploration", "distinct (configuration, content) pairs, each inserted and queried in every form", both, "-"),
        "C04" | "C05" => ("model_checking", "states: distinct complete filter images (of the reference and of the code) compared byte for byte; transitions: insertions", both, "published wyhash crate and FNV-1 definition are trusted"),
        "C10" => ("exploration", "ordered pairs of configurations x fill x operation", both, "-"),
        "C12" => ("exploration", "configurations filled to capacity and probed with a complete block of absent entries", &["release"][..], "entry universes are fixed blocks; see DESIGN.md"),
        "C13" => ("fault_enumeration", "distinct (input, fault) outcomes", both, "header values restricted to boundary values"),
        "C14" => ("exploration", "distinct saved filters loaded both ways", both, "-"),
        "C15" => ("fault_enumeration", "distinct (writer call, fault) placements", both, "-"),
        "C16" | "C17" | "C27" => ("exploration", "distinct command scenarios and thread schedules of the real binary", one, "schedules bounded in preemptions"),
        "C18" | "C19" => ("fault_enumeration", "distinct (command, fault placement) outcomes on the real binary", one, "faults injected at libc calls"),
        "C20" => ("exploration", "distinct (configuration, fill, overlap) cases", both, "-"),
        "C22" => ("exploration", "distinct (constructor, parameters) combinations", both, "-"),
        "C23" => ("model_checking", "states: distinct operation prefixes; each trace replayed on the Python module and on the library", one, "depth bounded"),
        "C24" => ("model_checking", "states: scheduling points visited; transitions: schedules run to completion", one, "preemption bounded, sequentially consistent memory"),
        "C25" => ("exploration", "distinct bench scenarios", one, "-"),
        "C26" => ("exploration", "distinct (configuration, order / repetition / split) histories", both, "-"),
        "C28" => ("model_checking", "distinct filter states, each filled with every sequence of entries in bulk and one by one", both, "sequence length bounded"),
        "C29" => ("exploration", "distinct arguments of the size, rate and timing helpers", both, "-"),
        "C30" => ("fault_enumeration", "distinct (command, fault placement) outcomes on the real binary", one, "faults injected at libc calls"),
        "C31" => ("model_checking", "distinct filter states whose statistics are compared with their saved bits", both, "entries restricted to colliding representatives"),
        "C32" => ("model_checking", "distinct filter states whose estimated probability is compared with the formula, and distinct helper arguments", both, "tolerance 1e-9 for the order of floating point operations"),
        "C33" => ("fault_enumeration", "distinct (call, wrong argument or failing operation) pairs", both, "-"),
        "C34" => ("model_checking", "distinct filter states; each transition replayed on the same filters with attached data", both, "data of representative lengths in the state space, every length through files"),
        "C35" => ("exploration", "distinct command lines run on the real binary", one, "-"),
        _ => ("other", "", one, ""),
    };
    Meta { level, rule, profiles, assumptions }
}

fn run_worker(bin: &str, prop: &str, tier: &str, only: Option<&str>, m: &mut Merged, limit: u64) -> Result<(), String> {
    let mut c = Command::new(bin);
    c.arg("worker").arg(prop).arg(tier);
    if let Some(o) = only {
        c.arg(o);
    }
    let mut ch = c
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot start {bin}: {e}"))?;
    let out = ch.stdout.take().unwrap();
    let part = Arc::new(Mutex::new(Merged::default()));
    let p2 = part.clone();
    let rd = std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            let mut m = p2.lock().unwrap();
            let (t, r) = l.split_once(' ').unwrap_or((&l, ""));
            match t {
                "S" => {
                    if let Some((k, v)) = r.rsplit_once(' ') {
                        *m.counters.entry(k.into()).or_default() += v.parse::<u64>().unwrap_or(0);
                    }
                }
                "D" => {
                    m.distinct.insert(r.parse().unwrap_or(0));
                }
                "X" => m.samples.push(r.into()),
                "N" => m.notes.push(r.into()),
                "V" => {
                    let (a, b) = r.split_once("\\u001f").or(r.split_once('\u{1f}')).unwrap_or((r, ""));
                    m.viol.push((a.into(), b.into()));
                }
                "K" => {
                    let (a, b) = r.split_once('\u{1f}').unwrap_or((r, ""));
                    m.known.insert(a.into(), b.into());
                }
                "C" => m.crash = Some(r.into()),
                "E" => m.ended = true,
                _ => {}
            }
        }
    });
    let t0 = Instant::now();
    let pid = ch.id();
    let st = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t0.elapsed().as_secs() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            proc::cleanup_of(pid);
            return Err(format!("worker exceeded {limit} s"));
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = rd.join();
    proc::cleanup_of(pid);
    let p = std::mem::take(&mut *part.lock().unwrap());
    for (k, v) in p.counters {
        *m.counters.entry(k).or_default() += v;
    }
    m.distinct.extend(p.distinct);
    for s in p.samples {
        if m.samples.len() < 8 {
            m.samples.push(s);
        }
    }
    for s in p.notes {
        if !m.notes.contains(&s) {
            m.notes.push(s);
        }
    }
    let nv = p.viol.len();
    m.viol.extend(p.viol);
    m.known.extend(p.known);
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(0), _) if p.ended => Ok(()),
        (Some(1), _) if nv > 0 => Ok(()),
        (Some(99), _) => {
            m.viol.push((
                p.crash.unwrap_or_default(),
                "the process was aborted inside the code under test".into(),
            ));
            Ok(())
        }
        (None, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => {
            m.viol.push((String::new(), format!("the process died of signal {s}")));
            Ok(())
        }
        (c, s) => Err(format!("worker ended with {c:?} {s:?}")),
    }
}

fn supervisor(prop: &str, tier: &str, bins: &[(String, String)]) -> i32 {
    let t0 = Instant::now();
    let meta = meta(prop);
    let mut m = Merged::default();
    let limit = if tier == "quick" { 850 } else { 6 * 3600 };
    for (name, bin) in bins {
        if !meta.profiles.contains(&name.as_str()) {
            continue;
        }
        if let Err(e) = run_worker(bin, prop, tier, None, &mut m, limit) {
            eprintln!("engine error ({name}): {e}");
            // violations already found stay reported
            if m.viol.is_empty() {
                return 2;
            }
        }
        if !m.viol.is_empty() {
            break;
        }
    }
    for (k, t) in &m.known {
        println!("KNOWN-FINDING: property={prop} {k} {t}");
    }
    let mut names = vec![];
    let mut seen = BTreeSet::new();
    for (i, (l, msg)) in m.viol.iter().enumerate() {
        if i >= 5 || !seen.insert(msg.clone()) {
            continue;
        }
        let dir = "/verif/replays";
        let _ = std::fs::create_dir_all(dir);
        let f = format!("{dir}/{prop}-{i}.txt");
        let _ = std::fs::write(&f, format!("property: {prop}\ntier: {tier}\ncase: {l}\nwhat: {msg}\nreplay: bash /verif/run.sh {prop} {tier} --only '{}'\n", l.split(" >> ").next().unwrap_or("")));
        println!("VIOLATION property={prop} replay={f}");
        println!("  case: {l}\n  {msg}");
        names.push(format!("\"{}: {}\"", l, msg));
    }
    let g = |k: &str| m.counters.get(k).copied().unwrap_or(0);
    let mut cov = vec![];
    let samples = m.samples.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",");
    let distinct = (m.distinct.len() as u64).max(g("distinct"));
    match meta.level {
        "model_checking" => {
            cov.push(format!("\"states\":{}", g("states")));
            cov.push(format!("\"transitions\":{}", g("transitions")));
            cov.push(format!("\"traces_validated_against_impl\":{}", g("traces")));
        }
        _ => {
            cov.push(format!("\"evaluations\":{}", g("evaluations")));
            cov.push(format!("\"distinct_nontrivial\":{}", distinct));
            cov.push(format!("\"rule\":\"{}\"", esc(meta.rule)));
        }
    }
    cov.push(format!("\"samples\":[{samples}]"));
    for (k, v) in &m.counters {
        if !["states", "transitions", "traces", "evaluations", "distinct"].contains(&k.as_str()) {
            cov.push(format!("\"{}\":{v}", esc(k)));
        }
    }
    if meta.level == "model_checking" {
        cov.push(format!("\"rule\":\"{}\"", esc(meta.rule)));
    }
    let exhaustive = g("capped") == 0;
    let mut assumptions = vec![format!("\"{}\"", esc(meta.assumptions))];
    assumptions.extend(m.notes.iter().map(|n| format!("\"{n}\"")));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\":\"{prop}\",\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"{}\",\"exhaustive\":{exhaustive},\"coverage\":{{{}}},\"assumptions\":[{}],\"violations\":{},\"wall_s\":{:.2}}}\n",
        meta.level, cov.join(","), assumptions.join(","), m.viol.len(), t0.elapsed().as_secs_f64()
    );
    let _ = std::fs::create_dir_all("/verif/evidence");
    if std::fs::write(format!("/verif/evidence/{prop}.json"), ev).is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    if m.viol.is_empty() {
        println!("{prop} {tier}: held ({:.1} s)", t0.elapsed().as_secs_f64());
        0
    } else {
        1
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => {
            let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
            worker(&a[1], tier, a.get(3).cloned())
        }
        Some("only") => {
            // one case, verbose, on this binary
            let me = std::env::current_exe().unwrap();
            let mut m = Merged::default();
            let r = run_worker(me.to_str().unwrap(), &a[1], &a[2], Some(&a[3]), &mut m, 3600);
            for (l, w) in &m.viol {
                println!("VIOLATION property={} case {l}: {w}", a[1]);
            }
            match r {
                Err(e) => {
                    eprintln!("{e}");
                    2
                }
                Ok(()) => !m.viol.is_empty() as i32,
            }
        }
        Some("run") => {
            let bins: Vec<(String, String)> = a[3..]
                .iter()
                .filter_map(|s| s.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
                .collect();
            supervisor(&a[1], &a[2], &bins)
        }
        Some("digest") => {
            algebra::digest_main();
            0
        }
        _ => {
            eprintln!("usage: mc run|worker|only ID TIER ...");
            2
        }
    };
    std::process::exit(code);
}
