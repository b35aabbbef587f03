//! Running the real command under the scheduler and fault injector (shim/).
use crate::ctx::{Ctx, Res};
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::io::{Read, Write};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

/// An error of the machinery, never a verdict.
pub fn engine(msg: &str) -> ! {
    eprintln!("engine error: {msg}");
    cleanup();
    std::process::exit(3)
}

fn var(n: &str) -> String {
    std::env::var(n).unwrap_or_else(|_| engine(&format!("{n} is not set")))
}

fn root_of(pid: u32) -> PathBuf {
    // memory file system when there is one: every run maps a fresh log
    let base = if PathBuf::from("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    PathBuf::from(format!("{base}/mc-{pid}"))
}
fn root() -> PathBuf {
    root_of(std::process::id())
}

pub fn cleanup() {
    cleanup_of(std::process::id())
}
/// Scratch of a worker that ended.
pub fn cleanup_of(pid: u32) {
    let _ = fs::remove_dir_all(root_of(pid));
}

static NDIR: AtomicU64 = AtomicU64::new(0);

/// Scratch directory of one case, removed when dropped.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Self {
        let p = root().join(format!("d{}", NDIR.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&p).unwrap_or_else(|e| engine(&format!("{}: {e}", p.display())));
        Dir(p)
    }
    pub fn put(&self, name: &str, b: &[u8]) {
        let p = self.0.join(name);
        fs::write(&p, b).unwrap_or_else(|e| engine(&format!("{}: {e}", p.display())));
    }
    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        fs::read(self.0.join(name)).ok()
    }
    pub fn del(&self, name: &str) {
        let _ = fs::remove_file(self.0.join(name));
    }
    /// Contents of all files.
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for e in fs::read_dir(&self.0).unwrap_or_else(|e| engine(&format!("read_dir: {e}"))).flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if n.starts_with(".mc-") {
                continue;
            }
            m.insert(n, fs::read(e.path()).unwrap_or_default());
        }
        m
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy)]
pub struct Point {
    pub default: u8,
    pub forced: bool,
    pub mask: u32,
}

#[derive(Clone, Debug)]
pub struct IoCall {
    pub kind: char,
    pub len: i64,
    pub name: String,
}

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    /// status word of the runtime: 2 deadlock, 3 too many threads, 9 killed as requested
    pub status: u32,
    pub npoints: u32,
    pub points: Vec<Point>,
    pub io: Vec<IoCall>,
    pub overflow: bool,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// The run reached the call where a fault was asked, and it is the same call as in the run without fault.
    /// The runs are deterministic, so this only fails for a command that looks at something we do not own.
    pub fn hit(&self, ctx: &Ctx, i: usize, c: &IoCall) -> bool {
        let h = self.io.get(i).is_some_and(|x| x.kind == c.kind && x.name == c.name);
        if !h {
            ctx.add("capped", 1);
        }
        h
    }
    pub fn how(&self) -> String {
        let e = String::from_utf8_lossy(&self.err);
        let e: String = e.lines().take(3).collect::<Vec<_>>().join(" / ");
        match (self.status, self.code, self.signal) {
            (2, ..) => "deadlock".into(),
            (9, ..) => "killed".into(),
            (_, Some(c), _) => format!("status {c}: {e}"),
            (_, _, Some(s)) => format!("signal {s}: {e}"),
            _ => e,
        }
    }
}

#[derive(Clone)]
pub struct Run {
    pub bin: &'static str, // MC_POPPY, MC_POPPY_TSAN, MC_CONC
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    /// standard input is a pipe instead of a file
    pub pipe: bool,
    pub mode: i32,
    pub sched: Vec<(u32, u8)>,
    pub fault: String,
    pub maxread: usize,
    pub maxwrite: usize,
    pub want_points: bool,
}

impl Run {
    pub fn new<S: AsRef<str>>(args: &[S]) -> Self {
        Run {
            bin: "MC_POPPY",
            args: args.iter().map(|s| s.as_ref().to_string()).collect(),
            stdin: vec![],
            pipe: false,
            mode: 0,
            sched: vec![],
            fault: String::new(),
            maxread: 0,
            maxwrite: 0,
            want_points: false,
        }
    }
    pub fn stdin(mut self, b: &[u8]) -> Self {
        self.stdin = b.to_vec();
        self
    }
    pub fn go(&self, d: &Dir) -> Out {
        self.spawn(d, true)
    }
    fn command(&self, d: &Dir, controlled: bool) -> Command {
        let mut c = Command::new(var(self.bin));
        c.args(&self.args).current_dir(&d.0).env("RUST_BACKTRACE", "0");
        // without a log, it only defines the symbols the instrumented programs need
        c.env("LD_PRELOAD", var("MC_SHIM"));
        if controlled {
            c.env("MC_LOG", d.0.join(".mc-log")).env("MC_DIR", &d.0).env("MC_MODE", self.mode.to_string()).env("MC_ALARM", "30");
            if !self.sched.is_empty() {
                c.env("MC_SCHED", sched_str(&self.sched));
            }
            if !self.fault.is_empty() {
                c.env("MC_FAULT", &self.fault);
            }
            if self.maxread > 0 {
                c.env("MC_MAXREAD", self.maxread.to_string());
            }
            if self.maxwrite > 0 {
                c.env("MC_MAXWRITE", self.maxwrite.to_string());
            }
        }
        c
    }
    fn die(&self, e: std::io::Error) -> ! {
        engine(&format!("running {}: {e}", self.bin))
    }
    fn spawn(&self, d: &Dir, controlled: bool) -> Out {
        let inp = d.0.join(".mc-stdin");
        fs::write(&inp, &self.stdin).unwrap_or_else(|e| self.die(e));
        let _ = fs::remove_file(d.0.join(".mc-log"));
        let mut c = self.command(d, controlled);
        c.stdin(fs::File::open(&inp).unwrap_or_else(|e| self.die(e))).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut cat = None;
        if self.pipe {
            let mut k = Command::new("/bin/cat").arg(&inp).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| self.die(e));
            c.stdin(k.stdout.take().unwrap());
            cat = Some(k);
        }
        let o = c.output().unwrap_or_else(|e| self.die(e));
        // the command holds the other end of the pipe
        drop(c);
        if let Some(mut k) = cat {
            let _ = k.wait();
        }
        self.finish(d, controlled, o.status, o.stdout, o.stderr)
    }
    fn finish(&self, d: &Dir, controlled: bool, st: std::process::ExitStatus, out: Vec<u8>, err: Vec<u8>) -> Out {
        let mut r = Out { code: st.code(), signal: st.signal(), out, err, status: 0, npoints: 0, points: vec![], io: vec![], overflow: false };
        if controlled {
            let mut h = [0u8; 32];
            let lf = match fs::File::open(d.0.join(".mc-log")) {
                Ok(f) if f.read_exact_at(&mut h, 0).is_ok() && h[0] == 0x63 => f,
                _ => engine(&format!("no log from {} (status {st:?}): {}", self.bin, String::from_utf8_lossy(&r.err))),
            };
            let w = |i: usize| u32::from_le_bytes(h[i * 4..i * 4 + 4].try_into().unwrap());
            r.status = w(3);
            r.npoints = w(1);
            // threads beyond the 32nd are run but not chosen by the explorer
            r.overflow = w(7) != 0 || w(4) > 32;
            if r.status == 3 {
                match self.free(d) {
                    Some(f) if self.fault.is_empty() => return f,
                    _ => engine("too many threads for the scheduler"),
                }
            }
            if self.want_points {
                let mut b = vec![0u8; w(1) as usize * 8];
                lf.read_exact_at(&mut b, 32).unwrap_or_else(|e| self.die(e));
                r.points = b.chunks(8).map(|p| Point { default: p[0], forced: p[1] != 0, mask: u32::from_le_bytes(p[4..8].try_into().unwrap()) }).collect();
            }
            let mut b = vec![0u8; w(2) as usize * 64];
            lf.read_exact_at(&mut b, 32 + 8 * (1 << 20)).unwrap_or_else(|e| self.die(e));
            r.io = b
                .chunks(64)
                .map(|p| IoCall {
                    kind: p[0] as char,
                    len: i64::from_le_bytes(p[8..16].try_into().unwrap()),
                    name: String::from_utf8_lossy(&p[24..]).trim_end_matches('\0').to_string(),
                })
                .collect();
            // a run that does not end under control is tried again without it before it is judged
            if r.signal == Some(14) && self.fault.is_empty() {
                let free = self.free(d);
                if let Some(f) = free {
                    return f;
                }
            }
        }
        r
    }
    /// Uncontrolled run with a time limit; None if it does not end either.
    fn free(&self, d: &Dir) -> Option<Out> {
        // the instrumented build needs the scheduler
        let bin = match self.bin {
            "MC_POPPY_TSAN" => "MC_POPPY",
            "MC_CONC" => return None,
            b => b,
        };
        let mut x = self.clone();
        x.args = vec!["60".into(), var(bin)].into_iter().chain(self.args.clone()).collect();
        std::env::set_var("MC_TIMEOUT_BIN", "/usr/bin/timeout");
        x.bin = "MC_TIMEOUT_BIN";
        let o = x.spawn(d, false);
        if o.code == Some(124) {
            None
        } else {
            Some(o)
        }
    }
}

fn sched_str(s: &[(u32, u8)]) -> String {
    s.iter().map(|(i, t)| format!("{i}:{t}")).collect::<Vec<_>>().join(",")
}

/// The command, started once and forked before its main function for each schedule.
struct Server<'a> {
    d: &'a Dir,
    run: Run,
    child: Child,
}
impl<'a> Server<'a> {
    fn new(d: &'a Dir, run: &Run) -> Self {
        fs::write(d.0.join(".mc-stdin"), &run.stdin).unwrap_or_else(|e| run.die(e));
        let mut c = run.command(d, true);
        c.env("MC_SERVE", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        let child = c.spawn().unwrap_or_else(|e| run.die(e));
        Server { d, run: run.clone(), child }
    }
    fn go(&mut self, sched: &[(u32, u8)]) -> Out {
        self.run.sched = sched.to_vec();
        let mut b = [0u8; 4];
        self.child.stdin.as_mut().unwrap().write_all(format!("{}\n", sched_str(sched)).as_bytes()).unwrap_or_else(|e| self.run.die(e));
        self.child.stdout.as_mut().unwrap().read_exact(&mut b).unwrap_or_else(|e| self.run.die(e));
        let get = |n: &str| fs::read(self.d.0.join(n)).unwrap_or_else(|e| self.run.die(e));
        self.run.finish(self.d, true, ExitStatus::from_raw(i32::from_le_bytes(b)), get(".mc-out"), get(".mc-err"))
    }
}
impl Drop for Server<'_> {
    fn drop(&mut self) {
        drop(self.child.stdin.take());
        let _ = self.child.wait();
    }
}

/// All schedules of a command with at most `bound` preemptions (switches away from a thread that could
/// continue), restricted to one shard of the first deviation. `prepare` resets the directory.
#[allow(clippy::too_many_arguments)]
pub fn schedules(
    ctx: &Ctx,
    d: &Dir,
    base: &Run,
    bound: u32,
    shard: (u32, u32),
    limit: u64,
    prepare: &dyn Fn(&Dir),
    judge: &dyn Fn(&Dir, &Out) -> Res,
) -> Res {
    let mut work: Vec<(Vec<(u32, u8)>, u32)> = vec![(vec![], 0)];
    let mut runs = 0u64;
    let mut pts = 0u64;
    let mut r = base.clone();
    r.want_points = true;
    let mut server = Server::new(d, &r);
    // shards differ in the first deviation, or in the second one where there are many
    let split = (bound > 1) as usize;
    while let Some((sched, used)) = work.pop() {
        if runs >= limit || ctx.late() {
            ctx.add("capped", 1);
            break;
        }
        if ctx.stopped() {
            break;
        }
        prepare(d);
        let o = server.go(&sched);
        runs += 1;
        ctx.beat();
        pts += o.npoints as u64;
        if o.overflow {
            ctx.add("capped", 1);
        }
        if !(sched.is_empty() && shard.0 != 0) {
            let s = sched_str(&sched);
            if o.status == 2 {
                return Err(format!("schedule [{}]: the command blocks forever", s));
            }
            judge(d, &o).map_err(|e| format!("schedule [{}]: {e}", s))?;
        }
        let from = sched.last().map(|x| x.0 + 1).unwrap_or(0);
        let mut n = 0u32;
        for i in from..o.points.len() as u32 {
            let p = o.points[i as usize];
            let cost = used + !p.forced as u32;
            if cost > bound {
                continue;
            }
            for t in 0..32u8 {
                if p.mask >> t & 1 == 0 || t == p.default {
                    continue;
                }
                n += 1;
                if sched.len() == split && n % shard.1 != shard.0 {
                    continue;
                }
                let mut s = sched.clone();
                s.push((i, t));
                work.push((s, cost));
            }
        }
    }
    ctx.add("schedules", runs);
    ctx.add("evaluations", runs);
    ctx.add("schedule_points", pts);
    ctx.add("states", pts);
    ctx.add("transitions", runs);
    ctx.add("traces", runs);
    Ok(())
}
