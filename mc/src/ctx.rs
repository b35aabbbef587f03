//! Run context: cases, statistics, violations, known findings.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub struct Case<'a> {
    pub label: String,
    pub f: Box<dyn Fn(&Ctx) -> Res + Send + Sync + 'a>,
}

pub fn case<'a>(label: impl Into<String>, f: impl Fn(&Ctx) -> Res + Send + Sync + 'a) -> Case<'a> {
    Case {
        label: label.into(),
        f: Box::new(f),
    }
}

struct Slot {
    label: Mutex<String>,
    beat: AtomicU64,
}

#[derive(Default)]
pub struct Acc {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<String>,
    pub acc: Mutex<Acc>,
    pub known: Vec<(String, String)>,
    known_hit: Mutex<HashSet<String>>,
    nviol: AtomicUsize,
    stop: AtomicBool,
    slots: Vec<Slot>,
    t0: Instant,
    pub threads: usize,
    pub hang_s: u64,
}

thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic \"{m}\" at {loc}")));
    }));
}

/// Runs code under test; a panic becomes Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, only: Option<String>) -> Self {
        let known = std::fs::read_to_string("/verif/known_findings.txt")
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                // known: property=<id> key=<key> <text>
                let l = l.strip_prefix("known: property=")?;
                let (p, rest) = l.split_once(' ')?;
                if p != prop {
                    return None;
                }
                let rest = rest.strip_prefix("key=")?;
                let (k, t) = rest.split_once(' ').unwrap_or((rest, ""));
                Some((k.to_string(), t.to_string()))
            })
            .collect();
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            only,
            acc: Default::default(),
            known,
            known_hit: Default::default(),
            nviol: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            slots: (0..64)
                .map(|_| Slot {
                    label: Mutex::new(String::new()),
                    beat: AtomicU64::new(u64::MAX),
                })
                .collect(),
            t0: Instant::now(),
            threads: std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
                .min(8),
            hang_s: 240,
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn add(&self, k: &str, n: u64) {
        *self
            .acc
            .lock()
            .unwrap()
            .counters
            .entry(k.into())
            .or_default() += n;
    }
    pub fn distinct(&self, hs: impl IntoIterator<Item = u64>) {
        self.acc.lock().unwrap().distinct.extend(hs);
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut a = self.acc.lock().unwrap();
        if a.samples.len() < 6 {
            a.samples.push(s.into());
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        let mut a = self.acc.lock().unwrap();
        if !a.notes.contains(&s) {
            a.notes.push(s);
        }
    }
    /// Marks progress of the running case, for the hang detector.
    pub fn beat(&self) {
        let i = SLOT.with(|s| s.get());
        if i != usize::MAX {
            self.slots[i]
                .beat
                .store(self.t0.elapsed().as_secs(), Ordering::Relaxed);
        }
    }
    /// Progress marker with a description of what is about to run; a hang or crash is reported with it.
    pub fn crumb(&self, s: &str) {
        let i = SLOT.with(|s| s.get());
        if i != usize::MAX {
            let mut l = self.slots[i].label.lock().unwrap();
            let base = l.split(" >> ").next().unwrap().to_string();
            *l = format!("{base} >> {s}");
        }
        self.beat();
    }
    /// Searches without end in sight (new hidden state, say) stop here, and the run is then not exhaustive.
    pub fn late(&self) -> bool {
        self.t0.elapsed().as_secs() > if self.quick() { 150 } else { 3000 }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn violation(&self, label: &str, msg: &str) {
        let n = self.nviol.fetch_add(1, Ordering::SeqCst);
        let all = std::env::var_os("MC_ALL").is_some();
        if n < 20 || all {
            println!("V {}\u{1f}{}", esc(label), esc(msg));
        }
        if n >= 4 && !all {
            self.stop.store(true, Ordering::SeqCst);
        }
    }
    pub fn violations(&self) -> usize {
        self.nviol.load(Ordering::SeqCst)
    }
    /// A failure that may be listed as a known finding under `key`.
    pub fn finding(&self, label: &str, key: &str, msg: &str) {
        if let Some((k, t)) = self.known.iter().find(|(k, _)| k == key) {
            if self.known_hit.lock().unwrap().insert(k.clone()) {
                println!("K {}\u{1f}{}", esc(k), esc(t));
            }
        } else {
            self.violation(label, &format!("[{key}] {msg}"));
        }
    }
    fn run_one(&self, slot: usize, c: &Case) {
        *self.slots[slot].label.lock().unwrap() = c.label.clone();
        SLOT.with(|s| s.set(slot));
        self.beat();
        let r = guard(|| (c.f)(self));
        self.slots[slot].beat.store(u64::MAX, Ordering::Relaxed);
        self.add("cases", 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => self.violation(&c.label, &m),
            Err(m) => self.violation(&c.label, &m),
        }
    }
    /// Runs cases on all cores. Hangs are reported as violations.
    pub fn par(&self, cases: Vec<Case>) {
        let cases: Vec<Case> = cases
            .into_iter()
            .filter(|c| self.only.as_ref().map(|o| *o == c.label).unwrap_or(true))
            .collect();
        let next = AtomicUsize::new(0);
        let live = AtomicUsize::new(0);
        let n = self.threads.min(cases.len().max(1));
        live.store(n, Ordering::SeqCst);
        std::thread::scope(|s| {
            for t in 0..n {
                let (next, cases, live) = (&next, &cases, &live);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= cases.len() || self.stopped() {
                                break;
                            }
                            self.run_one(t, &cases[i]);
                        }
                        live.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            let mut tick = 0u64;
            while live.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(5));
                tick += 1;
                if tick % 200 != 0 {
                    continue;
                }
                let now = self.t0.elapsed().as_secs();
                for sl in &self.slots[..n] {
                    let b = sl.beat.load(Ordering::Relaxed);
                    if b != u64::MAX && now > b + self.hang_s {
                        let l = sl.label.lock().unwrap().clone();
                        self.violation(
                            &l,
                            &format!("an operation did not end within {} s", self.hang_s),
                        );
                        self.emit();
                        std::process::exit(1);
                    }
                }
            }
        });
    }
    /// Labels of the running cases, for crash reports.
    pub fn running(&self) -> String {
        self.slots
            .iter()
            .filter(|s| s.beat.load(Ordering::Relaxed) != u64::MAX)
            .map(|s| s.label.try_lock().map(|l| l.clone()).unwrap_or_default())
            .collect::<Vec<_>>()
            .join(" | ")
    }
    /// Prints statistics for the supervisor.
    pub fn emit(&self) {
        let a = self.acc.lock().unwrap();
        for (k, v) in &a.counters {
            println!("S {k} {v}");
        }
        for d in &a.distinct {
            println!("D {d}");
        }
        for s in &a.samples {
            println!("X {}", esc(s));
        }
        for s in &a.notes {
            println!("N {}", esc(s));
        }
    }
}

impl Ctx {
    /// Key of the known finding that starts with this label, and its recorded limit (fp<=N).
    pub fn known_key(&self, label: &str) -> Option<String> {
        self.known.iter().map(|(k, _)| k).find(|k| k.split("|fp<=").next() == Some(label)).cloned()
    }
    pub fn known_limit(&self, label: &str) -> Option<u64> {
        self.known_key(label)?.split("|fp<=").nth(1)?.parse().ok()
    }
}
