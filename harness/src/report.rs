//! Verdict machinery: runs cases on worker threads, catches panics, watches CPU progress, records what the
//! monitors observed, and writes evidence. Verdicts: 0 = held on everything explored, 1 = violated (with a
//! replay file), 2 = inconclusive (nothing observed, harness trouble).
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::rng::{hash_str, splitmix, Rng};

/// What one worker observed.
#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: Vec<(String, String)>,
    pub case_desc: String,
}

impl Obs {
    pub fn hit(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_owned(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.maxima.entry(name.to_owned()).or_insert(0);
        *e = (*e).max(n);
    }
    /// member of a named coverage set (distinct values are counted)
    pub fn seen(&mut self, set: &str, value: u64) {
        if let Some(s) = self.sets.get_mut(set) {
            s.insert(value);
        } else {
            self.sets.insert(set.to_owned(), HashSet::from([value]));
        }
    }
    /// a distinct, non-trivial case
    pub fn distinct(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut v = s();
            if v.len() > 1200 {
                let mut cut = 1200;
                while !v.is_char_boundary(cut) {
                    cut -= 1;
                }
                v.truncate(cut);
                v.push_str("...");
            }
            self.samples.push(v);
        }
    }
    /// description of the case being run; lands in the replay file if the case fails
    pub fn describe(&mut self, s: impl Into<String>) {
        self.case_desc = s.into();
    }
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        self.known.extend(o.known);
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub workload: String,
    pub index: usize,
    pub message: String,
    pub detail: String,
}

pub struct Check {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    root: PathBuf,
    start: Instant,
    obs: Obs,
    evaluations: u64,
    workloads: BTreeMap<String, u64>,
    viols: Vec<Viol>,
    inconclusive: Vec<String>,
    replay: Option<(String, usize)>,
    exhaustive: bool,
    known: Vec<(String, String)>,
    deadline: Duration,
    slots: Arc<Mutex<Option<fs::File>>>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_owned()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Run code under test; a panic becomes Err("panic: ...").
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|e: Box<dyn Any + Send>| {
        let fallback = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()))
            .unwrap_or_default();
        let m = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
        format!("panic: {}", if m.is_empty() { fallback } else { m })
    })
}

fn thread_cpu_ticks(tid: u64) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
fn my_tid() -> u64 {
    fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

/// A case that burns this much CPU time (not wall-clock) is reported as failing to make progress; ordinary cases
/// take milliseconds, so this is a bound on work, four orders of magnitude above normal.
const STALL_CPU_SECS: u64 = 60;

struct Slot {
    tid: AtomicU64,
    index: AtomicUsize,
    since: AtomicU64,
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
}

impl Check {
    pub fn new(id: &str, level: &'static str, rule: &str) -> Check {
        install_panic_hook();
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { tier } else { "quick".to_owned() };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let mut replay = None;
        let args: Vec<String> = std::env::args().collect();
        if let Some(p) = args.iter().position(|a| a == "--case") {
            replay = Some((args[p + 1].clone(), args[p + 2].parse().unwrap()));
        }
        let _ = fs::create_dir_all(root.join("work"));
        let slots = if replay.is_some() {
            None
        } else {
            fs::File::create(root.join("work").join(format!("{id}.progress"))).ok()
        };
        let deadline = Duration::from_secs(
            std::env::var("VERIF_BUDGET_S")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(if tier == "thorough" { 3000 } else { 240 }),
        );
        let mut c = Check {
            id: id.to_owned(),
            tier,
            seed,
            level,
            rule: rule.to_owned(),
            assumptions: vec![],
            root,
            start: Instant::now(),
            obs: Obs::default(),
            evaluations: 0,
            workloads: BTreeMap::new(),
            viols: vec![],
            inconclusive: vec![],
            replay,
            exhaustive: false,
            known: vec![],
            deadline,
            slots: Arc::new(Mutex::new(slots)),
        };
        c.load_known();
        c
    }

    fn load_known(&mut self) {
        // finding: property=<id> sig=<signature> <description>
        let Ok(text) = fs::read_to_string(self.root.join("known-findings.txt")) else { return };
        for line in text.lines() {
            let Some(rest) = line.strip_prefix(&format!("finding: property={} sig=", self.id)) else { continue };
            let (sig, desc) = rest.split_once(' ').unwrap_or((rest, ""));
            self.known.push((sig.to_owned(), desc.to_owned()));
        }
    }

    pub fn is_known(&self, sig: &str) -> bool {
        self.known.iter().any(|(s, _)| s == sig)
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// pick a case count by tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let base = if self.thorough() { thorough } else { quick };
        match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((base as f64 * f) as usize).max(1),
            None => base,
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_owned());
    }

    pub fn case_seed(&self, workload: &str, index: usize) -> u64 {
        let mut st = self.seed ^ hash_str(workload) ^ (index as u64).wrapping_mul(0xA24B_AED4_963E_E407);
        splitmix(&mut st)
    }

    pub fn set_exhaustive(&mut self) {
        self.exhaustive = true;
    }

    /// Runs `n` cases of a workload across the worker threads.
    pub fn run<F>(&mut self, workload: &str, n: usize, f: F)
    where
        F: Fn(usize, &mut Rng, &mut Obs) -> Result<(), String> + Sync,
    {
        if let Some((w, i)) = self.replay.clone() {
            if w != workload {
                return;
            }
            let mut obs = Obs::default();
            let mut rng = Rng::new(self.case_seed(workload, i));
            let res = guarded(|| f(i, &mut rng, &mut obs)).and_then(|r| r);
            println!("replay {workload} {i}: {res:?}");
            if !obs.case_desc.is_empty() {
                println!("{}", obs.case_desc);
            }
            if let Err(m) = res {
                self.viols.push(Viol {
                    workload: workload.to_owned(),
                    index: i,
                    message: m,
                    detail: obs.case_desc.clone(),
                });
            }
            return;
        }
        if self.viols.len() >= 5 {
            return;
        }
        let nthreads = threads().min(n.max(1));
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let viols: Mutex<Vec<Viol>> = Mutex::new(vec![]);
        let merged: Mutex<Obs> = Mutex::new(Obs::default());
        let slots: Vec<Slot> = (0..nthreads)
            .map(|_| Slot {
                tid: AtomicU64::new(0),
                index: AtomicUsize::new(usize::MAX),
                since: AtomicU64::new(0),
            })
            .collect();
        let running = AtomicUsize::new(nthreads);
        let stalled: Mutex<Option<usize>> = Mutex::new(None);
        let start = self.start;
        let deadline = self.deadline;
        let this = &*self;
        let progress = self.slots.clone();
        std::thread::scope(|scope| {
            for t in 0..nthreads {
                let (next, done, stop, viols, merged, slots, running, f, progress) =
                    (&next, &done, &stop, &viols, &merged, &slots, &running, &f, &progress);
                let file = progress.lock().unwrap().as_ref().and_then(|f| f.try_clone().ok());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let tid = my_tid();
                        slots[t].tid.store(tid, Ordering::SeqCst);
                        let mut obs = Obs::default();
                        loop {
                            if stop.load(Ordering::Relaxed) || start.elapsed() > deadline {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            slots[t].since.store(thread_cpu_ticks_fast(tid, i), Ordering::SeqCst);
                            slots[t].index.store(i, Ordering::SeqCst);
                            if let Some(fl) = &file {
                                let line = format!("{:<48}{:>14}\n", workload, i);
                                let _ = fl.write_at(line.as_bytes(), (t * 64) as u64);
                            }
                            obs.case_desc.clear();
                            let mut rng = Rng::new(this.case_seed(workload, i));
                            let res = guarded(|| f(i, &mut rng, &mut obs)).and_then(|r| r);
                            slots[t].index.store(usize::MAX, Ordering::SeqCst);
                            done.fetch_add(1, Ordering::Relaxed);
                            let listed = |m: &String| {
                                let sig = m.strip_prefix("sig=")?.split(' ').next()?;
                                this.is_known(sig).then(|| sig.to_owned())
                            };
                            // what is listed does not end the search for other violations
                            if let Some(sig) = res.as_ref().err().and_then(listed) {
                                obs.add("known findings met", 1);
                                if !obs.known.iter().any(|(s, _)| *s == sig) {
                                    obs.known.push((sig, String::new()));
                                }
                            } else if let Err(m) = res {
                                let mut v = viols.lock().unwrap();
                                v.push(Viol {
                                    workload: workload.to_owned(),
                                    index: i,
                                    message: m,
                                    detail: obs.case_desc.clone(),
                                });
                                if v.len() >= 5 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        if let Some(fl) = &file {
                            let line = format!("{:<48}{:>14}\n", "-", 0);
                            let _ = fl.write_at(line.as_bytes(), (t * 64) as u64);
                        }
                        merged.lock().unwrap().merge(obs);
                        running.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // progress monitor
            let mut started: BTreeMap<usize, (usize, u64)> = BTreeMap::new();
            while running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for (t, s) in slots.iter().enumerate() {
                    let idx = s.index.load(Ordering::SeqCst);
                    if idx == usize::MAX {
                        started.remove(&t);
                        continue;
                    }
                    let tid = s.tid.load(Ordering::SeqCst);
                    match started.get(&t) {
                        Some((i, ticks0)) if *i == idx => {
                            if let Some(now) = thread_cpu_ticks(tid) {
                                if now.saturating_sub(*ticks0) > STALL_CPU_SECS * 100 {
                                    *stalled.lock().unwrap() = Some(idx);
                                }
                            }
                        }
                        _ => {
                            if let Some(now) = thread_cpu_ticks(tid) {
                                started.insert(t, (idx, now));
                            }
                        }
                    }
                }
                if let Some(idx) = *stalled.lock().unwrap() {
                    // the worker cannot be cancelled: write the verdict from here and leave
                    let v = Viol {
                        workload: workload.to_owned(),
                        index: idx,
                        message: format!(
                            "no progress: the case consumed more than {STALL_CPU_SECS} s of CPU time without returning"
                        ),
                        detail: String::new(),
                    };
                    let evals = this.evaluations + done.load(Ordering::Relaxed);
                    let path = this.write_replay(0, &v);
                    this.write_evidence(evals, 1, &this.obs);
                    println!("violation: {}", v.message);
                    println!("VIOLATION property={} replay={}", this.id, path.display());
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
            }
        });
        let d = done.load(Ordering::Relaxed);
        self.evaluations += d;
        *self.workloads.entry(workload.to_owned()).or_insert(0) += d;
        let mut vs = viols.into_inner().unwrap();
        vs.sort_by_key(|v| v.index);
        if d == 0 && n > 0 && vs.is_empty() {
            self.inconclusive.push(format!("workload {workload} ran no case (time budget)"));
        }
        self.viols.extend(vs);
        self.obs.merge(merged.into_inner().unwrap());
    }

    /// The monitor must have observed at least `min` events of this name; otherwise the run is inconclusive.
    pub fn require(&mut self, counter: &str, min: u64) {
        if self.replay.is_some() || !self.viols.is_empty() {
            return;
        }
        let got = self.obs.counters.get(counter).copied().unwrap_or(0);
        let got = got.max(self.obs.sets.get(counter).map_or(0, |s| s.len() as u64));
        if got < min {
            self.inconclusive
                .push(format!("monitor observed only {got} `{counter}` events, needs {min}"));
        }
    }

    /// The named coverage set must contain every value of `all`.
    pub fn require_all(&mut self, set: &str, all: impl IntoIterator<Item = u64>) {
        if self.replay.is_some() || !self.viols.is_empty() {
            return;
        }
        let empty = HashSet::new();
        let s = self.obs.sets.get(set).unwrap_or(&empty);
        let missing: Vec<u64> = all.into_iter().filter(|v| !s.contains(v)).collect();
        if !missing.is_empty() {
            self.inconclusive.push(format!("coverage set `{set}` misses {missing:?}"));
        }
    }

    fn write_replay(&self, n: usize, v: &Viol) -> PathBuf {
        let dir = self.root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.txt", self.id, n));
        let mut s = String::new();
        let _ = writeln!(s, "property: {}", self.id);
        let _ = writeln!(s, "workload: {}", v.workload);
        let _ = writeln!(s, "case: {}", v.index);
        let _ = writeln!(s, "seed: {}", self.seed);
        let _ = writeln!(s, "tier: {}", self.tier);
        let _ = writeln!(
            s,
            "rerun: VERIF_SEED={} VERIF_TIER={} python3 /verif/run.py {} --case {} {}",
            self.seed, self.tier, self.id, v.workload, v.index
        );
        let _ = writeln!(s, "violation: {}", v.message);
        let _ = writeln!(s, "---- case ----\n{}", v.detail);
        let _ = fs::write(&path, s);
        path
    }

    fn write_evidence(&self, evals: u64, violations: usize, obs: &Obs) {
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
            js(&self.id),
            js(&self.tier),
            self.seed,
            js(self.level)
        );
        let _ = write!(
            j,
            "  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            obs.distinct.len(),
            js(&self.rule)
        );
        let _ = write!(
            j,
            "  \"samples\": [{}],\n",
            obs.samples.iter().take(6).map(|s| js(s)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(
            j,
            "  \"workloads\": {{{}}},\n",
            self.workloads.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(
            j,
            "  \"observed_events\": {{{}}},\n",
            obs.counters.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(
            j,
            "  \"distinct_values_observed\": {{{}}},\n",
            obs.sets.iter().map(|(k, v)| format!("{}: {}", js(k), v.len())).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(
            j,
            "  \"maxima\": {{{}}},\n",
            obs.maxima.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(j, "  \"exhaustive\": {}\n }},\n", self.exhaustive);
        let _ = write!(
            j,
            " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            violations
        );
        let dir = self.root.join("evidence");
        let _ = fs::create_dir_all(&dir);
        let _ = fs::write(dir.join(format!("{}.json", self.id)), j);
    }

    /// Report a known finding observed in this run (signature must be listed in known-findings.txt).
    pub fn finish(mut self) -> ! {
        let mut known_seen: BTreeMap<String, String> = BTreeMap::new();
        let known = self.known.clone();
        self.viols.retain(|v| {
            if let Some(sig) = v.message.strip_prefix("sig=").and_then(|m| m.split(' ').next()) {
                if let Some((s, d)) = known.iter().find(|(s, _)| s == sig) {
                    known_seen.insert(s.clone(), d.clone());
                    return false;
                }
            }
            true
        });
        for (s, m) in &self.obs.known {
            if let Some((_, d)) = known.iter().find(|(k, _)| k == s) {
                known_seen.insert(s.clone(), d.clone());
            } else {
                self.viols.push(Viol {
                    workload: "known".into(),
                    index: 0,
                    message: m.clone(),
                    detail: String::new(),
                });
            }
        }
        if self.replay.is_some() {
            for v in &self.viols {
                println!("violation: {}", v.message);
            }
            let _ = std::io::stdout().flush();
            std::process::exit(i32::from(!self.viols.is_empty()));
        }
        self.write_evidence(self.evaluations, self.viols.len(), &self.obs);
        for (s, d) in &known_seen {
            println!("KNOWN-FINDING: property={} {} {}", self.id, s, d);
        }
        println!(
            "{}: {} cases, {} distinct, {:.1}s, events {:?}",
            self.id,
            self.evaluations,
            self.obs.distinct.len(),
            self.start.elapsed().as_secs_f64(),
            self.obs.counters
        );
        let sets: BTreeMap<_, _> = self.obs.sets.iter().map(|(k, v)| (k, v.len())).collect();
        println!("  distinct values {sets:?} maxima {:?}", self.obs.maxima);
        if !self.viols.is_empty() {
            for (n, v) in self.viols.iter().enumerate() {
                let p = self.write_replay(n, v);
                println!("violation [{} #{}]: {}", v.workload, v.index, v.message);
                println!("VIOLATION property={} replay={}", self.id, p.display());
            }
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
        if !self.inconclusive.is_empty() {
            for m in &self.inconclusive {
                println!("INCONCLUSIVE property={} {}", self.id, m);
            }
            std::process::exit(2);
        }
        std::process::exit(0);
    }
}

fn thread_cpu_ticks_fast(_tid: u64, _i: usize) -> u64 {
    0
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

/// Compare two values and describe the difference.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {{
        if !$c {
            return Err(format!($($arg)*));
        }
    }};
}
