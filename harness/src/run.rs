//! The runner: deterministic cases on several threads, verdicts, watchdog, evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::rng::{hash_bytes, mix, Rng};

/// CPU seconds one (small) case may burn before it is judged not to terminate. Cases take milliseconds.
const CASE_CPU_LIMIT_S: f64 = 45.0;
/// Resident memory at which the running cases are judged to grow without bound. Normal peak: < 1 GB.
const RSS_LIMIT_KB: u64 = 6 << 20;

#[derive(Default)]
pub struct Outcome {
    pub nontrivial: bool,
    pub hash: u64,
    pub counters: Vec<(&'static str, u64)>,
    pub sample: Option<String>,
}

impl Outcome {
    pub fn new(key: &[u8], nontrivial: bool) -> Self {
        Outcome {
            nontrivial,
            hash: hash_bytes(key),
            ..Default::default()
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        if n > 0 {
            self.counters.push((name, n));
        }
    }
}

/// A case's verdict. `Bad` is a violation of the property with its witness; `Harness` is an error of the check.
pub enum Fault {
    Bad(String),
    Harness(String),
}
pub type Verdict = Result<Outcome, Fault>;

impl From<String> for Fault {
    fn from(s: String) -> Self {
        Fault::Bad(s)
    }
}
impl From<&str> for Fault {
    fn from(s: &str) -> Self {
        Fault::Bad(s.to_string())
    }
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub rule: String,
    pub start: Instant,
    pub verif: PathBuf,
    pub only: Option<(String, usize)>,
    pub threads: usize,
    state: Mutex<State>,
    stop: AtomicBool,
}

#[derive(Default)]
struct State {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    stages: Vec<Value>,
    violations: Vec<String>,
    harness_errors: Vec<String>,
    exhaustive: Vec<String>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs code under test; a panic raised in it is a violation, a panic raised in the harness is a harness error.
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fault> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (loc, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or((String::new(), "panic".to_string()));
            if loc.starts_with("src/") || loc.contains("/verif/") {
                Err(Fault::Harness(format!("{what}: harness panic at {loc}: {msg}")))
            } else {
                Err(Fault::Bad(format!("{what}: panicked at {loc}: {msg}")))
            }
        }
    }
}

struct Slot {
    tid: u64,
    case: Option<(String, usize, f64)>,
}

fn thread_cpu_s(tid: u64) -> Option<f64> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = stat.rsplit_once(") ")?.1;
    let f: Vec<&str> = rest.split(' ').collect();
    let ut: f64 = f.get(11)?.parse().ok()?;
    let st: f64 = f.get(12)?.parse().ok()?;
    Some((ut + st) / 100.0)
}

fn rss_kb() -> u64 {
    std::fs::read_to_string("/proc/self/status")
        .ok()
        .and_then(|s| {
            s.lines()
                .find(|l| l.starts_with("VmRSS:"))
                .and_then(|l| l.split_whitespace().nth(1)?.parse().ok())
        })
        .unwrap_or(0)
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name()?.to_str()?.parse().ok())
        .unwrap_or(0)
}

impl Ctx {
    pub fn new(id: &str) -> Self {
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let verif = PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()));
        let only = std::env::var("VH_ONLY").ok().and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        if ["C01", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C17", "C18", "C19", "C25"].contains(&id) {
            crate::gen::ADORNED_MAX.store(usize::MAX, std::sync::atomic::Ordering::Relaxed);
        }
        Ctx {
            id: id.to_string(),
            seed,
            thorough,
            rule: String::new(),
            start: Instant::now(),
            verif,
            only,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
            state: Mutex::new(State::default()),
            stop: AtomicBool::new(false),
        }
    }

    /// Number of cases, or seconds: `quick` for the quick tier, `thorough` for the thorough one.
    pub fn tier(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn failed(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    pub fn note(&self, name: &str, n: u64) {
        *self.state.lock().unwrap().counters.entry(name.to_string()).or_insert(0) += n;
    }

    pub fn exhaustive(&self, what: &str) {
        self.state.lock().unwrap().exhaustive.push(what.to_string());
    }

    /// Runs cases 0..n of a stage, at most `secs` wall seconds (then fewer cases, as the evidence says).
    pub fn stage<F>(&self, name: &str, n: usize, secs: usize, f: F)
    where
        F: Fn(&mut Rng, usize) -> Verdict + Sync,
    {
        self.stage_t(name, n, secs, self.threads, f)
    }

    pub fn stage_t<F>(&self, name: &str, n: usize, secs: usize, threads: usize, f: F)
    where
        F: Fn(&mut Rng, usize) -> Verdict + Sync,
    {
        if self.failed() {
            return;
        }
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        let t0 = Instant::now();
        let limit = Duration::from_secs(secs as u64);
        // Development only (mutate.py): a part of the cases.
        let n = match std::env::var("VH_SHARE").ok().and_then(|s| s.parse::<usize>().ok()) {
            Some(percent) => (n * percent / 100).max(n.min(8)),
            None => n,
        };
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let finished = AtomicBool::new(false);
        let slots: Vec<Mutex<Slot>> = (0..threads)
            .map(|_| Mutex::new(Slot { tid: 0, case: None }))
            .collect();
        std::thread::scope(|sc| {
            let mut handles = vec![];
            for slot in &slots {
                let (f, next, done) = (&f, &next, &done);
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let tid = my_tid();
                        slot.lock().unwrap().tid = tid;
                        let mut local = State::default();
                        loop {
                            if self.failed() || t0.elapsed() > limit {
                                break;
                            }
                            let mut i = next.fetch_add(1, Ordering::Relaxed);
                            if let Some((_, k)) = &self.only {
                                if i > 0 {
                                    break;
                                }
                                i = *k;
                            } else if i >= n {
                                break;
                            }
                            slot.lock().unwrap().case =
                                Some((name.to_string(), i, thread_cpu_s(tid).unwrap_or(0.0)));
                            let mut rng = Rng::new(
                                mix(self.seed) ^ hash_bytes(name.as_bytes()) ^ mix(i as u64 + 1),
                            );
                            crate::gen::no_adornment();
                            let r = guard("case", || f(&mut rng, i)).and_then(|r| r);
                            slot.lock().unwrap().case = None;
                            done.fetch_add(1, Ordering::Relaxed);
                            match r {
                                Ok(o) => {
                                    local.evaluations += 1;
                                    if o.nontrivial {
                                        local.distinct.insert(o.hash);
                                    }
                                    for (k, v) in o.counters {
                                        *local.counters.entry(k.to_string()).or_insert(0) += v;
                                    }
                                    if let Some(s) = o.sample {
                                        if local.samples.len() < 2 {
                                            local.samples.push(json!({"stage": name, "case": i, "input": s}));
                                        }
                                    }
                                }
                                Err(Fault::Bad(msg)) => {
                                    self.violation(name, i, &msg);
                                }
                                Err(Fault::Harness(msg)) => {
                                    self.harness_error(&format!("{name}:{i}: {msg}"));
                                }
                            }
                        }
                        let mut st = self.state.lock().unwrap();
                        st.evaluations += local.evaluations;
                        st.distinct.extend(local.distinct);
                        for (k, v) in local.counters {
                            *st.counters.entry(k).or_insert(0) += v;
                        }
                        if st.samples.len() < 12 {
                            let room = 12 - st.samples.len();
                            st.samples.extend(local.samples.into_iter().take(room.min(2)));
                        }
                    })
                    .expect("spawn");
                handles.push(h);
            }
            let (slots, finished) = (&slots, &finished);
            let watchdog = sc.spawn(move || {
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(200));
                    let big = rss_kb() > RSS_LIMIT_KB;
                    for slot in slots.iter() {
                        let s = slot.lock().unwrap();
                        if let Some((stage, i, cpu0)) = &s.case {
                            let used = thread_cpu_s(s.tid).unwrap_or(0.0) - cpu0;
                            if used > CASE_CPU_LIMIT_S || (big && used > 2.0) {
                                let msg = format!(
                                    "does not terminate: this small case has used {used:.0} s of CPU{}",
                                    if big { " and memory grows without bound" } else { "" }
                                );
                                self.violation(stage, *i, &msg);
                                // the stuck thread cannot be joined: report and leave
                                std::process::exit(self.report());
                            }
                        }
                    }
                }
            });
            for h in handles {
                let _ = h.join();
            }
            finished.store(true, Ordering::Relaxed);
            let _ = watchdog.join();
        });
        let d = done.load(Ordering::Relaxed);
        self.state.lock().unwrap().stages.push(json!({
            "stage": name, "cases": d, "planned": n, "wall_s": t0.elapsed().as_secs_f64()
        }));
    }

    pub fn violation(&self, stage: &str, i: usize, msg: &str) {
        self.stop.store(true, Ordering::Relaxed);
        self.state
            .lock()
            .unwrap()
            .violations
            .push(format!("stage={stage} case={i} VH_ONLY={stage}:{i}\n{msg}"));
    }

    pub fn harness_error(&self, msg: &str) {
        self.stop.store(true, Ordering::Relaxed);
        self.state.lock().unwrap().harness_errors.push(msg.to_string());
    }

    /// Writes evidence and the verdict; the exit status.
    pub fn report(&self) -> i32 {
        let st = self.state.lock().unwrap();
        let tier = if self.thorough { "thorough" } else { "quick" };
        let mut coverage = json!({
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "rule": self.rule,
            "samples": st.samples,
            "observed": st.counters,
            "stages": st.stages,
        });
        if !st.exhaustive.is_empty() {
            coverage["exhaustive_parts"] = json!(st.exhaustive);
        }
        let ev = json!({
            "property": self.id,
            "tier": tier,
            "seed": self.seed,
            "level": if self.id == "C15" { "fault_enumeration" } else { "exploration" },
            "coverage": coverage,
            "assumptions": ["held on the executions observed, not proved", "the oracle in /verif/harness states the property"],
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": st.violations.len(),
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if self.only.is_none() {
            if let Err(e) = std::fs::write(
                dir.join(format!("{}.json", self.id)),
                serde_json::to_string_pretty(&ev).unwrap(),
            ) {
                eprintln!("cannot write evidence: {e}");
                return 3;
            }
        }
        for h in &st.harness_errors {
            eprintln!("HARNESS ERROR: {h}");
        }
        if let Some(v) = st.violations.first() {
            let rdir = self.verif.join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{}-{}-{}.txt", self.id, tier, self.seed));
            let _ = std::fs::write(
                &path,
                format!(
                    "property={} seed={} tier={}\nreplay: VERIF_SEED={} VERIF_TIER={} VH_ONLY=<stage:case below> bash /verif/run.sh {}\n\n{}\n",
                    self.id, self.seed, tier, self.seed, tier, self.id,
                    st.violations.join("\n\n----\n\n")
                ),
            );
            println!("{}", clip(v, 3000));
            println!("VIOLATION property={} replay={}", self.id, path.display());
            let _ = std::io::stdout().flush();
            return 1;
        }
        if !st.harness_errors.is_empty() {
            return 2;
        }
        println!(
            "{}: held on {} executions ({} distinct non-trivial), {:.1} s",
            self.id,
            st.evaluations,
            st.distinct.len(),
            self.start.elapsed().as_secs_f64()
        );
        if st.evaluations == 0 || (st.distinct.len() < 2 && self.only.is_none()) {
            eprintln!("HARNESS ERROR: nothing observed");
            return 2;
        }
        0
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}... ({} bytes)", &s[..k], s.len())
    }
}

pub fn scratch_root() -> PathBuf {
    Path::new(&std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/tmp/vh-scratch".into())).to_path_buf()
}
