//! Stateless choice-point explorer.
//!
//! A *family* is a closed system: a body that runs the real code once and asks `Ch::choose(n)`
//! wherever the environment (input, operation, read answer, fault, ...) is free. The explorer runs
//! the body for every answer vector, i.e. enumerates the complete choice tree, splitting it over
//! worker threads. Nothing is sampled: a family is either exhausted or reported as capped.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

/// A property violation observed in one execution.
pub struct Fail {
    /// Identifies a listed finding, if this might be one.
    pub key: Option<String>,
    pub msg: String,
}

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: None, msg: msg.into() })
}

pub fn fail_key<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: Some(key.into()), msg: msg.into() })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::engine::fail(format!($($arg)*));
        }
    };
}

pub type Outcome = Result<(), Fail>;

/// A panic payload used by the engine itself; never to be mistaken for a panic of the code
/// under test.
pub struct EnginePanic(pub String);

/// The source of answers for one execution.
pub struct Ch {
    prefix: Vec<u64>,
    trace: Vec<u64>,
    arity: Vec<u64>,
    /// Exclusive upper bound for the answer at each position (may be below the arity when part of
    /// the subtree has been given to another worker).
    limit: Vec<u64>,
    states: Option<HashSet<u64>>,
    outcomes: HashSet<u64>,
    state_cap_hit: bool,
    steps: u64,
    skipped: u64,
    notes: Option<Vec<String>>,
    log: Option<std::fs::File>,
    log_buf: Vec<u8>,
}

const STATE_CAP: usize = 1_500_000;

impl Ch {
    fn new() -> Self {
        Ch {
            prefix: Vec::new(),
            trace: Vec::new(),
            arity: Vec::new(),
            limit: Vec::new(),
            states: Some(HashSet::new()),
            outcomes: HashSet::new(),
            state_cap_hit: false,
            steps: 0,
            skipped: 0,
            notes: None,
            log: None,
            log_buf: Vec::new(),
        }
    }

    /// The answers so far.
    pub fn choices(&self) -> &[u64] {
        &self.trace
    }

    /// A source that gives these answers.
    pub fn replaying(choices: &[u64]) -> Ch {
        Ch { prefix: choices.to_vec(), ..Ch::new() }
    }

    /// Asks for one of `n` answers.
    pub fn choose(&mut self, n: usize) -> usize {
        self.choose64(n as u64) as usize
    }

    pub fn choose64(&mut self, n: u64) -> u64 {
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if n == 0 || c >= n {
            std::panic::resume_unwind(Box::new(EnginePanic(format!(
                "choice point {} has {} answers, but answer {} was recorded (diverging replay)",
                i, n, c
            ))));
        }
        if i < self.arity.len() {
            if self.arity[i] != n {
                std::panic::resume_unwind(Box::new(EnginePanic(format!(
                    "choice point {} changed arity from {} to {} on replay",
                    i, self.arity[i], n
                ))));
            }
        } else {
            self.arity.push(n);
            self.limit.push(n);
        }
        self.trace.push(c);
        if let Some(f) = &self.log {
            use std::os::unix::fs::FileExt;
            self.log_buf.clear();
            self.log_buf.extend_from_slice(&c.to_le_bytes());
            let _ = f.write_all_at(&self.log_buf, 8 + 8 * i as u64);
            let _ = f.write_all_at(&(self.trace.len() as u64).to_le_bytes(), 0);
        }
        c
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.choose(items.len());
        &items[i]
    }

    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// An integer in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }

    /// Records that the (abstract) state with the given hash has been reached.
    pub fn state<T: std::hash::Hash + ?Sized>(&mut self, s: &T) {
        if let Some(set) = &mut self.states {
            if set.len() < STATE_CAP {
                set.insert(hash(s));
            } else {
                self.state_cap_hit = true;
            }
        }
    }

    /// Records one distinct observed outcome.
    pub fn outcome<T: std::hash::Hash + ?Sized>(&mut self, s: &T) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(hash(s));
        }
    }

    /// Counts one operation of the code under test that was compared with the reference.
    pub fn step(&mut self) {
        self.steps += 1;
    }

    pub fn steps(&mut self, n: usize) {
        self.steps += n as u64;
    }

    /// Marks this execution as outside of the family (filtered choice combination).
    pub fn skip(&mut self) -> Outcome {
        self.skipped += 1;
        Ok(())
    }

    /// Adds a line to the human readable description of this execution (only when replaying).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(n) = &mut self.notes {
            n.push(f());
        }
    }

    pub fn noting(&self) -> bool {
        self.notes.is_some()
    }

    pub fn depth(&self) -> usize {
        self.trace.len()
    }
}

pub fn hash<T: std::hash::Hash + ?Sized>(s: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub struct Family {
    pub name: String,
    /// What is enumerated, with the bounds.
    pub bounds: String,
    pub body: Box<dyn Fn(&mut Ch) -> Outcome + Sync + Send>,
}

pub fn family(
    name: &str,
    bounds: impl Into<String>,
    body: impl Fn(&mut Ch) -> Outcome + Sync + Send + 'static,
) -> Family {
    Family { name: name.to_string(), bounds: bounds.into(), body: Box::new(body) }
}

// ---------------------------------------------------------------------------------------------
// Running the code under test

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

/// Runs the code under test; a panic is returned as `Err` with its message and location.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<EnginePanic>() {
                std::panic::resume_unwind(p);
            }
            Err(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}

/// As [`sut`], but a panic is a violation.
pub fn no_panic<R>(what: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, Fail> {
    match sut(f) {
        Ok(r) => Ok(r),
        Err(p) => fail(format!("{}: panicked: {}", what(), p)),
    }
}

// ---------------------------------------------------------------------------------------------
// Exploration

struct Job {
    prefix: Vec<u64>,
    /// The answers at the position after `prefix` that belong to this job.
    lo: u64,
    hi: u64, // exclusive; 0 = whole subtree below prefix
}

struct Shared {
    queue: Mutex<Vec<Job>>,
    cv: Condvar,
    idle: AtomicUsize,
    queued: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    execs: AtomicU64,
    found: Mutex<Vec<(Vec<u64>, Fail)>>,
    harness_error: Mutex<Option<String>>,
    known: Mutex<BTreeMap<String, (u64, String)>>,
    last: Mutex<Option<Vec<u64>>>,
}

#[derive(Default)]
pub struct FamilyStats {
    pub name: String,
    pub bounds: String,
    pub execs: u64,
    pub skipped: u64,
    pub states: u64,
    pub state_cap_hit: bool,
    pub steps: u64,
    pub edges: u64,
    pub max_depth: usize,
    pub outcomes: u64,
    pub capped: bool,
    pub wall: f64,
    pub last: Option<Vec<u64>>,
}

pub struct RunCfg {
    pub threads: usize,
    pub deadline: Instant,
    pub stack: usize,
    pub known_keys: Vec<String>,
    pub careful_dir: Option<String>,
    pub exec_limit: Duration,
}

pub enum FamilyResult {
    Held(FamilyStats, BTreeMap<String, (u64, String)>),
    Violated { choices: Vec<u64>, msg: String, stats: FamilyStats, known: BTreeMap<String, (u64, String)> },
    HarnessError(String),
}

struct WorkerOut {
    states: HashSet<u64>,
    state_cap_hit: bool,
    outcomes: HashSet<u64>,
    steps: u64,
    skipped: u64,
    edges: u64,
    execs: u64,
    max_depth: usize,
}

/// Set by workers: start time (ms since `EPOCH`) of the execution in progress, 0 when none.
static STARTED: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

pub fn explore(fam: &Family, cfg: &RunCfg) -> FamilyResult {
    let t0 = Instant::now();
    let sh = Shared {
        queue: Mutex::new(vec![Job { prefix: vec![], lo: 0, hi: 0 }]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        queued: AtomicUsize::new(1),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        execs: AtomicU64::new(0),
        found: Mutex::new(Vec::new()),
        harness_error: Mutex::new(None),
        known: Mutex::new(BTreeMap::new()),
        last: Mutex::new(None),
    };
    let done = AtomicBool::new(false);
    let outs: Vec<WorkerOut> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..cfg.threads)
            .map(|w| {
                let sh = &sh;
                std::thread::Builder::new()
                    .stack_size(cfg.stack)
                    .name(format!("worker{}", w))
                    .spawn_scoped(scope, move || worker(fam, cfg, sh, w, t0))
                    .expect("spawn worker")
            })
            .collect();
        // Watchdog
        let done = &done;
        scope.spawn(move || {
            while !done.load(Acquire) {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for (w, s) in STARTED.iter().enumerate().take(cfg.threads) {
                    let s = s.load(Acquire);
                    if s != 0 && now.saturating_sub(s) > cfg.exec_limit.as_millis() as u64 {
                        eprintln!("watchdog: worker {} has not finished one execution of family {} within {:?}", w, fam.name, cfg.exec_limit);
                        if let Some(dir) = &cfg.careful_dir {
                            let _ = std::fs::write(format!("{}/hung", dir), format!("{}", w));
                        }
                        std::process::exit(77);
                    }
                }
            }
        });
        let outs = handles.into_iter().map(|h| h.join().expect("worker")).collect();
        done.store(true, Release);
        outs
    });
    if let Some(e) = sh.harness_error.lock().unwrap().take() {
        return FamilyResult::HarnessError(e);
    }
    let mut st = FamilyStats {
        name: fam.name.clone(),
        bounds: fam.bounds.clone(),
        capped: sh.capped.load(Relaxed),
        wall: t0.elapsed().as_secs_f64(),
        last: sh.last.lock().unwrap().take(),
        ..Default::default()
    };
    let mut states = HashSet::new();
    let mut outcomes = HashSet::new();
    for o in outs {
        st.execs += o.execs;
        st.skipped += o.skipped;
        st.steps += o.steps;
        st.edges += o.edges;
        st.max_depth = st.max_depth.max(o.max_depth);
        st.state_cap_hit |= o.state_cap_hit;
        if states.is_empty() { states = o.states } else { states.extend(o.states) }
        outcomes.extend(o.outcomes);
    }
    st.states = states.len() as u64;
    st.outcomes = outcomes.len() as u64;
    let known = std::mem::take(&mut *sh.known.lock().unwrap());
    let mut found = std::mem::take(&mut *sh.found.lock().unwrap());
    if found.is_empty() {
        FamilyResult::Held(st, known)
    } else {
        found.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
        let (choices, f) = found.swap_remove(0);
        FamilyResult::Violated { choices, msg: f.msg, stats: st, known }
    }
}

fn worker(fam: &Family, cfg: &RunCfg, sh: &Shared, w: usize, t0: Instant) -> WorkerOut {
    let mut ch = Ch::new();
    let mut out = WorkerOut {
        states: HashSet::new(),
        state_cap_hit: false,
        outcomes: HashSet::new(),
        steps: 0,
        skipped: 0,
        edges: 0,
        execs: 0,
        max_depth: 0,
    };
    if let Some(dir) = &cfg.careful_dir {
        ch.log = std::fs::OpenOptions::new()
            .create(true)
            .truncate(true)
            .write(true)
            .open(format!("{}/worker{}", dir, w))
            .ok();
    }
    'jobs: loop {
        // Get a job
        let job = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Relaxed) {
                    break 'jobs;
                }
                if let Some(j) = q.pop() {
                    sh.queued.fetch_sub(1, Relaxed);
                    break j;
                }
                let idle = sh.idle.fetch_add(1, AcqRel) + 1;
                if idle == cfg.threads {
                    sh.cv.notify_all();
                    sh.idle.fetch_sub(1, AcqRel);
                    sh.stop.store(true, Relaxed);
                    break 'jobs;
                }
                // With a time limit, so that a stop signalled without the lock is not missed
                q = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                if !sh.stop.load(Relaxed) {
                    sh.idle.fetch_sub(1, AcqRel);
                }
            }
        };
        let root = job.prefix.len();
        ch.prefix = job.prefix;
        ch.arity.clear();
        ch.limit.clear();
        let whole = job.hi == 0;
        if !whole {
            ch.prefix.push(job.lo);
        }
        let mut first = true;
        let mut n = 0u64;
        loop {
            // Run one execution
            ch.trace.clear();
            if ch.log.is_some() {
                use std::os::unix::fs::FileExt;
                let _ = ch.log.as_ref().unwrap().write_all_at(&0u64.to_le_bytes(), 0);
            }
            let known_len = ch.arity.len();
            STARTED[w].store(t0.elapsed().as_millis() as u64 + 1, Release);
            let res = catch_unwind(AssertUnwindSafe(|| (fam.body)(&mut ch)));
            STARTED[w].store(0, Release);
            out.execs += 1;
            out.edges += (ch.arity.len() - known_len.min(ch.arity.len())) as u64 + 1;
            out.max_depth = out.max_depth.max(ch.trace.len());
            n += 1;
            match res {
                Ok(Ok(())) => (),
                Ok(Err(f)) => {
                    let is_known = f.key.as_ref().map(|k| cfg.known_keys.contains(k)).unwrap_or(false);
                    if is_known {
                        let mut k = sh.known.lock().unwrap();
                        k.entry(f.key.clone().unwrap()).or_insert_with(|| (0, f.msg.clone())).0 += 1;
                    } else {
                        sh.found.lock().unwrap().push((ch.trace.clone(), f));
                        sh.stop.store(true, Relaxed);
                        sh.cv.notify_all();
                        break 'jobs;
                    }
                }
                Err(p) => {
                    let m = match p.downcast_ref::<EnginePanic>() {
                        Some(e) => e.0.clone(),
                        None => LAST_PANIC.with(|p| p.borrow().clone()),
                    };
                    *sh.harness_error.lock().unwrap() =
                        Some(format!("family {}: {} (choices {:?})", fam.name, m, ch.trace));
                    sh.stop.store(true, Relaxed);
                    sh.cv.notify_all();
                    break 'jobs;
                }
            }
            if ch.trace.len() < ch.prefix.len() {
                *sh.harness_error.lock().unwrap() = Some(format!(
                    "family {}: execution ended after {} choices, {} were recorded (diverging replay)",
                    fam.name, ch.trace.len(), ch.prefix.len()));
                sh.stop.store(true, Relaxed);
                sh.cv.notify_all();
                break 'jobs;
            }
            if first {
                first = false;
                if !whole {
                    ch.limit[root] = job.hi;
                }
            }
            if n % 64 == 0 || sh.idle.load(Relaxed) > 0 {
                if sh.stop.load(Relaxed) {
                    break 'jobs;
                }
                if Instant::now() > cfg.deadline {
                    sh.capped.store(true, Relaxed);
                    sh.stop.store(true, Relaxed);
                    sh.cv.notify_all();
                    break 'jobs;
                }
                // Give away the shallowest open alternative
                if sh.idle.load(Relaxed) > sh.queued.load(Relaxed) {
                    for i in root..ch.trace.len() {
                        let c = ch.trace[i];
                        let open = ch.limit[i] - (c + 1);
                        if open > 0 {
                            let mid = c + 1 + open / 2;
                            let job = Job { prefix: ch.trace[..i].to_vec(), lo: mid, hi: ch.limit[i] };
                            ch.limit[i] = mid;
                            let mut q = sh.queue.lock().unwrap();
                            q.push(job);
                            sh.queued.fetch_add(1, Relaxed);
                            sh.cv.notify_one();
                            break;
                        }
                    }
                }
            }
            // Next execution: advance the deepest open choice
            let mut i = ch.trace.len();
            loop {
                if i == root {
                    // Subtree exhausted
                    let mut l = sh.last.lock().unwrap();
                    if l.as_ref().map(|l| l < &ch.trace).unwrap_or(true) {
                        *l = Some(ch.trace.clone());
                    }
                    drop(l);
                    sh.execs.fetch_add(n, Relaxed);
                    continue 'jobs;
                }
                i -= 1;
                if ch.trace[i] + 1 < ch.limit[i] {
                    break;
                }
            }
            let c = ch.trace[i] + 1;
            ch.prefix.clear();
            ch.prefix.extend_from_slice(&ch.trace[..i]);
            ch.prefix.push(c);
            ch.arity.truncate(i + 1);
            ch.limit.truncate(i + 1);
        }
    }
    sh.cv.notify_all();
    out.states = ch.states.take().unwrap();
    out.state_cap_hit = ch.state_cap_hit;
    out.outcomes = std::mem::take(&mut ch.outcomes);
    out.steps = ch.steps;
    out.skipped = ch.skipped;
    out
}

/// Runs one execution with the given answers, returning its description and outcome.
pub fn replay(fam: &Family, choices: &[u64]) -> (Vec<String>, Result<Outcome, String>) {
    let mut ch = Ch::new();
    ch.prefix = choices.to_vec();
    ch.notes = Some(Vec::new());
    let res = catch_unwind(AssertUnwindSafe(|| (fam.body)(&mut ch)));
    let res = match res {
        Ok(o) => Ok(o),
        Err(p) => Err(match p.downcast_ref::<EnginePanic>() {
            Some(e) => e.0.clone(),
            None => LAST_PANIC.with(|p| p.borrow().clone()),
        }),
    };
    (ch.notes.take().unwrap(), res)
}
