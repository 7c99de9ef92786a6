//! A small stateless model checker.
//!
//! A *scenario* is a deterministic closure that drives the real code and asks its `Ctx` for every
//! decision: which operation comes next, which input octet, which answer the environment gives.
//! The explorer re-executes the closure once for every combination of answers (depth-first over
//! the choice tree, work shared between threads), so within the scenario's bounds every behaviour
//! is visited; each complete execution is judged by an oracle inside the closure.
//!
//! `Ctx::deviate` bounds departures from a default answer (a short read, an injected error)
//! instead of depth: all executions with at most `budget` departures are visited.
//!
//! Replaying a prefix must meet the same choice points (same arity) as when it was recorded;
//! anything else is an engine error (exit 2), because then the harness does not own all its
//! nondeterminism. The first executions of each scenario are run twice and compared.

use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Condvar, Mutex,
    },
    time::{Duration, Instant},
};

pub mod alloc;
pub mod json;
pub mod sig;

/// How one execution that breaks the property is described. `key` names the failing input, call
/// site or history in a way that is stable between runs; `msg` is for people.
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
/// Hash of what was observed (used to count distinct outcomes), or the failure.
pub type Leaf = Result<u64, Fail>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    let mut msg = msg.into();
    if msg.len() > 4000 {
        let cut = |mut at: usize| {
            while !msg.is_char_boundary(at) {
                at += 1;
            }
            at
        };
        msg = format!("{} [..] {}", &msg[..cut(2000)], &msg[cut(msg.len() - 1500)..]);
    }
    Err(Fail { key: key.into(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond { return $crate::fail($key, format!($($arg)*)); }
    };
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    // FNV-1a: stable between runs.
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

pub struct Ctx {
    prefix: Vec<(u32, u32)>,
    path: Vec<(u32, u32)>,
    dev_left: u32,
    /// Set when the execution is being replayed for a report: notes are kept.
    pub verbose: bool,
    notes: Vec<String>,
}

impl Ctx {
    fn new(prefix: &[(u32, u32)], dev: u32, verbose: bool) -> Self {
        Ctx {
            prefix: prefix.to_vec(),
            path: Vec::with_capacity(32),
            dev_left: dev,
            verbose,
            notes: vec![],
        }
    }

    /// One of `n` alternatives, all of which will be explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n <= u32::MAX as usize, "choose({n})");
        let pos = self.path.len();
        let c = if pos < self.prefix.len() {
            let (c, m) = self.prefix[pos];
            if m != n as u32 {
                engine_error(&format!(
                    "replay diverged at choice {pos}: {n} alternatives where {m} were recorded"
                ));
            }
            c
        } else {
            0
        };
        self.path.push((c, n as u32));
        c as usize
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.choose(xs.len());
        xs[i].clone()
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.choose((hi - lo + 1) as usize) as i64
    }

    /// The default answer 0, or (while the deviation budget lasts) one of 1..n.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.dev_left == 0 {
            self.choose(1)
        } else {
            let c = self.choose(n);
            if c != 0 {
                self.dev_left -= 1;
            }
            c
        }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push(s);
        }
    }
}

pub fn engine_error(msg: &str) -> ! {
    println!("ENGINE-ERROR: {msg}");
    sig::exit_now(2)
}

// ---------------------------------------------------------------- guarded calls into the code

thread_local! {
    static IN_GUARD: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub(crate) fn in_guard() -> bool {
    IN_GUARD.try_with(|g| g.get()).unwrap_or(false)
}

struct Slot {
    /// Milliseconds since start + 1 at which the current guard was entered, 0 outside.
    since: AtomicU64,
    what: Mutex<(String, String, Vec<(u32, u32)>)>,
}
const SLOTS: usize = 64;
static SLOT_TABLE: [Slot; SLOTS] = [const {
    Slot {
        since: AtomicU64::new(0),
        what: Mutex::new((String::new(), String::new(), Vec::new())),
    }
}; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
static HANG_MS: AtomicU64 = AtomicU64::new(60_000);
static CURRENT: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));

fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64
}

fn my_slot() -> &'static Slot {
    let i = SLOT.with(|s| {
        if s.get() == usize::MAX {
            s.set(NEXT_SLOT.fetch_add(1, SeqCst) % SLOTS);
        }
        s.get()
    });
    &SLOT_TABLE[i]
}

/// Default per-call memory allowance in bytes; see `guard_mem`.
pub const DEFAULT_MEM: usize = 256 << 20;

/// Runs a call into the code under test: a panic, an excessive allocation, an abort, a crash or
/// a call that does not return is a violation of whatever property is being checked.
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
    guard_mem(what, DEFAULT_MEM, f)
}

pub fn guard_mem<R>(what: &str, mem: usize, f: impl FnOnce() -> R) -> Result<R, Fail> {
    let slot = my_slot();
    let nested = IN_GUARD.with(|g| g.replace(true));
    assert!(!nested, "nested guard");
    alloc::begin(mem);
    slot.since.store(now_ms() + 1, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    slot.since.store(0, SeqCst);
    IN_GUARD.with(|g| g.set(false));
    let over = alloc::end();
    match r {
        Ok(v) => {
            if over > 0 {
                drop(v);
                return fail(
                    format!("memory:{what}"),
                    format!("{what}: asked for {over} bytes of memory (allowance {mem})"),
                );
            }
            Ok(v)
        }
        Err(_) => {
            let p = LAST_PANIC.with(|l| l.borrow().clone());
            fail(format!("panic:{what}"), format!("{what} panicked: {p}"))
        }
    }
}

pub fn install_hooks() {
    START.get_or_init(Instant::now);
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if in_guard() {
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("{msg} ({loc})"));
        } else {
            println!("harness panic: {msg} ({loc})");
        }
    }));
    sig::install();
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let limit = HANG_MS.load(SeqCst);
        for s in SLOT_TABLE.iter() {
            let t = s.since.load(SeqCst);
            if t != 0 && now_ms() + 1 > t + limit {
                let w = s.what.lock().unwrap().clone();
                emergency_report(&w, &format!("call did not return within {limit} ms"));
            }
        }
    });
}

/// Called for events after which the process cannot go on (hang, crash, memory exhaustion).
pub(crate) fn emergency_for_this_thread(msg: &str) -> ! {
    let w = my_slot()
        .what
        .try_lock()
        .map(|w| w.clone())
        .unwrap_or_default();
    emergency_report(&w, msg)
}

fn emergency_report(w: &(String, String, Vec<(u32, u32)>), msg: &str) -> ! {
    let file = write_replay(
        &w.0,
        &w.1,
        &w.2,
        &Fail {
            key: "crash".into(),
            msg: msg.into(),
        },
        &[],
    );
    println!("{msg} (scenario {}, choices {:?})", w.1, w.2);
    println!("VIOLATION property={} replay={}", w.0, file);
    sig::exit_now(1)
}

fn write_replay(prop: &str, scen: &str, path: &[(u32, u32)], f: &Fail, notes: &[String]) -> String {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{prop}.replay"));
    let mut s = String::new();
    let _ = writeln!(s, "property {prop}");
    let _ = writeln!(s, "scenario {scen}");
    let _ = writeln!(
        s,
        "choices {}",
        path.iter()
            .map(|(c, n)| format!("{c}/{n}"))
            .collect::<Vec<_>>()
            .join(" ")
    );
    let _ = writeln!(s, "key {}", f.key);
    let _ = writeln!(s, "message {}", f.msg);
    for n in notes {
        let _ = writeln!(s, "note {n}");
    }
    let _ = std::fs::write(&file, s);
    file.display().to_string()
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|| "/verif".into())
}

// ------------------------------------------------------------------------------ the explorer

#[derive(Default)]
struct Stats {
    choice_points: u64,
    transitions: u64,
    leaves: u64,
    max_depth: usize,
    outcomes: HashSet<u64>,
    outcomes_capped: bool,
}

#[derive(Clone)]
struct Task {
    path: Vec<(u32, u32)>,
    /// Choices before this position are fixed.
    base: usize,
}

struct Shared {
    queue: Mutex<(Vec<Task>, usize)>, // tasks, number of idle workers
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
}

pub struct Found {
    pub scenario: String,
    pub path: Vec<(u32, u32)>,
    pub fail: Fail,
    pub notes: Vec<String>,
}

pub struct Report {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    started: Instant,
    deadline: Instant,
    threads: usize,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, String>,
    found: Vec<Found>,
    tot: Stats,
    capped: Vec<String>,
    scen_lines: Vec<String>,
    samples: Vec<String>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub extra: Vec<(String, String)>,
    pub level: &'static str,
    replay: Option<(String, Vec<(u32, u32)>)>,
    only: Option<String>,
    collect_all: bool,
}

impl Report {
    /// Explores every execution of `f` (with at most `dev` deviations) and judges each.
    pub fn explore(&mut self, name: &str, dev: u32, f: impl Fn(&mut Ctx) -> Leaf + Sync) {
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if let Some((s, path)) = self.replay.clone() {
            if s == name {
                let mut cx = Ctx::new(&path, dev, true);
                set_current(&self.prop, name, &path);
                let r = f(&mut cx);
                for n in &cx.notes {
                    println!("note: {n}");
                }
                match r {
                    Ok(_) => println!("replay of {name}: property held"),
                    Err(e) => {
                        println!("replay of {name}: [{}] {}", e.key, e.msg);
                        self.found.push(Found {
                            scenario: name.into(),
                            path: cx.path.clone(),
                            fail: e,
                            notes: cx.notes.clone(),
                        });
                    }
                }
            }
            return;
        }
        if !self.found.is_empty() && !self.collect_all {
            return;
        }
        if Instant::now() >= self.deadline {
            self.capped.push(format!("{name} (not started)"));
            return;
        }
        let t0 = Instant::now();
        let shared = Shared {
            queue: Mutex::new((
                vec![Task {
                    path: vec![],
                    base: 0,
                }],
                0,
            )),
            cv: Condvar::new(),
            hungry: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
        };
        let fails: Mutex<Vec<Found>> = Mutex::new(vec![]);
        let known_hit: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let total: Mutex<Stats> = Mutex::new(Stats::default());
        let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
        let timed_out = AtomicBool::new(false);
        let me = &*self;
        let f = &f;
        *CURRENT.lock().unwrap() = (self.prop.clone(), name.to_string());
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || {
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            worker(me, name, dev, f, &shared, &fails, &known_hit, &total, &samples, &timed_out)
                        }));
                        if r.is_err() {
                            engine_error("the harness itself panicked");
                        }
                    })
                    .unwrap();
            }
        });
        let st = total.into_inner().unwrap();
        let secs = t0.elapsed().as_secs_f64();
        let line = format!(
            "{name}: executions={} choice_points={} transitions={} max_depth={} distinct_outcomes={}{} deviations<={dev} {:.2}s{}",
            st.leaves,
            st.choice_points,
            st.transitions,
            st.max_depth,
            st.outcomes.len(),
            if st.outcomes_capped { "+" } else { "" },
            secs,
            if timed_out.load(SeqCst) { " TIME CAP HIT" } else { "" }
        );
        println!("{line}");
        self.scen_lines.push(line);
        if timed_out.load(SeqCst) {
            self.capped.push(name.to_string());
        }
        self.tot.choice_points += st.choice_points;
        self.tot.transitions += st.transitions;
        self.tot.leaves += st.leaves;
        self.tot.max_depth = self.tot.max_depth.max(st.max_depth);
        for o in st.outcomes {
            self.tot.outcomes.insert(hash_of(&(name, o)));
        }
        self.tot.outcomes_capped |= st.outcomes_capped;
        for s in samples.into_inner().unwrap() {
            if self.samples.len() < 40 {
                self.samples.push(s);
            }
        }
        for (k, v) in known_hit.into_inner().unwrap() {
            self.known_hit.insert(k, v);
        }
        let mut fs = fails.into_inner().unwrap();
        fs.sort_by_key(|f| (f.path.len(), f.path.clone()));
        self.found.append(&mut fs);
    }

    /// Runs `f` on every item of a fixed list (each item is one execution).
    pub fn each<T: Sync + std::fmt::Debug>(
        &mut self,
        name: &str,
        items: &[T],
        f: impl Fn(&T) -> Leaf + Sync,
    ) {
        self.explore(name, 0, |cx| {
            let i = cx.choose(items.len());
            cx.note(|| {
                let s = format!("{:?}", items[i]);
                s.chars().take(2000).collect()
            });
            f(&items[i])
        });
    }

    pub fn note_assumption(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    pub fn quick(&self) -> bool {
        !self.thorough
    }

    /// `q` in the quick tier, `t` in the thorough one.
    pub fn tier<T>(&self, q: T, t: T) -> T {
        if self.thorough {
            t
        } else {
            q
        }
    }

    pub fn set_hang_limit(&self, ms: u64) {
        HANG_MS.store(ms, SeqCst);
    }
    pub fn set_threads(&mut self, n: usize) {
        self.threads = n;
    }
    /// Whether scenarios are skipped (replay of a single one, or a filter).
    pub fn wants(&self, name: &str) -> bool {
        if let Some((s, _)) = &self.replay {
            return s == name;
        }
        match &self.only {
            Some(o) => name.contains(o.as_str()),
            None => true,
        }
    }
}

fn set_current(prop: &str, scen: &str, path: &[(u32, u32)]) {
    let s = my_slot();
    let mut w = s.what.lock().unwrap();
    if w.0 != prop || w.1 != scen {
        w.0 = prop.into();
        w.1 = scen.into();
    }
    w.2.clear();
    w.2.extend_from_slice(path);
}

#[allow(clippy::too_many_arguments)]
fn worker(
    rep: &Report,
    name: &str,
    dev: u32,
    f: &(impl Fn(&mut Ctx) -> Leaf + Sync),
    sh: &Shared,
    fails: &Mutex<Vec<Found>>,
    known_hit: &Mutex<BTreeMap<String, String>>,
    total: &Mutex<Stats>,
    samples: &Mutex<Vec<String>>,
    timed_out: &AtomicBool,
) {
    let mut st = Stats::default();
    let nthreads = rep.threads;
    let mut seen_fail_keys: HashSet<String> = HashSet::new();
    'outer: loop {
        // take a task
        let task = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(SeqCst) {
                    break None;
                }
                if let Some(t) = q.0.pop() {
                    break Some(t);
                }
                q.1 += 1;
                sh.hungry.fetch_add(1, SeqCst);
                if q.1 == nthreads {
                    sh.stop.store(true, SeqCst);
                    sh.cv.notify_all();
                    break None;
                }
                q = sh.cv.wait(q).unwrap();
                q.1 -= 1;
                sh.hungry.fetch_sub(1, SeqCst);
            }
        };
        let Some(task) = task else { break 'outer };
        let mut cur = task.path; // replay prefix, last element is the newly taken alternative
        let base = task.base;
        // limit[i]: alternatives of position i that are ours
        let mut limits: Vec<u32> = cur.iter().map(|(c, _)| c + 1).collect();
        let mut fresh_from = cur.len().saturating_sub(1);
        let mut first_of_task = true;
        loop {
            if sh.stop.load(SeqCst) {
                break;
            }
            set_current(&rep.prop, name, &cur);
            let mut cx = Ctx::new(&cur, dev, false);
            let r = f(&mut cx);
            if cx.path.len() < cur.len() {
                engine_error(&format!(
                    "{name}: replay ended after {} of {} choices",
                    cx.path.len(),
                    cur.len()
                ));
            }
            let path = std::mem::take(&mut cx.path);
            for p in &path[limits.len()..] {
                limits.push(p.1);
            }
            // statistics: positions > fresh_from are new choice points, plus one edge at fresh_from
            let new_points = if first_of_task && cur.is_empty() {
                path.len()
            } else {
                path.len() - (fresh_from + 1)
            };
            first_of_task = false;
            st.choice_points += new_points as u64;
            st.transitions += (path.len() - fresh_from.min(path.len())) as u64;
            st.leaves += 1;
            st.max_depth = st.max_depth.max(path.len());
            let n_leaf = st.leaves;
            // determinism + samples
            let sample = n_leaf <= 2 || (n_leaf.is_power_of_two() && n_leaf < (1 << 20));
            if sample {
                let mut cx2 = Ctx::new(&path, dev, true);
                set_current(&rep.prop, name, &path);
                let r2 = f(&mut cx2);
                let same = match (&r, &r2) {
                    (Ok(a), Ok(b)) => a == b,
                    (Err(a), Err(b)) => a.key == b.key,
                    _ => false,
                };
                if !same || cx2.path != path {
                    engine_error(&format!(
                        "{name}: the same choices gave two different outcomes: {r:?} / {r2:?} at {path:?}"
                    ));
                }
                let mut s = samples.lock().unwrap();
                if s.len() < 4 {
                    let mut d = cx2.notes.join(" | ");
                    if d.len() > 600 {
                        d = d.chars().take(600).collect();
                    }
                    s.push(format!(
                        "{name} choices={} -> {} {d}",
                        path.iter()
                            .map(|p| p.0.to_string())
                            .collect::<Vec<_>>()
                            .join(","),
                        match &r {
                            Ok(h) => format!("ok outcome={h:016x}"),
                            Err(e) => format!("FAIL {}", e.key),
                        }
                    ));
                }
            }
            match r {
                Ok(h) => {
                    if st.outcomes.len() < 2_000_000 {
                        st.outcomes.insert(h);
                    } else {
                        st.outcomes_capped = true;
                    }
                }
                Err(e) => {
                    st.outcomes.insert(hash_of(&e.key));
                    let known = rep.known.iter().find(|(k, _)| *k == e.key);
                    if let Some((k, d)) = known {
                        known_hit.lock().unwrap().insert(k.clone(), d.clone());
                    } else if seen_fail_keys.insert(e.key.clone()) {
                        let mut cx2 = Ctx::new(&path, dev, true);
                        let r2 = f(&mut cx2);
                        if r2.is_ok() {
                            engine_error(&format!("{name}: failure not reproducible: {} {} at {path:?}", e.key, e.msg));
                        }
                        let mut fl = fails.lock().unwrap();
                        if !fl.iter().any(|x| x.fail.key == e.key) {
                            fl.push(Found {
                                scenario: name.into(),
                                path: path.clone(),
                                fail: e,
                                notes: cx2.notes,
                            });
                        }
                        if !rep.collect_all {
                            sh.stop.store(true, SeqCst);
                            let _q = sh.queue.lock().unwrap();
                            sh.cv.notify_all();
                        }
                    }
                }
            }
            if n_leaf % 16 == 0 || rep.thorough {
                if Instant::now() >= rep.deadline {
                    timed_out.store(true, SeqCst);
                    sh.stop.store(true, SeqCst);
                    let _q = sh.queue.lock().unwrap();
                    sh.cv.notify_all();
                    break;
                }
            }
            // share work
            if sh.hungry.load(SeqCst) > 0 {
                if let Some(i) = (base..path.len()).find(|&i| path[i].0 + 1 < limits[i]) {
                    let mut q = sh.queue.lock().unwrap();
                    if q.0.len() < nthreads {
                        for alt in (path[i].0 + 1..limits[i]).rev() {
                            let mut p = path[..=i].to_vec();
                            p[i].0 = alt;
                            q.0.push(Task { base: i + 1, path: p });
                        }
                        limits[i] = path[i].0 + 1;
                        sh.cv.notify_all();
                    }
                }
            }
            // next path
            let mut next = path;
            let mut found = None;
            for i in (base..next.len()).rev() {
                if next[i].0 + 1 < limits[i] {
                    found = Some(i);
                    break;
                }
            }
            match found {
                Some(i) => {
                    next.truncate(i + 1);
                    next[i].0 += 1;
                    limits.truncate(i + 1);
                    fresh_from = i;
                    cur = next;
                }
                None => break,
            }
        }
    }
    let mut t = total.lock().unwrap();
    t.choice_points += st.choice_points;
    t.transitions += st.transitions;
    t.leaves += st.leaves;
    t.max_depth = t.max_depth.max(st.max_depth);
    t.outcomes_capped |= st.outcomes_capped;
    if t.outcomes.len() < 4_000_000 {
        t.outcomes.extend(st.outcomes);
    }
}

/// Every value `f` can produce, in depth-first order (for checks that run their cases in batches).
pub fn enumerate<T>(mut f: impl FnMut(&mut Ctx) -> T) -> Vec<T> {
    let mut out = vec![];
    let mut cur: Vec<(u32, u32)> = vec![];
    loop {
        let mut cx = Ctx::new(&cur, 0, false);
        out.push(f(&mut cx));
        let mut path = cx.path;
        while let Some((c, n)) = path.pop() {
            if c + 1 < n {
                path.push((c + 1, n));
                break;
            }
        }
        if path.is_empty() {
            return out;
        }
        cur = path;
    }
}

// ------------------------------------------------------------------------------------- main

pub type PropFn = fn(&mut Report);

/// `<bin> check <ID>` or `<bin> replay <file>`; the tier comes from VERIF_TIER.
pub fn main_with(props: &[(&str, PropFn)]) -> ! {
    install_hooks();
    let args: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let cap = std::env::var("MC_CAP_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 780 } else { 420 });
    let mut replay = None;
    let id = match args.get(1).map(String::as_str) {
        Some("check") => args.get(2).cloned().unwrap_or_default(),
        Some("replay") => {
            let txt = std::fs::read_to_string(&args[2]).unwrap_or_default();
            let get = |k: &str| {
                txt.lines()
                    .find_map(|l| l.strip_prefix(&format!("{k} ")))
                    .unwrap_or("")
                    .to_string()
            };
            let path = get("choices")
                .split_whitespace()
                .filter_map(|c| {
                    let (a, b) = c.split_once('/')?;
                    Some((a.parse().ok()?, b.parse().ok()?))
                })
                .collect();
            replay = Some((get("scenario"), path));
            get("property")
        }
        _ => {
            eprintln!("usage: {} check ID | replay FILE", args[0]);
            std::process::exit(2);
        }
    };
    let Some((_, f)) = props.iter().find(|(p, _)| *p == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    if replay.is_none() {
        sig::silence_stderr(); // the code under test warns a lot
    }
    let started = Instant::now();
    let mut rep = Report {
        prop: id.clone(),
        thorough,
        seed,
        started,
        deadline: started + Duration::from_secs(cap),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
        known: load_known(&id),
        known_hit: BTreeMap::new(),
        found: vec![],
        tot: Stats::default(),
        capped: vec![],
        scen_lines: vec![],
        samples: vec![],
        rule: String::new(),
        assumptions: vec![],
        extra: vec![],
        level: "model_checking",
        replay,
        only: std::env::var("MC_ONLY").ok(),
        collect_all: std::env::var("MC_ALL").is_ok(),
    };
    f(&mut rep);
    finish(rep)
}

fn load_known(id: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    txt.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("key=")?;
            let (k, d) = rest.split_once(' ')?;
            (p == id).then(|| (k.to_string(), d.to_string()))
        })
        .collect()
}

fn finish(rep: Report) -> ! {
    for (k, d) in &rep.known_hit {
        println!("KNOWN-FINDING: property={} {} [{}]", rep.prop, d, k);
    }
    if rep.replay.is_some() {
        std::process::exit(if rep.found.is_empty() { 0 } else { 1 });
    }
    let violated = !rep.found.is_empty();
    if !violated && rep.tot.leaves == 0 {
        println!("ENGINE-ERROR: nothing was explored");
        std::process::exit(2);
    }
    let mut j = json::Obj::new();
    j.str("property", &rep.prop);
    j.str("tier", if rep.thorough { "thorough" } else { "quick" });
    j.raw("seed", &rep.seed.to_string());
    j.str("level", rep.level);
    j.raw("wall_s", &format!("{:.3}", rep.started.elapsed().as_secs_f64()));
    j.raw("violations", &rep.found.len().to_string());
    let mut c = json::Obj::new();
    c.raw("states", &rep.tot.choice_points.to_string());
    c.raw("transitions", &rep.tot.transitions.to_string());
    c.raw("traces_validated_against_impl", &rep.tot.leaves.to_string());
    c.raw("distinct_outcomes", &rep.tot.outcomes.len().to_string());
    if rep.level != "model_checking" {
        c.raw("evaluations", &rep.tot.leaves.to_string());
        c.raw("distinct_nontrivial", &rep.tot.outcomes.len().to_string());
    }
    c.raw("max_depth", &rep.tot.max_depth.to_string());
    c.raw("exhaustive", if rep.capped.is_empty() && !violated { "true" } else { "false" });
    c.str("rule", &rep.rule);
    c.str("counting", "states: choice points of the execution tree; transitions: choices taken; traces_validated_against_impl: complete executions of the real code, each judged by the oracle; distinct_outcomes: different observations among them");
    c.list("scenarios", &rep.scen_lines);
    c.list("caps_hit", &rep.capped);
    c.list("samples", &rep.samples);
    for (k, v) in &rep.extra {
        c.str(k, v);
    }
    j.raw("coverage", &c.done());
    j.list("assumptions", &rep.assumptions);
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", rep.prop));
    if let Err(e) = std::fs::write(&path, j.done() + "\n") {
        engine_error(&format!("cannot write {}: {e}", path.display()));
    }
    println!(
        "{}: {} executions, {} choice points, {} transitions, {} distinct outcomes, {:.1}s{}",
        rep.prop,
        rep.tot.leaves,
        rep.tot.choice_points,
        rep.tot.transitions,
        rep.tot.outcomes.len(),
        rep.started.elapsed().as_secs_f64(),
        if rep.capped.is_empty() { "" } else { " (time cap hit)" }
    );
    if violated {
        for f in rep.found.iter().skip(1) {
            println!("also: {} [{}] {} {:?}", f.scenario, f.fail.key, f.fail.msg,
              f.path.iter().map(|p| p.0).collect::<Vec<_>>());
            for n in &f.notes { println!("      note: {n}"); }
        }
        let f = &rep.found[0];
        let file = write_replay(&rep.prop, &f.scenario, &f.path, &f.fail, &f.notes);
        println!("{} [{}] {}", f.scenario, f.fail.key, f.fail.msg);
        for n in &f.notes {
            println!("  note: {n}");
        }
        println!("VIOLATION property={} replay={}", rep.prop, file);
        std::process::exit(1);
    }
    std::process::exit(0);
}
