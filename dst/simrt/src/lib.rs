//! Deterministic simulator core.
//!
//! Simulated tasks are OS threads of which exactly one runs at a time; a single recorded
//! stream of choices decides every scheduling step, fault and generated input. Value 0 of
//! every choice is the benign default (keep running, no fault, smallest input), so a failing
//! run is minimised by turning choices into 0 and cutting the tail.

use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub mod interpose;

pub type TaskId = usize;
pub type ProcId = usize;

/// Payload used to unwind a task that the simulator ends (run over or process killed).
pub struct SimAbort;

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed ^ 0x9e37_79b9_7f4a_7c15;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a | 1, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn mix(h: u64, v: u64) -> u64 {
    let mut s = h.rotate_left(5) ^ v.wrapping_mul(0xff51_afd7_ed55_8ccd);
    splitmix(&mut s)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(x));
    }
    h
}

pub enum Source {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

// ---------------------------------------------------------------- run state

enum TState {
    Ready,
    Waiting(Box<dyn FnMut() -> bool + Send>, Option<u64>),
    Sleeping(u64),
    WaitProc(ProcId),
    Done,
}

struct Task {
    proc: ProcId,
    name: String,
    state: TState,
    signal: Arc<(Mutex<bool>, Condvar)>,
    killed: bool,
    timed_out: bool,
    tag: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Knobs {
    /// probability (out of 1000) that a yield switches to another task
    pub switch_permille: u64,
    /// process that is starved in this run, if any
    pub starve: Option<ProcId>,
    /// faults permitted in this run, by name prefix
    pub faults: Vec<String>,
    /// probability scale of faults (per mille at each opportunity)
    pub fault_permille: u64,
    pub fault_budget: u64,
    pub max_steps: u64,
}

pub struct Report {
    pub seed: u64,
    pub choices: Vec<u64>,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub violations: Vec<(String, String)>,
    pub log: Vec<String>,
    pub ended: Ended,
    pub panics: Vec<(ProcId, String, String)>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ended {
    Finished,
    Deadlock(String),
    StepLimit,
    MainPanic(String),
}

struct Run {
    src: Source,
    rec: Vec<u64>,
    tasks: Vec<Task>,
    now: u64,
    wall_skew: i64,
    steps: u64,
    switches: u64,
    trace_hash: u64,
    sched_hash: u64,
    knobs: Knobs,
    faults: BTreeMap<String, u64>,
    faults_total: u64,
    probes: BTreeMap<String, u64>,
    violations: Vec<(String, String)>,
    log: Vec<String>,
    ended: Option<Ended>,
    panics: Vec<(ProcId, String, String)>,
    dead_procs: Vec<ProcId>,
    cur: TaskId,
    version: u64,
    keep_log: bool,
    done_main: bool,
    threads: Vec<(TaskId, std::thread::JoinHandle<()>)>,
    parked: Vec<TaskId>,
    kept: Vec<TaskId>,
    exit_codes: BTreeMap<ProcId, i32>,
    exited: usize,
    args: BTreeMap<ProcId, Vec<String>>,
    envs: BTreeMap<(ProcId, String), String>,
    stalled: BTreeMap<ProcId, u64>,
}

/// Also print log lines as they come (for debugging a run that kills the worker).
pub static LIVE_LOG: AtomicBool = AtomicBool::new(false);
static RUN: Mutex<Option<Run>> = Mutex::new(None);
static ABORT: AtomicBool = AtomicBool::new(false);
static MAIN_DONE: (Mutex<bool>, Condvar) = (Mutex::new(false), Condvar::new());
static ACTIVE: AtomicBool = AtomicBool::new(false);
static CUR_TASK: AtomicUsize = AtomicUsize::new(usize::MAX);
static SWITCH_HOOK: Mutex<Option<fn(ProcId, ProcId)>> = Mutex::new(None);
pub static FIELD_PREEMPT: AtomicBool = AtomicBool::new(false);
static FIELD_COUNT: AtomicU64 = AtomicU64::new(0);
static FIELD_NEXT: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

fn lock() -> MutexGuard<'static, Option<Run>> {
    RUN.lock().unwrap_or_else(|e| e.into_inner())
}
fn with<R>(f: impl FnOnce(&mut Run) -> R) -> Option<R> {
    IN_SIM.with(|c| c.set(true));
    let mut g = lock();
    let r = g.as_mut().map(f);
    drop(g);
    IN_SIM.with(|c| c.set(false));
    r
}

/// Is the calling thread a simulated task (and not inside the simulator itself)?
pub fn in_task() -> bool {
    TASK.try_with(|t| t.get() != usize::MAX).unwrap_or(false)
        && !IN_SIM.try_with(|c| c.get()).unwrap_or(true)
}
pub fn aborting() -> bool {
    ABORT.load(Ordering::Relaxed)
}
pub fn current_task() -> TaskId {
    TASK.with(|t| t.get())
}
pub fn current_proc() -> ProcId {
    let t = current_task();
    if t == usize::MAX {
        return 0;
    }
    with(|r| r.tasks[t].proc).unwrap_or(0)
}
/// True when the calling task is being torn down (its process crashed or the run is over):
/// every seam then does nothing, so that no destructor has an effect a real crash would not.
pub fn dying() -> bool {
    let t = current_task();
    if t == usize::MAX {
        return false;
    }
    aborting() || with(|r| r.tasks[t].killed).unwrap_or(true)
}

/// What the calling task works for: inherited by the tasks it starts in the same process.
pub fn set_tag(v: u64) {
    let t = current_task();
    if t != usize::MAX {
        with(|r| r.tasks[t].tag = v);
    }
}
pub fn tag() -> u64 {
    let t = current_task();
    if t == usize::MAX {
        return 0;
    }
    with(|r| r.tasks[t].tag).unwrap_or(0)
}

pub fn set_switch_hook(f: fn(ProcId, ProcId)) {
    *SWITCH_HOOK.lock().unwrap() = Some(f);
}

// ---------------------------------------------------------------- choices

impl Run {
    fn choose(&mut self, n: u64, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Source::Random(r) => gen(r),
            Source::Replay(v, pos) => {
                let x = v.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                x
            }
        };
        let v = if n == u64::MAX { v } else { v % n };
        self.rec.push(v);
        mirror_push(v);
        self.trace_hash = mix(self.trace_hash, v);
        v
    }
}

/// Uniform in 0..n.
pub fn choose(n: u64) -> u64 {
    with(|r| r.choose(n, |g| g.below(n))).unwrap_or(0)
}
pub fn choose_usize(n: usize) -> usize {
    choose(n as u64) as usize
}
/// lo..=hi, smaller preferred on minimisation
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose((hi - lo + 1) as u64) as usize
}
/// true with probability permille/1000; false is the benign value
pub fn flip(permille: u64) -> bool {
    with(|r| r.choose(2, |g| (g.below(1000) < permille) as u64)).unwrap_or(0) == 1
}
/// 0 with the given probability, otherwise uniform over the rest
pub fn mostly_zero(n: u64, zero_permille: u64) -> u64 {
    with(|r| {
        r.choose(n, |g| {
            if g.below(1000) < zero_permille {
                0
            } else {
                g.below(n)
            }
        })
    })
    .unwrap_or(0)
}
pub fn entropy() -> u64 {
    with(|r| r.choose(u64::MAX, |g| g.next())).unwrap_or(0)
}

/// A fault opportunity. Fires only if this fault kind is enabled for the run.
pub fn fault(kind: &str) -> bool {
    if dying() {
        return false;
    }
    with(|r| {
        if !r.knobs.faults.iter().any(|f| kind.starts_with(f.as_str()))
            || r.faults_total >= r.knobs.fault_budget
        {
            return false;
        }
        let p = r.knobs.fault_permille;
        let v = r.choose(2, |g| (g.below(1000) < p) as u64) == 1;
        if v {
            r.faults_total += 1;
            *r.faults.entry(kind.to_string()).or_insert(0) += 1;
            r.trace_hash = mix(r.trace_hash, hash_bytes(kind.as_bytes()));
            if r.keep_log {
                let m = format!("t={} FAULT {kind}", r.now);
                r.log.push(m);
            }
        }
        v
    })
    .unwrap_or(false)
}
/// How often a fault has been injected in this run.
pub fn fault_count(kind: &str) -> u64 {
    with(|r| r.faults.get(kind).copied().unwrap_or(0) as u64).unwrap_or(0)
}
/// Counts a fault that the scenario itself decided to inject.
pub fn note_fault(kind: &str) {
    with(|r| {
        *r.faults.entry(kind.to_string()).or_insert(0) += 1;
        if r.keep_log {
            let m = format!("t={} FAULT {kind}", r.now);
            r.log.push(m);
        }
    });
}
pub fn stop_faults() {
    with(|r| r.knobs.faults.clear());
}
pub fn probe(name: &str) {
    with(|r| *r.probes.entry(name.to_string()).or_insert(0) += 1);
}
pub fn probe_n(name: &str, n: u64) {
    with(|r| *r.probes.entry(name.to_string()).or_insert(0) += n);
}
pub fn log(msg: impl FnOnce() -> String) {
    if with(|r| r.keep_log).unwrap_or(false) {
        let m = msg();
        with(|r| {
            let m = format!("t={} p{} {}", r.now, r.tasks[r.cur].proc, m);
            r.trace_hash = mix(r.trace_hash, hash_bytes(m.as_bytes()));
            if LIVE_LOG.load(Ordering::Relaxed) {
                eprintln!("{m}");
            }
            r.log.push(m)
        });
    }
}
/// Observations that must be identical in a replay.
pub fn observe(v: u64) {
    with(|r| r.trace_hash = mix(r.trace_hash, v));
}
pub fn violation(property: &str, msg: String) {
    with(|r| {
        if r.keep_log {
            r.log.push(format!("VIOLATION {property}: {msg}"));
        }
        r.violations.push((property.to_string(), msg));
    });
}
pub fn violated() -> bool {
    with(|r| !r.violations.is_empty()).unwrap_or(false)
}
pub fn knobs<R>(f: impl FnOnce(&mut Knobs) -> R) -> R {
    with(|r| f(&mut r.knobs)).unwrap()
}

// ---------------------------------------------------------------- time

pub fn now_ns() -> u64 {
    with(|r| {
        r.now += 100;
        r.now
    })
    .unwrap_or(0)
}
pub const WALL_BASE_NS: i64 = 1_700_000_000_000_000_000;
pub fn wall_ns() -> i64 {
    with(|r| {
        r.now += 100;
        WALL_BASE_NS + r.now as i64 + r.wall_skew
    })
    .unwrap_or(0)
}
pub fn skew_wall(d: i64) {
    with(|r| r.wall_skew += d);
}
/// Process `p` gets no processor time for `ns` (as after SIGSTOP, or swapped out).
pub fn stall_proc(p: ProcId, ns: u64) {
    with(|r| {
        let u = r.now + ns;
        r.stalled.insert(p, u)
    });
}
pub fn sleep_ns(ns: u64) {
    if current_task() == usize::MAX || dying() {
        return;
    }
    block(|r, t| r.tasks[t].state = TState::Sleeping(r.now + ns));
}

// ---------------------------------------------------------------- scheduling

/// A state change that other tasks may be waiting for.
pub fn bump() {
    with(|r| r.version += 1);
}
pub fn version() -> u64 {
    with(|r| r.version).unwrap_or(0)
}

/// Gives the scheduler the opportunity to run somebody else.
pub fn yield_now() {
    if current_task() == usize::MAX || dying() {
        check_dying();
        return;
    }
    block(|_, _| {});
}

fn check_dying() {
    if current_task() != usize::MAX && dying() && !std::thread::panicking() {
        resume_unwind(Box::new(SimAbort));
    }
}

/// Blocks until `pred` holds. `pred` must not call into the simulator.
pub fn wait_until(pred: impl FnMut() -> bool + Send + 'static) {
    if dying() {
        check_dying();
        return;
    }
    let p: Box<dyn FnMut() -> bool + Send> = Box::new(pred);
    block(move |r, t| r.tasks[t].state = TState::Waiting(p, None));
}
/// As `wait_until`, but gives up after `ns`; returns false then.
pub fn wait_until_timeout(pred: impl FnMut() -> bool + Send + 'static, ns: u64) -> bool {
    if dying() {
        check_dying();
        return false;
    }
    let p: Box<dyn FnMut() -> bool + Send> = Box::new(pred);
    block(move |r, t| {
        r.tasks[t].timed_out = false;
        let dl = r.now + ns;
        r.tasks[t].state = TState::Waiting(p, Some(dl))
    });
    !with(|r| std::mem::take(&mut r.tasks[current_task()].timed_out)).unwrap_or(false)
}

fn block(f: impl FnOnce(&mut Run, TaskId)) {
    let me = current_task();
    let next = with(|r| {
        f(r, me);
        r.pick(Some(me))
    });
    hand_over(me, next.flatten());
}

impl Run {
    fn end(&mut self, e: Ended) {
        if self.ended.is_none() {
            self.ended = Some(e);
        }
        ABORT.store(true, Ordering::SeqCst);
    }

    fn describe(&self) -> String {
        self.tasks
            .iter()
            .enumerate()
            .filter(|(_, t)| !matches!(t.state, TState::Done))
            .map(|(i, t)| {
                let s = match t.state {
                    TState::Ready => "ready",
                    TState::Waiting(..) => "waiting",
                    TState::Sleeping(_) => "sleeping",
                    TState::WaitProc(_) => "waiting for a process",
                    TState::Done => "done",
                };
                format!("task{} p{} {} {}", i, t.proc, t.name, s)
            })
            .collect::<Vec<_>>()
            .join("; ")
    }

    /// Chooses the next task to run; None ends the run.
    fn pick(&mut self, me: Option<TaskId>) -> Option<TaskId> {
        if ABORT.load(Ordering::SeqCst) {
            return None;
        }
        self.steps += 1;
        self.now += 1000;
        if self.steps > self.knobs.max_steps {
            self.end(Ended::StepLimit);
            return None;
        }
        loop {
            let mut cands: Vec<TaskId> = vec![];
            for i in 0..self.tasks.len() {
                let mut st = std::mem::replace(&mut self.tasks[i].state, TState::Done);
                let ok = if self.tasks[i].killed && !matches!(st, TState::Done) {
                    st = TState::Ready;
                    true
                } else {
                    match &mut st {
                        TState::Ready => true,
                        TState::Waiting(p, dl) => {
                            if p() {
                                true
                            } else if matches!(dl, Some(d) if *d <= self.now) {
                                self.tasks[i].timed_out = true;
                                true
                            } else {
                                false
                            }
                        }
                        TState::Sleeping(t) => *t <= self.now,
                        TState::WaitProc(p) => self.dead_procs.contains(p),
                        TState::Done => false,
                    }
                };
                self.tasks[i].state = st;
                let held = !self.tasks[i].killed
                    && self.stalled.get(&self.tasks[i].proc).is_some_and(|u| *u > self.now);
                if ok && !held {
                    cands.push(i);
                }
            }
            if cands.is_empty() {
                // advance the clock
                let next = self
                    .tasks
                    .iter()
                    .filter_map(|t| match t.state {
                        TState::Sleeping(w) => Some(w),
                        TState::Waiting(_, Some(d)) => Some(d),
                        _ => None,
                    })
                    .chain(self.stalled.values().copied())
                    .filter(|w| *w > self.now)
                    .min();
                match next {
                    Some(w) => {
                        self.now = self.now.max(w);
                        continue;
                    }
                    None => {
                        let d = self.describe();
                        self.end(Ended::Deadlock(d));
                        return None;
                    }
                }
            }
            // order: current task first, then the others in cyclic id order
            let pivot = me.unwrap_or(0);
            cands.sort_by_key(|&c| (c + self.tasks.len() - pivot) % self.tasks.len());
            let n = cands.len() as u64;
            let me_first = me == Some(cands[0]);
            let sw = self.knobs.switch_permille;
            let starve = self.knobs.starve;
            let procs: Vec<ProcId> = cands.iter().map(|&c| self.tasks[c].proc).collect();
            let k = self.choose(n, |g| {
                let mut pick = if me_first {
                    if g.below(1000) < sw {
                        1 + g.below(n - 1)
                    } else {
                        0
                    }
                } else {
                    g.below(n)
                };
                if let Some(s) = starve {
                    if procs[pick as usize] == s && g.below(100) < 90 {
                        if let Some(j) = procs.iter().position(|&p| p != s) {
                            pick = j as u64;
                        }
                    }
                }
                pick
            });
            let t = cands[k as usize];
            self.tasks[t].state = TState::Ready;
            if me != Some(t) {
                self.switches += 1;
                self.sched_hash = mix(self.sched_hash, (t as u64) << 32 | self.version & 0xffff);
            }
            self.cur = t;
            return Some(t);
        }
    }
}

fn proc_of(t: TaskId) -> ProcId {
    with(|r| r.tasks[t].proc).unwrap_or(0)
}

fn hand_over(me: TaskId, next: Option<TaskId>) {
    match next {
        Some(t) if t == me => {}
        Some(t) => {
            switch_to(me, t);
            wait_baton(me);
        }
        None => {
            // the run is over
            wake_all();
        }
    }
    check_dying();
}
fn switch_to(me: TaskId, t: TaskId) {
    let (a, b) = (proc_of(me), proc_of(t));
    if a != b {
        let h = *SWITCH_HOOK.lock().unwrap();
        if let Some(h) = h {
            h(a, b);
        }
    }
    CUR_TASK.store(t, Ordering::SeqCst);
    let sig = with(|r| r.tasks[t].signal.clone()).unwrap();
    let mut g = sig.0.lock().unwrap();
    *g = true;
    sig.1.notify_one();
}
fn wait_baton(me: TaskId) {
    let sig = with(|r| r.tasks[me].signal.clone()).unwrap();
    let mut g = sig.0.lock().unwrap();
    while !*g {
        if aborting() {
            return;
        }
        g = sig.1.wait(g).unwrap();
    }
    *g = false;
}
fn wake_all() {
    let sigs = with(|r| r.tasks.iter().map(|t| t.signal.clone()).collect::<Vec<_>>());
    for s in sigs.unwrap_or_default() {
        let _g = s.0.lock().unwrap();
        s.1.notify_all();
    }
    let mut g = MAIN_DONE.0.lock().unwrap_or_else(|e| e.into_inner());
    *g = true;
    MAIN_DONE.1.notify_all();
}

// ---------------------------------------------------------------- tasks and processes

pub struct Joiner<T> {
    pub task: TaskId,
    slot: Arc<Mutex<Option<Result<T, Box<dyn Any + Send>>>>>,
}
impl<T: Send + 'static> Joiner<T> {
    pub fn is_done(&self) -> bool {
        self.slot.lock().unwrap().is_some()
    }
    pub fn join(self) -> Result<T, Box<dyn Any + Send>> {
        let s = self.slot.clone();
        wait_until(move || s.lock().unwrap().is_some());
        let r = self.slot.lock().unwrap().take();
        match r {
            Some(r) => r,
            None => resume_unwind(Box::new(SimAbort)),
        }
    }
    pub fn take(&self) -> Option<Result<T, Box<dyn Any + Send>>> {
        self.slot.lock().unwrap().take()
    }
}

struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}

pub fn spawn<T: 'static>(proc: ProcId, name: &str, f: impl FnOnce() -> T + 'static) -> Joiner<T> {
    let slot: Arc<Mutex<Option<Result<T, Box<dyn Any + Send>>>>> = Arc::new(Mutex::new(None));
    let signal = Arc::new((Mutex::new(false), Condvar::new()));
    let me = current_task();
    let id = with(|r| {
        let tag = r.tasks.get(me).filter(|t| t.proc == proc).map_or(0, |t| t.tag);
        r.tasks.push(Task {
            tag,
            proc,
            name: name.to_string(),
            state: TState::Ready,
            signal: signal.clone(),
            killed: r.dead_procs.contains(&proc),
            timed_out: false,
        });
        r.tasks.len() - 1
    })
    .expect("no simulation is running");
    let f = AssertSend(f);
    let slot2 = AssertSend(slot.clone());
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let f = f;
            let slot2 = slot2;
            TASK.with(|t| t.set(id));
            wait_baton(id);
            let res = if dying() {
                Err(Box::new(SimAbort) as Box<dyn Any + Send>)
            } else {
                let ff = AssertUnwindSafe(move || (f.0)());
                catch_unwind(ff)
            };
            finish(id, res, &slot2.0);
        })
        .expect("cannot start a thread");
    let over = with(|r| {
        r.threads.push((id, h));
        let mut over = vec![];
        if r.threads.len() >= 64 {
            let all = std::mem::take(&mut r.threads);
            for (i, h) in all {
                if h.is_finished() || r.parked.contains(&i) {
                    over.push((i, h))
                } else {
                    r.threads.push((i, h))
                }
            }
        }
        over
    });
    // finished threads give their stacks back
    for (i, h) in over.unwrap_or_default() {
        if with(|r| r.parked.contains(&i)).unwrap_or(false) {
            join_exited(h);
        } else {
            let _ = h.join();
        }
    }
    Joiner { task: id, slot }
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if e.is::<SimAbort>() {
        "(ended by the simulator)".into()
    } else if let Some(x) = e.downcast_ref::<ProcExit>() {
        format!("(process exit {})", x.0)
    } else {
        "(unknown panic)".into()
    }
}

fn finish<T>(
    id: TaskId,
    res: Result<T, Box<dyn Any + Send>>,
    slot: &Mutex<Option<Result<T, Box<dyn Any + Send>>>>,
) {
    if let Err(e) = &res {
        if !e.is::<SimAbort>() {
            let txt = panic_text(e.as_ref());
            with(|r| {
                let p = r.tasks[id].proc;
                let n = r.tasks[id].name.clone();
                if r.keep_log {
                    let m = format!("t={} p{p} task {n} panicked: {txt}", r.now);
                    r.log.push(m);
                }
                r.trace_hash = mix(r.trace_hash, hash_bytes(txt.as_bytes()));
                r.panics.push((p, n, txt));
            });
        }
    }
    *slot.lock().unwrap() = Some(res);
    let next = with(|r| {
        r.tasks[id].state = TState::Done;
        r.version += 1;
        r.exited += 1;
        if id == 0 {
            r.done_main = true;
            ABORT.store(true, Ordering::SeqCst);
            None
        } else {
            r.pick(None)
        }
    })
    .flatten();
    match next {
        Some(t) => switch_to(id, t),
        None => wake_all(),
    }
}

pub struct ProcExit(pub i32);

/// Ends a whole simulated process at once: only what is outside it survives.
pub fn kill_proc(p: ProcId) {
    log(|| format!("process {p} ends, exit code {:?}", exit_code(p)));
    with(|r| {
        if !r.dead_procs.contains(&p) {
            r.dead_procs.push(p);
        }
        for t in r.tasks.iter_mut() {
            if t.proc == p && !matches!(t.state, TState::Done) {
                t.killed = true;
            }
        }
        r.version += 1;
    });
    let hooks = EXIT_HOOKS.lock().unwrap().clone();
    for h in hooks {
        h(p);
    }
}
/// Ends the process the calling task belongs to, as `exit` does. Never returns and does not unwind
/// (its callers inside std cannot): the thread ends where it is, or stays parked if `keep`.
pub fn proc_exit(code: i32, keep: bool) -> ! {
    let me = current_task();
    let p = current_proc();
    if !dying() {
        set_exit_code(p, code);
        kill_proc(p);
    }
    let next = with(|r| {
        if keep {
            r.kept.push(me);
        } else {
            r.parked.push(me);
        }
        r.tasks[me].state = TState::Done;
        r.version += 1;
        if ABORT.load(Ordering::SeqCst) {
            return None;
        }
        if me == 0 {
            ABORT.store(true, Ordering::SeqCst);
            return None;
        }
        r.pick(None)
    })
    .flatten();
    match next {
        Some(t) => switch_to(me, t),
        None => wake_all(),
    }
    if !keep {
        unsafe { libc::syscall(libc::SYS_exit, 0) };
    }
    loop {
        std::thread::park();
    }
}
/// Waits for a thread that has left or is about to leave through `proc_exit`.
fn join_exited(h: std::thread::JoinHandle<()>) {
    use std::os::unix::thread::JoinHandleExt;
    unsafe { libc::pthread_join(h.into_pthread_t(), std::ptr::null_mut()) };
}
pub fn set_exit_code(p: ProcId, code: i32) {
    with(|r| { r.exit_codes.entry(p).or_insert(code); });
}
pub fn exit_code(p: ProcId) -> Option<i32> {
    with(|r| r.exit_codes.get(&p).copied()).flatten()
}
/// Starts a simulated process: when its main function ends, everything in it ends.
pub fn start_proc(p: ProcId, name: &str, main: impl FnOnce() + 'static) {
    spawn(p, name, move || {
        let r = catch_unwind(AssertUnwindSafe(main));
        let killed = with(|r| r.tasks[current_task()].killed).unwrap_or(true);
        if !aborting() && !killed {
            set_exit_code(p, if r.is_ok() { 0 } else { 101 });
            if r.is_err() {
                if let Err(e) = &r {
                    let txt = panic_text(e.as_ref());
                    log(|| format!("main of process {p} panicked: {txt}"));
                    with(|r| r.panics.push((p, "main".into(), txt)));
                }
            }
            kill_proc(p);
        }
        if let Err(e) = r {
            if e.is::<SimAbort>() {
                resume_unwind(e);
            }
        }
    });
}
pub fn wait_proc(p: ProcId) -> Option<i32> {
    wait_until_proc_dead(p);
    exit_code(p)
}
fn wait_until_proc_dead(p: ProcId) {
    while !proc_dead(p) {
        let v = version();
        let t = now_ns();
        let _ = (v, t);
        if current_task() == usize::MAX {
            return;
        }
        block(move |r, t| {
            r.tasks[t].state = TState::WaitProc(p);
        });
    }
}
pub fn proc_dead(p: ProcId) -> bool {
    with(|r| r.dead_procs.contains(&p)).unwrap_or(true)
}
pub fn die_if_killed() {
    check_dying();
}
static EXIT_HOOKS: Mutex<Vec<fn(ProcId)>> = Mutex::new(Vec::new());
/// Called with the simulator unlocked whenever a process ends (crash or normal exit).
pub fn add_exit_hook(f: fn(ProcId)) {
    let mut g = EXIT_HOOKS.lock().unwrap();
    if !g.iter().any(|h| *h as usize == f as usize) {
        g.push(f);
    }
}
pub fn task_alive(t: TaskId) -> bool {
    with(|r| !matches!(r.tasks[t].state, TState::Done)).unwrap_or(false)
}
/// panics recorded so far for a process
pub fn panics_of(p: ProcId) -> Vec<String> {
    with(|r| {
        r.panics
            .iter()
            .filter(|x| x.0 == p)
            .map(|x| format!("{}: {}", x.1, x.2))
            .collect()
    })
    .unwrap_or_default()
}
pub fn live_tasks(p: ProcId) -> Vec<String> {
    with(|r| {
        r.tasks
            .iter()
            .filter(|t| t.proc == p && !matches!(t.state, TState::Done))
            .map(|t| t.name.clone())
            .collect()
    })
    .unwrap_or_default()
}

pub fn set_args(p: ProcId, a: Vec<String>) {
    with(|r| r.args.insert(p, a));
}
pub fn args() -> Vec<String> {
    let p = current_proc();
    with(|r| r.args.get(&p).cloned()).flatten().unwrap_or_else(|| vec!["client".into()])
}
pub fn set_env(p: ProcId, k: &str, v: &str) {
    with(|r| r.envs.insert((p, k.to_string()), v.to_string()));
}
pub fn get_env(k: &str) -> Option<String> {
    let p = current_proc();
    with(|r| r.envs.get(&(p, k.to_string())).cloned()).flatten()
}

// ---------------------------------------------------------------- field-operation preemption

/// Called by the arithmetic model on every multiplication/addition.
#[inline(always)]
pub fn field_tick() {
    if FIELD_PREEMPT.load(Ordering::Relaxed) {
        field_tick_slow();
    }
}
#[cold]
fn field_tick_slow() {
    if !in_task() || dying() {
        return;
    }
    let c = FIELD_COUNT.fetch_add(1, Ordering::Relaxed);
    if c >= FIELD_NEXT.load(Ordering::Relaxed) {
        FIELD_NEXT.store(u64::MAX, Ordering::Relaxed);
        yield_now();
        let gap = 1 + choose(200);
        FIELD_NEXT.store(FIELD_COUNT.load(Ordering::Relaxed) + gap, Ordering::Relaxed);
    }
}
static PREEMPT_DEPTH: AtomicUsize = AtomicUsize::new(0);
pub fn preempt_begin() {
    if PREEMPT_DEPTH.fetch_add(1, Ordering::SeqCst) == 0 {
        FIELD_COUNT.store(0, Ordering::Relaxed);
        FIELD_NEXT.store(choose(50), Ordering::Relaxed);
        FIELD_PREEMPT.store(true, Ordering::Relaxed);
    }
}
pub fn preempt_end() {
    if PREEMPT_DEPTH.fetch_sub(1, Ordering::SeqCst) == 1 {
        FIELD_PREEMPT.store(false, Ordering::Relaxed);
    }
}

// ---------------------------------------------------------------- running

pub struct RunCfg {
    pub seed: u64,
    pub replay: Option<Vec<u64>>,
    pub knobs: Knobs,
    pub keep_log: bool,
}

static RUN_LOCK: Mutex<()> = Mutex::new(());
static RESET_HOOKS: Mutex<Vec<fn()>> = Mutex::new(Vec::new());
/// Called before each run to clear the state of a seam.
pub fn add_reset_hook(f: fn()) {
    let mut g = RESET_HOOKS.lock().unwrap();
    if !g.iter().any(|h| *h as usize == f as usize) {
        g.push(f);
    }
}

pub fn run(cfg: RunCfg, main: impl FnOnce() + Send + 'static) -> Report {
    let _one = RUN_LOCK.lock().unwrap_or_else(|e| e.into_inner());
    interpose::install_panic_hook();
    for h in RESET_HOOKS.lock().unwrap().clone() {
        h();
    }
    GENERATION.fetch_add(1, Ordering::SeqCst);
    mirror_reset();
    ABORT.store(false, Ordering::SeqCst);
    FIELD_PREEMPT.store(false, Ordering::SeqCst);
    PREEMPT_DEPTH.store(0, Ordering::SeqCst);
    *MAIN_DONE.0.lock().unwrap_or_else(|e| e.into_inner()) = false;
    {
        let mut g = lock();
        *g = Some(Run {
            src: match cfg.replay {
                Some(v) => Source::Replay(v, 0),
                None => Source::Random(Rng::new(cfg.seed)),
            },
            rec: vec![],
            tasks: vec![],
            now: 0,
            wall_skew: 0,
            steps: 0,
            switches: 0,
            trace_hash: 0,
            sched_hash: 0,
            knobs: cfg.knobs,
            faults: BTreeMap::new(),
            faults_total: 0,
            probes: BTreeMap::new(),
            violations: vec![],
            log: vec![],
            ended: None,
            panics: vec![],
            dead_procs: vec![],
            cur: 0,
            version: 0,
            keep_log: cfg.keep_log,
            done_main: false,
            threads: vec![],
            parked: vec![],
            kept: vec![],
            exit_codes: BTreeMap::new(),
            exited: 0,
            args: BTreeMap::new(),
            envs: BTreeMap::new(),
        stalled: BTreeMap::new(),
        });
    }
    ACTIVE.store(true, Ordering::SeqCst);
    let j = spawn(0, "main", main);
    // start
    CUR_TASK.store(0, Ordering::SeqCst);
    {
        let sig = with(|r| r.tasks[0].signal.clone()).unwrap();
        *sig.0.lock().unwrap() = true;
        sig.1.notify_one();
    }
    {
        let mut g = MAIN_DONE.0.lock().unwrap_or_else(|e| e.into_inner());
        while !*g {
            g = MAIN_DONE.1.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    // everybody unwinds
    loop {
        let hs = with(|r| std::mem::take(&mut r.threads)).unwrap();
        if hs.is_empty() {
            break;
        }
        wake_all();
        for (id, h) in hs {
            // a thread that called exit() never unwinds
            while !h.is_finished() && !with(|r| r.parked.contains(&id) || r.kept.contains(&id)).unwrap() {
                std::thread::yield_now();
            }
            if with(|r| r.parked.contains(&id)).unwrap() {
                join_exited(h);
            } else if h.is_finished() {
                let _ = h.join();
            }
        }
    }
    ACTIVE.store(false, Ordering::SeqCst);
    let main_res = j.take();
    let r = lock().take().unwrap();
    let ended = match (r.ended, main_res) {
        (Some(e), _) => e,
        (None, Some(Err(e))) if !e.is::<SimAbort>() => Ended::MainPanic(panic_text(e.as_ref())),
        _ => Ended::Finished,
    };
    Report {
        seed: cfg.seed,
        choices: r.rec,
        trace_hash: mix(r.trace_hash, r.now),
        sched_hash: r.sched_hash,
        steps: r.steps,
        switches: r.switches,
        sim_ns: r.now,
        faults: r.faults,
        probes: r.probes,
        violations: r.violations,
        log: r.log,
        ended,
        panics: r.panics,
    }
}

/// A preemption opportunity inside a long computation of the model.
pub fn preempt_point() {
    if FIELD_PREEMPT.load(Ordering::Relaxed) && in_task() && !dying() {
        yield_now();
    }
}

// ---------------------------------------------------------------- choice mirror
/// Every recorded choice is also written to this memory, so that a parent process still has
/// the schedule when the worker dies of a signal. Layout: [count, choice0, choice1, ...].
static MIRROR: AtomicUsize = AtomicUsize::new(0);
static MIRROR_CAP: AtomicUsize = AtomicUsize::new(0);
pub fn set_choice_mirror(p: *mut u64, cap: usize) {
    MIRROR_CAP.store(cap, Ordering::SeqCst);
    MIRROR.store(p as usize, Ordering::SeqCst);
}
fn mirror_reset() {
    let p = MIRROR.load(Ordering::Relaxed) as *mut u64;
    if !p.is_null() {
        unsafe { *p = 0 };
    }
}
fn mirror_push(v: u64) {
    let p = MIRROR.load(Ordering::Relaxed) as *mut u64;
    if !p.is_null() {
        unsafe {
            let n = *p as usize;
            if n + 1 < MIRROR_CAP.load(Ordering::Relaxed) {
                *p.add(n + 1) = v;
                *p = n as u64 + 1;
            }
        }
    }
}

/// Number of the current run in this OS process; seams use it to drop stale handles.
pub fn generation() -> u64 {
    GENERATION.load(Ordering::Relaxed)
}
static GENERATION: AtomicU64 = AtomicU64::new(0);
pub fn note_panic(txt: &str) {
    let t = current_task();
    if t == usize::MAX {
        return;
    }
    with(|r| {
        let p = r.tasks[t].proc;
        let n = r.tasks[t].name.clone();
        r.trace_hash = mix(r.trace_hash, hash_bytes(txt.as_bytes()));
        r.panics.push((p, n, txt.to_string()));
    });
}
/// For a task that is being ended but has to let its helpers finish first.
pub fn yield_even_if_dying() {
    if aborting() || current_task() == usize::MAX {
        std::thread::yield_now();
        return;
    }
    let me = current_task();
    let next = with(|r| r.pick(Some(me))).flatten();
    match next {
        Some(t) if t == me => {}
        Some(t) => {
            switch_to(me, t);
            wait_baton(me);
        }
        None => wake_all(),
    }
}
