//! Runs checks: worker processes execute seeded simulations, the parent gathers their
//! results, minimises violations and writes the evidence.
use serde_json::{json, Value};
use simrt::{Ended, Knobs, Report, Rng, RunCfg};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub struct Scen {
    pub name: &'static str,
    pub weight: u32,
    pub knobs: fn(&mut Rng) -> Knobs,
    pub body: fn(),
    /// an unexpected end of the run (hang, panic, crash) breaks the property
    pub must_finish: bool,
}
pub struct Check {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub scens: Vec<Scen>,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    /// the check's runs need the worker pool of the model to be concurrent
    pub parallel: bool,
}

// ------------------------------------------------------------------ one run
const INFO: usize = 4096;
/// Wall-clock time without a sign of life after which a run counts as stuck.
const STUCK_S: u64 = 60;
const CAP: usize = 1 << 22;
static MIRROR: AtomicUsize = AtomicUsize::new(0);

fn map_mirror(path: Option<&str>) {
    use std::os::fd::AsRawFd;
    let len = INFO + CAP * 8;
    let p = match path {
        Some(path) => {
            let f = std::fs::OpenOptions::new().read(true).write(true).open(path).unwrap();
            unsafe {
                libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
            }
        }
        None => unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        },
    };
    assert!(p != libc::MAP_FAILED);
    MIRROR.store(p as usize, Ordering::SeqCst);
    simrt::set_choice_mirror((p as usize + INFO) as *mut u64, CAP);
}
fn info_set(s: &str) {
    let p = MIRROR.load(Ordering::SeqCst) as *mut u8;
    if p.is_null() {
        return;
    }
    let b = s.as_bytes();
    let n = b.len().min(INFO - 16);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), n);
        *(p as *mut u64) = n as u64;
    }
}
fn info_get(p: *const u8) -> String {
    unsafe {
        let n = (*(p as *const u64) as usize).min(INFO - 16);
        String::from_utf8_lossy(std::slice::from_raw_parts(p.add(8), n)).into_owned()
    }
}
fn choices_get(p: *const u8) -> Vec<u64> {
    unsafe {
        let q = p.add(INFO) as *const u64;
        let n = (*q as usize).min(CAP - 1);
        std::slice::from_raw_parts(q.add(1), n).to_vec()
    }
}

extern "C" fn on_signal(sig: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let addr = unsafe { (*info).si_addr() } as usize;
    let text = if sig == libc::SIGSEGV || sig == libc::SIGBUS {
        if let Some(w) = model::mpi::window_at(addr) {
            format!("C04|window.access: a process touches memory outside a live window: {w}")
        } else if let Some(w) = model::shmem::segment_at(addr) {
            format!("C02|segment.access: a process touches memory outside a live shared segment: {w}")
        } else {
            format!("-|crash: signal {sig} at address {addr:#x}")
        }
    } else if sig == libc::SIGALRM {
        "-|run.stuck: the run neither ends nor reaches another scheduling point".to_string()
    } else {
        format!("-|crash: signal {sig}")
    };
    info_set(&text);
    if std::env::var_os("DST_BACKTRACE").is_some() {
        eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
    }
    unsafe { libc::_exit(77) };
}
fn install_signals() {
    for s in [libc::SIGALRM, libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGFPE, libc::SIGILL] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

fn scen_of(c: &Check, seed: u64) -> usize {
    let total: u64 = c.scens.iter().map(|s| s.weight as u64).sum();
    // spread over the weights evenly, independent of how many runs there are
    let mut s = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let mut k = simrt::splitmix(&mut s) % total;
    for (i, s) in c.scens.iter().enumerate() {
        if k < s.weight as u64 {
            return i;
        }
        k -= s.weight as u64;
    }
    0
}
pub fn run_one(c: &Check, scen: usize, seed: u64, replay: Option<Vec<u64>>, keep_log: bool) -> Report {
    let s = &c.scens[scen];
    let mut rng = Rng::new(simrt::mix(seed, simrt::hash_bytes(s.name.as_bytes())));
    let mut knobs = (s.knobs)(&mut rng);
    if knobs.max_steps == 0 {
        knobs.max_steps = 400_000;
    }
    rayon::SEQUENTIAL.store(!c.parallel, Ordering::SeqCst);
    model::gkr::DUAL.store(false, Ordering::SeqCst);
    model::gkr::LIE.store(false, Ordering::SeqCst);
    model::pcs::forge::<u64>(None);
    crate::alloc::LIMIT.store(1 << 40, Ordering::SeqCst);
    crate::alloc::reset_budget();
    info_set("-|crash: the process ended");
    let mut r = simrt::run(
        RunCfg { seed: simrt::mix(seed, 0x5eed ^ simrt::hash_bytes(s.name.as_bytes())), replay, knobs, keep_log },
        s.body,
    );
    if s.must_finish {
        match &r.ended {
            Ended::Finished => {}
            // a run that already shows another violation may well end badly
            e if r.violations.is_empty() => {
                let m = match e {
                    Ended::Deadlock(d) => format!("run.hang: every task waits for ever: {d}"),
                    Ended::StepLimit => "run.livelock: no progress within the step limit".to_string(),
                    Ended::MainPanic(t) => format!("run.panic: {t}"),
                    Ended::Finished => unreachable!(),
                };
                r.violations.push((c.id.to_string(), m));
            }
            _ => {}
        }
    }
    r
}
/// violations of this check's property in a run
fn own(c: &Check, r: &Report) -> Vec<String> {
    r.violations.iter().filter(|v| v.0 == c.id).map(|v| v.1.clone()).collect()
}
pub fn signature(msg: &str) -> String {
    msg.split(": ").next().unwrap_or("").replace(' ', "_")
}

// ------------------------------------------------------------------ known findings
pub struct Known {
    pub property: String,
    pub signature: String,
    pub text: String,
}
/// Lines: `known: property=<id> signature=<sig> <what fails>`
pub fn known() -> Vec<Known> {
    let mut v = vec![];
    let Ok(t) = std::fs::read_to_string("/verif/known_findings.txt") else { return v };
    for l in t.lines() {
        let Some(l) = l.strip_prefix("known: ") else { continue };
        let mut p = l.splitn(3, ' ');
        let property = p.next().unwrap_or("").trim_start_matches("property=").to_string();
        let signature = p.next().unwrap_or("").trim_start_matches("signature=").to_string();
        v.push(Known { property, signature, text: p.next().unwrap_or("").to_string() });
    }
    v
}

// ------------------------------------------------------------------ worker
fn silence_stdio() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        libc::dup2(null, 1);
        if std::env::var_os("DST_STDERR").is_none() {
            libc::dup2(null, 2);
        }
        std::fs::File::from_raw_fd(keep)
    }
}
pub fn prepare() {
    crate::statics::init();
    crate::alloc::install_hook();
    crate::procs::install();
    install_signals();
}

#[derive(Default)]
struct Tally {
    runs: u64,
    steps: u64,
    switches: u64,
    sim_ns: u128,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    per_scen: BTreeMap<String, u64>,
    sched: BTreeSet<u64>,
    traces: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    samples: Vec<Value>,
    ended: BTreeMap<String, u64>,
    hash: u64,
}

pub fn worker(c: &Check, base: u64, start: u64, stride: u64, count: u64, deadline_s: u64, mirror: &str) {
    let mut out = silence_stdio();
    prepare();
    map_mirror(Some(mirror));
    let kn = known();
    let t0 = Instant::now();
    let mut t = Tally::default();
    let mut reported: BTreeSet<String> = BTreeSet::new();
    let mut i = start;
    let mut last = Instant::now();
    while i < count && t0.elapsed() < Duration::from_secs(deadline_s) {
        let seed = base.wrapping_mul(1_000_003).wrapping_add(i);
        let scen = scen_of(c, seed);
        writeln!(out, "{}", json!({"at": i, "seed": seed, "scen": c.scens[scen].name})).ok();
        let r = run_one(c, scen, seed, None, false);
        t.runs += 1;
        t.steps += r.steps;
        t.switches += r.switches;
        t.sim_ns += r.sim_ns as u128;
        *t.per_scen.entry(c.scens[scen].name.into()).or_default() += 1;
        for (k, v) in &r.faults {
            *t.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.probes {
            *t.probes.entry(k.clone()).or_default() += v;
        }
        t.sched.insert(r.sched_hash);
        t.traces.insert(r.trace_hash);
        t.hash = simrt::mix(t.hash, r.trace_hash);
        if r.probes.contains_key("oracle") {
            t.nontrivial.insert(r.trace_hash);
        }
        let e = match &r.ended {
            Ended::Finished => "finished",
            Ended::Deadlock(_) => "deadlock",
            Ended::StepLimit => "step_limit",
            Ended::MainPanic(_) => "panic",
        };
        *t.ended.entry(e.into()).or_default() += 1;
        if t.samples.len() < 2 {
            t.samples.push(json!({"scenario": c.scens[scen].name, "seed": seed, "choices": r.choices.len(),
                "first_choices": &r.choices[..r.choices.len().min(24)], "steps": r.steps, "switches": r.switches,
                "faults": r.faults, "simulated_ms": r.sim_ns / 1_000_000, "ended": e}));
        }
        for m in own(c, &r) {
            let sig = signature(&m);
            if kn.iter().any(|k| k.property == c.id && k.signature == sig) {
                if reported.insert(format!("known {sig}")) {
                    writeln!(out, "{}", json!({"known": sig, "msg": m, "seed": seed})).ok();
                }
                continue;
            }
            if reported.insert(sig.clone()) {
                writeln!(
                    out,
                    "{}",
                    json!({"violation": m, "sig": sig, "seed": seed, "scen": scen, "choices": r.choices})
                )
                .ok();
            }
            if reported.len() > 4 {
                break;
            }
        }
        i += stride;
        if last.elapsed() > Duration::from_secs(5) {
            last = Instant::now();
            emit(&mut out, &mut t);
        }
    }
    emit(&mut out, &mut t);
    writeln!(out, "{}", json!({"done": true})).ok();
    out.flush().ok();
    unsafe { libc::_exit(0) };
}
fn emit(out: &mut std::fs::File, t: &mut Tally) {
    let v = json!({"tally": {
        "runs": t.runs, "steps": t.steps, "switches": t.switches, "sim_ms": (t.sim_ns / 1_000_000) as u64,
        "faults": t.faults, "probes": t.probes, "per_scen": t.per_scen, "ended": t.ended,
        "sched": t.sched, "traces": t.traces, "nontrivial": t.nontrivial, "samples": t.samples, "hash": t.hash}});
    writeln!(out, "{v}").ok();
    *t = Tally { samples: std::mem::take(&mut t.samples), hash: t.hash, ..Tally::default() };
}

fn spawn_worker(c: &Check, base: u64, start: u64, stride: u64, count: u64, deadline: u64, mirror: &str) -> std::process::Child {
    let mut cmd = Command::new("/proc/self/exe");
    cmd.args([
        "worker",
        c.id,
        &base.to_string(),
        &start.to_string(),
        &stride.to_string(),
        &count.to_string(),
        &deadline.to_string(),
        mirror,
    ])
    .env("MALLOC_ARENA_MAX", "1")
    .stdin(Stdio::null())
    .stdout(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            libc::personality(0x0040000); // ADDR_NO_RANDOMIZE; harmless if refused
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        })
    };
    cmd.spawn().expect("worker")
}

#[derive(Clone)]
pub struct Found {
    pub msg: String,
    pub seed: u64,
    pub scen: usize,
    pub choices: Vec<u64>,
}

fn add_map(a: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(o) = v.as_object() {
        for (k, v) in o {
            *a.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
        }
    }
}

pub struct Outcome {
    tally: Tally,
    found: Vec<Found>,
    known_seen: BTreeMap<String, String>,
    broken: Vec<String>,
    crashes: u64,
}

/// Runs the seeds on several worker processes.
fn explore(c: &Check, base: u64, first: u64, runs: u64, secs: u64, workers: u64) -> Outcome {
    let (tx, rx) = std::sync::mpsc::channel::<Outcome>();
    let dir = format!("/tmp/dst-{}-{}", c.id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let t0 = Instant::now();
    std::thread::scope(|sc| {
        for w in 0..workers {
            let tx = tx.clone();
            let dir = &dir;
            sc.spawn(move || {
                let mut o = Outcome {
                    tally: Tally::default(),
                    found: vec![],
                    known_seen: BTreeMap::new(),
                    broken: vec![],
                    crashes: 0,
                };
                let mirror = format!("{dir}/m{w}");
                let f = std::fs::File::create(&mirror).unwrap();
                f.set_len((INFO + CAP * 8) as u64).unwrap();
                let mut start = first + w;
                while start < first + runs && o.found.len() < 3 {
                    let left = secs.saturating_sub(t0.elapsed().as_secs());
                    if left == 0 {
                        break;
                    }
                    let mut ch = spawn_worker(c, base, start, workers, first + runs, left, &mirror);
                    let pid = ch.id();
                    let rd = std::io::BufReader::new(ch.stdout.take().unwrap());
                    let beat = std::sync::Arc::new(std::sync::Mutex::new((Instant::now(), false)));
                    let b2 = beat.clone();
                    // a run that blocks for real (a lock held across a simulated switch) is ended
                    let wd = std::thread::spawn(move || loop {
                        std::thread::sleep(Duration::from_millis(300));
                        let g = b2.lock().unwrap();
                        if g.1 {
                            return;
                        }
                        if g.0.elapsed() > Duration::from_secs(STUCK_S) {
                            unsafe { libc::kill(pid as i32, libc::SIGKILL) };
                            return;
                        }
                    });
                    let (mut at, mut seed, mut done) = (start, 0, false);
                    for l in rd.lines() {
                        let Ok(l) = l else { break };
                        beat.lock().unwrap().0 = Instant::now();
                        let Ok(v) = serde_json::from_str::<Value>(&l) else { continue };
                        if let Some(x) = v.get("at") {
                            at = x.as_u64().unwrap();
                            seed = v["seed"].as_u64().unwrap();
                        } else if let Some(m) = v.get("violation") {
                            o.found.push(Found {
                                msg: m.as_str().unwrap().into(),
                                seed: v["seed"].as_u64().unwrap(),
                                scen: v["scen"].as_u64().unwrap() as usize,
                                choices: v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
                            });
                        } else if let Some(k) = v.get("known") {
                            o.known_seen.insert(k.as_str().unwrap().into(), v["msg"].as_str().unwrap().into());
                        } else if let Some(t) = v.get("tally") {
                            o.tally.runs += t["runs"].as_u64().unwrap();
                            o.tally.steps += t["steps"].as_u64().unwrap();
                            o.tally.switches += t["switches"].as_u64().unwrap();
                            o.tally.sim_ns += t["sim_ms"].as_u64().unwrap() as u128 * 1_000_000;
                            add_map(&mut o.tally.faults, &t["faults"]);
                            add_map(&mut o.tally.probes, &t["probes"]);
                            add_map(&mut o.tally.per_scen, &t["per_scen"]);
                            add_map(&mut o.tally.ended, &t["ended"]);
                            for (set, k) in [
                                (&mut o.tally.sched, "sched"),
                                (&mut o.tally.traces, "traces"),
                                (&mut o.tally.nontrivial, "nontrivial"),
                            ] {
                                set.extend(t[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
                            }
                            o.tally.samples = t["samples"].as_array().unwrap().clone();
                            o.tally.hash = t["hash"].as_u64().unwrap();
                        } else if v.get("done").is_some() {
                            done = true;
                        }
                    }
                    let status = ch.wait().unwrap();
                    let stuck = beat.lock().unwrap().0.elapsed() > Duration::from_secs(STUCK_S - 5);
                    beat.lock().unwrap().1 = true;
                    let _ = wd.join();
                    if done {
                        break;
                    }
                    // the worker died: the run it was in is the culprit
                    o.crashes += 1;
                    if std::env::var_os("DST_STDERR").is_some() {
                        eprintln!("worker ended with {status} in run {at} seed {seed}");
                    }
                    let map = std::fs::read(&mirror).unwrap_or_default();
                    let scen = scen_of(c, seed);
                    if !stuck && map.len() > INFO + 8 {
                        let info = info_get(map.as_ptr());
                        let choices = choices_get(map.as_ptr());
                        let (prop, text) = info.split_once('|').unwrap_or(("-", "crash"));
                        let mine = prop == c.id || (c.scens[scen].must_finish && prop == "-");
                        let sig = signature(text);
                        let kn = known().into_iter().any(|k| k.property == c.id && k.signature == sig);
                        if mine && kn {
                            o.known_seen.insert(sig, text.into());
                        } else if mine {
                            o.found.push(Found { msg: text.to_string(), seed, scen, choices });
                        }
                    } else if stuck && c.scens[scen].must_finish && !map.is_empty() {
                        o.found.push(Found {
                            msg: "run.stuck: the run neither ends nor reaches another scheduling point".into(),
                            seed,
                            scen,
                            choices: choices_get(map.as_ptr()),
                        });
                    } else {
                        o.broken.push(format!("worker ended with {status} in run {at} seed {seed}, stuck={stuck}"));
                        if o.broken.len() > 2 {
                            break;
                        }
                    }
                    start = at + workers;
                }
                tx.send(o).unwrap();
            });
        }
    });
    drop(tx);
    let mut all = Outcome {
        tally: Tally::default(),
        found: vec![],
        known_seen: BTreeMap::new(),
        broken: vec![],
        crashes: 0,
    };
    for o in rx {
        let t = &mut all.tally;
        t.runs += o.tally.runs;
        t.steps += o.tally.steps;
        t.switches += o.tally.switches;
        t.sim_ns += o.tally.sim_ns;
        for (a, b) in [
            (&mut t.faults, &o.tally.faults),
            (&mut t.probes, &o.tally.probes),
            (&mut t.per_scen, &o.tally.per_scen),
            (&mut t.ended, &o.tally.ended),
        ] {
            for (k, v) in b {
                *a.entry(k.clone()).or_default() += v;
            }
        }
        t.sched.extend(&o.tally.sched);
        t.traces.extend(&o.tally.traces);
        t.nontrivial.extend(&o.tally.nontrivial);
        t.samples.extend(o.tally.samples);
        t.hash ^= o.tally.hash;
        all.found.extend(o.found);
        all.known_seen.extend(o.known_seen);
        all.broken.extend(o.broken);
        all.crashes += o.crashes;
    }
    for w in 0..workers {
        let _ = std::fs::remove_file(format!("{dir}/m{w}"));
    }
    let _ = std::fs::remove_dir(&dir);
    all
}

// ------------------------------------------------------------------ minimising and replay
struct Attempt {
    msgs: Vec<String>,
    choices: Vec<u64>,
    trace: u64,
    log: Vec<String>,
}
/// One replay in a forked child, so that crashes stay contained. The caller must be
/// single-threaded.
fn attempt(c: &Check, f: &Found, choices: &[u64], log: bool) -> Attempt {
    let mut fds = [0i32; 2];
    unsafe {
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(STUCK_S as u32);
            let r = run_one(c, f.scen, f.seed, Some(choices.to_vec()), log);
            let v = json!({"msgs": own(c, &r), "choices": r.choices, "trace": r.trace_hash, "log": r.log}).to_string();
            let b = v.as_bytes();
            let mut o = 0;
            while o < b.len() {
                let n = libc::syscall(libc::SYS_write, fds[1], b.as_ptr().add(o), b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        use std::os::fd::FromRawFd;
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut std::fs::File::from_raw_fd(fds[0]), &mut s);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if let Ok(v) = serde_json::from_str::<Value>(&s) {
            return Attempt {
                msgs: v["msgs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                choices: v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
                trace: v["trace"].as_u64().unwrap(),
                log: v["log"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
            };
        }
        let p = MIRROR.load(Ordering::SeqCst) as *const u8;
        let info = info_get(p);
        let (prop, text) = info.split_once('|').unwrap_or(("-", "crash"));
        let mine = prop == c.id || (c.scens[f.scen].must_finish && prop == "-");
        Attempt {
            msgs: if mine { vec![text.to_string()] } else { vec![] },
            choices: choices_get(p),
            trace: 0,
            log: vec![],
        }
    }
}
fn trim(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
fn shrink(c: &Check, f: &Found, budget: Duration) -> (Vec<u64>, usize) {
    let sig = signature(&f.msg);
    let t0 = Instant::now();
    let mut tries = 0;
    let mut best = trim(f.choices.clone());
    let mut ok = |v: &[u64], tries: &mut usize| -> Option<Vec<u64>> {
        *tries += 1;
        let a = attempt(c, f, v, false);
        a.msgs.iter().any(|m| signature(m) == sig).then(|| trim(a.choices))
    };
    // the tail first
    let (mut lo, mut hi) = (0, best.len());
    while lo < hi && t0.elapsed() < budget / 3 {
        let mid = (lo + hi) / 2;
        match ok(&best[..mid], &mut tries) {
            Some(_) => hi = mid,
            None => lo = mid + 1,
        }
    }
    if let Some(v) = ok(&best[..hi.min(best.len())].to_vec(), &mut tries) {
        if v.len() <= best.len() {
            best = v;
        }
    }
    let mut size = (best.len() / 2).max(1);
    while t0.elapsed() < budget && tries < 1500 {
        let mut i = 0;
        let mut progress = false;
        while i < best.len() && t0.elapsed() < budget {
            let e = (i + size).min(best.len());
            if best[i..e].iter().any(|x| *x != 0) {
                let mut v = best.clone();
                v[i..e].iter_mut().for_each(|x| *x = 0);
                if let Some(n) = ok(&v, &mut tries) {
                    let score = |v: &[u64]| (v.iter().filter(|x| **x != 0).count(), v.len());
                    if score(&n) < score(&best) {
                        best = n;
                        progress = true;
                        continue;
                    }
                }
            }
            i = e;
        }
        if size == 1 && !progress {
            break;
        }
        size = if progress && size == 1 { 1 } else { (size / 2).max(1) };
    }
    (best, tries)
}

/// `harness shrink FILE OUT`: FILE holds a raw finding.
pub fn shrink_cmd(c: &Check, inp: &str, outp: &str, secs: u64) {
    let mut out = silence_stdio();
    prepare();
    map_mirror(None);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(inp).unwrap()).unwrap();
    let f = Found {
        msg: v["message"].as_str().unwrap().into(),
        seed: v["seed"].as_u64().unwrap(),
        scen: c.scens.iter().position(|s| s.name == v["scenario"].as_str().unwrap()).unwrap(),
        choices: v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
    };
    // confirm first
    let a = attempt(c, &f, &f.choices, false);
    let sig = signature(&f.msg);
    if !a.msgs.iter().any(|m| signature(m) == sig) {
        writeln!(out, "{}", json!({"confirmed": false, "got": a.msgs})).ok();
        return;
    }
    let (best, tries) =
        if sig == "run.stuck" { (trim(f.choices.clone()), 0) } else { shrink(c, &f, Duration::from_secs(secs)) };
    let a = attempt(c, &f, &best, true);
    let msg = a.msgs.iter().find(|m| signature(m) == sig).cloned().unwrap_or(f.msg.clone());
    std::fs::write(
        outp,
        serde_json::to_string_pretty(&json!({
            "property": c.id, "scenario": c.scens[f.scen].name, "seed": f.seed, "message": msg,
            "choices": best, "original_choices": f.choices.len(), "shrink_attempts": tries,
            "trace_hash": a.trace, "log": a.log,
        }))
        .unwrap(),
    )
    .unwrap();
    writeln!(out, "{}", json!({"confirmed": true, "choices": best.len(), "tries": tries})).ok();
}

pub fn replay_cmd(checks: &[Check], file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let c = checks.iter().find(|c| c.id == id).expect("property");
    let mut out = silence_stdio();
    prepare();
    map_mirror(None);
    let f = Found {
        msg: v["message"].as_str().unwrap().into(),
        seed: v["seed"].as_u64().unwrap(),
        scen: c.scens.iter().position(|s| s.name == v["scenario"].as_str().unwrap()).unwrap(),
        choices: v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(),
    };
    let a = attempt(c, &f, &f.choices, true);
    for l in &a.log {
        writeln!(out, "{l}").ok();
    }
    let same = a.msgs.iter().any(|m| *m == f.msg);
    let exact = a.trace == v["trace_hash"].as_u64().unwrap_or(0);
    for m in &a.msgs {
        writeln!(out, "violation: {m}").ok();
    }
    writeln!(out, "same violation: {same}; same trace: {exact}").ok();
    if a.msgs.is_empty() {
        0
    } else {
        writeln!(out, "VIOLATION property={id} replay={file}").ok();
        1
    }
}

// ------------------------------------------------------------------ the check command
pub fn check(c: &Check, tier: &str, base: u64) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let env_u = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let runs = env_u("DST_RUNS").unwrap_or(if thorough { c.thorough } else { c.quick });
    let secs = env_u("DST_SECS").unwrap_or(if thorough { 3 * 3600 } else { 240 });
    let workers = env_u("DST_WORKERS").unwrap_or(8).min(runs).max(1);
    let o = explore(c, base, env_u("DST_FIRST").unwrap_or(0), runs, secs, workers);
    let explore_s = t0.elapsed().as_secs_f64();
    let kn: Vec<Known> = known().into_iter().filter(|k| k.property == c.id).collect();
    for k in &kn {
        println!("KNOWN-FINDING: property={} {}", c.id, k.text);
    }
    let mut code = 0;
    let mut by_sig: BTreeMap<String, Vec<Found>> = BTreeMap::new();
    for f in o.found {
        by_sig.entry(signature(&f.msg)).or_default().push(f);
    }
    let mut violations = vec![];
    let mut unconfirmed = vec![];
    let out_dir = std::env::var("DST_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
    for (n, (sig, mut fs)) in by_sig.into_iter().enumerate().take(if std::env::var("DST_ALL").is_ok() { 20 } else { 3 }) {
        // the shortest schedule first
        fs.sort_by_key(|f| f.choices.len());
        let mut shown = false;
        for f in fs.iter().take(3) {
            std::fs::create_dir_all(&out_dir).unwrap();
            let stem = format!("{out_dir}/{}-{}-{n}", c.id, f.seed);
            let raw = format!("{stem}.raw.json");
            let fin = format!("{stem}.json");
            std::fs::write(
                &raw,
                json!({"property": c.id, "scenario": c.scens[f.scen].name, "seed": f.seed, "message": f.msg, "choices": f.choices})
                    .to_string(),
            )
            .unwrap();
            let mut cmd = Command::new("/proc/self/exe");
            cmd.args(["shrink", c.id, &raw, &fin, "25"]).env("MALLOC_ARENA_MAX", "1").stdin(Stdio::null());
            unsafe {
                cmd.pre_exec(|| {
                    libc::personality(0x0040000);
                    Ok(())
                })
            };
            let r = cmd.output();
            let txt = r.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
            let _ = std::fs::remove_file(&raw);
            if std::path::Path::new(&fin).exists() {
                println!("{} violated: {}", c.id, f.msg.chars().take(600).collect::<String>());
                println!("  scenario {} seed {}: {}", c.scens[f.scen].name, f.seed, txt.trim());
                println!("VIOLATION property={} replay={}", c.id, fin);
                violations.push(json!({"signature": sig, "message": f.msg, "seed": f.seed, "replay": fin}));
                code = 1;
                shown = true;
                break;
            }
            unconfirmed.push(format!("{sig} seed {} did not replay: {}", f.seed, txt.trim()));
        }
        if shown && std::env::var("DST_ALL").is_err() {
            break;
        }
    }
    if code == 0 && (!unconfirmed.is_empty() || o.broken.len() as u64 > 2) {
        for u in unconfirmed.iter().chain(&o.broken) {
            println!("{}: machinery trouble: {u}", c.id);
        }
        code = 2;
    }
    let t = &o.tally;
    if code == 0 && t.runs == 0 {
        println!("{}: no run was completed", c.id);
        code = 2;
    }
    let hours = (explore_s / 3600.0).max(1e-9);
    let mut samples: Vec<Value> = t.samples.iter().take(4).cloned().collect();
    if samples.is_empty() {
        samples.push(json!("none"));
    }
    let ev = json!({
        "property": c.id, "tier": tier, "seed": base, "level": "exploration",
        "wall_s": t0.elapsed().as_secs_f64(),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": c.rule,
            "samples": samples,
            "seeds": {"base": base, "first": 0, "requested": runs, "run": t.runs},
            "runs_per_hour": (t.runs as f64 / hours) as u64,
            "simulated_seconds": (t.sim_ns / 1_000_000_000) as u64,
            "scheduling_steps": t.steps,
            "task_switches": t.switches,
            "distinct_interleavings": t.sched.len(),
            "interleaving_measure": "hash over (task switched to, state version) of every task switch of a run",
            "distinct_executions": t.traces.len(),
            "faults_injected": t.faults,
            "probes": t.probes,
            "runs_per_scenario": t.per_scen,
            "run_endings": t.ended,
            "worker_crashes": o.crashes,
            "real_code": c.real,
            "stubs": c.stub,
            "digest": format!("{:016x}", t.hash),
            "workers": workers,
            "explore_s": explore_s,
            "known_findings_seen": o.known_seen,
            "machinery_trouble": unconfirmed.iter().chain(&o.broken).collect::<Vec<_>>(),
        },
        "violations": violations,
    });
    let ed = std::env::var("DST_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    std::fs::create_dir_all(&ed).unwrap();
    std::fs::write(format!("{ed}/{}.json", c.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {tier}: {} runs, {} distinct executions, {} faults, {:.1}s, exit {code}",
        c.id,
        t.runs,
        t.traces.len(),
        t.faults.values().sum::<u64>(),
        t0.elapsed().as_secs_f64()
    );
    code
}

/// `harness trace ID SEED N`: digest of each run, for the determinism comparison.
pub fn trace_cmd(c: &Check, base: u64, n: u64) {
    let mut out = silence_stdio();
    prepare();
    map_mirror(None);
    for i in 0..n {
        let seed = base.wrapping_mul(1_000_003).wrapping_add(i);
        let scen = scen_of(c, seed);
        let r = run_one(c, scen, seed, None, std::env::var_os("DST_LOG").is_some());
        for l in &r.log {
            writeln!(out, "{l}").ok();
        }
        writeln!(
            out,
            "{i} {} steps={} choices={} hash={:016x} ended={:?} violations={:?} panics={}",
            c.scens[scen].name,
            r.steps,
            r.choices.len(),
            r.trace_hash,
            r.ended,
            r.violations,
            r.panics.len()
        )
        .ok();
    }
    unsafe { libc::_exit(0) };
}
