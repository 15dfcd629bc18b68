//! Simulated operating system: process numbers, mpiexec and its jobs.
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Default)]
struct State {
    next: usize,
    jobs: Vec<Job>,
    of: BTreeMap<usize, usize>,
}
#[derive(Clone)]
pub struct Job {
    pub procs: Vec<usize>,
    pub binary: String,
    pub args: Vec<String>,
    pub mpi: u64,
    pub aborted: bool,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(State::default))
}
fn reset() {
    *STATE.lock().unwrap_or_else(|e| e.into_inner()) = None;
}
pub fn new_proc() -> usize {
    st(|s| {
        s.next += 1;
        s.next
    })
}
pub fn jobs() -> Vec<Job> {
    st(|s| s.jobs.clone())
}
/// The whole job dies when one of its ranks ends without having finalised MPI.
fn on_exit(p: usize) {
    let others = st(|s| {
        let Some(&j) = s.of.get(&p) else { return vec![] };
        let job = &mut s.jobs[j];
        if job.aborted || (model::mpi::finalized(p) && simrt::exit_code(p).unwrap_or(1) == 0) {
            return vec![];
        }
        job.aborted = true;
        job.procs.iter().copied().filter(|q| *q != p).collect()
    });
    for q in others {
        if !simrt::proc_dead(q) {
            simrt::kill_proc(q);
        }
    }
}
fn on_exit_statics(p: usize) {
    model::net::on_exit(p);
    simrt::interpose::fs_close_proc(p);
}

fn mpiexec(argv: Vec<String>) -> Result<i32, i32> {
    // no yield here: a task that is killed cannot unwind through std's call of posix_spawn
    if simrt::fault("spawn.enomem") {
        return Err(libc::ENOMEM);
    }
    if argv.first().map(|s| s.as_str()) != Some("mpiexec") {
        return Err(libc::ENOENT);
    }
    let mut n = 1usize;
    let mut i = 1;
    while i < argv.len() && argv[i].starts_with('-') {
        match argv[i].as_str() {
            "-n" | "-np" => {
                n = argv.get(i + 1).and_then(|s| s.parse().ok()).unwrap_or(0);
                i += 2;
            }
            _ => i += 1,
        }
    }
    let Some(bin) = argv.get(i) else { return Ok(1) };
    let base = bin.rsplit('/').next().unwrap_or("").to_string();
    let main: fn() = match base.as_str() {
        "expander_server" => crate::bins::server::main,
        "expander_server_pcs_defered" => crate::bins::server_deferred::main,
        "expander_server_no_oversubscribe" => crate::bins::server_bounded::main,
        _ => {
            simrt::log(|| format!("mpiexec: no such program: {argv:?}"));
            // mpiexec starts, reports that the program does not exist, and ends
            simrt::probe("mpiexec.no_such_program");
            return Ok(1);
        }
    };
    if n == 0 {
        simrt::log(|| format!("mpiexec with no processes: {argv:?}"));
        simrt::probe("mpiexec.zero_processes");
        return Ok(1);
    }
    let procs: Vec<usize> = (0..n).map(|_| new_proc()).collect();
    let mpi = model::mpi::register_job(&procs);
    let args: Vec<String> = argv[i..].to_vec();
    st(|s| {
        let j = s.jobs.len();
        s.jobs.push(Job { procs: procs.clone(), binary: base.clone(), args: args.clone(), mpi, aborted: false });
        for p in &procs {
            s.of.insert(*p, j);
        }
    });
    simrt::log(|| format!("mpiexec -n {n} {base} as processes {procs:?}"));
    for (r, p) in procs.iter().enumerate() {
        simrt::set_args(*p, args.clone());
        simrt::start_proc(*p, &format!("{base}[{r}]"), main);
    }
    Ok(FAKE_PID + procs[0] as i32)
}

pub const FAKE_PID: i32 = simrt::interpose::FAKE_PID;
fn job_of(pid: i32) -> Vec<usize> {
    let p = (pid - FAKE_PID) as usize;
    jobs().into_iter().find(|j| j.procs.contains(&p)).map(|j| j.procs).unwrap_or_default()
}
/// kill(2) on an mpiexec process.
fn kill(pid: i32) {
    for p in job_of(pid) {
        if !simrt::proc_dead(p) {
            simrt::kill_proc(p);
        }
    }
}
/// waitpid(2) on an mpiexec process; None: still running.
fn wait(pid: i32, block: bool) -> Option<i32> {
    let v = job_of(pid);
    if block {
        for p in &v {
            simrt::wait_proc(*p);
        }
    }
    if v.iter().any(|p| !simrt::proc_dead(*p)) {
        return None;
    }
    Some(v.iter().map(|p| simrt::exit_code(*p).unwrap_or(137)).max().unwrap_or(0))
}

pub fn install() {
    simrt::interpose::set_child_handlers(kill, wait);
    simrt::add_reset_hook(reset);
    simrt::add_reset_hook(model::mpi::reset);
    simrt::add_reset_hook(model::shmem::reset);
    simrt::add_reset_hook(model::watch::reset);
    simrt::add_reset_hook(model::net::reset);
    simrt::add_reset_hook(simrt::interpose::fs_reset);
    simrt::add_reset_hook(crate::statics::reset);
    simrt::add_exit_hook(on_exit_statics);
    simrt::add_exit_hook(on_exit);
    simrt::set_switch_hook(crate::statics::switch);
    simrt::interpose::set_spawn_handler(mpiexec);
}
/// Ends every process of every job, as an operator would.
pub fn kill_all_jobs() {
    for j in jobs() {
        for p in j.procs {
            if !simrt::proc_dead(p) {
                simrt::kill_proc(p);
            }
        }
    }
}
