//! Sessions of the proving service while processes, messages, files and memory fail.
use super::dist::*;
use super::prog::*;
use super::*;
use crate::{bad, served_backend};
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::proving_system::*;
use simrt::{choose, choose_usize, flip};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;

const P: &str = "C06";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 6_000,
        thorough: 600_000,
        scens: vec![
            scen("messages", 4, net, quietly),
            scen("storage", 3, disk, quietly),
            scen("processes", 4, calm, chaos),
            scen("everything", 3, all, chaos),
        ],
        rule: "one run = up to two sessions of client and server of a served backend (setup, proves, exit) during which requests \
               and replies are lost or delayed, files and shared memory fail, the setup file is cut, server processes are killed \
               or stalled, another service answers on the port, or the server of an earlier client is still there; then the \
               faults stop, the server is started afresh and one more session takes place. A call may fail or be waiting; one \
               that returns must have done its work: a proof is accepted for exactly the submitted witness, after a setup an \
               undisturbed server proves, after an exit the server ends. The last session must succeed. Non-trivial = a call \
               returned in the faulty phase and the last session took place.",
        real: "zkcuda::proving_system::expander_parallelized (client and server), served backends' provers and verifiers (real code)",
        stub: "MPI, POSIX shared memory, loopback HTTP, tokio/axum/reqwest executors, mpiexec, file system, clock, GKR and polynomial commitments (transparent models), field arithmetic",
        parallel: false,
    }
}
fn calm(r: &mut Rng) -> Knobs {
    let starve = if r.below(3) == 0 { Some(1 + r.below(6) as usize) } else { None };
    Knobs { switch_permille: [0, 20, 100, 300, 700][r.below(5) as usize], starve, max_steps: 1_000_000, ..Knobs::default() }
}
fn with(r: &mut Rng, faults: &[&str]) -> Knobs {
    Knobs {
        faults: faults.iter().map(|s| s.to_string()).collect(),
        fault_permille: [10, 50, 200][r.below(3) as usize],
        fault_budget: 1 + r.below(5),
        ..calm(r)
    }
}
fn net(r: &mut Rng) -> Knobs {
    with(r, &["net."])
}
fn disk(r: &mut Rng) -> Knobs {
    with(r, &["disk.", "shm.", "spawn.", "crash.during_write"])
}
fn all(r: &mut Rng) -> Knobs {
    with(r, &["net.", "disk.", "shm.", "spawn."])
}
fn quietly() {
    served_backend!(choose_usize(N_SERVED + 1), one, false)
}
fn chaos() {
    served_backend!(choose_usize(N_SERVED + 1), one, true)
}

/// What disturbs the service from outside until it is told to stop.
fn trouble(port: u16, stop: Arc<AtomicBool>, hits: Arc<AtomicUsize>) {
    for _ in 0..simrt::range(1, 3) {
        let mut written = false;
        match choose(4) {
            0 => simrt::sleep_ns(choose(100_000)),
            1 => simrt::sleep_ns(choose(1_000_000)),
            2 => simrt::sleep_ns(choose(3_000_000_000)),
            _ => {
                // when the setup file has just been written
                let mut n = 0;
                while !stop.load(Ordering::SeqCst)
                    && n < 3000
                    && !simrt::interpose::fs(|f| f.files.iter().any(|(k, v)| k.contains("computation_graph") && !v.is_empty()))
                {
                    n += 1;
                    simrt::sleep_ns(if n < 1000 { 20_000 } else { 10_000_000 });
                }
                simrt::sleep_ns(choose(3) * choose(1_000_000));
                written = true;
            }
        }
        if stop.load(Ordering::SeqCst) {
            return;
        }
        let job = crate::procs::jobs().pop();
        let pick = |j: &crate::procs::Job| j.procs[if flip(500) { 0 } else { choose_usize(j.procs.len()) }];
        match (if written && flip(500) { 6 } else { choose(8) }, job) {
            (0..=2, Some(j)) => {
                let p = pick(&j);
                if !simrt::proc_dead(p) {
                    simrt::note_fault("kill_server_process");
                    hits.fetch_add(1, Ordering::SeqCst);
                    simrt::kill_proc(p);
                }
            }
            (3..=5, Some(j)) => {
                let p = pick(&j);
                if !simrt::proc_dead(p) {
                    simrt::note_fault("stall_server_process");
                    simrt::stall_proc(p, [1, 20, 310][choose_usize(3)] * 1_000_000_000);
                }
            }
            (6, _) => {
                let (cut, at) = (flip(700), simrt::entropy() as usize >> 1);
                let done = simrt::interpose::fs(|f| {
                    let Some(k) = f.files.keys().filter(|k| k.contains("computation_graph")).next_back().cloned() else { return false };
                    let n = f.files[&k].len();
                    if cut {
                        f.files.get_mut(&k).unwrap().truncate(at % n.max(1));
                    } else {
                        f.files.remove(&k);
                    }
                    true
                });
                if done {
                    // no excuse: a server that could not read the file has to refuse the setup
                    simrt::note_fault("setup_file_cut");
                }
            }
            _ => {
                if model::net::is_bound(port) {
                    continue;
                }
                simrt::note_fault("foreign_service");
                hits.fetch_add(1, Ordering::SeqCst);
                let status = [404, 405, 500, 503, 301][choose_usize(5)];
                let p = crate::procs::new_proc();
                let s2 = stop.clone();
                let until = simrt::now_ns() + choose(20) * 1_000_000_000;
                simrt::spawn(p, "foreign service", move || {
                    if model::net::bind(port).is_err() {
                        return;
                    }
                    while !s2.load(Ordering::SeqCst) && simrt::now_ns() < until {
                        while let Some(r) = model::net::take_request(port) {
                            let status = if r.method == "GET" && flip(500) { 200 } else { status };
                            model::net::answer(r.conn, Some(model::net::Response { status, body: b"no".to_vec() }));
                        }
                        simrt::sleep_ns(1_000_000);
                    }
                    model::net::unbind(port);
                });
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum After {
    Failed,
    Exited,
    Left,
}

fn one<C: Config, KP, B>(name: &'static str, _batched: bool, bnd: bool, hurt: bool)
where
    KP: KernelWiseProvingSystem<C> + 'static,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::VerifierSetup: 'static,
    B::ProverSetup: 'static,
{
    let port = port();
    let stop = Arc::new(AtomicBool::new(false));
    let hits = Arc::new(AtomicUsize::new(0));
    let mut returned = 0;
    if hurt {
        let (s, h) = (stop.clone(), hits.clone());
        simrt::spawn(0, "trouble", move || trouble(port, s, h));
    }
    let mut client = client_proc(port);
    for s in 0..simrt::range(1, 2) {
        if simrt::proc_dead(client) || flip(300) {
            client = client_proc(port);
        }
        simrt::probe(name);
        let (hits, stop) = (hits.clone(), stop.clone());
        let r = bounded(client, 2500, move || session::<C, KP, B>(name, s, bnd, hits, stop));
        match r {
            None => {
                simrt::probe("still waiting");
            }
            Some(Err(_)) => {
                simrt::probe("client ended");
            }
            Some(Ok((n, a))) => {
                returned += n;
                match a {
                    After::Exited => simrt::probe("session ended in order"),
                    After::Failed => simrt::probe("session failed"),
                    After::Left => simrt::probe("server left behind"),
                }
            }
        }
        if simrt::violated() {
            return;
        }
    }
    // the faults stop and the server is started afresh
    simrt::stop_faults();
    stop.store(true, Ordering::SeqCst);
    simrt::sleep_ns(5_000_000_000);
    crate::procs::kill_all_jobs();
    simrt::sleep_ns(1_000_000_000);
    if simrt::proc_dead(client) || flip(700) {
        client = client_proc(port);
    }
    let r = bounded(client, 100_000, move || {
        let Some(w) = work::<C>(served_opts(bnd), 2) else { return };
        let setup = match attempt(|| B::setup(&w.j.graph)) {
            Ok(s) => s,
            Err(e) => return bad!(P, "no recovery: {name}: setup fails: {e}"),
        };
        for m in &w.wits {
            match attempt(|| B::prove(&setup.0, &w.j.graph, m.clone())) {
                Ok(pf) => {
                    if let Err((s, x)) = judge::<C, KP, B>(&setup.1, &w.j, m, &pf) {
                        return bad!(P, "no recovery: {name}: {s}: {x}");
                    }
                }
                Err(e) => return bad!(P, "no recovery: {name}: prove fails: {e}"),
            }
        }
        if let Err(e) = attempt(|| B::post_process()) {
            bad!(P, "no recovery: {name}: exit fails: {e}");
        }
    });
    if simrt::violated() {
        return;
    }
    match r {
        Some(Ok(())) => {
            if returned > 0 {
                oracle();
            }
        }
        Some(Err(e)) => bad!(P, "no recovery: {name}: {e}"),
        None => bad!(P, "no recovery: {name}: the session does not end"),
    }
}

/// One session under faults; the number of calls that returned and how it ended.
fn session<C: Config, KP, B>(name: &'static str, s: usize, bnd: bool, hits: Arc<AtomicUsize>, stop: Arc<AtomicBool>) -> (usize, After)
where
    KP: KernelWiseProvingSystem<C> + 'static,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::VerifierSetup: 'static,
    B::ProverSetup: 'static,
{
    let mut n = 0;
    let Some(w) = work::<C>(served_opts(bnd), 3) else { return (0, After::Failed) };
    let setup = match attempt(|| B::setup(&w.j.graph)) {
        Ok(x) => x,
        Err(e) => {
            simrt::log(|| format!("setup failed: {e}"));
            return (n, After::Failed);
        }
    };
    n += 1;
    simrt::probe("setup returned");
    let hurt_at_setup = hits.load(Ordering::SeqCst);
    // a setup that returned: an undisturbed server proves
    let calm = flip(400);
    if calm {
        simrt::stop_faults();
        stop.store(true, Ordering::SeqCst);
        // whoever was stalled comes back
        simrt::sleep_ns(320_000_000_000);
    }
    for k in 0..simrt::range(1, 3) {
        let m = w.wits[k % w.wits.len()].clone();
        match attempt(|| B::prove(&setup.0, &w.j.graph, m.clone())) {
            Ok(pf) => {
                n += 1;
                simrt::probe("prove returned");
                if let Err((x, y)) = judge::<C, KP, B>(&setup.1, &w.j, &m, &pf) {
                    bad!(P, "wrong success: {name}: session {s}, prove {k}: {x}: {y}");
                    return (n, After::Failed);
                }
            }
            Err(e) => {
                simrt::log(|| format!("prove failed: {e}"));
                simrt::probe("prove failed");
                if calm && k == 0 && hits.load(Ordering::SeqCst) == hurt_at_setup && hits.load(Ordering::SeqCst) == 0 {
                    bad!(P, "setup did not do its work: {name}: session {s}: an undisturbed prove after it fails: {e}");
                    return (n, After::Failed);
                }
                if flip(500) {
                    break;
                }
            }
        }
    }
    if flip(300) {
        return (n, After::Left);
    }
    match attempt(|| B::post_process()) {
        Ok(()) => {
            n += 1;
            simrt::probe("exit returned");
            if calm && !all_ended(900) {
                bad!(P, "exit did not do its work: {name}: session {s}: the server has not ended");
            }
            (n, After::Exited)
        }
        Err(_) => (n, After::Failed),
    }
}
