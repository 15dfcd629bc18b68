//! The witness in shared memory between a prove request and its confirmation.
use super::dist::*;
use super::prog::*;
use super::*;
use crate::{bad, served_backend};
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::proving_system::*;
use simrt::{choose, choose_usize, flip};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

const P: &str = "C02";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 8_000,
        thorough: 1_000_000,
        scens: vec![scen("clean", 3, clean, session), scen("faulty", 4, faulty, session), scen("stalled", 4, clean, stalled)],
        rule: "one run = one client session of up to four prove calls with one of 14 served backends. From each prove request until \
               the server's confirmation, the shared witness must stay published and byte for byte unchanged; the server must \
               have finished reading it when it confirms; the client may release it only then and must have released it when \
               the call returns. Server processes are stalled or killed around the request; a call without confirmation must \
               fail within an hour of simulated time and return no proof. Non-trivial = at least one prove call was judged.",
        real: "zkcuda::proving_system::expander_parallelized::{client_utils, shared_memory_utils, server_ctrl, server_fns} and the served backends (real code)",
        stub: "MPI, POSIX shared memory, loopback HTTP, tokio/axum/reqwest executors, mpiexec, file system, clock, GKR and polynomial commitments (transparent models), field arithmetic",
        parallel: false,
    }
}
fn clean(r: &mut Rng) -> Knobs {
    let starve = if r.below(3) == 0 { Some(1 + r.below(6) as usize) } else { None };
    Knobs { switch_permille: [0, 20, 100, 300, 700][r.below(5) as usize], starve, max_steps: 600_000, ..Knobs::default() }
}
fn faulty(r: &mut Rng) -> Knobs {
    Knobs {
        faults: vec!["net.".into(), "shm.".into()],
        fault_permille: [20, 100][r.below(2) as usize],
        fault_budget: 1 + r.below(4),
        ..clean(r)
    }
}
fn session() {
    served_backend!(choose_usize(N_SERVED + 1), one, false)
}
fn stalled() {
    served_backend!(choose_usize(N_SERVED + 1), one, true)
}

fn one<C: Config, KP, B>(name: &'static str, _batched: bool, bnd: bool, hurt: bool)
where
    KP: KernelWiseProvingSystem<C> + 'static,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::VerifierSetup: 'static,
    B::ProverSetup: 'static,
{
    model::watch::enable();
    let client = client_proc(port());
    let ready = Arc::new(AtomicBool::new(false));
    let r2 = ready.clone();
    let finish = Arc::new(AtomicBool::new(false));
    let f2 = finish.clone();
    simrt::spawn(client, "client", move || {
        struct End(Arc<AtomicBool>);
        impl Drop for End {
            fn drop(&mut self) {
                self.0.store(true, Ordering::SeqCst);
            }
        }
        let _e = End(f2);
        let Some(w) = work::<C>(served_opts(bnd), simrt::range(1, 3)).map(Arc::new) else { return };
        let Ok(setup) = attempt(|| B::setup(&w.j.graph)).map(Arc::new) else { return };
        simrt::probe(name);
        let n = simrt::range(1, 4);
        let mut again = false;
        for i in 0..n {
            r2.store(true, Ordering::SeqCst);
            let (s2, w2) = (setup.clone(), w.clone());
            let t = simrt::spawn(client, "prover", move || {
                let m = w2.wits[i % w2.wits.len()].clone();
                B::prove(&s2.0, &w2.j.graph, m).commitments.len()
            });
            let end = simrt::now_ns() + 3_600_000_000_000;
            while !t.is_done() && simrt::now_ns() < end {
                simrt::sleep_ns(if hurt { 500_000_000 } else { 20_000_000 });
            }
            oracle();
            if !t.is_done() {
                if !model::watch::confirmed(client) {
                    bad!(P, "waits for ever: {name}: no confirmation came, and the call has not ended after an hour");
                }
                return;
            }
            let r = t.join();
            let acked = model::watch::call_ended(client);
            if r.is_ok() {
                if !acked {
                    return bad!(P, "proof without confirmation: {name}: request {i}");
                }
                if model::shmem::links().iter().any(|l| l == "witness") {
                    return bad!(P, "not released: {name}: the confirmed witness is still published when the call returns");
                }
            } else {
                simrt::probe(if acked { "call failed after confirmation" } else { "call failed without confirmation" });
                if again || !flip(500) {
                    return;
                }
                again = true;
                simrt::note_fault("client_tries_again");
            }
        }
    });
    let f3 = finish.clone();
    let (r3, f4) = (ready.clone(), finish.clone());
    simrt::wait_until_timeout(move || r3.load(Ordering::SeqCst) || f4.load(Ordering::SeqCst), 4_000_000_000_000);
    if hurt && ready.load(Ordering::SeqCst) {
        for _ in 0..simrt::range(1, 2) {
            match choose(3) {
                0 => simrt::sleep_ns(choose(100_000)),
                1 => simrt::sleep_ns(choose(30_000_000)),
                _ => simrt::sleep_ns(0),
            }
            let Some(job) = crate::procs::jobs().pop() else { break };
            let p = job.procs[if flip(500) { 0 } else { choose_usize(job.procs.len()) }];
            if simrt::proc_dead(p) {
                continue;
            }
            if flip(300) {
                simrt::note_fault("kill_server_process");
                simrt::kill_proc(p);
            } else {
                simrt::note_fault("stall_server_process");
                simrt::stall_proc(p, [20, 150, 310, 900][choose_usize(4)] * 1_000_000_000);
            }
        }
    }
    simrt::wait_until_timeout(move || f3.load(Ordering::SeqCst), 40_000_000_000_000);
}
