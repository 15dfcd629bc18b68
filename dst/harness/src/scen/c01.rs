//! The multi-process proving service returns proofs of exactly the submitted witnesses.
use super::dist::*;
use super::prog::*;
use super::*;
use crate::{bad, served_backend};
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::proving_system::*;
use simrt::{choose_usize, flip};
use std::sync::atomic::Ordering;

const P: &str = "C01";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 16_000,
        thorough: 1_000_000,
        scens: vec![scen("session", 6, clean, session), scen("delays", 3, delays, session)],
        rule: "one run = one or two sessions of one client with one of 14 served backends: setup of a seeded graph, one to three \
               prove calls with different satisfying witnesses, possibly a last one with a violating witness, exit. Every \
               proof must verify over commitments to exactly the submitted witness, and every such call must succeed. \
               Non-trivial = at least one served proof was judged.",
        real: "zkcuda::proving_system::{expander_parallelized, expander_pcs_defered, expander_no_oversubscribe, expander} clients, servers, \
               shared memory engine and verifiers, zkcuda::mpi_mem_share, bin/ server programs (real code)",
        stub: "MPI, POSIX shared memory, loopback HTTP, tokio/axum/reqwest executors, mpiexec, file system, clock, GKR and polynomial commitments (transparent models), field arithmetic",
        parallel: false,
    }
}
fn clean(r: &mut Rng) -> Knobs {
    let starve = if r.below(4) == 0 { Some(1 + r.below(6) as usize) } else { None };
    Knobs { switch_permille: [0, 20, 100, 300, 700][r.below(5) as usize], starve, max_steps: 300_000, ..Knobs::default() }
}
fn delays(r: &mut Rng) -> Knobs {
    Knobs { faults: vec!["net.delay".into(), "disk.short".into(), "disk.read_eintr".into(), "disk.write_eintr".into()],
        fault_permille: 200, fault_budget: 30, ..clean(r) }
}

fn session() {
    served_backend!(choose_usize(N_SERVED + 1), one)
}

fn one<C: Config, KP, B>(name: &'static str, batched: bool, bnd: bool)
where
    KP: KernelWiseProvingSystem<C> + 'static,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::VerifierSetup: 'static,
    B::ProverSetup: 'static,
{
    model::gkr::DUAL.store(!batched && flip(500), Ordering::Relaxed);
    let port = port();
    let client = client_proc(port);
    let n = simrt::range(1, 2);
    let j = simrt::spawn(client, "client", move || {
        for s in 0..n {
            let Some(w) = work::<C>(served_opts(bnd), simrt::range(1, 3)).map(std::sync::Arc::new) else { return };
            simrt::probe(name);
            simrt::log(|| format!("{name}: {} templates, {} witnesses", w.j.graph.proof_templates().len(), w.wits.len()));
            let setup = match attempt(|| B::setup(&w.j.graph)) {
                Ok(x) => std::sync::Arc::new(x),
                Err(p) => return bad!(P, "setup fails: {name}: {p}"),
            };
            for (i, m) in w.wits.iter().enumerate() {
                match attempt(|| B::prove(&setup.0, &w.j.graph, m.clone())) {
                    Ok(pf) => {
                        if let Err((s, x)) = judge::<C, KP, B>(&setup.1, &w.j, m, &pf) {
                            return bad!(P, "{s}: {name}: session {s}, request {i}: {x}");
                        }
                    }
                    Err(p) => return bad!(P, "prove fails: {name}: session {s}, request {i}: {p}"),
                }
            }
            oracle();
            if w.bad.is_some() {
                simrt::note_fault("violating_witness");
                if let Some(p2) = hopeless::<C, KP, B>(&setup, &w) {
                    bad!(P, "violating witness accepted: {name}: {p2}");
                }
                return;
            }
            if let Err(p) = attempt(|| B::post_process()) {
                return bad!(P, "exit fails: {name}: {p}");
            }
            if !all_ended(120) {
                // C04's business
                return;
            }
        }
    });
    let _ = j.join();
}
/// A proof of a violating witness may fail or never come, but is not accepted.
fn hopeless<C: Config, KP, B>(
    setup: &std::sync::Arc<(B::ProverSetup, B::VerifierSetup)>,
    w: &std::sync::Arc<Work<C>>,
) -> Option<&'static str>
where
    KP: KernelWiseProvingSystem<C> + 'static,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::VerifierSetup: 'static,
    B::ProverSetup: 'static,
{
    let (s2, w2) = (setup.clone(), w.clone());
    let t = simrt::spawn(simrt::current_proc(), "prover", move || B::prove(&s2.0, &w2.j.graph, w2.bad.clone().unwrap()));
    let end = simrt::now_ns() + 400_000_000_000;
    while !t.is_done() && simrt::now_ns() < end {
        simrt::sleep_ns(1_000_000_000);
    }
    if !t.is_done() {
        return None;
    }
    let pf = t.join().ok()?;
    match attempt(|| B::verify(&setup.1, &w.j.graph, &pf)) {
        Ok(true) => Some("verified"),
        _ => None,
    }
}
