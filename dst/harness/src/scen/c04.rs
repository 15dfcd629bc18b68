//! Histories of setups, witnesses and exits on one server: every window is released once, in time.
use super::dist::*;
use super::prog::*;
use super::*;
use crate::{bad, served_backend};
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::context::ComputationGraph;
use expander_compiler::zkcuda::proving_system::expander_parallelized::client_utils::{wait_async, ClientHttpHelper};
use expander_compiler::zkcuda::proving_system::expander_parallelized::server_ctrl::parse_port_number;
use expander_compiler::zkcuda::proving_system::expander_parallelized::shared_memory_utils::SharedMemoryEngine;
use expander_compiler::zkcuda::proving_system::*;
use serdes::ExpSerde;
use simrt::{choose, choose_usize, flip};

const P: &str = "C04";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 40_000,
        thorough: 1_000_000,
        scens: vec![scen("history", 6, clean, history), scen("brief", 2, clean, early_exit), scen("faults", 2, faulty, history)],
        rule: "one run = one server job of a served backend that is set up with one or two graphs in turn, receives witnesses, \
               proves and is told to exit, in a random order, or is told to exit at once. Windows live at fixed places that \
               fault on any access after their release; the allocator reports memory of a window that reaches it; every vector \
               mapped inside a window is known. Each window must be released by all ranks in one call, once, while no vector \
               refers to it; no window may be replaced while it is still allocated; after the exit request every process ends \
               with code 0 and no window is left. Non-trivial = the server was set up and then ended.",
        real: "zkcuda::proving_system::expander_parallelized::{server_ctrl, server_fns, shared_memory_utils}, zkcuda::mpi_mem_share, served backends' distributed provers (real code)",
        stub: "MPI windows and collectives, POSIX shared memory, loopback HTTP, tokio/axum/reqwest executors, mpiexec, file system, clock, GKR and polynomial commitments (transparent models), field arithmetic",
        parallel: false,
    }
}
fn clean(r: &mut Rng) -> Knobs {
    let starve = if r.below(3) == 0 { Some(1 + r.below(6) as usize) } else { None };
    Knobs { switch_permille: [0, 20, 100, 300, 700][r.below(5) as usize], starve, max_steps: 300_000, ..Knobs::default() }
}
fn faulty(r: &mut Rng) -> Knobs {
    Knobs {
        faults: vec!["net.delay".into(), "net.reply_lost".into(), "disk.read_eintr".into(), "disk.short_read".into()],
        fault_permille: 80,
        fault_budget: 1 + r.below(6),
        ..clean(r)
    }
}
fn history() {
    served_backend!(choose_usize(N_SERVED + 1), one, false)
}
fn early_exit() {
    served_backend!(choose_usize(N_SERVED + 1), one, true)
}

fn width<C: Config>(g: &ComputationGraph<C>) -> usize {
    g.proof_templates().iter().map(|t| t.parallel_count()).max().unwrap_or(1)
}

fn one<C: Config, KP, B>(name: &'static str, _batched: bool, bnd: bool, brief: bool)
where
    KP: KernelWiseProvingSystem<C> + 'static,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::VerifierSetup: 'static,
    B::ProverSetup: 'static,
{
    let port = port();
    let client = client_proc(port);
    let up = bounded(client, 100_000, move || {
        let mut w = vec![work::<C>(served_opts(bnd), 2)?];
        if flip(600) {
            if let Some(x) = work::<C>(served_opts(bnd), 2) {
                w.push(x);
            }
        }
        // the job is sized for the graph it is launched with
        w.sort_by_key(|x| std::cmp::Reverse(width(&x.j.graph)));
        let setup = attempt(|| B::setup(&w[0].j.graph)).ok()?;
        let mut files = vec![simrt::interpose::fs(|f| f.files.keys().find(|k| k.contains("computation_graph")).cloned())?];
        for (i, x) in w.iter().enumerate().skip(1) {
            let mut b = vec![];
            x.j.graph.serialize_into(&mut b).ok()?;
            let f = format!("/tmp/other{i}.bin");
            std::fs::write(&f, &b).ok()?;
            files.push(f);
        }
        simrt::probe(name);
        let mut cur = 0;
        let n = if brief { simrt::range(0, 1) } else { simrt::range(1, 6) };
        for _ in 0..n {
            let ok = if flip(450) {
                let k = choose_usize(w.len());
                simrt::log(|| format!("set up with graph {k}"));
                let f = files[k].clone();
                cur = k;
                simrt::probe("set up again");
                attempt(|| wait_async(ClientHttpHelper::request_setup(&f)))
            } else {
                let m = w[cur].wits[choose_usize(w[cur].wits.len())].clone();
                attempt(|| {
                    if flip(800) {
                        let id = SharedMemoryEngine::reset_witness_ack();
                        SharedMemoryEngine::write_witness_to_shared_memory::<C::FieldConfig>(m);
                        wait_async(ClientHttpHelper::request_prove(id));
                    } else {
                        B::prove(&setup.0, &w[cur].j.graph, m);
                    }
                    simrt::probe("proved");
                })
            };
            if let Err(e) = ok {
                simrt::log(|| format!("request failed: {e}"));
                simrt::probe("a request failed");
                break;
            }
        }
        Some(())
    });
    let Some(Ok(Some(()))) = up else { return };
    if simrt::violated() {
        return;
    }
    simrt::stop_faults();
    let _ = choose(2);
    let last = bounded(client, 4000, || {
        parse_port_number();
        attempt(|| wait_async(ClientHttpHelper::request_exit()))
    });
    let jobs = crate::procs::jobs();
    if jobs.iter().any(|j| j.aborted) {
        let p: Vec<_> = jobs.iter().flat_map(|j| j.procs.clone()).flat_map(simrt::panics_of).collect();
        return bad!(P, "server fails: {name}: {p:?}");
    }
    if !matches!(last, Some(Ok(Ok(())))) {
        return simrt::probe("exit request failed");
    }
    oracle();
    if !all_ended(400) {
        let left: Vec<String> = jobs.iter().flat_map(|j| j.procs.clone()).flat_map(simrt::live_tasks).collect();
        return bad!(P, "server does not end: {name}: after the exit request: {left:?}");
    }
    for j in &jobs {
        for p in &j.procs {
            if simrt::exit_code(*p) != Some(0) {
                return bad!(P, "server ends abnormally: {name}: process {p} with {:?}, panics {:?}", simrt::exit_code(*p), simrt::panics_of(*p));
            }
        }
        let n = model::mpi::live_windows(j.mpi);
        if n > 0 {
            return bad!(P, "windows left: {name}: {n} after the exit");
        }
    }
}
