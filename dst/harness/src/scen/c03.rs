//! Concurrent requests to one proving server: one at a time, all ranks in step, nobody left waiting.
use super::dist::*;
use super::prog::*;
use super::*;
use crate::{bad, served_backend};
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::proving_system::expander_parallelized::client_utils::{wait_async, ClientHttpHelper};
use expander_compiler::zkcuda::proving_system::expander_parallelized::server_ctrl::parse_port_number;
use expander_compiler::zkcuda::proving_system::expander_parallelized::shared_memory_utils::SharedMemoryEngine;
use expander_compiler::zkcuda::proving_system::*;
use serdes::ExpSerde;
use simrt::{choose, choose_usize, flip};
use std::sync::Arc;

const P: &str = "C03";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 16_000,
        thorough: 1_000_000,
        scens: vec![scen("legal", 5, clean, legal), scen("hostile", 4, clean, hostile), scen("faults", 2, faulty, hostile)],
        rule: "one run = one server job of a served backend that up to four clients address at the same time with setup, prove and exit \
               requests, some of them impossible (missing or cut setup file, no witness, witness of the wrong shape). Every \
               collective call must be entered by all its ranks with the same kind and size, the effects of two requests may \
               not alternate, every request must be answered or refused, and after the last exit request every rank ends. \
               Non-trivial = at least two requests were answered.",
        real: "zkcuda::proving_system::expander_parallelized::{server_ctrl, server_fns, client_utils}, served backends' distributed provers (real code)",
        stub: "MPI, POSIX shared memory, loopback HTTP, tokio/axum/reqwest executors, mpiexec, file system, clock, GKR and polynomial commitments (transparent models), field arithmetic",
        parallel: false,
    }
}
fn clean(r: &mut Rng) -> Knobs {
    let starve = if r.below(3) == 0 { Some(1 + r.below(6) as usize) } else { None };
    Knobs { switch_permille: [20, 100, 300, 700][r.below(4) as usize], starve, max_steps: 300_000, ..Knobs::default() }
}
fn faulty(r: &mut Rng) -> Knobs {
    Knobs {
        faults: vec!["net.".into(), "disk.read".into(), "disk.open".into(), "shm.open".into()],
        fault_permille: 50,
        fault_budget: 1 + r.below(3),
        ..clean(r)
    }
}
fn legal() {
    served_backend!(choose_usize(N_SERVED + 1), one, false)
}
fn hostile() {
    served_backend!(choose_usize(N_SERVED + 1), one, true)
}

#[derive(Clone, Debug)]
enum Rq {
    Setup(String),
    Prove,
    Exit,
}
fn send(r: &Rq) -> Result<(), String> {
    let r = r.clone();
    attempt(move || match r {
        Rq::Setup(f) => wait_async(ClientHttpHelper::request_setup(&f)),
        Rq::Prove => wait_async(ClientHttpHelper::request_prove(simrt::choose(1000))),
        Rq::Exit => wait_async(ClientHttpHelper::request_exit()),
    })
}

fn one<C: Config, KP, B>(name: &'static str, _batched: bool, bnd: bool, hostile: bool)
where
    KP: KernelWiseProvingSystem<C> + 'static,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::VerifierSetup: 'static,
    B::ProverSetup: 'static,
{
    let port = port();
    let client = client_proc(port);
    // launches the server and leaves it set up, with a witness published
    let up = bounded(client, 100_000, move || {
        let w = work::<C>(served_opts(bnd), 1)?;
        attempt(|| B::setup(&w.j.graph)).ok()?;
        let file = simrt::interpose::fs(|f| f.files.keys().find(|k| k.contains("computation_graph")).cloned())?;
        let mut b = vec![];
        w.j.graph.serialize_into(&mut b).ok()?;
        std::fs::write("/tmp/again.bin", &b).ok()?;
        if hostile {
            std::fs::write("/tmp/cut.bin", &b[..choose_usize(b.len())]).ok()?;
        }
        attempt(|| SharedMemoryEngine::reset_witness_ack()).ok()?;
        let mut m = w.wits[0].clone();
        if hostile && flip(200) {
            match choose(3) {
                0 => m.truncate(choose_usize(m.len())),
                1 => {
                    let i = choose_usize(m.len());
                    let l = m[i].len();
                    m[i].truncate(l / 2)
                }
                _ => {
                    if let Some(b) = w.bad.clone() {
                        m = b
                    }
                }
            }
            simrt::note_fault("wrong_witness");
        }
        if hostile && flip(100) {
            simrt::note_fault("no_witness");
        } else {
            attempt(|| SharedMemoryEngine::write_witness_to_shared_memory::<C::FieldConfig>(m)).ok()?;
        }
        Some(file)
    });
    let Some(Ok(Some(file))) = up else { return };
    simrt::probe(name);
    let reqs = move || {
        let f = file.clone();
        let c = choose(100);
        if hostile && c < 10 {
            simrt::note_fault("impossible_setup");
            return Rq::Setup([String::from("/tmp/cut.bin"), "/tmp/missing.bin".into(), String::new()][choose_usize(3)].clone());
        }
        match c % 20 {
            0..=9 => Rq::Prove,
            10..=13 => Rq::Setup("/tmp/again.bin".into()),
            14..=18 => Rq::Setup(f),
            _ => Rq::Exit,
        }
    };
    let reqs = Arc::new(reqs);
    let mut js = vec![];
    for k in 0..simrt::range(2, 4) {
        let p = if k == 0 { client } else { crate::procs::new_proc() };
        set_client(p, port);
        let reqs = reqs.clone();
        js.push(simrt::spawn(p, "requests", move || {
            parse_port_number();
            let mut n = 0;
            for _ in 0..simrt::range(1, 3) {
                if flip(300) {
                    simrt::sleep_ns(choose(300_000));
                }
                let r = reqs();
                simrt::log(|| format!("request {r:?}"));
                match send(&r) {
                    Ok(()) => n += 1,
                    Err(e) => simrt::log(|| format!("refused: {e}")),
                }
            }
            n
        }));
    }
    let end = simrt::now_ns() + 4000_000_000_000;
    while js.iter().any(|j| !j.is_done()) && simrt::now_ns() < end {
        simrt::sleep_ns(10_000_000);
    }
    if js.iter().any(|j| !j.is_done()) {
        return bad!(P, "request never answered: {name}");
    }
    let n: usize = js.into_iter().map(|j| j.join().unwrap_or(0)).sum();
    simrt::stop_faults();
    if n >= 2 {
        oracle();
    }
    if simrt::violated() {
        return;
    }
    let last = bounded(client, 4000, || {
        parse_port_number();
        send(&Rq::Exit)
    });
    if last.is_none() {
        return bad!(P, "request never answered: {name}: the last exit request");
    }
    if !all_ended(300) {
        let left: Vec<String> = crate::procs::jobs().into_iter().flat_map(|j| j.procs).flat_map(simrt::live_tasks).collect();
        return bad!(P, "process waits for ever: {name}: after the exit request: {left:?}");
    }
}
