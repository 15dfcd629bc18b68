//! Images of graphs, layered circuits and witnesses in shared memory, read by every rank.
use super::c08::{is_transposed, job};
use super::dist::served_opts;
use super::prog::*;
use super::*;
use crate::{bad, with_config};
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::context::ComputationGraph;
use expander_compiler::zkcuda::kernel::Kernel;
use expander_compiler::zkcuda::proving_system::expander_parallelized::shared_memory_utils::SharedMemoryEngine;
use gkr_engine::{MPIConfig, MPIEngine, MPISharedMemory};
use arith::Field;
use serdes::ExpSerde;
use simrt::{choose, choose_usize, flip};
use std::sync::Arc;

const P: &str = "C05";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 120_000,
        thorough: 2_000_000,
        scens: vec![scen("graph", 5, clean, graph), scen("witness", 3, clean, witness), scen("file", 3, faulty, file)],
        rule: "one run = a job of 1 to 9 ranks whose root places a generated computation graph or the vectors of a witness in an MPI \
               window filled with garbage; every rank maps it, in a random order and with the original gone, copies what it sees, \
               and maps it a second time. Announced size, bytes written and bytes read back must agree, nothing may be written \
               past the end, and the copy of each rank must equal the original field by field: layered circuits, input layout, \
               commitment lengths, templates, vectors. In the file scenario the root reads the graph with the server's own code. \
               Non-trivial = at least one rank's copy was compared.",
        real: "zkcuda::mpi_mem_share, shared_memory_utils, server_fns::read_circuit, graph compilation and serialisation (real code)",
        stub: "MPI windows and collectives, POSIX shared memory, MPISharedMemory of plain values and vectors (crate gkr_engine), file system, field arithmetic",
        parallel: false,
    }
}
fn clean(r: &mut Rng) -> Knobs {
    let starve = if r.below(3) == 0 { Some(1 + r.below(6) as usize) } else { None };
    Knobs { switch_permille: [0, 100, 300, 700][r.below(4) as usize], starve, max_steps: 300_000, ..Knobs::default() }
}
fn faulty(r: &mut Rng) -> Knobs {
    Knobs {
        faults: vec!["disk.read_eintr".into(), "disk.short_read".into()],
        fault_permille: 200,
        fault_budget: 1 + r.below(6),
        ..clean(r)
    }
}

/// What proving reads of a graph, in bytes.
fn parts<C: Config>(g: &ComputationGraph<C>) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let ser = |x: &dyn Fn(&mut Vec<u8>)| {
        let mut b = vec![];
        x(&mut b);
        b
    };
    v.push(("number of kernels".into(), vec![g.kernels().len() as u8]));
    for (i, k) in g.kernels().iter().enumerate() {
        let c = k.layered_circuit();
        v.push((
            format!("kernel {i}: shape"),
            format!("{} {} {} {:?}", c.num_public_inputs, c.num_actual_outputs, c.expected_num_output_zeroes, c.layer_ids).into_bytes(),
        ));
        v.push((format!("kernel {i}: circuit"), ser(&|b| c.serialize_into(b).unwrap())));
        v.push((format!("kernel {i}: input layout"), format!("{:?}", k.layered_circuit_input()).into_bytes()));
    }
    v.push(("commitment lengths".into(), format!("{:?}", g.commitments_lens()).into_bytes()));
    v.push(("templates".into(), format!("{:?}", g.proof_templates()).into_bytes()));
    v
}
fn same(what: &str, rank: usize, want: &[(String, Vec<u8>)], got: &[(String, Vec<u8>)]) {
    if want.len() != got.len() {
        return bad!(P, "rank sees another graph: {what}: rank {rank} sees {} parts of {}", got.len(), want.len());
    }
    for (a, b) in want.iter().zip(got) {
        if a != b {
            return bad!(P, "rank sees another graph: {what}: rank {rank}: {} differs", a.0);
        }
    }
}

/// The processes of a job and, in each of them, its MPI handle.
fn ranks(n: usize, f: impl Fn(usize, MPIConfig<'static>) + Send + Sync + 'static) -> bool {
    let procs: Vec<usize> = (0..n).map(|_| crate::procs::new_proc()).collect();
    model::mpi::register_job(&procs);
    let f = Arc::new(f);
    let js: Vec<_> = procs
        .iter()
        .enumerate()
        .map(|(r, p)| {
            let f = f.clone();
            simrt::spawn(*p, "rank", move || {
                let u: &'static _ = Box::leak(Box::new(MPIConfig::init().unwrap()));
                let w: &'static _ = Box::leak(Box::new(u.world()));
                f(r, MPIConfig::prover_new(Some(u), Some(w)));
            })
        })
        .collect();
    let mut ok = true;
    for j in js {
        if let Err(e) = j.join() {
            bad!(P, "rank panics: {}", simrt::panic_text(&*e));
            ok = false;
        }
    }
    ok
}
fn n_ranks() -> usize {
    [1, 2, 3, 4, 8, 9][choose_usize(6)]
}

fn opts() -> POpts {
    POpts { k: KOpts { hints: flip(200), may_fail: false, max_ops: [3, 6, 12][choose_usize(3)], plain: flip(300) }, max_calls: simrt::range(1, 5), ..served_opts(false) }
}
fn graph() {
    with_config!(choose_usize(5), C => graph_of::<C>(false))
}
fn file() {
    with_config!(choose_usize(5), C => graph_of::<C>(true))
}
fn graph_of<C: Config>(file: bool) {
    let Some(mut j) = job::<C>(opts()) else { return };
    if flip(300) {
        // circuits with segments in segments, which small kernels rarely compile to
        simrt::probe("nested segments");
        for k in j.graph.kernels.iter_mut() {
            k.layered_circuit = super::lopt::any();
            k.layered_circuit.segments.iter_mut().for_each(|s| s.gate_customs.clear());
        }
    }
    if is_transposed(&j.graph) {
        simrt::probe("transposed graph");
    }
    let want = Arc::new(parts(&j.graph));
    let mut b = vec![];
    j.graph.serialize_into(&mut b).unwrap();
    if file {
        simrt::interpose::fs(|f| f.files.insert("/tmp/graph.bin".into(), b.clone()));
    }
    let bytes = Arc::new(b);
    simrt::observe(simrt::mix(7, want.len() as u64));
    let again = choose(3);
    ranks(n_ranks(), move |r, mpi| {
        let mut wins = vec![];
        for round in 0..=again {
            if flip(300) {
                simrt::sleep_ns(choose(100_000));
            }
            let (g, win) = if file {
                let mut g = ComputationGraph::<C>::default();
                let mut w = None;
                let x = attempt(|| {
                    read::<C>(&mpi, &mut g, &mut w);
                });
                if let Err(e) = x {
                    std::mem::forget(g);
                    return bad!(P, "reading fails: {e}");
                }
                (g, w.unwrap())
            } else {
                let root = mpi.is_root().then(|| ComputationGraph::<C>::deserialize_from(&bytes[..]).unwrap());
                mpi.consume_obj_and_create_shared(root)
            };
            if round > 0 {
                simrt::probe("mapped again");
            }
            let seen = parts(&g);
            oracle();
            same("graph", r, &want, &seen);
            // every kernel of the image is usable
            let kk: Vec<Kernel<C>> = g.kernels().to_vec();
            for (k, o) in kk.iter().zip(g.kernels()) {
                if k.layered_circuit() != o.layered_circuit() {
                    bad!(P, "image is not a value: a copy of kernel differs");
                }
            }
            if flip(500) {
                simrt::sleep_ns(choose(100_000));
                same("graph later", r, &want, &parts(&g));
            }
            g.discard_control_of_shared_mem();
            wins.push(win);
        }
        for mut w in wins {
            mpi.free_shared_mem(&mut w);
        }
    });
}
/// The server's own reading of a setup file, for any proof system of this configuration.
pub fn read<C: Config>(mpi: &MPIConfig<'static>, g: &mut ComputationGraph<C>, w: &mut Option<*mut model::mpi::ompi_win_t>) {
    use expander_compiler::zkcuda::proving_system::expander_parallelized::server_fns::{broadcast_string, read_circuit};
    let f = broadcast_string(mpi, mpi.is_root().then(|| "/tmp/graph.bin".to_string()));
    let mut win = None;
    read_circuit::<C, C>(mpi, f, g, &mut win);
    *w = win.map(|x| x.win);
}

fn witness() {
    with_config!(choose_usize(5), C => witness_of::<C>())
}
fn witness_of<C: Config>() {
    let k = simrt::range(0, 5);
    let mut wits: Vec<Vec<Vec<S<C>>>> = vec![];
    for _ in 0..simrt::range(1, 3) {
        let l: Vec<usize> = (0..k).map(|_| [0, 1, 2, 3, 8, 17][choose_usize(6)]).collect();
        wits.push(l.iter().map(|n| (0..*n).map(|_| S::<C>::random_unsafe(rand::thread_rng())).collect()).collect());
    }
    let wits = Arc::new(wits);
    let client = crate::procs::new_proc();
    let w2 = wits.clone();
    let turn = Arc::new(std::sync::Mutex::new((0usize, 0usize))); // published, ranks that have read
    let n = n_ranks();
    let t2 = turn.clone();
    let c = simrt::spawn(client, "client", move || {
        for (i, w) in w2.iter().enumerate() {
            let t3 = t2.clone();
            simrt::wait_until(move || t3.lock().unwrap().1 >= i * n);
            SharedMemoryEngine::write_witness_to_shared_memory::<C::FieldConfig>(w.clone());
            t2.lock().unwrap().0 = i + 1;
        }
        let (t3, m) = (t2.clone(), w2.len());
        simrt::wait_until(move || t3.lock().unwrap().1 >= m * n);
    });
    let w3 = wits.clone();
    ranks(n, move |r, mpi| {
        for (i, want) in w3.iter().enumerate() {
            let t3 = turn.clone();
            simrt::wait_until(move || t3.lock().unwrap().0 > i);
            if flip(300) {
                simrt::sleep_ns(choose(100_000));
            }
            let (got, mut win) = SharedMemoryEngine::read_shared_witness_from_shared_memory::<C::FieldConfig>(&mpi);
            oracle();
            if got != *want {
                bad!(P, "rank sees another witness: rank {r} of {n}, lengths {:?} for {:?}", got.iter().map(|v| v.len()).collect::<Vec<_>>(), want.iter().map(|v| v.len()).collect::<Vec<_>>());
            }
            let copy = got.clone();
            simrt::yield_now();
            if copy != got {
                bad!(P, "image is not a value: rank {r} of {n}");
            }
            got.into_iter().for_each(|v| v.discard_control_of_shared_mem());
            mpi.free_shared_mem(&mut win.win);
            turn.lock().unwrap().1 += 1;
        }
    });
    let _ = c.join();
}
