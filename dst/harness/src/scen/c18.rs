//! The setup, prove, verify and cleanup programs as separate processes that meet in files.
use super::c08::*;
use super::dist::*;
use super::prog::*;
use super::*;
use crate::{bad, served_backend};
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::proving_system::expander::config::ZKCudaBN254MIMCKZGBatchPCS;
use expander_compiler::zkcuda::proving_system::*;
use serdes::ExpSerde;
use simrt::{choose, choose_usize, flip, interpose::fs};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

const P: &str = "C18";
const PROVER: &str = "/tmp/prover_setup.bin";
const VERIFIER: &str = "/tmp/verifier_setup.bin";
const PROOF: &str = "/tmp/proof.bin";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 4_000,
        thorough: 400_000,
        scens: vec![
            scen("programs", 5, calm, programs),
            scen("generated", 5, calm, generated),
            scen("programs with faults", 3, faulty, programs),
            scen("generated with faults", 3, faulty, generated),
        ],
        rule: "one run = an operator who starts the setup, prove, verify and cleanup programs in some order, each in a new \
               process with its own hash seeds, kills some of them, at any time or in the middle of a write, while files are \
               cut, corrupted, removed or replaced by the proof of another witness, graph or lying prover; then the faults \
               stop and the programs run once in order. A verify program that ends with success has read a complete proof \
               over a satisfying witness of its own graph; an undisturbed verify after a completed prove succeeds; an \
               undisturbed prove after a completed setup succeeds; after a completed cleanup the server ends. The \
               programs are the repository's own, or the same protocol around generated graphs and every served backend. \
               Non-trivial = a verify program ran on some proof file.",
        real: "bin/zkcuda_integration/{setup,prove,verify,cleanup}.rs, zkcuda front end, expander_parallelized client and server, served backends (real code)",
        stub: "process creation, MPI, POSIX shared memory, loopback HTTP, tokio/axum/reqwest executors, mpiexec, file system, clock, GKR and polynomial commitments (transparent models), field arithmetic",
        parallel: false,
    }
}
fn calm(r: &mut Rng) -> Knobs {
    Knobs { switch_permille: [0, 20, 100, 300][r.below(4) as usize], max_steps: 1_500_000, ..Knobs::default() }
}
fn faulty(r: &mut Rng) -> Knobs {
    Knobs {
        faults: ["net.", "disk.", "shm.", "spawn.", "crash.during_write"].iter().map(|s| s.to_string()).collect(),
        fault_permille: [10, 50, 200][r.below(3) as usize],
        fault_budget: 1 + r.below(5),
        ..calm(r)
    }
}

type Main = Arc<dyn Fn()>;
/// The four programs, and what else an operator could find in the proof file.
struct Suite {
    name: &'static str,
    setup: Main,
    /// with the number of the input
    prove: Arc<dyn Fn(usize)>,
    inputs: usize,
    /// an input that satisfies nothing
    bad: Option<usize>,
    verify: Main,
    cleanup: Main,
    /// Err: not a complete proof over a satisfying witness
    judge: Box<dyn Fn(&[u8]) -> Result<(), String>>,
}

fn judged<C: Config, KP: KernelWiseProvingSystem<C>>(b: &[u8], wits: &[Vec<Vec<S<C>>>]) -> Result<(), String> {
    let mut r = b;
    let pf = CombinedProof::<C, KP>::deserialize_from(&mut r).map_err(|_| "not a proof".to_string())?;
    if bytes(&pf)[..] != b[..b.len() - r.len()] {
        return Err("an incomplete proof".into());
    }
    let have: Vec<Vec<u8>> = pf.commitments.iter().map(bytes).collect();
    let same = |m: &Vec<Vec<S<C>>>| m.len() == have.len() && m.iter().zip(&have).all(|(v, c)| commitment_bytes::<C>(v, false) == *c);
    if wits.iter().any(same) {
        Ok(())
    } else {
        Err("commitments of no satisfying witness".into())
    }
}

fn programs() {
    type ZC = ZKCudaBN254MIMCKZGBatchPCS<'static>;
    type KP = <ZC as expander_compiler::zkcuda::proving_system::expander::config::ZKCudaConfig>::GKRConfig;
    use crate::bins::prove::cg_def::MyCGDef;
    use expander_compiler::zkcuda::context::ComputationGraphDefine as D;
    let input = <MyCGDef as D<BN254Config>>::get_input();
    let w = <MyCGDef as D<BN254Config>>::gen_computation_graph_and_witness(Some(input)).1.unwrap();
    operator(Suite {
        name: "integration programs",
        setup: Arc::new(crate::bins::setup::main),
        prove: Arc::new(|_| crate::bins::prove::main()),
        inputs: 1,
        bad: None,
        verify: Arc::new(crate::bins::verify::main),
        cleanup: Arc::new(crate::bins::cleanup::main),
        judge: Box::new(move |b| judged::<BN254Config, Expander<KP>>(b, std::slice::from_ref(&w))),
    })
}

fn generated() {
    served_backend!(choose_usize(N_SERVED + 1), gen)
}
fn gen<C: Config, KP, B>(name: &'static str, _batched: bool, bnd: bool)
where
    KP: KernelWiseProvingSystem<C> + 'static,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::VerifierSetup: 'static,
    B::ProverSetup: 'static,
{
    let Some(j) = job::<C>(served_opts(bnd)) else { return };
    if is_transposed(&j.graph) {
        return;
    }
    let sc = j.sc.clone();
    let (mut datas, mut wits, mut worse) = (vec![], vec![], vec![]);
    for i in 0..4 {
        let d = if i == 0 { j.data.clone() } else { gen_data::<C>(&sc) };
        let Some(k) = job_with::<C>(sc.clone(), d.clone()) else { continue };
        if !k.trace.all_sat() {
            worse.push(d);
        } else {
            datas.push(d);
            wits.push(k.mems);
        }
    }
    if datas.is_empty() {
        return;
    }
    let inputs = datas.len();
    let bad = (!worse.is_empty()).then_some(inputs);
    datas.extend(worse);
    let d0 = datas[0].clone();
    // every program compiles the kernels and builds the graph for itself
    let graph = {
        let sc = sc.clone();
        move || job_with::<C>(sc.clone(), d0.clone()).expect("the graph")
    };
    let (g1, g2) = (graph.clone(), graph);
    let sc2 = sc.clone();
    operator(Suite {
        name,
        setup: Arc::new(move || {
            let (p, v) = B::setup(&g1().graph);
            std::fs::write(PROVER, bytes(&p)).unwrap();
            std::fs::write(VERIFIER, bytes(&v)).unwrap();
        }),
        prove: Arc::new(move |i| {
            let j = job_with::<C>(sc2.clone(), datas[i].clone()).expect("the witness");
            let p = B::ProverSetup::deserialize_from(&std::fs::read(PROVER).unwrap()[..]).unwrap();
            let pf = B::prove(&p, &j.graph, j.mems);
            std::fs::write(PROOF, bytes(&pf)).unwrap();
        }),
        inputs,
        bad,
        verify: Arc::new(move || {
            let j = g2();
            let v = B::VerifierSetup::deserialize_from(&std::fs::read(VERIFIER).unwrap()[..]).unwrap();
            let pf = CombinedProof::<C, KP>::deserialize_from(&std::fs::read(PROOF).unwrap()[..]).unwrap();
            assert!(B::verify(&v, &j.graph, &pf), "Proof verification failed");
        }),
        cleanup: Arc::new(|| B::post_process()),
        judge: Box::new(move |b| judged::<C, KP>(b, &wits)),
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Ok,
    Failed,
    Killed,
}
/// Starts a program and waits for it; it is killed after `kill` of simulated time.
fn run(port: u16, what: &str, main: Main, secs: u64, kill: Option<u64>) -> End {
    struct M(Main);
    unsafe impl Send for M {}
    let p = client_proc(port);
    let m = M(main);
    simrt::log(|| format!("{what} starts as process {p}"));
    simrt::start_proc(p, what, move || {
        let m = m;
        (m.0)()
    });
    let end = simrt::now_ns() + kill.unwrap_or(secs * 1_000_000_000);
    let mut step = 2_000;
    while !simrt::proc_dead(p) {
        let t = simrt::now_ns();
        if t >= end {
            if kill.is_some() {
                simrt::note_fault("kill_program");
            }
            simrt::kill_proc(p);
            return End::Killed;
        }
        simrt::sleep_ns(step.min(end - t).max(1));
        step = (step * 2).min(1_000_000_000);
    }
    let r = match simrt::exit_code(p) {
        Some(0) => End::Ok,
        Some(_) => End::Failed,
        None => End::Killed,
    };
    simrt::log(|| format!("{what}: {r:?} {:?}", simrt::panics_of(p)));
    r
}
fn file(name: &str) -> Option<Vec<u8>> {
    fs(|f| f.files.get(name).cloned())
}
fn damage(name: &str) -> bool {
    let old = file(name);
    let hit = fs(|f| {
        let Some(v) = f.files.get_mut(name) else { return false };
        match choose(4) {
            0 => {
                f.files.remove(name);
            }
            1 => {
                let n = v.len();
                if n > 0 {
                    v.truncate(choose_usize(n));
                }
            }
            _ => {
                if v.is_empty() {
                    return false;
                }
                let at = choose_usize(v.len());
                v[at] ^= 1 << choose(8);
            }
        }
        true
    });
    hit && old != file(name)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Proof {
    Good,
    /// from a prover that was given a violating witness
    Bad,
    Damaged,
    /// a prover was killed or failed: the old file, a torn one or a complete one
    Unknown,
}

fn operator(s: Suite) {
    let port = port();
    simrt::probe(s.name);
    let noisy = simrt::knobs(|k| !k.faults.is_empty());
    let mut proof = Proof::Unknown;
    let mut setup_intact = false;
    // a server that a completed setup left in order
    let mut serving = false;
    let mut verified = false;
    // whether a disturbed request may still keep the server busy
    let mut unsettled = false;
    let name = s.name;
    let some_time = || match choose(3) {
        0 => Some(choose(60_000)),
        1 => Some(choose(2_000_000)),
        _ => Some(choose(3_000_000_000)),
    };
    for _ in 0..simrt::range(3, 9) {
        match choose(10) {
            0 | 1 if !serving || flip(200) => {
                let kill = if flip(250) { some_time() } else { None };
                let r = run(port, "setup", s.setup.clone(), 2000, kill);
                setup_intact = r == End::Ok;
                serving = r == End::Ok && !unsettled;
                unsettled |= r != End::Ok;
                proof = match proof {
                    Proof::Good => Proof::Unknown,
                    p => p,
                };
            }
            2..=4 => {
                let kill = if flip(200) { some_time() } else { None };
                let bad = s.bad.filter(|_| flip(150));
                let i = bad.unwrap_or_else(|| choose_usize(s.inputs));
                if bad.is_some() {
                    model::gkr::LIE.store(flip(700), Ordering::Relaxed);
                    simrt::note_fault("violating_witness");
                }
                let p2 = s.prove.clone();
                let before = file(PROOF);
                let r = run(port, "prove", Arc::new(move || p2(i)), 1500, kill);
                model::gkr::LIE.store(false, Ordering::Relaxed);
                proof = match r {
                    End::Ok if bad.is_some() => Proof::Bad,
                    End::Ok if setup_intact => Proof::Good,
                    _ if file(PROOF) == before => proof,
                    _ => Proof::Unknown,
                };
                if bad.is_none() && kill.is_none() && serving && !noisy && r != End::Ok {
                    return bad!(P, "prove fails: {name}: after a completed setup: {r:?}");
                }
                if r != End::Ok || bad.is_some() {
                    // the server may be dead or busy with it
                    serving = false;
                    unsettled = true;
                    if flip(500) {
                        simrt::sleep_ns(400_000_000_000);
                    }
                }
            }
            5 => {
                if damage(PROOF) {
                    simrt::note_fault("proof_file_damaged");
                    proof = Proof::Damaged;
                }
            }
            6 => {
                let f = if flip(700) { VERIFIER } else { PROVER };
                if damage(f) {
                    simrt::note_fault("setup_file_damaged");
                    setup_intact = false;
                    if proof == Proof::Good {
                        proof = Proof::Unknown;
                    }
                    serving = false;
                }
            }
            7 if flip(400) => {
                let kill = if flip(150) { some_time() } else { None };
                let r = run(port, "cleanup", s.cleanup.clone(), 900, kill);
                if r == End::Ok && !unsettled && !all_ended(400) {
                    return bad!(P, "server does not end: {name}: after the cleanup");
                }
                serving = false;
                unsettled |= r != End::Ok;
            }
            _ => {
                let Some(before) = file(PROOF) else {
                    if run(port, "verify", s.verify.clone(), 900, None) == End::Ok {
                        return bad!(P, "missing proof verified: {name}");
                    }
                    continue;
                };
                let others = flip(150);
                let stop = Arc::new(AtomicBool::new(false));
                if others {
                    // a prover writes the file at the same time
                    let (p2, s2) = (s.prove.clone(), stop.clone());
                    let i = choose_usize(s.inputs);
                    let p = client_proc(port);
                    struct M(Arc<dyn Fn(usize)>);
                    unsafe impl Send for M {}
                    let m = M(p2);
                    simrt::start_proc(p, "prove", move || {
                        let m = m;
                        (m.0)(i);
                        s2.store(true, Ordering::SeqCst);
                    });
                    simrt::note_fault("concurrent_prove");
                }
                let r = run(port, "verify", s.verify.clone(), 900, None);
                verified = true;
                if others {
                    let mut left = 500;
                    while !stop.load(Ordering::SeqCst) && left > 0 {
                        left -= 1;
                        simrt::sleep_ns(1_000_000_000);
                    }
                    unsettled |= left == 0;
                    serving &= left > 0;
                    proof = Proof::Unknown;
                    if r == End::Ok {
                        let after = file(PROOF).unwrap_or_default();
                        if let (Err(e), Err(_)) = ((s.judge)(&before), (s.judge)(&after)) {
                            return bad!(P, "wrong proof verified: {name}: neither the old nor the new file: {e}");
                        }
                    }
                    continue;
                }
                simrt::probe(&format!("verify of {proof:?}: {r:?}"));
                match (r, proof) {
                    (End::Ok, Proof::Bad) => return bad!(P, "wrong proof verified: {name}: of a violating witness"),
                    (End::Ok, Proof::Damaged) if setup_intact => return bad!(P, "wrong proof verified: {name}: a damaged file"),
                    (End::Ok, _) => {
                        if let Err(e) = (s.judge)(&before) {
                            return bad!(P, "wrong proof verified: {name}: {e}");
                        }
                    }
                    (_, Proof::Good) if setup_intact && !noisy => {
                        return bad!(P, "good proof refused: {name}");
                    }
                    _ => {}
                }
            }
        }
        if simrt::violated() {
            return;
        }
    }
    // the faults stop; the operator ends what is left and runs the programs in order, twice
    simrt::stop_faults();
    if unsettled {
        simrt::sleep_ns(5_000_000_000);
        crate::procs::kill_all_jobs();
        simrt::sleep_ns(1_000_000_000);
    } else if crate::procs::jobs().iter().any(|j| j.procs.iter().any(|p| !simrt::proc_dead(*p))) {
        let r = run(port, "cleanup", s.cleanup.clone(), 900, None);
        if r != End::Ok && model::net::is_bound(port) {
            return bad!(P, "cleanup fails: {name}: {r:?}");
        }
        if r == End::Ok && !all_ended(400) {
            return bad!(P, "server does not end: {name}: after the cleanup");
        }
        crate::procs::kill_all_jobs();
    }
    for round in 0..simrt::range(1, 2) {
        let i = choose_usize(s.inputs);
        let p2 = s.prove.clone();
        for (what, main) in
            [("setup", s.setup.clone()), ("prove", Arc::new(move || p2(i)) as Main), ("verify", s.verify.clone()), ("cleanup", s.cleanup.clone())]
        {
            let r = run(port, what, main, 3000, None);
            if r != End::Ok {
                return bad!(P, "no orderly session: {name}: round {round}: {what}: {r:?}");
            }
            verified |= what == "verify";
        }
        if !all_ended(400) {
            return bad!(P, "server does not end: {name}: after the cleanup of round {round}");
        }
    }
    if verified {
        oracle();
    }
}
