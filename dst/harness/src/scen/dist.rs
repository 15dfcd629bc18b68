//! Clients and servers of the proving service as simulated processes.
use super::c08::*;
use super::prog::*;
use super::*;
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::proving_system::*;
use simrt::{choose, choose_usize, flip};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

pub const N_SERVED: usize = 16;

/// The service refuses BN254Config itself (its server programs take SHA256 transcripts only).
/// `f::<Config, KernelWise, Backend>(name, batched, bounded)`
#[macro_export]
macro_rules! served_backend {
    ($i:expr, $f:ident $(, $a:expr)*) => {{
        use expander_compiler::zkcuda::proving_system::expander::config::*;
        use expander_compiler::zkcuda::proving_system::expander_pcs_defered::{BN254ConfigMIMCUniKZG, BN254ConfigSha2UniKZG};
        use expander_compiler::zkcuda::proving_system::{
            Expander as E, ExpanderNoOverSubscribe as N, ExpanderPCSDefered as D, ParallelizedExpander as P,
        };
        use expander_compiler::circuit::config::*;
        use gkr::BN254ConfigSha2Hyrax;
        type Hy = BN254ConfigSha2Hyrax<'static>;
        type Kz = BN254ConfigSha2UniKZG<'static>;
        type Mi = BN254ConfigMIMCUniKZG<'static>;
        match $i {
            0 => $f::<M31Config, E<M31Config>, P<M31Config>>("parallel M31 Raw", false, false $(, $a)*),
            2 => $f::<GF2Config, E<GF2Config>, P<GF2Config>>("parallel GF2 Raw", false, false $(, $a)*),
            3 => $f::<GoldilocksConfig, E<GoldilocksConfig>, P<GoldilocksConfig>>("parallel Goldilocks Raw", false, false $(, $a)*),
            4 => $f::<BabyBearConfig, E<BabyBearConfig>, P<BabyBearConfig>>("parallel BabyBear Raw", false, false $(, $a)*),
            1 | 5 => $f::<BN254Config, E<Hy>, P<Hy>>("parallel BN254 Hyrax", false, false $(, $a)*),
            6 => $f::<BN254Config, E<Kz>, P<Kz>>("parallel BN254 KZG", false, false $(, $a)*),
            7 | 14 => $f::<BN254Config, E<Hy>, D<Hy>>("deferred BN254 Hyrax", true, false $(, $a)*),
            8 => $f::<BN254Config, E<Kz>, D<Kz>>("deferred BN254 KZG", true, false $(, $a)*),
            9 => $f::<BN254Config, E<Hy>, N<ZKCudaBN254Hyrax<'static>>>("bounded BN254 Hyrax", false, true $(, $a)*),
            10 => $f::<BN254Config, E<Kz>, N<ZKCudaBN254KZG<'static>>>("bounded BN254 KZG", false, true $(, $a)*),
            11 => $f::<BN254Config, E<Mi>, N<ZKCudaBN254MIMCKZG<'static>>>("bounded BN254 MIMCKZG", false, true $(, $a)*),
            12 | 15 => $f::<BN254Config, E<Hy>, N<ZKCudaBN254HyraxBatchPCS<'static>>>("bounded-batched BN254 Hyrax", true, true $(, $a)*),
            13 => $f::<BN254Config, E<Kz>, N<ZKCudaBN254KZGBatchPCS<'static>>>("bounded-batched BN254 KZG", true, true $(, $a)*),
            _ => $f::<BN254Config, E<Mi>, N<ZKCudaBN254MIMCKZGBatchPCS<'static>>>("bounded-batched BN254 MIMCKZG", true, true $(, $a)*),
        }
    }};
}

/// Programs for the service: few instances, since every instance may be a process.
pub fn served_opts(bounded: bool) -> POpts {
    let np = if bounded { [3, 8, 17][choose_usize(3)] } else { [2, 4, 8][choose_usize(3)] };
    POpts { k: KOpts { hints: flip(200), may_fail: false, max_ops: 4, plain: flip(500) }, max_calls: 3, max_elems: 4, ..popts(np) }
}

/// A new client process of the service on some port.
pub fn client_proc(port: u16) -> usize {
    let p = crate::procs::new_proc();
    set_client(p, port);
    p
}
pub fn set_client(p: usize, port: u16) {
    simrt::set_env(p, "PORT_NUMBER", &port.to_string());
    simrt::set_env(p, "ZKML_NUM_CPUS", &[1, 2, 3, 4, 8][choose_usize(5)].to_string());
    simrt::set_args(p, vec!["client".into()]);
}
pub fn port() -> u16 {
    3000 + choose(2) as u16 * 5000
}

/// Runs `f` as the main function of a process and waits for it, at most `secs` of simulated time.
/// None: it is still running (the process is killed then).
pub fn bounded<T: Send + 'static>(proc: usize, secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<Result<T, String>> {
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let j = simrt::spawn(proc, "client", move || {
        struct G(Arc<AtomicBool>);
        impl Drop for G {
            fn drop(&mut self) {
                self.0.store(true, Ordering::SeqCst);
            }
        }
        let _g = G(d2);
        f()
    });
    let d3 = done.clone();
    let ok = simrt::wait_until_timeout(move || d3.load(Ordering::SeqCst), secs * 1_000_000_000);
    if !ok && !done.load(Ordering::SeqCst) {
        simrt::kill_proc(proc);
        return None;
    }
    if simrt::proc_dead(proc) {
        return Some(Err("(process killed)".into()));
    }
    Some(j.join().map_err(|p| simrt::panic_text(&*p)))
}
/// Waits until every process of every job has ended.
pub fn all_ended(secs: u64) -> bool {
    let procs: Vec<usize> = crate::procs::jobs().into_iter().flat_map(|j| j.procs).collect();
    let end = simrt::now_ns() + secs * 1_000_000_000;
    while procs.iter().any(|p| !simrt::proc_dead(*p)) {
        if simrt::now_ns() > end {
            return false;
        }
        simrt::sleep_ns(100_000_000);
    }
    true
}

/// One graph with several satisfying witnesses and, possibly, one that violates it.
pub struct Work<C: Config> {
    pub j: Job<C>,
    pub wits: Vec<Vec<Vec<S<C>>>>,
    pub bad: Option<Vec<Vec<S<C>>>>,
}
pub fn work<C: Config>(o: POpts, n: usize) -> Option<Work<C>> {
    let j = job::<C>(o)?;
    if is_transposed(&j.graph) {
        return None;
    }
    let mut wits = vec![];
    let mut bad = None;
    let mut add = |t: &Trace<F<C>>, m: &Vec<Vec<S<C>>>| {
        if t.all_sat() {
            wits.push(m.clone());
        } else if bad.is_none() && eval_templates::<C>(&j.graph, m).is_ok_and(|t| !t.iter().flatten().all(|x| *x)) {
            bad = Some(m.clone());
        }
    };
    add(&j.trace, &j.mems);
    for _ in 1..n {
        if let Some(k) = job_with::<C>(j.sc.clone(), gen_data::<C>(&j.sc)) {
            add(&k.trace, &k.mems);
        }
    }
    if bad.is_none() && flip(300) {
        // a memory that no program would write
        let mut m = j.mems.clone();
        let a = choose_usize(m.len());
        if !m[a].is_empty() {
            use arith::Field;
            let i = choose_usize(m[a].len());
            m[a][i] += S::<C>::ONE;
            if eval_templates::<C>(&j.graph, &m).is_ok_and(|t| !t.iter().flatten().all(|x| *x)) {
                bad = Some(m);
            }
        }
    }
    if wits.is_empty() {
        return None;
    }
    Some(Work { j, wits, bad })
}

/// Is this a proof the verifier accepts, over commitments to exactly this witness?
pub fn judge<C: Config, KP, B>(
    setup: &B::VerifierSetup,
    j: &Job<C>,
    mems: &[Vec<S<C>>],
    pf: &CombinedProof<C, KP>,
) -> Result<(), (&'static str, String)>
where
    KP: KernelWiseProvingSystem<C>,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>>,
{
    if pf.commitments.len() != mems.len() {
        return Err(("commitment count", format!("{} for {} vectors", pf.commitments.len(), mems.len())));
    }
    for (i, (c, m)) in pf.commitments.iter().zip(mems).enumerate() {
        if bytes(c) != commitment_bytes::<C>(m, false) {
            return Err(("wrong witness", format!("commitment {i} is not that of the submitted witness")));
        }
    }
    match attempt(|| B::verify(setup, &j.graph, pf)) {
        Ok(true) => Ok(()),
        Ok(false) => Err(("proof rejected", "the verifier rejects the proof".into())),
        Err(p) => Err(("verify panics", p)),
    }
}
