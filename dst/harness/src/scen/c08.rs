//! The in-process proving backends: completeness, and proofs that depend on nothing but graph and
//! witness.
use super::prog::*;
use super::*;
use crate::bad;
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::context::ComputationGraph;
use expander_compiler::zkcuda::proving_system::expander_pcs_defered::BN254ConfigSha2UniKZG;
use expander_compiler::zkcuda::proving_system::*;
use gkr::{BN254ConfigSha2Hyrax, GF2ExtConfigSha2Orion, M31x16ConfigSha2OrionVanilla};
use serdes::ExpSerde;
use simrt::{choose_usize, flip};
use std::sync::atomic::Ordering;

const P: &str = "C08";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 40_000,
        thorough: 3_000_000,
        scens: vec![
            scen("prove", 12, workers, prove),
            scen("wide", 1, workers, wide),
            scen("transposed", 1, workers, transposed),
        ],
        rule: "one run = one seeded program of kernel calls, its computation graph and solved witness, proved by one of \
               the in-process backends twice: once without preemption, once in another simulated process (other hash \
               seeds, other addresses) with worker threads interleaved by the scheduler; each proof must verify, also \
               after a round trip through bytes, its commitments must be those of the witness and both proofs must be \
               the same bytes. Non-trivial = both proofs were compared.",
        real: "zkcuda::proving_system::{dummy, expander, expander_local_deferred}, zkcuda::context, kernel, layered circuit export (real code)",
        stub: "GKR and polynomial commitments (transparent models that evaluate the exported circuit), worker pool, field arithmetic, getrandom",
        parallel: true,
    }
}

fn workers(r: &mut Rng) -> Knobs {
    Knobs {
        switch_permille: [0, 50, 200, 500, 900][r.below(5) as usize],
        max_steps: 4_000_000,
        ..Knobs::default()
    }
}

/// `f::<Config, KernelWise, Backend>(name, is dummy)`
#[macro_export]
macro_rules! local_backend {
    ($i:expr, $f:ident $(, $a:expr)*) => {{
        use expander_compiler::zkcuda::proving_system::{DummyProvingSystem as D, Expander as E, ExpanderLocalDeferred as L};
        match $i {
            0 => $f::<M31Config, D<M31Config>, D<M31Config>>("dummy M31", true $(, $a)*),
            1 => $f::<BN254Config, D<BN254Config>, D<BN254Config>>("dummy BN254", true $(, $a)*),
            2 => $f::<GF2Config, D<GF2Config>, D<GF2Config>>("dummy GF2", true $(, $a)*),
            3 => $f::<M31Config, E<M31Config>, E<M31Config>>("single M31 Raw", false $(, $a)*),
            4 => $f::<BN254Config, E<BN254Config>, E<BN254Config>>("single BN254 Raw", false $(, $a)*),
            5 => $f::<BN254Config, E<BN254ConfigSha2Hyrax>, E<BN254ConfigSha2Hyrax>>("single BN254 Hyrax", false $(, $a)*),
            6 => $f::<BN254Config, E<BN254ConfigSha2UniKZG>, E<BN254ConfigSha2UniKZG>>("single BN254 KZG", false $(, $a)*),
            7 => $f::<GF2Config, E<GF2Config>, E<GF2Config>>("single GF2 Raw", false $(, $a)*),
            8 => $f::<GoldilocksConfig, E<GoldilocksConfig>, E<GoldilocksConfig>>("single Goldilocks Raw", false $(, $a)*),
            9 => $f::<BabyBearConfig, E<BabyBearConfig>, E<BabyBearConfig>>("single BabyBear Raw", false $(, $a)*),
            10 | 11 => $f::<M31Config, E<M31Config>, L<M31Config>>("batched M31 Raw", false $(, $a)*),
            12 => $f::<M31Config, E<M31x16ConfigSha2OrionVanilla>, L<M31x16ConfigSha2OrionVanilla>>("batched M31 Orion", false $(, $a)*),
            13 => $f::<BN254Config, E<BN254ConfigSha2Hyrax>, L<BN254ConfigSha2Hyrax>>("batched BN254 Hyrax", false $(, $a)*),
            14 => $f::<GF2Config, E<GF2ExtConfigSha2Orion>, L<GF2ExtConfigSha2Orion>>("batched GF2 Orion", false $(, $a)*),
            15 => $f::<GoldilocksConfig, E<GoldilocksConfig>, L<GoldilocksConfig>>("batched Goldilocks Raw", false $(, $a)*),
            _ => $f::<M31Config, E<M31x16ConfigSha2OrionVanilla>, E<M31x16ConfigSha2OrionVanilla>>("single M31 Orion", false $(, $a)*),
        }
    }};
}
pub const N_LOCAL: usize = 17;

pub fn popts(np: usize) -> POpts {
    POpts {
        k: KOpts { hints: flip(300), may_fail: false, max_ops: if np > 64 { 3 } else { 6 }, plain: flip(300) },
        max_calls: if np > 64 { 2 } else { 4 },
        max_elems: if np > 64 { 2 } else { [2, 4, 8][choose_usize(3)] },
        transposes: false,
        mode: simrt::choose(2),
        downloads: false,
        max_np: np,
        mark_permille: 0,
        max_dims: 2,
    }
}

/// A program executed to its graph and witness; None if the program is not one to prove.
pub struct Job<C: Config> {
    pub sc: Script,
    pub data: Data<F<C>>,
    pub trace: Trace<F<C>>,
    pub graph: ComputationGraph<C>,
    pub mems: Vec<Vec<S<C>>>,
}
pub fn job<C: Config>(o: POpts) -> Option<Job<C>> {
    let sc = gen_script::<F<C>>(o);
    simrt::log(|| sc.describe());
    job_of(sc)
}
pub fn job_of<C: Config>(sc: Script) -> Option<Job<C>> {
    let d = gen_data::<C>(&sc);
    job_with(sc, d)
}
pub fn job_with<C: Config>(sc: Script, d: Data<F<C>>) -> Option<Job<C>> {
    let trace = model::<C>(&sc, &d);
    let k = compile_kernels::<C>(&sc).ok()?;
    let mut e = exec(&sc, &k, &d, None, false, |_, _, _| {}).ok()?;
    let graph = finish(&mut e, None).ok()??;
    if graph.proof_templates().is_empty() {
        return None;
    }
    let mems = e.ctx.export_device_memories();
    Some(Job { sc, data: d, trace, graph, mems })
}

pub fn bytes<T: ExpSerde>(x: &T) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_into(&mut b).expect("serialize to memory");
    b
}
/// What the commitment to a vector has to be.
pub fn commitment_bytes<C: Config>(v: &Vec<S<C>>, dummy: bool) -> Vec<u8> {
    let mut b = vec![];
    if !dummy {
        v.len().serialize_into(&mut b).unwrap();
    }
    v.serialize_into(&mut b).unwrap();
    b
}
pub fn is_transposed<C: Config>(g: &ComputationGraph<C>) -> bool {
    g.proof_templates().iter().any(|t| t.commitment_bit_orders().iter().any(|o| o.iter().enumerate().any(|(i, x)| i != *x)))
}

fn prove() {
    model::gkr::DUAL.store(flip(500), Ordering::Relaxed);
    let np = [3, 8, 17][choose_usize(3)];
    local_backend!(choose_usize(N_LOCAL), one, popts(np))
}
/// Parallel counts at which the batched backend changes its strategy.
fn wide() {
    model::gkr::DUAL.store(flip(500), Ordering::Relaxed);
    local_backend!(10 + choose_usize(6), one, popts([300, 600][choose_usize(2)]))
}
fn transposed() {
    model::gkr::DUAL.store(flip(500), Ordering::Relaxed);
    local_backend!(choose_usize(N_LOCAL), one, POpts { transposes: true, ..popts(8) })
}

fn one<C: Config, KP, B>(name: &'static str, dummy: bool, o: POpts)
where
    KP: KernelWiseProvingSystem<C>,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::ProverSetup: 'static,
    B::VerifierSetup: 'static,
{
    let Some(j) = job::<C>(o) else { return };
    if !j.trace.all_sat() {
        return;
    }
    simrt::log(|| format!("{name}: {} templates, {} memories", j.graph.proof_templates().len(), j.mems.len()));
    let tr = is_transposed(&j.graph);
    simrt::probe(name);
    let kind = name.split(' ').next().unwrap();
    let sig = |s: &str| if tr { format!("transposed memory, {s}") } else { format!("{kind}, {s}") };
    if tr {
        simrt::probe("transposed");
    }
    let setup: (B::ProverSetup, B::VerifierSetup) = match attempt(|| B::setup(&j.graph)) {
        Ok(x) => x,
        Err(p) => return bad!(P, "{}: {name}: {p}", sig("setup panics")),
    };
    let both = std::sync::Arc::new((j, setup));
    let once = |both: &(Job<C>, (B::ProverSetup, B::VerifierSetup))| prove_once::<C, KP, B>(&both.0, &both.1, dummy);
    let first = match once(&both) {
        Ok(b) => b,
        Err((s, x)) => return bad!(P, "{}: {name}: {x}", sig(s)),
    };
    // again in another process, with its own hash seeds, with threads that interleave anywhere
    let b2 = both.clone();
    let second = simrt::spawn(crate::procs::new_proc(), "second", move || {
        simrt::preempt_begin();
        let r = prove_once::<C, KP, B>(&b2.0, &b2.1, dummy);
        simrt::preempt_end();
        r
    });
    match second.join() {
        Ok(Ok(b)) if b == first => oracle(),
        Ok(Ok(_)) => bad!(P, "{}: {name}: the same witness gives different proofs", sig("schedule dependent")),
        Ok(Err((s, x))) => bad!(P, "{}: {name}: second process: {x}", sig(s)),
        Err(p) => bad!(P, "{}: {name}: second prover died: {}", sig("prove panics"), simrt::panic_text(&*p)),
    }
}

fn prove_once<C: Config, KP, B>(
    j: &Job<C>,
    setup: &(B::ProverSetup, B::VerifierSetup),
    dummy: bool,
) -> Result<Vec<u8>, (&'static str, String)>
where
    KP: KernelWiseProvingSystem<C>,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>>,
{
    let pf = attempt(|| B::prove(&setup.0, &j.graph, j.mems.clone())).map_err(|p| ("prove panics", p))?;
    if pf.commitments.len() != j.mems.len() {
        return Err(("commitment count", format!("{} for {} vectors", pf.commitments.len(), j.mems.len())));
    }
    for (i, (c, m)) in pf.commitments.iter().zip(&j.mems).enumerate() {
        if bytes(c) != commitment_bytes::<C>(m, dummy) {
            return Err(("commitment", format!("commitment {i} is not that of the witness")));
        }
    }
    let verify = |pf: &CombinedProof<C, KP>, what: &str| match attempt(|| B::verify(&setup.1, &j.graph, pf)) {
        Ok(true) => Ok(()),
        Ok(false) => Err(("rejected", format!("the verifier rejects the proof {what}"))),
        Err(p) => Err(("verify panics", format!("{p} {what}"))),
    };
    verify(&pf, "")?;
    let b = bytes(&pf);
    if flip(200) {
        let back = CombinedProof::<C, KP>::deserialize_from(&b[..])
            .map_err(|e| ("proof bytes", format!("cannot be read back: {e:?}")))?;
        verify(&back, "after a round trip")?;
    }
    Ok(b)
}
