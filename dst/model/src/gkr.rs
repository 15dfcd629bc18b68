//! Transparent GKR: the proof carries the circuit inputs of every parallel instance, the
//! verifier evaluates the circuit itself. Challenges come from the transcript, so that the
//! code around it has to keep prover and verifier in step exactly as with the real prover.
use crate::arith::*;
use crate::circuit::Circuit;
use crate::engine::*;
use crate::poly::mle_eval;
use crate::serdes::ExpSerde;
use std::io::Read;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, Ordering};

/// Whether the prover hands out a second challenge point for circuits that multiply in the
/// first layer. Both sides read it; a run fixes it at its start.
pub static DUAL: AtomicBool = AtomicBool::new(false);

/// A prover that claims all outputs to be zero whatever they are.
pub static LIE: AtomicBool = AtomicBool::new(false);

pub struct ProverScratchPad<F: FieldEngine>(PhantomData<F>);
impl<F: FieldEngine> ProverScratchPad<F> {
    pub fn new(_i: usize, _o: usize, _w: usize) -> Self {
        ProverScratchPad(PhantomData)
    }
}
pub struct ScratchPadBatch<F: FieldEngine>(Vec<ProverScratchPad<F>>);
impl<F: FieldEngine> ScratchPadBatch<F> {
    pub fn new(n: usize, i: usize, o: usize, w: usize) -> Self {
        ScratchPadBatch((0..n).map(|_| ProverScratchPad::new(i, o, w)).collect())
    }
    pub fn as_mut_slice(&mut self) -> &mut [ProverScratchPad<F>] {
        &mut self.0
    }
}

/// Lanes of one element that belong to the same parallel instance; further lanes are
/// further instances (the packed BN254 configurations).
fn basic_lanes<F: FieldEngine>() -> usize {
    match F::FIELD_TYPE {
        FieldType::BN254 => 1,
        _ => F::SimdCircuitField::PACK_SIZE,
    }
}

/// Scalars in the order (instance, variable, lane).
fn scalars<F: FieldEngine>(v: &[F::SimdCircuitField]) -> Vec<F::CircuitField> {
    let b = basic_lanes::<F>();
    let copies = F::SimdCircuitField::PACK_SIZE / b;
    let un: Vec<Vec<F::CircuitField>> = v.iter().map(|x| x.unpack()).collect();
    let mut r = Vec::with_capacity(v.len() * b * copies);
    for c in 0..copies {
        for x in &un {
            r.extend_from_slice(&x[c * b..(c + 1) * b]);
        }
    }
    r
}
fn to_bytes<S: ExpSerde>(v: &[S]) -> Vec<u8> {
    let mut b = vec![];
    for x in v {
        x.serialize_into(&mut b).unwrap();
    }
    b
}
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let pre = simrt::FIELD_PREEMPT.swap(false, Ordering::Relaxed);
    let r = f();
    simrt::FIELD_PREEMPT.store(pre, Ordering::Relaxed);
    r
}

/// The claimed output value: zero if and only if every output is zero.
fn claim<F: FieldEngine, T: Transcript>(outs: &[F::CircuitField], t: &mut T) -> F::ChallengeField {
    let r: F::ChallengeField = t.generate_field_element();
    let mut acc = F::ChallengeField::ZERO;
    for o in outs {
        acc = acc * r + F::ChallengeField::embed(o);
    }
    if acc.is_zero() && outs.iter().any(|o| !o.is_zero()) {
        acc = F::ChallengeField::ONE;
    }
    acc
}
fn log2(n: usize) -> usize {
    assert!(n.is_power_of_two(), "{n} is not a power of two");
    n.trailing_zeros() as usize
}

struct Points<F: FieldEngine> {
    rz: Vec<F::ChallengeField>,
    rz1: Option<Vec<F::ChallengeField>>,
    simd: Vec<F::ChallengeField>,
    par: Vec<F::ChallengeField>,
}
fn points<F: FieldEngine, T: Transcript>(
    c: &Circuit<F>,
    instances: usize,
    t: &mut T,
) -> Points<F> {
    fn draw<F: Field, T: Transcript>(t: &mut T, n: usize) -> Vec<F> {
        (0..n).map(|_| t.generate_field_element()).collect()
    }
    let n = c.log_input_size();
    let rz = draw(t, n);
    let rz1 = if DUAL.load(Ordering::Relaxed) && !c.layers[0].mul.is_empty() {
        Some(draw(t, n))
    } else {
        None
    };
    Points { rz, rz1, simd: draw(t, log2(basic_lanes::<F>())), par: draw(t, log2(instances)) }
}

fn prove_table<F: FieldEngine, T: Transcript>(
    c: &Circuit<F>,
    input_bytes: Vec<u8>,
    outs: &[F::CircuitField],
    instances: usize,
    t: &mut T,
) -> (F::ChallengeField, Points<F>) {
    t.append_u8_slice(&input_bytes);
    let mut v = claim::<F, T>(outs, t);
    if LIE.load(Ordering::Relaxed) {
        v = F::ChallengeField::ZERO;
    }
    (v, points(c, instances, t))
}

pub fn gkr_prove<F: FieldEngine, T: Transcript>(
    c: &Circuit<F>,
    _s: &mut ProverScratchPad<F>,
    t: &mut T,
    mpi: &MPIConfig,
) -> (F::ChallengeField, ExpanderDualVarChallenge<F>) {
    simrt::preempt_point();
    quiet(|| {
        let inp = to_bytes(&scalars::<F>(&c.layers[0].input_vals));
        let out = to_bytes(&scalars::<F>(&c.layers.last().unwrap().output_vals));
        let copies = F::SimdCircuitField::PACK_SIZE / basic_lanes::<F>();
        let world = mpi.world_size();
        // what every party knows at the end of the protocol is sent around by the root
        let all_in = mpi.gather_to_all("gkr_inputs", &inp);
        let all_out = mpi.gather_to_all("gkr_outputs", &out);
        let mut outs = vec![];
        let mut r = &all_out[..];
        while !r.is_empty() {
            outs.push(F::CircuitField::deserialize_from(&mut r).unwrap());
        }
        let (v, p) = prove_table::<F, T>(c, all_in, &outs, world * copies, t);
        let k = log2(copies);
        let mut r_simd = p.simd;
        r_simd.extend_from_slice(&p.par[..k]);
        (
            v,
            ExpanderDualVarChallenge {
                rz_0: p.rz,
                rz_1: p.rz1,
                r_simd,
                r_mpi: p.par[k..].to_vec(),
            },
        )
    })
}

pub fn gkr_prove_batch<F: FieldEngine, T: Transcript>(
    cs: &[Circuit<F>],
    sps: &mut [ProverScratchPad<F>],
    t: &mut T,
) -> (F::ChallengeField, ExpanderDualVarChallenge<F>) {
    assert_eq!(cs.len(), sps.len());
    simrt::preempt_point();
    quiet(|| {
        let mut inp = vec![];
        let mut outs = vec![];
        for c in cs {
            inp.extend(to_bytes(&scalars::<F>(&c.layers[0].input_vals)));
            outs.extend(scalars::<F>(&c.layers.last().unwrap().output_vals));
        }
        let (v, p) = prove_table::<F, T>(&cs[0], inp, &outs, cs.len(), t);
        (
            v,
            ExpanderDualVarChallenge { rz_0: p.rz, rz_1: p.rz1, r_simd: p.simd, r_mpi: p.par },
        )
    })
}

pub fn gkr_verify<F: FieldEngine, T: Transcript>(
    world_size: usize,
    c: &Circuit<F>,
    public: &[F::SimdCircuitField],
    claimed: &F::ChallengeField,
    t: &mut T,
    mut reader: impl Read,
) -> (
    bool,
    ExpanderDualVarChallenge<F>,
    F::ChallengeField,
    Option<F::ChallengeField>,
) {
    simrt::preempt_point();
    quiet(|| {
        let lanes = basic_lanes::<F>();
        assert_eq!(lanes, F::SimdCircuitField::PACK_SIZE);
        let n = 1usize << c.log_input_size();
        let mut vals: Vec<F::CircuitField> = vec![];
        let mut ok = true;
        for _ in 0..world_size * n * lanes {
            match F::CircuitField::deserialize_from(&mut reader) {
                Ok(x) => vals.push(x),
                Err(_) => {
                    ok = false;
                    break;
                }
            }
        }
        if !ok {
            vals.resize(world_size * n * lanes, F::CircuitField::ZERO);
        }
        let mut outs = vec![];
        for p in 0..world_size {
            let input: Vec<F::SimdCircuitField> = vals[p * n * lanes..(p + 1) * n * lanes]
                .chunks(lanes)
                .map(F::SimdCircuitField::pack)
                .collect();
            outs.extend(scalars::<F>(&c.outputs(input, public)));
        }
        t.append_u8_slice(&to_bytes(&vals));
        let v = claim::<F, T>(&outs, t);
        ok &= v == *claimed;
        let p = points(c, world_size, t);
        let eval = |rz: &Vec<F::ChallengeField>| {
            let mut pt = p.simd.clone();
            pt.extend_from_slice(rz);
            pt.extend_from_slice(&p.par);
            mle_eval(vals.iter().map(F::ChallengeField::embed).collect(), &pt).unwrap()
        };
        let c0 = eval(&p.rz);
        let c1 = p.rz1.as_ref().map(eval);
        (
            ok,
            ExpanderDualVarChallenge {
                rz_0: p.rz.clone(),
                rz_1: p.rz1.clone(),
                r_simd: p.simd.clone(),
                r_mpi: p.par.clone(),
            },
            c0,
            c1,
        )
    })
}

// ------------------------------------------------------------------ configurations
use crate::pcs::{HyraxPcs, OrionPcs, RawPcs};
macro_rules! config {
    ($n:ident, $f:ty, $t:ty, $p:ty) => {
        #[derive(Default, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n<'a>(PhantomData<&'a ()>);
        impl<'a> GKREngine for $n<'a> {
            type FieldConfig = $f;
            type MPIConfig = MPIConfig<'a>;
            type TranscriptConfig = $t;
            type PCSConfig = $p;
            const SCHEME: GKRScheme = GKRScheme::Vanilla;
        }
    };
}
type Sha = BytesHashTranscript<SHA256hasher>;
type Mimc = BytesHashTranscript<MiMC5FiatShamirHasher<Fr>>;
config!(BN254ConfigMIMC5Raw, BN254Config, Mimc, RawPcs);
config!(BN254ConfigSha2Hyrax, BN254Config, Sha, HyraxPcs);
config!(BN254ConfigSha2Raw, BN254Config, Sha, RawPcs);
config!(BabyBearx16ConfigSha2Raw, BabyBearx16Config, Sha, RawPcs);
config!(GF2ExtConfigSha2Raw, GF2ExtConfig, Sha, RawPcs);
config!(GF2ExtConfigSha2Orion, GF2ExtConfig, Sha, OrionPcs);
config!(Goldilocksx8ConfigSha2Raw, Goldilocksx8Config, Sha, RawPcs);
config!(M31x16ConfigSha2OrionVanilla, M31x16Config, Sha, OrionPcs);
config!(M31x16ConfigSha2RawVanilla, M31x16Config, Sha, RawPcs);
