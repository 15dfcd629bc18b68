//! Transparent polynomial commitments: the commitment is the vector itself.
use crate::engine::*;
use crate::poly::{try_mle_eval_simd, MultilinearExtension};
use crate::serdes::{ExpSerde, SerdeError, SerdeResult};
use std::io::{Read, Write};
use std::marker::PhantomData;

#[derive(Clone, Debug)]
pub struct Bn256;

macro_rules! simple_struct {
    ($n:ident { $($f:ident : $t:ty),* }) => {
        #[derive(Clone, Debug, Default, PartialEq, Eq)]
        pub struct $n { $(pub $f: $t),* }
        impl ExpSerde for $n {
            #[allow(unused_mut)]
            fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
                $(self.$f.serialize_into(&mut w)?;)*
                Ok(())
            }
            #[allow(unused_mut)]
            fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
                Ok($n { $($f: <$t>::deserialize_from(&mut r)?),* })
            }
        }
    };
}
simple_struct!(ProverKey { kind: u64, n_vars: usize });
simple_struct!(VerifierKey { kind: u64, n_vars: usize });
simple_struct!(Scratch { committed: u64 });
simple_struct!(Opening { tag: u64, scratch: u64 });
simple_struct!(BatchOpening { tag: u64, n: usize });

pub struct Srs(pub ProverKey, pub VerifierKey);
impl StructuredReferenceString for Srs {
    type PKey = ProverKey;
    type VKey = VerifierKey;
    fn into_keys(self) -> (ProverKey, VerifierKey) {
        (self.0, self.1)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RawCommitment<S> {
    pub vals: Vec<S>,
}
impl<S> AsRef<RawCommitment<S>> for RawCommitment<S> {
    fn as_ref(&self) -> &Self {
        self
    }
}
impl<S: ExpSerde> ExpSerde for RawCommitment<S> {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.vals.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        let vals = Vec::<S>::deserialize_from(r)?;
        if !vals.len().is_power_of_two() {
            return Err(SerdeError::DeserializeError);
        }
        Ok(RawCommitment { vals })
    }
}

pub trait PcsKind: Clone + std::fmt::Debug + Send + Sync + 'static {
    const TYPE: PolynomialCommitmentType;
    /// keys work for exactly their size (false) or for every smaller polynomial too (true)
    const UP_TO: bool;
    /// opening needs the scratch pad that the commitment filled
    const STATEFUL: bool;
}
macro_rules! kind {
    ($n:ident, $t:expr, $u:expr, $s:expr) => {
        #[derive(Clone, Debug)]
        pub struct $n;
        impl PcsKind for $n {
            const TYPE: PolynomialCommitmentType = $t;
            const UP_TO: bool = $u;
            const STATEFUL: bool = $s;
        }
    };
}
kind!(RawKind, PolynomialCommitmentType::Raw, true, false);
kind!(HyraxKind, PolynomialCommitmentType::Hyrax, true, false);
kind!(KzgKind, PolynomialCommitmentType::KZG, true, false);
kind!(OrionKind, PolynomialCommitmentType::Orion, true, true);

pub struct TransparentPcs<K, T = ()>(PhantomData<(K, T)>);
pub type HyperUniKZGPCS<E> = TransparentPcs<KzgKind, E>;
pub type RawPcs = TransparentPcs<RawKind>;
pub type HyraxPcs = TransparentPcs<HyraxKind>;
pub type OrionPcs = TransparentPcs<OrionKind>;

fn point<F: FieldEngine>(x: &ExpanderSingleVarChallenge<F>) -> Vec<F::ChallengeField> {
    let mut p = x.r_simd.clone();
    p.extend_from_slice(&x.rz);
    p.extend_from_slice(&x.r_mpi);
    p
}
fn vals_hash<S: ExpSerde>(v: &[S]) -> u64 {
    let mut b = vec![];
    for x in v {
        x.serialize_into(&mut b).unwrap();
    }
    simrt::hash_bytes(&b)
}

// ------------------------------------------------------------------ a prover that cheats
/// (hash of a vector, bytes of the vector that this prover commits to in its place). Openings are
/// then honest openings of the false commitment; only the verifier can tell, by comparing the
/// opened values with what the circuit proof was about.
static FORGE: std::sync::Mutex<Option<(u64, Vec<u8>)>> = std::sync::Mutex::new(None);
static FORGING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn forge<S: ExpSerde>(f: Option<(&[S], &[S])>) {
    let v = f.map(|(a, b)| {
        let mut x = vec![];
        for e in b {
            e.serialize_into(&mut x).unwrap();
        }
        (vals_hash(a), x)
    });
    FORGING.store(v.is_some(), std::sync::atomic::Ordering::Relaxed);
    *FORGE.lock().unwrap() = v;
}
pub fn forged<S: ExpSerde + Clone>(v: &[S]) -> std::borrow::Cow<'_, [S]> {
    if FORGING.load(std::sync::atomic::Ordering::Relaxed) {
        if let Some((h, b)) = &*FORGE.lock().unwrap() {
            if vals_hash(v) == *h {
                let mut r = &b[..];
                return (0..v.len()).map(|_| S::deserialize_from(&mut r).unwrap()).collect::<Vec<_>>().into();
            }
        }
    }
    v.into()
}
fn point_hash<F: FieldEngine>(x: &ExpanderSingleVarChallenge<F>) -> u64 {
    let mut b = vec![];
    for v in point(x) {
        v.serialize_into(&mut b).unwrap();
    }
    simrt::hash_bytes(&b)
}

impl<F: FieldEngine, K: PcsKind, T> ExpanderPCS<F> for TransparentPcs<K, T> {
    const NAME: &'static str = "transparent";
    const PCS_TYPE: PolynomialCommitmentType = K::TYPE;
    type Params = usize;
    type ScratchPad = Scratch;
    type SRS = Srs;
    type Commitment = RawCommitment<F::SimdCircuitField>;
    type Opening = Opening;
    type BatchOpening = BatchOpening;

    fn gen_params(n: usize, _world: usize) -> usize {
        n
    }
    fn gen_or_load_srs_for_testing(params: &usize, _m: &MPIConfig) -> (Srs, usize) {
        let k = K::TYPE as u64;
        (
            Srs(ProverKey { kind: k, n_vars: *params }, VerifierKey { kind: k, n_vars: *params }),
            *params,
        )
    }
    fn init_scratch_pad(_p: &usize, _m: &MPIConfig) -> Scratch {
        Scratch::default()
    }
    fn commit(
        _p: &usize,
        _m: &MPIConfig,
        key: &ProverKey,
        poly: &impl MultilinearExtension<F::SimdCircuitField>,
        scratch: &mut Scratch,
    ) -> Option<Self::Commitment> {
        let v = poly.hypercube_basis_ref();
        if key.kind != K::TYPE as u64 || v.len() > 1 << key.n_vars || !v.len().is_power_of_two() {
            return None;
        }
        simrt::preempt_point();
        let v = &*forged(v);
        scratch.committed = vals_hash(v);
        Some(RawCommitment { vals: v.to_vec() })
    }
    fn open(
        _p: &usize,
        _m: &MPIConfig,
        key: &ProverKey,
        poly: &impl MultilinearExtension<F::SimdCircuitField>,
        x: &ExpanderSingleVarChallenge<F>,
        _t: &mut impl Transcript,
        scratch: &Scratch,
    ) -> Option<Opening> {
        let v = poly.hypercube_basis_ref();
        if key.kind != K::TYPE as u64 || v.len() > 1 << key.n_vars {
            return None;
        }
        simrt::preempt_point();
        Some(Opening { tag: point_hash(x), scratch: if K::STATEFUL { scratch.committed } else { 0 } })
    }
    fn verify(
        _p: &usize,
        key: &VerifierKey,
        c: &Self::Commitment,
        x: &ExpanderSingleVarChallenge<F>,
        v: F::ChallengeField,
        _t: &mut impl Transcript,
        o: &Opening,
    ) -> bool {
        if key.kind != K::TYPE as u64 || c.vals.len() > 1 << key.n_vars || o.tag != point_hash(x) {
            return false;
        }
        if o.scratch != if K::STATEFUL { vals_hash(&c.vals) } else { 0 } {
            return false;
        }
        try_mle_eval_simd::<F>(&[&c.vals], &point(x)) == Some(v)
    }
    fn multi_points_batch_open(
        _p: &usize,
        _m: &MPIConfig,
        key: &ProverKey,
        polys: &[impl MultilinearExtension<F::SimdCircuitField>],
        x: &[ExpanderSingleVarChallenge<F>],
        _s: &Scratch,
        _t: &mut impl Transcript,
    ) -> (Vec<F::ChallengeField>, BatchOpening) {
        assert_eq!(polys.len(), x.len());
        let mut tag = 0;
        let vals = polys
            .iter()
            .zip(x)
            .map(|(p, c)| {
                let v = p.hypercube_basis_ref();
                assert!(v.len() <= 1 << key.n_vars, "polynomial longer than the key");
                tag = simrt::mix(tag, point_hash(c));
                try_mle_eval_simd::<F>(&[&*forged(v)], &point(c)).expect("challenge of the wrong size")
            })
            .collect::<Vec<_>>();
        (vals, BatchOpening { tag, n: polys.len() })
    }
    fn multi_points_batch_verify(
        _p: &usize,
        key: &VerifierKey,
        cs: &[impl AsRef<Self::Commitment>],
        x: &[ExpanderSingleVarChallenge<F>],
        values: &[F::ChallengeField],
        o: &BatchOpening,
        _t: &mut impl Transcript,
    ) -> bool {
        if cs.len() != x.len() || values.len() != x.len() || o.n != x.len() {
            return false;
        }
        let mut tag = 0;
        for ((c, x), v) in cs.iter().zip(x).zip(values) {
            let c = c.as_ref();
            tag = simrt::mix(tag, point_hash(x));
            if c.vals.len() > 1 << key.n_vars
                || try_mle_eval_simd::<F>(&[&c.vals], &point(x)) != Some(*v)
            {
                return false;
            }
        }
        tag == o.tag
    }
}

pub fn expander_pcs_init_testing_only<F: FieldEngine, PCS: ExpanderPCS<F>>(
    n_vars: usize,
    mpi: &MPIConfig,
) -> (
    PCS::Params,
    <PCS::SRS as StructuredReferenceString>::PKey,
    <PCS::SRS as StructuredReferenceString>::VKey,
    PCS::ScratchPad,
) {
    let params = PCS::gen_params(n_vars, 1);
    let (srs, _) = PCS::gen_or_load_srs_for_testing(&params, mpi);
    let (p, v) = srs.into_keys();
    let s = PCS::init_scratch_pad(&params, mpi);
    (params, p, v, s)
}
