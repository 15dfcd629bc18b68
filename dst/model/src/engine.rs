//! The interfaces of `gkr_engine`, and transcripts.
use crate::arith::*;
use crate::circuit::Circuit;
use crate::poly::{mle_eval_simd, MultilinearExtension};
use crate::serdes::{ExpSerde, SerdeResult};
use simrt::{hash_bytes, mix};
use std::fmt::Debug;
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::str::FromStr;

pub use crate::mpi::{MPIConfig, MPIEngine, MPISharedMemory};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum FieldType {
    M31x1,
    M31x16,
    BabyBearx16,
    BN254,
    GF2Ext128,
    Goldilocksx1,
    Goldilocksx8,
}

pub trait FieldEngine: Default + Debug + Clone + Send + Sync + PartialEq + Eq + 'static {
    const FIELD_TYPE: FieldType;
    type CircuitField: Field + SimdField<Scalar = Self::CircuitField>;
    type SimdCircuitField: SimdField<Scalar = Self::CircuitField>;
    type ChallengeField: ChallengeOf<Self::CircuitField> + SimdField<Scalar = Self::ChallengeField>;

    fn get_field_pack_size() -> usize {
        Self::SimdCircuitField::PACK_SIZE
    }
    fn single_core_eval_circuit_vals_at_expander_challenge(
        vals: &[Self::SimdCircuitField],
        c: &ExpanderSingleVarChallenge<Self>,
    ) -> Self::ChallengeField {
        let mut p = c.r_simd.clone();
        p.extend_from_slice(&c.rz);
        p.extend_from_slice(&c.r_mpi);
        mle_eval_simd::<Self>(&[&*crate::pcs::forged(vals)], &p)
    }
}

macro_rules! field_engine {
    ($n:ident, $ty:expr, $c:ty, $s:ty, $ch:ty) => {
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $n;
        impl FieldEngine for $n {
            const FIELD_TYPE: FieldType = $ty;
            type CircuitField = $c;
            type SimdCircuitField = $s;
            type ChallengeField = $ch;
        }
    };
}
field_engine!(M31x16Config, FieldType::M31x16, M31, M31x16, M31);
field_engine!(GF2ExtConfig, FieldType::GF2Ext128, GF2, GF2x8, GF2_128);
field_engine!(Goldilocksx8Config, FieldType::Goldilocksx8, Goldilocks, Goldilocksx8, Goldilocks);
field_engine!(BabyBearx16Config, FieldType::BabyBearx16, BabyBear, BabyBearx16, BabyBear);
field_engine!(BN254Config, FieldType::BN254, Fr, Fr, Fr);

#[derive(Default, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct BN254ConfigXN<const N: usize>;
impl<const N: usize> FieldEngine for BN254ConfigXN<N> {
    const FIELD_TYPE: FieldType = FieldType::BN254;
    type CircuitField = Fr;
    type SimdCircuitField = Packed<Fr, N>;
    type ChallengeField = Fr;
}

// ------------------------------------------------------------------ challenges
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ExpanderSingleVarChallenge<F: FieldEngine> {
    pub rz: Vec<F::ChallengeField>,
    pub r_simd: Vec<F::ChallengeField>,
    pub r_mpi: Vec<F::ChallengeField>,
}
impl<F: FieldEngine> Default for ExpanderSingleVarChallenge<F> {
    fn default() -> Self {
        Self { rz: vec![], r_simd: vec![], r_mpi: vec![] }
    }
}
impl<F: FieldEngine> ExpanderSingleVarChallenge<F> {
    pub fn new(
        rz: Vec<F::ChallengeField>,
        r_simd: Vec<F::ChallengeField>,
        r_mpi: Vec<F::ChallengeField>,
    ) -> Self {
        Self { rz, r_simd, r_mpi }
    }
    pub fn num_vars(&self) -> usize {
        self.rz.len() + self.r_simd.len() + self.r_mpi.len()
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ExpanderDualVarChallenge<F: FieldEngine> {
    pub rz_0: Vec<F::ChallengeField>,
    pub rz_1: Option<Vec<F::ChallengeField>>,
    pub r_simd: Vec<F::ChallengeField>,
    pub r_mpi: Vec<F::ChallengeField>,
}
impl<F: FieldEngine> ExpanderDualVarChallenge<F> {
    pub fn challenge_x(&self) -> ExpanderSingleVarChallenge<F> {
        ExpanderSingleVarChallenge {
            rz: self.rz_0.clone(),
            r_simd: self.r_simd.clone(),
            r_mpi: self.r_mpi.clone(),
        }
    }
    pub fn challenge_y(&self) -> Option<ExpanderSingleVarChallenge<F>> {
        self.rz_1.clone().map(|rz| ExpanderSingleVarChallenge {
            rz,
            r_simd: self.r_simd.clone(),
            r_mpi: self.r_mpi.clone(),
        })
    }
}

// ------------------------------------------------------------------ transcripts
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FiatShamirHashType {
    SHA256,
    Keccak256,
    Poseidon,
    MIMC5,
}
impl FromStr for FiatShamirHashType {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        match s {
            "SHA256" => Ok(Self::SHA256),
            "Keccak256" => Ok(Self::Keccak256),
            "Poseidon" => Ok(Self::Poseidon),
            "MIMC5" => Ok(Self::MIMC5),
            _ => Err("Invalid Fiat-Shamir hash type".into()),
        }
    }
}
impl std::fmt::Display for FiatShamirHashType {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum PolynomialCommitmentType {
    #[default]
    Raw,
    Hyrax,
    KZG,
    Orion,
    FRI,
}
impl FromStr for PolynomialCommitmentType {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        match s {
            "Raw" => Ok(Self::Raw),
            "Hyrax" => Ok(Self::Hyrax),
            "KZG" => Ok(Self::KZG),
            "Orion" => Ok(Self::Orion),
            "FRI" => Ok(Self::FRI),
            _ => Err("Invalid polynomial commitment type".into()),
        }
    }
}
impl std::fmt::Display for PolynomialCommitmentType {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Proof {
    pub bytes: Vec<u8>,
}
impl ExpSerde for Proof {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.bytes.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(Proof { bytes: Vec::deserialize_from(r)? })
    }
}

pub trait Transcript: Clone + Debug + PartialEq + 'static {
    const HASH_TYPE: FiatShamirHashType;
    fn new() -> Self;
    fn append_field_element<F: Field>(&mut self, f: &F);
    fn append_u8_slice(&mut self, b: &[u8]);
    fn generate_field_element<F: Field>(&mut self) -> F;
    fn finalize_and_get_proof(&mut self) -> Proof;
    fn lock_proof(&mut self);
    fn unlock_proof(&mut self);
    fn state(&self) -> u64;
}
pub trait FiatShamirHasher: Clone + Debug + PartialEq + 'static {
    const HASH_TYPE: FiatShamirHashType;
}
#[derive(Clone, Debug, PartialEq)]
pub struct SHA256hasher;
impl FiatShamirHasher for SHA256hasher {
    const HASH_TYPE: FiatShamirHashType = FiatShamirHashType::SHA256;
}
#[derive(Clone, Debug, PartialEq)]
pub struct MiMC5FiatShamirHasher<F>(PhantomData<F>);
impl<F: Field> FiatShamirHasher for MiMC5FiatShamirHasher<F> {
    const HASH_TYPE: FiatShamirHashType = FiatShamirHashType::MIMC5;
}
#[derive(Clone, Debug, PartialEq)]
pub struct BytesHashTranscript<H: FiatShamirHasher> {
    state: u64,
    proof: Vec<u8>,
    locked: bool,
    _h: PhantomData<H>,
}
impl<H: FiatShamirHasher> Transcript for BytesHashTranscript<H> {
    const HASH_TYPE: FiatShamirHashType = H::HASH_TYPE;
    fn new() -> Self {
        BytesHashTranscript {
            state: mix(0x7261, H::HASH_TYPE as u64),
            proof: vec![],
            locked: false,
            _h: PhantomData,
        }
    }
    fn append_field_element<F: Field>(&mut self, f: &F) {
        let mut b = vec![];
        f.serialize_into(&mut b).unwrap();
        self.append_u8_slice(&b);
    }
    fn append_u8_slice(&mut self, b: &[u8]) {
        if !self.locked {
            self.proof.extend_from_slice(b);
        }
        self.state = mix(self.state, hash_bytes(b));
    }
    fn generate_field_element<F: Field>(&mut self) -> F {
        let mut b = [0u8; 32];
        let mut s = self.state;
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&simrt::splitmix(&mut s).to_le_bytes());
        }
        self.state = mix(self.state, 0x6765_6e65);
        F::from_uniform_bytes(&b)
    }
    fn finalize_and_get_proof(&mut self) -> Proof {
        Proof { bytes: self.proof.clone() }
    }
    fn lock_proof(&mut self) {
        assert!(!self.locked, "transcript already locked");
        self.locked = true;
    }
    fn unlock_proof(&mut self) {
        assert!(self.locked, "transcript not locked");
        self.locked = false;
    }
    fn state(&self) -> u64 {
        self.state
    }
}

// ------------------------------------------------------------------ commitments
pub trait StructuredReferenceString {
    type PKey: Clone + Debug + ExpSerde + Send + Sync;
    type VKey: Clone + Debug + ExpSerde + Send + Sync;
    fn into_keys(self) -> (Self::PKey, Self::VKey);
}

pub trait ExpanderPCS<F: FieldEngine> {
    const NAME: &'static str;
    const PCS_TYPE: PolynomialCommitmentType;
    type Params: Clone + Debug + Default + Send + Sync;
    type ScratchPad: Clone + Debug + Default + ExpSerde + Send + Sync;
    type SRS: StructuredReferenceString;
    type Commitment: Clone + Debug + ExpSerde + Send + Sync;
    type Opening: Clone + Debug + ExpSerde + Send + Sync;
    type BatchOpening: Clone + Debug + ExpSerde + Send + Sync;

    fn gen_params(n_input_vars: usize, world_size: usize) -> Self::Params;
    fn gen_or_load_srs_for_testing(
        params: &Self::Params,
        mpi: &MPIConfig,
    ) -> (Self::SRS, usize);
    fn init_scratch_pad(params: &Self::Params, mpi: &MPIConfig) -> Self::ScratchPad;
    fn commit(
        params: &Self::Params,
        mpi: &MPIConfig,
        key: &<Self::SRS as StructuredReferenceString>::PKey,
        poly: &impl MultilinearExtension<F::SimdCircuitField>,
        scratch: &mut Self::ScratchPad,
    ) -> Option<Self::Commitment>;
    #[allow(clippy::too_many_arguments)]
    fn open(
        params: &Self::Params,
        mpi: &MPIConfig,
        key: &<Self::SRS as StructuredReferenceString>::PKey,
        poly: &impl MultilinearExtension<F::SimdCircuitField>,
        x: &ExpanderSingleVarChallenge<F>,
        transcript: &mut impl Transcript,
        scratch: &Self::ScratchPad,
    ) -> Option<Self::Opening>;
    #[allow(clippy::too_many_arguments)]
    fn verify(
        params: &Self::Params,
        key: &<Self::SRS as StructuredReferenceString>::VKey,
        commitment: &Self::Commitment,
        x: &ExpanderSingleVarChallenge<F>,
        v: F::ChallengeField,
        transcript: &mut impl Transcript,
        opening: &Self::Opening,
    ) -> bool;
    #[allow(clippy::too_many_arguments)]
    fn multi_points_batch_open(
        params: &Self::Params,
        mpi: &MPIConfig,
        key: &<Self::SRS as StructuredReferenceString>::PKey,
        polys: &[impl MultilinearExtension<F::SimdCircuitField>],
        x: &[ExpanderSingleVarChallenge<F>],
        scratch: &Self::ScratchPad,
        transcript: &mut impl Transcript,
    ) -> (Vec<F::ChallengeField>, Self::BatchOpening);
    #[allow(clippy::too_many_arguments)]
    fn multi_points_batch_verify(
        params: &Self::Params,
        key: &<Self::SRS as StructuredReferenceString>::VKey,
        commitments: &[impl AsRef<Self::Commitment>],
        x: &[ExpanderSingleVarChallenge<F>],
        values: &[F::ChallengeField],
        opening: &Self::BatchOpening,
        transcript: &mut impl Transcript,
    ) -> bool;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum GKRScheme {
    Vanilla,
    GkrSquare,
}

pub trait GKREngine: Send + Sync {
    type FieldConfig: FieldEngine;
    type MPIConfig;
    type TranscriptConfig: Transcript;
    type PCSConfig: ExpanderPCS<Self::FieldConfig>;
    const SCHEME: GKRScheme;
}
#[allow(dead_code)]
fn _object<F: FieldEngine>(_: &Circuit<F>) {}
