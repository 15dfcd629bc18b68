//! Whole-circuit prove/verify entry points of the `bin` crate.
use crate::arith::Field;
use crate::circuit::Circuit;
use crate::engine::*;
use crate::gkr::{gkr_prove, gkr_verify, ProverScratchPad};
use crate::serdes::{ExpSerde, SerdeResult};
use std::io::Cursor;

type Ch<C> = <<C as GKREngine>::FieldConfig as FieldEngine>::ChallengeField;

pub fn prove<C: GKREngine>(
    c: &mut Circuit<C::FieldConfig>,
    mpi: MPIConfig<'_>,
) -> (Ch<C>, Proof) {
    let mut t = C::TranscriptConfig::new();
    c.fill_rnd_coefs(&mut t);
    c.evaluate();
    let mut s = ProverScratchPad::<C::FieldConfig>::new(0, 0, 1);
    let (v, _) = gkr_prove(c, &mut s, &mut t, &mpi);
    (v, t.finalize_and_get_proof())
}
pub fn verify<C: GKREngine>(
    c: &mut Circuit<C::FieldConfig>,
    mpi: MPIConfig<'_>,
    proof: &Proof,
    claimed: &Ch<C>,
) -> bool {
    let mut t = C::TranscriptConfig::new();
    c.fill_rnd_coefs(&mut t);
    let public = c.public_input.clone();
    gkr_verify(mpi.world_size(), c, &public, claimed, &mut t, Cursor::new(&proof.bytes)).0
}
pub fn dump_proof_and_claimed_v<F: Field>(p: &Proof, v: &F) -> SerdeResult<Vec<u8>> {
    let mut b = vec![];
    p.serialize_into(&mut b)?;
    v.serialize_into(&mut b)?;
    Ok(b)
}
pub fn load_proof_and_claimed_v<F: Field>(b: &[u8]) -> SerdeResult<(Proof, F)> {
    let mut r = Cursor::new(b);
    Ok((Proof::deserialize_from(&mut r)?, F::deserialize_from(&mut r)?))
}
