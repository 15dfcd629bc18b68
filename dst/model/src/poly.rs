use crate::arith::*;
use crate::engine::FieldEngine;
use std::ops::Index;

pub trait MultilinearExtension<F: Field>: Index<usize, Output = F> {
    fn num_vars(&self) -> usize;
    fn hypercube_basis_ref(&self) -> &[F];
}
#[derive(Clone, Debug)]
pub struct RefMultiLinearPoly<'a, F> {
    pub coeffs: &'a [F],
}
impl<'a, F: Field> RefMultiLinearPoly<'a, F> {
    pub fn from_ref(v: &'a [F]) -> Self {
        RefMultiLinearPoly { coeffs: v }
    }
}
impl<'a, F> Index<usize> for RefMultiLinearPoly<'a, F> {
    type Output = F;
    fn index(&self, i: usize) -> &F {
        &self.coeffs[i]
    }
}
impl<'a, F: Field> MultilinearExtension<F> for RefMultiLinearPoly<'a, F> {
    fn num_vars(&self) -> usize {
        self.coeffs.len().trailing_zeros() as usize
    }
    fn hypercube_basis_ref(&self) -> &[F] {
        self.coeffs
    }
}

pub struct EqPolynomial<F>(std::marker::PhantomData<F>);
impl<F: Field> EqPolynomial<F> {
    pub fn ith_eq_vec_elem(r: &[F], i: usize) -> F {
        let mut v = F::ONE;
        for (j, x) in r.iter().enumerate() {
            v *= if i >> j & 1 == 1 { *x } else { F::ONE - *x };
        }
        v
    }
}

/// MLE of a little-endian table at a point; None when the sizes do not match.
pub fn mle_eval<F: Field>(mut t: Vec<F>, p: &[F]) -> Option<F> {
    if t.len() != 1usize.checked_shl(p.len() as u32)? {
        return None;
    }
    for r in p {
        let h = t.len() / 2;
        for i in 0..h {
            let (a, b) = (t[2 * i], t[2 * i + 1]);
            t[i] = a + *r * (b - a);
        }
        t.truncate(h);
    }
    Some(t[0])
}
/// `p` = r_simd ++ rz ++ r_mpi; several blocks are concatenated at the top.
pub fn try_mle_eval_simd<E: FieldEngine>(
    blocks: &[&[E::SimdCircuitField]],
    p: &[E::ChallengeField],
) -> Option<E::ChallengeField> {
    let pre = simrt::FIELD_PREEMPT.swap(false, std::sync::atomic::Ordering::Relaxed);
    let t: Vec<E::ChallengeField> = blocks
        .iter()
        .flat_map(|b| b.iter())
        .flat_map(|v| v.unpack())
        .map(|x| E::ChallengeField::embed(&x))
        .collect();
    let r = mle_eval(t, p);
    simrt::FIELD_PREEMPT.store(pre, std::sync::atomic::Ordering::Relaxed);
    r
}
pub fn mle_eval_simd<E: FieldEngine>(
    blocks: &[&[E::SimdCircuitField]],
    p: &[E::ChallengeField],
) -> E::ChallengeField {
    try_mle_eval_simd::<E>(blocks, p).expect("polynomial and challenge have different sizes")
}
