use crate::serdes::{ExpSerde, SerdeError, SerdeResult};
use ethnum::U256;
use rand::RngCore;
use std::fmt::Debug;
use std::hash::Hash;
use std::io::{Read, Write};
use std::iter::{Product, Sum};
use std::ops::*;

pub trait Field:
    Copy
    + Debug
    + Default
    + PartialEq
    + Eq
    + Hash
    + Ord
    + Send
    + Sync
    + 'static
    + From<u32>
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
    + Sum
    + Product
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + ExpSerde
{
    const NAME: &'static str;
    const SIZE: usize;
    const FIELD_SIZE: usize;
    const ZERO: Self;
    const ONE: Self;
    const INV_2: Self;
    const MODULUS: U256;

    fn zero() -> Self {
        Self::ZERO
    }
    fn one() -> Self {
        Self::ONE
    }
    fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    fn random_unsafe(rng: impl RngCore) -> Self;
    fn random_bool(rng: impl RngCore) -> Self;
    fn inv(&self) -> Option<Self>;
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn exp(&self, mut e: u128) -> Self {
        let mut r = Self::ONE;
        let mut b = *self;
        while e > 0 {
            if e & 1 == 1 {
                r *= b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
    fn as_u32_unchecked(&self) -> u32;
    fn from_uniform_bytes(b: &[u8]) -> Self;
    fn to_u256(&self) -> U256;
    fn from_u256(v: U256) -> Self;
}

pub trait SimdField: Field + From<Self::Scalar> {
    type Scalar: Field;
    const PACK_SIZE: usize;
    fn scale(&self, s: &Self::Scalar) -> Self;
    fn pack(v: &[Self::Scalar]) -> Self;
    fn pack_full(v: &Self::Scalar) -> Self;
    fn unpack(&self) -> Vec<Self::Scalar>;
}

/// Field elements whose value may depend on the circuit field.
pub trait ChallengeOf<B: Field>: Field {
    fn embed(b: &B) -> Self;
}

macro_rules! common_ops {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Add for $t { type Output = Self; #[inline] fn add(self, o: Self) -> Self { simrt::field_tick(); self.add_(&o) } }
        impl<$($g)*> Sub for $t { type Output = Self; #[inline] fn sub(self, o: Self) -> Self { simrt::field_tick(); self.add_(&o.neg_()) } }
        impl<$($g)*> Mul for $t { type Output = Self; #[inline] fn mul(self, o: Self) -> Self { simrt::field_tick(); self.mul_(&o) } }
        impl<'a, $($g)*> Add<&'a $t> for $t { type Output = Self; #[inline] fn add(self, o: &'a Self) -> Self { simrt::field_tick(); self.add_(o) } }
        impl<'a, $($g)*> Sub<&'a $t> for $t { type Output = Self; #[inline] fn sub(self, o: &'a Self) -> Self { simrt::field_tick(); self.add_(&o.neg_()) } }
        impl<'a, $($g)*> Mul<&'a $t> for $t { type Output = Self; #[inline] fn mul(self, o: &'a Self) -> Self { simrt::field_tick(); self.mul_(o) } }
        impl<$($g)*> Neg for $t { type Output = Self; #[inline] fn neg(self) -> Self { self.neg_() } }
        impl<$($g)*> AddAssign for $t { #[inline] fn add_assign(&mut self, o: Self) { *self = *self + o; } }
        impl<$($g)*> SubAssign for $t { #[inline] fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
        impl<$($g)*> MulAssign for $t { #[inline] fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
        impl<'a, $($g)*> AddAssign<&'a $t> for $t { #[inline] fn add_assign(&mut self, o: &'a Self) { *self = *self + *o; } }
        impl<'a, $($g)*> SubAssign<&'a $t> for $t { #[inline] fn sub_assign(&mut self, o: &'a Self) { *self = *self - *o; } }
        impl<'a, $($g)*> MulAssign<&'a $t> for $t { #[inline] fn mul_assign(&mut self, o: &'a Self) { *self = *self * *o; } }
        impl<$($g)*> Sum for $t { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
        impl<$($g)*> Product for $t { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
        impl<'a, $($g)*> Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + *b) } }
        impl<'a, $($g)*> Product<&'a $t> for $t { fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * *b) } }
    };
}

macro_rules! scalar_simd {
    ($t:ty) => {
        impl SimdField for $t {
            type Scalar = $t;
            const PACK_SIZE: usize = 1;
            fn scale(&self, s: &Self) -> Self {
                *self * *s
            }
            fn pack(v: &[Self]) -> Self {
                assert_eq!(v.len(), 1);
                v[0]
            }
            fn pack_full(v: &Self) -> Self {
                *v
            }
            fn unpack(&self) -> Vec<Self> {
                vec![*self]
            }
        }
    };
}

// ------------------------------------------------------------------ small prime fields
macro_rules! small_prime {
    ($t:ident, $raw:ty, $p:expr, $size:expr, $bits:expr, $name:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
        #[repr(transparent)]
        pub struct $t {
            pub v: $raw,
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", self.v)
            }
        }
        impl $t {
            const P: u128 = $p;
            #[inline]
            fn add_(&self, o: &Self) -> Self {
                $t { v: ((self.v as u128 + o.v as u128) % Self::P) as $raw }
            }
            #[inline]
            fn neg_(&self) -> Self {
                $t { v: if self.v == 0 { 0 } else { (Self::P - self.v as u128) as $raw } }
            }
            #[inline]
            fn mul_(&self, o: &Self) -> Self {
                $t { v: (self.v as u128 * o.v as u128 % Self::P) as $raw }
            }
            pub const fn new(x: u128) -> Self {
                $t { v: (x % $p) as $raw }
            }
        }
        common_ops!([] $t);
        impl From<u32> for $t {
            fn from(x: u32) -> Self {
                Self::new(x as u128)
            }
        }
        impl From<u64> for $t {
            fn from(x: u64) -> Self {
                Self::new(x as u128)
            }
        }
        impl ExpSerde for $t {
            fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
                self.v.serialize_into(w)
            }
            fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
                let v = <$raw>::deserialize_from(r)?;
                // the real crate keeps unreduced words; reduce so that equality is by value
                Ok(Self::new(v as u128))
            }
        }
        impl Field for $t {
            const NAME: &'static str = $name;
            const SIZE: usize = $size;
            const FIELD_SIZE: usize = $bits;
            const ZERO: Self = $t { v: 0 };
            const ONE: Self = $t { v: 1 };
            const INV_2: Self = $t { v: (($p + 1) / 2) as $raw };
            const MODULUS: U256 = U256::new($p);
            fn random_unsafe(mut rng: impl RngCore) -> Self {
                Self::new(rng.next_u64() as u128)
            }
            fn random_bool(mut rng: impl RngCore) -> Self {
                Self::new((rng.next_u32() & 1) as u128)
            }
            fn inv(&self) -> Option<Self> {
                if self.v == 0 {
                    None
                } else {
                    Some(self.exp(Self::P - 2))
                }
            }
            fn as_u32_unchecked(&self) -> u32 {
                self.v as u32
            }
            fn from_uniform_bytes(b: &[u8]) -> Self {
                let mut x = [0u8; 16];
                let n = b.len().min(16);
                x[..n].copy_from_slice(&b[..n]);
                Self::new(u128::from_le_bytes(x))
            }
            fn to_u256(&self) -> U256 {
                U256::from(self.v)
            }
            fn from_u256(v: U256) -> Self {
                Self::new((v % U256::new($p)).as_u128())
            }
        }
        scalar_simd!($t);
        impl ChallengeOf<$t> for $t {
            fn embed(b: &$t) -> Self {
                *b
            }
        }
    };
}
small_prime!(M31, u32, (1u128 << 31) - 1, 4, 32, "Mersenne 31");
small_prime!(BabyBear, u32, 0x7800_0001u128, 4, 32, "BabyBear");
small_prime!(Goldilocks, u64, 0xffff_ffff_0000_0001u128, 8, 64, "Goldilocks");

// ------------------------------------------------------------------ BN254 scalar field
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct Fr(pub [u64; 4]);
const FR_P: [u64; 4] = [
    0x43e1f593f0000001,
    0x2833e84879b97091,
    0xb85045b68181585d,
    0x30644e72e131a029,
];
const fn sub_limbs(a: [u64; 4], b: [u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0u64; 4];
    let mut bor = false;
    let mut i = 0;
    while i < 4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(bor as u64);
        r[i] = y;
        bor = b1 || b2;
        i += 1;
    }
    (r, bor)
}
const fn add_limbs(a: [u64; 4], b: [u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0u64; 4];
    let mut c = false;
    let mut i = 0;
    while i < 4 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (y, c2) = x.overflowing_add(c as u64);
        r[i] = y;
        c = c1 || c2;
        i += 1;
    }
    (r, c)
}
const fn add_mod(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
    let (s, _) = add_limbs(a, b); // p < 2^254, no carry
    let (d, bor) = sub_limbs(s, FR_P);
    if bor {
        s
    } else {
        d
    }
}
const fn pow2_mod(n: usize) -> [u64; 4] {
    let mut r = [1, 0, 0, 0];
    let mut i = 0;
    while i < n {
        r = add_mod(r, r);
        i += 1;
    }
    r
}
const FR_R: [u64; 4] = pow2_mod(256);
const FR_R2: [u64; 4] = pow2_mod(512);
const fn neg_inv() -> u64 {
    let mut x = 1u64;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(FR_P[0].wrapping_mul(x)));
        i += 1;
    }
    x.wrapping_neg()
}
const FR_NINV: u64 = neg_inv();
const fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let mut c = 0u128;
        let mut j = 0;
        while j < 4 {
            let x = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
            t[j] = x as u64;
            c = x >> 64;
            j += 1;
        }
        let x = t[4] as u128 + c;
        t[4] = x as u64;
        t[5] = (x >> 64) as u64;
        let m = t[0].wrapping_mul(FR_NINV);
        let x = t[0] as u128 + m as u128 * FR_P[0] as u128;
        let mut c = x >> 64;
        let mut j = 1;
        while j < 4 {
            let x = t[j] as u128 + m as u128 * FR_P[j] as u128 + c;
            t[j - 1] = x as u64;
            c = x >> 64;
            j += 1;
        }
        let x = t[4] as u128 + c;
        t[3] = x as u64;
        t[4] = t[5] + (x >> 64) as u64;
        t[5] = 0;
        i += 1;
    }
    let r = [t[0], t[1], t[2], t[3]];
    let (d, bor) = sub_limbs(r, FR_P);
    if t[4] != 0 || !bor {
        d
    } else {
        r
    }
}
impl Fr {
    #[inline]
    fn add_(&self, o: &Self) -> Self {
        Fr(add_mod(self.0, o.0))
    }
    #[inline]
    fn neg_(&self) -> Self {
        if self.0 == [0; 4] {
            *self
        } else {
            Fr(sub_limbs(FR_P, self.0).0)
        }
    }
    #[inline]
    fn mul_(&self, o: &Self) -> Self {
        Fr(mont_mul(&self.0, &o.0))
    }
    pub fn canonical(&self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    const fn from_limbs(a: [u64; 4]) -> Self {
        let mut a = a;
        loop {
            let (d, bor) = sub_limbs(a, FR_P);
            if bor {
                break;
            }
            a = d;
        }
        Fr(mont_mul(&a, &FR_R2))
    }
    pub const fn from_raw(a: [u64; 4]) -> Self {
        Self::from_limbs(a)
    }
    pub const fn zero() -> Self {
        Fr([0; 4])
    }
    pub const fn one() -> Self {
        Fr(FR_R)
    }
    pub fn size_in_bytes() -> usize {
        32
    }
}
fn u256_limbs(v: U256) -> [u64; 4] {
    let b = v.to_le_bytes();
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    r
}
fn limbs_u256(v: [u64; 4]) -> U256 {
    U256::from_words(
        (v[3] as u128) << 64 | v[2] as u128,
        (v[1] as u128) << 64 | v[0] as u128,
    )
}
impl PartialOrd for Fr {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fr {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        let (a, b) = (self.canonical(), o.canonical());
        a.iter().rev().cmp(b.iter().rev())
    }
}
impl Debug for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:#x}", self.to_u256())
    }
}
common_ops!([] Fr);
impl From<u32> for Fr {
    fn from(x: u32) -> Self {
        Fr::from_limbs([x as u64, 0, 0, 0])
    }
}
impl From<u64> for Fr {
    fn from(x: u64) -> Self {
        Fr::from_limbs([x, 0, 0, 0])
    }
}
impl ExpSerde for Fr {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        for l in self.canonical() {
            w.write_all(&l.to_le_bytes())?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        let mut a = [0u64; 4];
        for i in 0..4 {
            a[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        if !sub_limbs(a, FR_P).1 {
            return Err(SerdeError::DeserializeError);
        }
        Ok(Fr::from_limbs(a))
    }
}
impl Field for Fr {
    const NAME: &'static str = "bn254 scalar field";
    const SIZE: usize = 32;
    const FIELD_SIZE: usize = 256;
    const ZERO: Self = Fr([0; 4]);
    const ONE: Self = Fr(FR_R);
    const INV_2: Self = {
        // (p+1)/2 in Montgomery form
        let (s, _) = add_limbs(FR_P, [1, 0, 0, 0]);
        let h = [
            s[0] >> 1 | s[1] << 63,
            s[1] >> 1 | s[2] << 63,
            s[2] >> 1 | s[3] << 63,
            s[3] >> 1,
        ];
        Fr(mont_mul(&h, &FR_R2))
    };
    const MODULUS: U256 = U256::from_words(
        (FR_P[3] as u128) << 64 | FR_P[2] as u128,
        (FR_P[1] as u128) << 64 | FR_P[0] as u128,
    );
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        let mut a = [0u64; 4];
        for x in a.iter_mut() {
            *x = rng.next_u64();
        }
        Fr::from_limbs(a)
    }
    fn random_bool(mut rng: impl RngCore) -> Self {
        Fr::from(rng.next_u32() & 1)
    }
    fn inv(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        let (e, _) = sub_limbs(FR_P, [2, 0, 0, 0]);
        let mut r = Self::ONE;
        for i in (0..256).rev() {
            r = r.mul_(&r);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                r = r.mul_(self);
            }
        }
        Some(r)
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.canonical()[0] as u32
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        let mut x = [0u8; 32];
        let n = b.len().min(32);
        x[..n].copy_from_slice(&b[..n]);
        Fr::from_limbs(u256_limbs(U256::from_le_bytes(x)))
    }
    fn to_u256(&self) -> U256 {
        limbs_u256(self.canonical())
    }
    fn from_u256(v: U256) -> Self {
        Fr::from_limbs(u256_limbs(v % Self::MODULUS))
    }
}
scalar_simd!(Fr);
impl ChallengeOf<Fr> for Fr {
    fn embed(b: &Fr) -> Self {
        *b
    }
}

// ------------------------------------------------------------------ GF(2) and its extension
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
#[repr(transparent)]
pub struct GF2 {
    pub v: u8,
}
impl Debug for GF2 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl GF2 {
    #[inline]
    fn add_(&self, o: &Self) -> Self {
        GF2 { v: self.v ^ o.v }
    }
    #[inline]
    fn neg_(&self) -> Self {
        *self
    }
    #[inline]
    fn mul_(&self, o: &Self) -> Self {
        GF2 { v: self.v & o.v }
    }
}
common_ops!([] GF2);
impl From<u32> for GF2 {
    fn from(x: u32) -> Self {
        GF2 { v: (x & 1) as u8 }
    }
}
impl ExpSerde for GF2 {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.v.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        let v = u8::deserialize_from(r)?;
        if v > 1 {
            return Err(SerdeError::DeserializeError);
        }
        Ok(GF2 { v })
    }
}
impl Field for GF2 {
    const NAME: &'static str = "Galois Field 2";
    const SIZE: usize = 1;
    const FIELD_SIZE: usize = 1;
    const ZERO: Self = GF2 { v: 0 };
    const ONE: Self = GF2 { v: 1 };
    const INV_2: Self = GF2 { v: 0 };
    const MODULUS: U256 = U256::new(2);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        GF2::from(rng.next_u32())
    }
    fn random_bool(mut rng: impl RngCore) -> Self {
        GF2::from(rng.next_u32())
    }
    fn inv(&self) -> Option<Self> {
        if self.v == 0 {
            None
        } else {
            Some(*self)
        }
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.v as u32
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        GF2 { v: b.first().copied().unwrap_or(0) & 1 }
    }
    fn to_u256(&self) -> U256 {
        U256::from(self.v)
    }
    fn from_u256(v: U256) -> Self {
        GF2 { v: (v.as_u128() & 1) as u8 }
    }
}
scalar_simd!(GF2);
impl ChallengeOf<GF2> for GF2_128 {
    fn embed(b: &GF2) -> Self {
        GF2_128(b.v as u128)
    }
}

#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default, Debug)]
pub struct GF2_128(pub u128);
impl GF2_128 {
    #[inline]
    fn add_(&self, o: &Self) -> Self {
        GF2_128(self.0 ^ o.0)
    }
    #[inline]
    fn neg_(&self) -> Self {
        *self
    }
    fn mul_(&self, o: &Self) -> Self {
        let mut r = 0u128;
        let mut a = self.0;
        let mut b = o.0;
        while b != 0 {
            if b & 1 == 1 {
                r ^= a;
            }
            let top = a >> 127;
            a <<= 1;
            if top == 1 {
                a ^= 0x87;
            }
            b >>= 1;
        }
        GF2_128(r)
    }
}
common_ops!([] GF2_128);
impl From<u32> for GF2_128 {
    fn from(x: u32) -> Self {
        GF2_128((x & 1) as u128)
    }
}
impl ExpSerde for GF2_128 {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.0.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(GF2_128(u128::deserialize_from(r)?))
    }
}
impl Field for GF2_128 {
    const NAME: &'static str = "Galois Field 2^128";
    const SIZE: usize = 16;
    const FIELD_SIZE: usize = 128;
    const ZERO: Self = GF2_128(0);
    const ONE: Self = GF2_128(1);
    const INV_2: Self = GF2_128(0);
    const MODULUS: U256 = U256::from_words(1, 0);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        GF2_128((rng.next_u64() as u128) << 64 | rng.next_u64() as u128)
    }
    fn random_bool(mut rng: impl RngCore) -> Self {
        GF2_128((rng.next_u32() & 1) as u128)
    }
    fn inv(&self) -> Option<Self> {
        if self.0 == 0 {
            None
        } else {
            Some(self.exp(u128::MAX - 1))
        }
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.0 as u32
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        let mut x = [0u8; 16];
        let n = b.len().min(16);
        x[..n].copy_from_slice(&b[..n]);
        GF2_128(u128::from_le_bytes(x))
    }
    fn to_u256(&self) -> U256 {
        U256::new(self.0)
    }
    fn from_u256(v: U256) -> Self {
        GF2_128(v.as_u128())
    }
}
scalar_simd!(GF2_128);

// ------------------------------------------------------------------ packed fields
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
#[repr(transparent)]
pub struct Packed<S, const N: usize>(pub [S; N]);
impl<S: Field, const N: usize> Default for Packed<S, N> {
    fn default() -> Self {
        Packed([S::ZERO; N])
    }
}
impl<S: Field, const N: usize> Packed<S, N> {
    fn zip(&self, o: &Self, f: impl Fn(S, S) -> S) -> Self {
        let mut r = *self;
        for i in 0..N {
            r.0[i] = f(self.0[i], o.0[i]);
        }
        r
    }
    fn add_(&self, o: &Self) -> Self {
        self.zip(o, |a, b| a + b)
    }
    fn mul_(&self, o: &Self) -> Self {
        self.zip(o, |a, b| a * b)
    }
    fn neg_(&self) -> Self {
        let mut r = *self;
        for x in r.0.iter_mut() {
            *x = -*x;
        }
        r
    }
}
common_ops!([S: Field, const N: usize] Packed<S, N>);
impl<S: Field, const N: usize> From<u32> for Packed<S, N> {
    fn from(x: u32) -> Self {
        Packed([S::from(x); N])
    }
}
impl<S: Field, const N: usize> From<S> for Packed<S, N> {
    fn from(x: S) -> Self {
        Packed([x; N])
    }
}
impl<S: Field, const N: usize> ExpSerde for Packed<S, N> {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        self.0.serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        Ok(Packed(<[S; N]>::deserialize_from(r)?))
    }
}
impl<S: Field, const N: usize> Field for Packed<S, N> {
    const NAME: &'static str = "packed";
    const SIZE: usize = S::SIZE * N;
    const FIELD_SIZE: usize = S::FIELD_SIZE;
    const ZERO: Self = Packed([S::ZERO; N]);
    const ONE: Self = Packed([S::ONE; N]);
    const INV_2: Self = Packed([S::INV_2; N]);
    const MODULUS: U256 = S::MODULUS;
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        let mut r = Self::ZERO;
        for x in r.0.iter_mut() {
            *x = S::random_unsafe(&mut rng);
        }
        r
    }
    fn random_bool(mut rng: impl RngCore) -> Self {
        let mut r = Self::ZERO;
        for x in r.0.iter_mut() {
            *x = S::random_bool(&mut rng);
        }
        r
    }
    fn inv(&self) -> Option<Self> {
        let mut r = *self;
        for x in r.0.iter_mut() {
            *x = x.inv()?;
        }
        Some(r)
    }
    fn as_u32_unchecked(&self) -> u32 {
        unimplemented!("packed field")
    }
    fn from_uniform_bytes(b: &[u8]) -> Self {
        Packed([S::from_uniform_bytes(b); N])
    }
    fn to_u256(&self) -> U256 {
        unimplemented!("packed field")
    }
    fn from_u256(v: U256) -> Self {
        Packed([S::from_u256(v); N])
    }
}
impl<S: Field, const N: usize> SimdField for Packed<S, N> {
    type Scalar = S;
    const PACK_SIZE: usize = N;
    fn scale(&self, s: &S) -> Self {
        let mut r = *self;
        for x in r.0.iter_mut() {
            *x = *x * *s;
        }
        r
    }
    fn pack(v: &[S]) -> Self {
        assert_eq!(v.len(), N);
        Packed(v.try_into().unwrap())
    }
    fn pack_full(v: &S) -> Self {
        Packed([*v; N])
    }
    fn unpack(&self) -> Vec<S> {
        self.0.to_vec()
    }
}
pub type M31x16 = Packed<M31, 16>;
pub type GF2x8 = Packed<GF2, 8>;
pub type Goldilocksx8 = Packed<Goldilocks, 8>;
pub type BabyBearx16 = Packed<BabyBear, 16>;
