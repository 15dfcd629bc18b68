//! Stand-in for ark-bls12-381: the base field and its tower, slow and obvious.
//! Fq2 = Fq[u]/(u^2+1), Fq6 = Fq2[v]/(v^3-(1+u)), Fq12 = Fq6[w]/(w^2-v).
use ark_ff::{Field, One, Zero};
use num_bigint::BigUint;
use std::fmt;
use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};

/// The modulus, little-endian words.
pub const P: [u64; 6] = [
    0xb9feffffffffaaab,
    0x1eabfffeb153ffff,
    0x6730d2a0f6b0f624,
    0x64774b84f38512bf,
    0x4b1ba7b6434bacd7,
    0x1a0111ea397fe69a,
];
const fn inv64() -> u64 {
    let mut x = 1u64;
    let mut i = 0;
    while i < 63 {
        x = x.wrapping_mul(x).wrapping_mul(P[0]);
        i += 1;
    }
    x.wrapping_neg()
}
const INV: u64 = inv64();
const fn geq(a: &[u64; 6], b: &[u64; 6]) -> bool {
    let mut i = 6;
    while i > 0 {
        i -= 1;
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
const fn sub6(a: &[u64; 6], b: &[u64; 6]) -> [u64; 6] {
    let mut r = [0; 6];
    let mut bor = 0i128;
    let mut i = 0;
    while i < 6 {
        let d = a[i] as i128 - b[i] as i128 + bor;
        r[i] = d as u64;
        bor = d >> 64;
        i += 1;
    }
    r
}
const fn add_mod(a: &[u64; 6], b: &[u64; 6]) -> [u64; 6] {
    let mut r = [0; 6];
    let mut c = 0u128;
    let mut i = 0;
    while i < 6 {
        let s = a[i] as u128 + b[i] as u128 + c;
        r[i] = s as u64;
        c = s >> 64;
        i += 1;
    }
    if geq(&r, &P) {
        sub6(&r, &P)
    } else {
        r
    }
}
const fn pow2(n: usize) -> [u64; 6] {
    let mut r = [1, 0, 0, 0, 0, 0];
    let mut i = 0;
    while i < n {
        r = add_mod(&r, &r);
        i += 1;
    }
    r
}
const R: [u64; 6] = pow2(384);
const R2: [u64; 6] = pow2(768);
fn mont(a: &[u64; 6], b: &[u64; 6]) -> [u64; 6] {
    let mut t = [0u64; 8];
    for x in a {
        let mut c = 0u128;
        for j in 0..6 {
            let s = t[j] as u128 + *x as u128 * b[j] as u128 + c;
            t[j] = s as u64;
            c = s >> 64;
        }
        let s = t[6] as u128 + c;
        t[6] = s as u64;
        t[7] = (s >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let mut c = (t[0] as u128 + m as u128 * P[0] as u128) >> 64;
        for j in 1..6 {
            let s = t[j] as u128 + m as u128 * P[j] as u128 + c;
            t[j - 1] = s as u64;
            c = s >> 64;
        }
        let s = t[6] as u128 + c;
        t[5] = s as u64;
        t[6] = t[7] + (s >> 64) as u64;
        t[7] = 0;
    }
    let r = [t[0], t[1], t[2], t[3], t[4], t[5]];
    if t[6] != 0 || geq(&r, &P) {
        sub6(&r, &P)
    } else {
        r
    }
}

/// In Montgomery form.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Fq([u64; 6]);
fn p() -> BigUint {
    BigUint::from_bytes_le(&P.iter().flat_map(|w| w.to_le_bytes()).collect::<Vec<u8>>())
}
impl Fq {
    pub fn big(&self) -> BigUint {
        let r = mont(&self.0, &[1, 0, 0, 0, 0, 0]);
        BigUint::from_bytes_le(&r.iter().flat_map(|w| w.to_le_bytes()).collect::<Vec<u8>>())
    }
}
impl From<BigUint> for Fq {
    fn from(b: BigUint) -> Self {
        let d = (b % p()).to_u64_digits();
        let mut l = [0; 6];
        l[..d.len()].copy_from_slice(&d);
        Fq(mont(&l, &R2))
    }
}
macro_rules! from_int {
    ($($t:ty)*) => {$(
        impl From<$t> for Fq {
            fn from(x: $t) -> Self { Fq(mont(&[x as u64, 0, 0, 0, 0, 0], &R2)) }
        }
    )*};
}
from_int!(u8 u16 u32 u64);
impl fmt::Display for Fq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.big())
    }
}
impl fmt::Debug for Fq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.big())
    }
}
impl Add for Fq {
    type Output = Fq;
    fn add(self, o: Fq) -> Fq {
        Fq(add_mod(&self.0, &o.0))
    }
}
impl Neg for Fq {
    type Output = Fq;
    fn neg(self) -> Fq {
        if self.is_zero() {
            self
        } else {
            Fq(sub6(&P, &self.0))
        }
    }
}
impl Mul for Fq {
    type Output = Fq;
    fn mul(self, o: Fq) -> Fq {
        Fq(mont(&self.0, &o.0))
    }
}
impl Zero for Fq {
    fn zero() -> Self {
        Fq([0; 6])
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 6]
    }
}
impl One for Fq {
    fn one() -> Self {
        Fq(R)
    }
}
impl Field for Fq {
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        let mut e = P;
        e[0] -= 2;
        Some(self.pow(e))
    }
    fn sqrt(&self) -> Option<Self> {
        // p = 3 mod 4
        let e = (p() + BigUint::from(1u32)) / BigUint::from(4u32);
        let r = self.pow(e.to_u64_digits());
        if r * r == *self {
            Some(r)
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)]
pub struct Fq2 {
    pub c0: Fq,
    pub c1: Fq,
}
impl Fq2 {
    pub fn new(c0: Fq, c1: Fq) -> Self {
        Fq2 { c0, c1 }
    }
    pub fn mul_assign_by_fp(&mut self, k: &Fq) {
        *self = Fq2::new(self.c0 * *k, self.c1 * *k);
    }
    /// times 1+u
    pub fn nr(self) -> Self {
        Fq2::new(self.c0 - self.c1, self.c0 + self.c1)
    }
}
impl Add for Fq2 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Fq2::new(self.c0 + o.c0, self.c1 + o.c1)
    }
}
impl Neg for Fq2 {
    type Output = Self;
    fn neg(self) -> Self {
        Fq2::new(-self.c0, -self.c1)
    }
}
impl Mul for Fq2 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fq2::new(
            self.c0 * o.c0 - self.c1 * o.c1,
            self.c0 * o.c1 + self.c1 * o.c0,
        )
    }
}
impl Zero for Fq2 {
    fn zero() -> Self {
        Fq2::default()
    }
    fn is_zero(&self) -> bool {
        self.c0.is_zero() && self.c1.is_zero()
    }
}
impl One for Fq2 {
    fn one() -> Self {
        Fq2::new(Fq::one(), Fq::zero())
    }
}
impl Field for Fq2 {
    fn inverse(&self) -> Option<Self> {
        let n = (self.c0 * self.c0 + self.c1 * self.c1).inverse()?;
        Some(Fq2::new(self.c0 * n, -self.c1 * n))
    }
    fn sqrt(&self) -> Option<Self> {
        if self.c1.is_zero() {
            return Some(match self.c0.sqrt() {
                Some(r) => Fq2::new(r, Fq::zero()),
                None => Fq2::new(Fq::zero(), (-self.c0).sqrt()?),
            });
        }
        let n = (self.c0 * self.c0 + self.c1 * self.c1).sqrt()?;
        let half = Fq::from(2u32).inverse().unwrap();
        let x = match ((self.c0 + n) * half).sqrt() {
            Some(x) => x,
            None => ((self.c0 - n) * half).sqrt()?,
        };
        let r = Fq2::new(x, self.c1 * half * x.inverse()?);
        if r * r == *self {
            Some(r)
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)]
pub struct Fq6 {
    pub c0: Fq2,
    pub c1: Fq2,
    pub c2: Fq2,
}
impl Fq6 {
    pub fn new(c0: Fq2, c1: Fq2, c2: Fq2) -> Self {
        Fq6 { c0, c1, c2 }
    }
    /// times v
    pub fn nr(self) -> Self {
        Fq6::new(self.c2.nr(), self.c0, self.c1)
    }
}
impl Add for Fq6 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Fq6::new(self.c0 + o.c0, self.c1 + o.c1, self.c2 + o.c2)
    }
}
impl Neg for Fq6 {
    type Output = Self;
    fn neg(self) -> Self {
        Fq6::new(-self.c0, -self.c1, -self.c2)
    }
}
impl Mul for Fq6 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fq6::new(
            self.c0 * o.c0 + (self.c1 * o.c2 + self.c2 * o.c1).nr(),
            self.c0 * o.c1 + self.c1 * o.c0 + (self.c2 * o.c2).nr(),
            self.c0 * o.c2 + self.c1 * o.c1 + self.c2 * o.c0,
        )
    }
}
impl Zero for Fq6 {
    fn zero() -> Self {
        Fq6::default()
    }
    fn is_zero(&self) -> bool {
        *self == Fq6::default()
    }
}
impl One for Fq6 {
    fn one() -> Self {
        Fq6::new(Fq2::one(), Fq2::zero(), Fq2::zero())
    }
}
impl Field for Fq6 {
    fn inverse(&self) -> Option<Self> {
        let (a, b, c) = (self.c0, self.c1, self.c2);
        let t0 = a * a - (b * c).nr();
        let t1 = (c * c).nr() - a * b;
        let t2 = b * b - a * c;
        let n = (a * t0 + (c * t1 + b * t2).nr()).inverse()?;
        Some(Fq6::new(t0 * n, t1 * n, t2 * n))
    }
    fn sqrt(&self) -> Option<Self> {
        unimplemented!("no square root in the cubic extension")
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug)]
pub struct Fq12 {
    pub c0: Fq6,
    pub c1: Fq6,
}
impl Fq12 {
    pub fn new(c0: Fq6, c1: Fq6) -> Self {
        Fq12 { c0, c1 }
    }
}
impl Add for Fq12 {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Fq12::new(self.c0 + o.c0, self.c1 + o.c1)
    }
}
impl Neg for Fq12 {
    type Output = Self;
    fn neg(self) -> Self {
        Fq12::new(-self.c0, -self.c1)
    }
}
impl Mul for Fq12 {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fq12::new(
            self.c0 * o.c0 + (self.c1 * o.c1).nr(),
            self.c0 * o.c1 + self.c1 * o.c0,
        )
    }
}
impl Zero for Fq12 {
    fn zero() -> Self {
        Fq12::default()
    }
    fn is_zero(&self) -> bool {
        *self == Fq12::default()
    }
}
impl One for Fq12 {
    fn one() -> Self {
        Fq12::new(Fq6::one(), Fq6::zero())
    }
}
impl Field for Fq12 {
    fn inverse(&self) -> Option<Self> {
        let n = (self.c0 * self.c0 - (self.c1 * self.c1).nr()).inverse()?;
        Some(Fq12::new(self.c0 * n, -self.c1 * n))
    }
    fn sqrt(&self) -> Option<Self> {
        unimplemented!("no square root in the top extension")
    }
}

macro_rules! rest {
    ($($t:ty)*) => {$(
        impl Sub for $t { type Output = $t; fn sub(self, o: $t) -> $t { self + -o } }
        impl Div for $t { type Output = $t; fn div(self, o: $t) -> $t { self * o.inverse().expect("division by zero") } }
        impl AddAssign for $t { fn add_assign(&mut self, o: $t) { *self = *self + o; } }
        impl SubAssign for $t { fn sub_assign(&mut self, o: $t) { *self = *self - o; } }
        impl MulAssign for $t { fn mul_assign(&mut self, o: $t) { *self = *self * o; } }
        impl<'a> Mul<&'a $t> for $t { type Output = $t; fn mul(self, o: &'a $t) -> $t { self * *o } }
        impl<'a> Add<&'a $t> for $t { type Output = $t; fn add(self, o: &'a $t) -> $t { self + *o } }
        impl<'a> Sub<&'a $t> for $t { type Output = $t; fn sub(self, o: &'a $t) -> $t { self - *o } }
        impl<'a> Div<&'a $t> for $t { type Output = $t; fn div(self, o: &'a $t) -> $t { self / *o } }
        impl<'a> Mul<&'a $t> for &'a $t { type Output = $t; fn mul(self, o: &'a $t) -> $t { *self * *o } }
        impl<'a> MulAssign<&'a $t> for $t { fn mul_assign(&mut self, o: &'a $t) { *self = *self * *o; } }
    )*};
}
rest!(Fq Fq2 Fq6 Fq12);
impl Mul<Fq> for Fq2 {
    type Output = Fq2;
    fn mul(self, o: Fq) -> Fq2 {
        Fq2::new(self.c0 * o, self.c1 * o)
    }
}
