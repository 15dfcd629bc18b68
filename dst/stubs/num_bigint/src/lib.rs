//! Stand-in for num-bigint: the part of its interface the circuit library uses, schoolbook arithmetic.
use num_traits::{Num, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}

/// Little-endian 32-bit limbs without leading zeros.
type Mag = Vec<u32>;
fn trim(m: &mut Mag) {
    while m.last() == Some(&0) {
        m.pop();
    }
}
fn mcmp(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn madd(a: &[u32], b: &[u32]) -> Mag {
    let (a, b) = if a.len() < b.len() { (b, a) } else { (a, b) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for (i, x) in a.iter().enumerate() {
        c += *x as u64 + b.get(i).copied().unwrap_or(0) as u64;
        r.push(c as u32);
        c >>= 32;
    }
    r.push(c as u32);
    trim(&mut r);
    r
}
/// a - b, where a >= b.
fn msub(a: &[u32], b: &[u32]) -> Mag {
    let mut r = a.to_vec();
    let mut c = 0i64;
    for (i, x) in r.iter_mut().enumerate() {
        c += *x as i64 - b.get(i).copied().unwrap_or(0) as i64;
        *x = c as u32;
        c >>= 32;
    }
    trim(&mut r);
    r
}
fn mmul(a: &[u32], b: &[u32]) -> Mag {
    let mut r = vec![0u32; a.len() + b.len() + 1];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, y) in b.iter().enumerate() {
            c += *x as u64 * *y as u64 + r[i + j] as u64;
            r[i + j] = c as u32;
            c >>= 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(&mut r);
    r
}
fn mshl(a: &[u32], n: usize) -> Mag {
    if a.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; n / 32];
    let s = n % 32;
    let mut c = 0u64;
    for x in a {
        c |= (*x as u64) << s;
        r.push(c as u32);
        c >>= 32;
    }
    r.push(c as u32);
    trim(&mut r);
    r
}
fn mshr(a: &[u32], n: usize) -> Mag {
    let (w, s) = (n / 32, n % 32);
    let mut r = vec![];
    for i in w..a.len() {
        let hi = a.get(i + 1).copied().unwrap_or(0) as u64;
        r.push((((hi << 32) | a[i] as u64) >> s) as u32);
    }
    trim(&mut r);
    r
}
/// Knuth's algorithm D.
fn mdivrem(a: &[u32], b: &[u32]) -> (Mag, Mag) {
    assert!(!b.is_empty(), "attempt to divide by zero");
    if mcmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let mut q = vec![0; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            r = (r << 32) | a[i] as u64;
            q[i] = (r / b[0] as u64) as u32;
            r %= b[0] as u64;
        }
        trim(&mut q);
        let mut r = vec![r as u32];
        trim(&mut r);
        return (q, r);
    }
    let s = b[b.len() - 1].leading_zeros() as usize;
    let v = mshl(b, s);
    let mut u = mshl(a, s);
    u.resize(a.len() + 1, 0);
    let n = v.len();
    let m = u.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let top = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = top / v[n - 1] as u64;
        let mut rh = top % v[n - 1] as u64;
        while qh >> 32 != 0 || qh as u128 * v[n - 2] as u128 > ((rh as u128) << 32 | u[j + n - 2] as u128) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >> 32 != 0 {
                break;
            }
        }
        let (mut c, mut bo) = (0u64, 0i64);
        for i in 0..n {
            c += qh * v[i] as u64;
            bo += u[i + j] as i64 - (c as u32) as i64;
            u[i + j] = bo as u32;
            bo >>= 32;
            c >>= 32;
        }
        bo += u[j + n] as i64 - c as i64;
        u[j + n] = bo as u32;
        bo >>= 32;
        if bo < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                c += u[i + j] as u64 + v[i] as u64;
                u[i + j] = c as u32;
                c >>= 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    trim(&mut q);
    u.truncate(n);
    trim(&mut u);
    (q, mshr(&u, s))
}
fn mtext(m: &[u32], radix: u32) -> String {
    if m.is_empty() {
        return "0".into();
    }
    let mut m = m.to_vec();
    let mut s = vec![];
    while !m.is_empty() {
        let (q, r) = mdivrem(&m, &[radix]);
        s.push(char::from_digit(r.first().copied().unwrap_or(0), radix).unwrap());
        m = q;
    }
    s.iter().rev().collect()
}
fn mparse(s: &str, radix: u32) -> Option<Mag> {
    let mut m: Mag = vec![];
    if s.is_empty() {
        return None;
    }
    for c in s.chars() {
        let d = c.to_digit(radix)?;
        m = madd(&mmul(&m, &[radix]), &[d]);
    }
    trim(&mut m);
    Some(m)
}
fn mbits(m: &[u32]) -> u64 {
    m.last().map_or(0, |t| m.len() as u64 * 32 - t.leading_zeros() as u64)
}

#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct BigUint(Mag);
#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct BigInt {
    neg: bool,
    mag: Mag,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError;
impl fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("invalid digit found in string")
    }
}
impl std::error::Error for ParseBigIntError {}

impl BigUint {
    pub const ZERO: BigUint = BigUint(vec![]);
    pub fn bits(&self) -> u64 {
        mbits(&self.0)
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        self.0.chunks(2).map(|c| c[0] as u64 | (c.get(1).copied().unwrap_or(0) as u64) << 32).collect()
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let mut b: Vec<u8> = self.0.iter().flat_map(|x| x.to_le_bytes()).collect();
        while b.len() > 1 && b.last() == Some(&0) {
            b.pop();
        }
        if b.is_empty() {
            b.push(0);
        }
        b
    }
    pub fn from_bytes_le(b: &[u8]) -> Self {
        let mut m: Mag = b.chunks(4).map(|c| c.iter().rev().fold(0, |a, x| a << 8 | *x as u32)).collect();
        trim(&mut m);
        BigUint(m)
    }
    pub fn from_bytes_be(b: &[u8]) -> Self {
        let mut b = b.to_vec();
        b.reverse();
        Self::from_bytes_le(&b)
    }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        let mut r = BigUint::from(1u32) % m;
        for i in (0..e.bits()).rev() {
            r = &r * &r % m;
            if e.0[(i / 32) as usize] >> (i % 32) & 1 == 1 {
                r = r * self % m;
            }
        }
        r
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
        mparse(std::str::from_utf8(b).ok()?, radix).map(BigUint)
    }
    pub fn pow(&self, e: u32) -> Self {
        (0..e).fold(BigUint(vec![1]), |r, _| r * self)
    }
}
impl BigInt {
    pub const ZERO: BigInt = BigInt { neg: false, mag: vec![] };
    fn new(neg: bool, mag: Mag) -> Self {
        BigInt { neg: neg && !mag.is_empty(), mag }
    }
    pub fn bits(&self) -> u64 {
        mbits(&self.mag)
    }
    pub fn sign(&self) -> Sign {
        match (self.neg, self.mag.is_empty()) {
            (_, true) => Sign::NoSign,
            (true, _) => Sign::Minus,
            _ => Sign::Plus,
        }
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
        Self::from_str_radix(std::str::from_utf8(b).ok()?, radix).ok()
    }
    pub fn from_bytes_be(s: Sign, b: &[u8]) -> Self {
        Self::new(s == Sign::Minus, BigUint::from_bytes_be(b).0)
    }
    /// The sign and the bytes, most significant first and never empty.
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        let mut b = BigUint(self.mag.clone()).to_bytes_le();
        b.reverse();
        (self.sign(), b)
    }
    pub fn from_biguint(s: Sign, b: BigUint) -> Self {
        Self::new(s == Sign::Minus, b.0)
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        (!self.neg).then(|| BigUint(self.mag.clone()))
    }
    pub fn pow(&self, e: u32) -> Self {
        (0..e).fold(BigInt::from(1), |r, _| r * self)
    }
    pub fn modinv(&self, m: &BigInt) -> Option<BigInt> {
        let (mut a, mut b) = (m.clone(), self.modpow(&BigInt::from(1), m));
        let (mut x, mut y) = (BigInt::ZERO, BigInt::from(1));
        while !b.mag.is_empty() {
            let q = &a / &b;
            (a, b) = (b.clone(), &a - &(&q * &b));
            (x, y) = (y.clone(), &x - &(&q * &y));
        }
        (a == BigInt::from(1)).then(|| x.modpow(&BigInt::from(1), m))
    }
    pub fn modpow(&self, e: &BigInt, m: &BigInt) -> BigInt {
        let mut base = self % m;
        if base.neg {
            base += m;
        }
        BigInt::new(false, BigUint(base.mag).modpow(&BigUint(e.mag.clone()), &BigUint(m.mag.clone())).0)
    }
}
impl fmt::Display for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad_integral(true, "", &mtext(&self.0, 10))
    }
}
impl fmt::Debug for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Display for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad_integral(!self.neg, "", &mtext(&self.mag, 10))
    }
}
impl fmt::Debug for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> Ordering {
        mcmp(&self.0, &o.0)
    }
}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => mcmp(&self.mag, &o.mag),
            (true, true) => mcmp(&o.mag, &self.mag),
        }
    }
}

fn iadd(a: &BigInt, b: &BigInt, flip: bool) -> BigInt {
    let bn = b.neg != flip;
    if a.neg == bn {
        return BigInt::new(a.neg, madd(&a.mag, &b.mag));
    }
    match mcmp(&a.mag, &b.mag) {
        Ordering::Less => BigInt::new(bn, msub(&b.mag, &a.mag)),
        _ => BigInt::new(a.neg, msub(&a.mag, &b.mag)),
    }
}
trait Raw: Sized {
    fn add_(&self, o: &Self) -> Self;
    fn sub_(&self, o: &Self) -> Self;
    fn mul_(&self, o: &Self) -> Self;
    fn div_(&self, o: &Self) -> Self;
    fn rem_(&self, o: &Self) -> Self;
    fn and_(&self, o: &Self) -> Self;
    fn or_(&self, o: &Self) -> Self;
    fn xor_(&self, o: &Self) -> Self;
    fn shl_(&self, n: usize) -> Self;
    fn shr_(&self, n: usize) -> Self;
}
fn bitop(a: &[u32], b: &[u32], f: impl Fn(u32, u32) -> u32) -> Mag {
    let mut m: Mag =
        (0..a.len().max(b.len())).map(|i| f(a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0))).collect();
    trim(&mut m);
    m
}
impl Raw for BigUint {
    fn add_(&self, o: &Self) -> Self {
        BigUint(madd(&self.0, &o.0))
    }
    fn sub_(&self, o: &Self) -> Self {
        assert!(mcmp(&self.0, &o.0) != Ordering::Less, "Cannot subtract b from a because b is larger than a.");
        BigUint(msub(&self.0, &o.0))
    }
    fn mul_(&self, o: &Self) -> Self {
        BigUint(mmul(&self.0, &o.0))
    }
    fn div_(&self, o: &Self) -> Self {
        BigUint(mdivrem(&self.0, &o.0).0)
    }
    fn rem_(&self, o: &Self) -> Self {
        BigUint(mdivrem(&self.0, &o.0).1)
    }
    fn and_(&self, o: &Self) -> Self {
        BigUint(bitop(&self.0, &o.0, |a, b| a & b))
    }
    fn or_(&self, o: &Self) -> Self {
        BigUint(bitop(&self.0, &o.0, |a, b| a | b))
    }
    fn xor_(&self, o: &Self) -> Self {
        BigUint(bitop(&self.0, &o.0, |a, b| a ^ b))
    }
    fn shl_(&self, n: usize) -> Self {
        BigUint(mshl(&self.0, n))
    }
    fn shr_(&self, n: usize) -> Self {
        BigUint(mshr(&self.0, n))
    }
}
impl Raw for BigInt {
    fn add_(&self, o: &Self) -> Self {
        iadd(self, o, false)
    }
    fn sub_(&self, o: &Self) -> Self {
        iadd(self, o, true)
    }
    fn mul_(&self, o: &Self) -> Self {
        BigInt::new(self.neg != o.neg, mmul(&self.mag, &o.mag))
    }
    fn div_(&self, o: &Self) -> Self {
        BigInt::new(self.neg != o.neg, mdivrem(&self.mag, &o.mag).0)
    }
    fn rem_(&self, o: &Self) -> Self {
        BigInt::new(self.neg, mdivrem(&self.mag, &o.mag).1)
    }
    fn and_(&self, o: &Self) -> Self {
        assert!(!self.neg && !o.neg, "bit operations on negative numbers are not modelled");
        BigInt::new(false, bitop(&self.mag, &o.mag, |a, b| a & b))
    }
    fn or_(&self, o: &Self) -> Self {
        assert!(!self.neg && !o.neg, "bit operations on negative numbers are not modelled");
        BigInt::new(false, bitop(&self.mag, &o.mag, |a, b| a | b))
    }
    fn xor_(&self, o: &Self) -> Self {
        assert!(!self.neg && !o.neg, "bit operations on negative numbers are not modelled");
        BigInt::new(false, bitop(&self.mag, &o.mag, |a, b| a ^ b))
    }
    fn shl_(&self, n: usize) -> Self {
        BigInt::new(self.neg, mshl(&self.mag, n))
    }
    /// Rounds down, as num-bigint does.
    fn shr_(&self, n: usize) -> Self {
        let r = BigInt::new(self.neg, mshr(&self.mag, n));
        if self.neg && mcmp(&mshl(&r.mag, n), &self.mag) != Ordering::Equal {
            return iadd(&r, &BigInt::from(1), true);
        }
        r
    }
}
macro_rules! ops {
    ($t:ty; $($tr:ident $f:ident $tra:ident $fa:ident $raw:ident;)*) => {$(
        impl $tr<$t> for $t { type Output = $t; fn $f(self, o: $t) -> $t { Raw::$raw(&self, &o) } }
        impl $tr<&$t> for $t { type Output = $t; fn $f(self, o: &$t) -> $t { Raw::$raw(&self, o) } }
        impl $tr<$t> for &$t { type Output = $t; fn $f(self, o: $t) -> $t { Raw::$raw(self, &o) } }
        impl $tr<&$t> for &$t { type Output = $t; fn $f(self, o: &$t) -> $t { Raw::$raw(self, o) } }
        impl $tra<$t> for $t { fn $fa(&mut self, o: $t) { *self = Raw::$raw(&*self, &o) } }
        impl $tra<&$t> for $t { fn $fa(&mut self, o: &$t) { *self = Raw::$raw(&*self, o) } }
    )*};
}
macro_rules! prim {
    ($t:ty; $($p:ty)*; $ops:tt) => {$( prim!(@ $t; $p; $ops); )*};
    (@ $t:ty; $p:ty; {$($tr:ident $f:ident $tra:ident $fa:ident $raw:ident;)*}) => {$(
        impl $tr<$p> for $t { type Output = $t; fn $f(self, o: $p) -> $t { Raw::$raw(&self, &<$t>::from(o)) } }
        impl $tr<$p> for &$t { type Output = $t; fn $f(self, o: $p) -> $t { Raw::$raw(self, &<$t>::from(o)) } }
        impl $tra<$p> for $t { fn $fa(&mut self, o: $p) { *self = Raw::$raw(&*self, &<$t>::from(o)) } }
    )*};
}
macro_rules! shifts {
    ($t:ty; $($p:ty)*) => {$(
        impl Shl<$p> for $t { type Output = $t; fn shl(self, n: $p) -> $t { self.shl_(n as usize) } }
        impl Shl<$p> for &$t { type Output = $t; fn shl(self, n: $p) -> $t { self.shl_(n as usize) } }
        impl Shr<$p> for $t { type Output = $t; fn shr(self, n: $p) -> $t { self.shr_(n as usize) } }
        impl Shr<$p> for &$t { type Output = $t; fn shr(self, n: $p) -> $t { self.shr_(n as usize) } }
        impl ShlAssign<$p> for $t { fn shl_assign(&mut self, n: $p) { *self = self.shl_(n as usize) } }
        impl ShrAssign<$p> for $t { fn shr_assign(&mut self, n: $p) { *self = self.shr_(n as usize) } }
    )*};
}
macro_rules! both {
    ($t:ty) => {
        ops! {$t; Add add AddAssign add_assign add_; Sub sub SubAssign sub_assign sub_; Mul mul MulAssign mul_assign mul_;
        Div div DivAssign div_assign div_; Rem rem RemAssign rem_assign rem_; BitAnd bitand BitAndAssign bitand_assign and_;
        BitOr bitor BitOrAssign bitor_assign or_; BitXor bitxor BitXorAssign bitxor_assign xor_;}
        shifts! {$t; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 isize}
        impl Zero for $t {
            fn zero() -> Self {
                <$t>::ZERO
            }
            fn is_zero(&self) -> bool {
                *self == <$t>::ZERO
            }
        }
        impl One for $t {
            fn one() -> Self {
                <$t>::from(1u32)
            }
        }
        impl std::str::FromStr for $t {
            type Err = ParseBigIntError;
            fn from_str(s: &str) -> Result<Self, ParseBigIntError> {
                <$t>::from_str_radix(s, 10)
            }
        }
        impl std::iter::Sum for $t {
            fn sum<I: Iterator<Item = $t>>(i: I) -> $t {
                i.fold(<$t>::ZERO, |a, b| a + b)
            }
        }
    };
}
both!(BigUint);
both!(BigInt);
prim! {BigInt; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize; {Add add AddAssign add_assign add_; Sub sub SubAssign sub_assign sub_;
Mul mul MulAssign mul_assign mul_; Div div DivAssign div_assign div_; Rem rem RemAssign rem_assign rem_;}}
prim! {BigUint; u8 u16 u32 u64 u128 usize; {Add add AddAssign add_assign add_; Sub sub SubAssign sub_assign sub_;
Mul mul MulAssign mul_assign mul_; Div div DivAssign div_assign div_; Rem rem RemAssign rem_assign rem_;}}
fn of128(x: u128) -> Mag {
    let mut m: Mag = (0..4).map(|i| (x >> (32 * i)) as u32).collect();
    trim(&mut m);
    m
}
macro_rules! from {
    (u: $($p:ty)*; i: $($q:ty)*) => {
        $(impl From<$p> for BigUint { fn from(x: $p) -> Self { BigUint(of128(x as u128)) } }
        impl From<$p> for BigInt { fn from(x: $p) -> Self { BigInt::new(false, of128(x as u128)) } })*
        $(impl From<$q> for BigInt { fn from(x: $q) -> Self { BigInt::new(x < 0, of128((x as i128).unsigned_abs())) } })*
    };
}
from! {u: u8 u16 u32 u64 u128 usize; i: i8 i16 i32 i64 i128 isize}
impl From<bool> for BigInt {
    fn from(x: bool) -> Self {
        BigInt::from(x as u32)
    }
}
impl From<BigUint> for BigInt {
    fn from(x: BigUint) -> Self {
        BigInt::new(false, x.0)
    }
}
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::new(!self.neg, self.mag)
    }
}
impl Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        -self.clone()
    }
}
impl Num for BigUint {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
        mparse(s, radix).map(BigUint).ok_or(ParseBigIntError)
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
        let (neg, t) = s.strip_prefix('-').map_or((false, s), |t| (true, t));
        mparse(t, radix).map(|m| BigInt::new(neg, m)).ok_or(ParseBigIntError)
    }
}
impl Signed for BigInt {
    fn abs(&self) -> Self {
        BigInt::new(false, self.mag.clone())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self <= o {
            BigInt::ZERO
        } else {
            self - o
        }
    }
    fn signum(&self) -> Self {
        match self.sign() {
            Sign::Minus => BigInt::from(-1),
            Sign::NoSign => BigInt::ZERO,
            Sign::Plus => BigInt::from(1),
        }
    }
    fn is_positive(&self) -> bool {
        self.sign() == Sign::Plus
    }
    fn is_negative(&self) -> bool {
        self.neg
    }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> {
        self.to_u64()?.try_into().ok()
    }
    fn to_u64(&self) -> Option<u64> {
        self.to_u128()?.try_into().ok()
    }
    fn to_u128(&self) -> Option<u128> {
        (self.0.len() <= 4).then(|| self.0.iter().rev().fold(0, |a, x| a << 32 | *x as u128))
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        let m = BigUint(self.mag.clone()).to_u128()? as i128;
        (if self.neg { -m } else { m }).try_into().ok()
    }
    fn to_u64(&self) -> Option<u64> {
        if self.neg { None } else { BigUint(self.mag.clone()).to_u64() }
    }
    fn to_u128(&self) -> Option<u128> {
        if self.neg { None } else { BigUint(self.mag.clone()).to_u128() }
    }
}
