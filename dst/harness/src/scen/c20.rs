//! The circuit library: every gadget accepts the specified function of its inputs and nothing else,
//! whatever the prover answers where the gadget asks for a hint.
use super::circ::F;
use super::prog::attempt;
use super::*;
use crate::bad;
use arith::Field;
use expander_compiler::field::Field as CField;
use ark_bls12_381::{Fq, Fq12, Fq2, Fq6};
use ark_ff::Field as _;
use circuit_std_rs::gnark::element::Element;
use circuit_std_rs::gnark::emparam::{Bls12381Fp, Bls12381Fr, FieldParams};
use circuit_std_rs::gnark::emulated::field_bls12381::{e12::*, e2::*, e6::*};
use circuit_std_rs::gnark::emulated::sw_bls12381::{g1::*, g2::*, pairing::Pairing};
use circuit_std_rs::gnark::field::GField;
use circuit_std_rs::logup::*;
use circuit_std_rs::sha256::m31_utils as mu;
use circuit_std_rs::{matmul::*, poseidon::poseidon_m31::*, sha256, u120, u2048::*, utils::register_hint, StdCircuit};
use expander_compiler::circuit::config::*;
use expander_compiler::frontend::{extra::debug_eval, internal::DumpLoadTwoVariables, *};
use expander_compiler::hints::registry::{hint_key_to_id, HintCaller, HintRegistry};
use num_bigint::{BigInt, BigUint};
use simrt::{choose, choose_usize, flip, range};

const P: &str = "C20";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 80_000,
        thorough: 3_000_000,
        scens: vec![
            scen("sha256", 6, quiet, sha),
            scen("sha256 bits", 2, quiet, sha_bits),
            scen("poseidon", 3, quiet, poseidon),
            scen("integers", 6, quiet, integers),
            scen("logup", 6, quiet, logup),
            scen("logup table", 5, quiet, single_key),
            scen("range proof", 8, quiet, range_proof),
            scen("matrix product", 6, quiet, matrix),
            scen("2048-bit integers", 4, quiet, big),
            scen("foreign field", 8, quiet, foreign),
            scen("forged product", 1, quiet, forged),
            scen("tower", 4, quiet, tower),
            scen("curve", 3, quiet, curve),
            scen("hash to field", 1, quiet, hash_field),
        ],
        rule: "one run = one gadget on seeded inputs, played by a simulated prover that answers the gadget's hints and \
               claims its outputs, and a simulated verifier that draws the random values. An honest prover with the \
               right outputs must be accepted; one whose inputs or outputs are wrong, or who lies in a hint to get \
               wrong outputs through, must be refused (gadgets that draw random values get three draws to refuse). \
               Non-trivial = the gadget was evaluated and judged against the reference.",
        real: "circuit-std-rs (all gadgets and hint functions named by the scenarios), expander_compiler::frontend (the evaluating builder, declare_circuit)",
        stub: "field arithmetic, BLS12-381 tower and big integers (plain models), getrandom; the hint answers are the injected faults",
        parallel: true,
    }
}

// ---------------------------------------------------------------- running a gadget

pub trait Gadget<C: Config>: Clone {
    fn run<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable>;
}
#[derive(Clone)]
struct G<J> {
    x: Vec<Variable>,
    j: J,
}
impl<J> DumpLoadTwoVariables<Variable> for G<J> {
    fn dump_into(&self, v: &mut Vec<Variable>, _: &mut Vec<Variable>) {
        v.extend(&self.x);
    }
    fn load_from(&mut self, v: &mut &[Variable], _: &mut &[Variable]) {
        let n = self.x.len();
        self.x.copy_from_slice(&v[..n]);
        *v = &v[n..];
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.x.len(), 0)
    }
}
impl<C: Config, J: Gadget<C>> Define<C> for G<J> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let o = self.j.run(b, &self.x);
        b.set_outputs(o);
    }
}
struct A<T>(Vec<T>);
impl<T: Clone> DumpLoadTwoVariables<T> for A<T> {
    fn dump_into(&self, v: &mut Vec<T>, _: &mut Vec<T>) {
        v.extend(self.0.iter().cloned());
    }
    fn load_from(&mut self, _: &mut &[T], _: &mut &[T]) {
        unreachable!()
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.0.len(), 0)
    }
}

/// What the prover does with the hints it is asked.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Lie {
    No,
    /// Changes some answers at random: permille per hint call.
    Some(u64),
    /// Answers products of the foreign field so that they hold modulo the native one only.
    Product,
    /// Answers zeros where the final exponentiation is asked for.
    Zero,
}
struct Prover<T: CField> {
    reg: HintRegistry<T>,
    lie: Lie,
}
impl<T: CField> HintCaller<T> for Prover<T> {
    fn call(&self, id: usize, args: &[T], n: usize) -> Result<Vec<T>, expander_compiler::utils::error::Error> {
        if self.lie == Lie::Zero && id == hint_key_to_id("myhint.finalexphint") {
            simrt::note_fault("hint.zero");
            return Ok(vec![T::ZERO; n]);
        }
        let mut r = self.reg.call(id, args, n)?;
        match self.lie {
            Lie::Some(p) if !r.is_empty() && flip(p) => {
                simrt::note_fault("hint.lie");
                for _ in 0..range(1, 3) {
                    let (i, j) = (choose_usize(r.len()), choose_usize(r.len()));
                    match choose(6) {
                        0 => r[i] = T::ZERO,
                        1 => r[i] += T::ONE,
                        2 => r[i] -= T::ONE,
                        3 => r.swap(i, j),
                        4 => r[i] = T::from(choose(1 << 31) as u32),
                        _ => {
                            // a carry moved by one place of eight bits
                            if i + 1 < r.len() {
                                r[i] += T::from(256u32);
                                r[i + 1] -= T::ONE;
                            }
                        }
                    }
                }
            }
            Lie::Product if id == hint_key_to_id("myhint.mulhint") => {
                if forge(args, &mut r) {
                    simrt::note_fault("hint.forged");
                }
            }
            _ => {}
        }
        Ok(r)
    }
}
/// A product whose remainder is off by one: the quotient and the carries are chosen so that the
/// identity holds modulo the native field.
fn forge<T: CField>(x: &[T], out: &mut [T]) -> bool {
    let get = |i: usize| x[i].to_u256().as_usize();
    let (bits, nl, na, nq) = (get(0), get(1), get(2), get(3));
    let (p, rest) = x[4..].split_at(nl);
    let (a, b) = rest.split_at(na);
    if bits != 8 || b.len() == 1 || nq < 5 || out.len() < nq + nl {
        return false;
    }
    let base = T::from(256u32);
    let ev = |l: &[T]| l.iter().rev().fold(T::ZERO, |s, v| s * base + *v);
    let Some(pi) = ev(p).inv() else { return false };
    out[nq] = if out[nq] == T::ZERO { T::ONE } else { out[nq] - T::ONE };
    let k = (ev(a) * ev(b) - ev(&out[nq..nq + nl])) * pi;
    let mut k = k.to_u256().as_u64();
    for v in out[..nq].iter_mut() {
        *v = T::from((k & 255) as u32);
        k >>= 8;
    }
    let (q, rest) = out.split_at_mut(nq);
    let (r, c) = rest.split_at_mut(nl);
    let inv = base.inv().unwrap();
    let mut carry = T::ZERO;
    for (i, c) in c.iter_mut().enumerate() {
        for j in 0..=i {
            if j < a.len() && i - j < b.len() {
                carry += a[j] * b[i - j];
            }
            if j < q.len() && i - j < p.len() {
                carry -= q[j] * p[i - j];
            }
        }
        if i < r.len() {
            carry -= r[i];
        }
        carry *= inv;
        *c = carry;
    }
    true
}
fn registry<T: CField>() -> HintRegistry<T> {
    let mut h = HintRegistry::new();
    h.register("myhint.querycounthint", query_count_hint);
    h.register("myhint.querycountbykeyhint", query_count_by_key_hint);
    h.register("myhint.rangeproofhint", rangeproof_hint);
    h
}
fn registry_m31() -> HintRegistry<M31> {
    let mut h = HintRegistry::new();
    register_hint(&mut h);
    h
}
/// The outputs, or why the gadget refused.
fn eval<C: Config, J: Gadget<C>>(j: &J, x: &[F<C>], reg: HintRegistry<F<C>>, lie: Lie) -> Result<Vec<F<C>>, String> {
    crate::alloc::reset_budget();
    let g = G { x: vec![Variable::default(); x.len()], j: j.clone() };
    attempt(|| debug_eval::<C, _, _, _>(&g, &A(x.to_vec()), Prover { reg, lie }))
}
/// Does the gadget, which draws random values, accept all of three draws?
fn accepts<C: Config, J: Gadget<C>>(j: &J, x: &[F<C>], reg: fn() -> HintRegistry<F<C>>, lie: Lie) -> bool {
    (0..3).all(|_| match eval::<C, J>(j, x, reg(), lie) {
        Ok(_) => true,
        Err(e) => {
            simrt::log(|| format!("refused: {e}"));
            false
        }
    })
}
/// An honest prover must pass on `x`; `what` names the gadget.
fn complete<C: Config, J: Gadget<C>>(what: &str, j: &J, x: &[F<C>], reg: fn() -> HintRegistry<F<C>>) {
    oracle();
    if let Err(e) = eval::<C, J>(j, x, reg(), Lie::No) {
        bad!(P, "{what} refuses correct values: {e}, inputs {x:?}");
    }
}
fn sound<C: Config, J: Gadget<C>>(what: &str, why: &str, j: &J, x: &[F<C>], reg: fn() -> HintRegistry<F<C>>, lie: Lie) {
    oracle();
    if accepts::<C, J>(j, x, reg, lie) {
        bad!(P, "{what} accepts {why}: lie {lie:?}, inputs {x:?}");
    }
}
fn lie() -> Lie {
    match choose(3) {
        0 => Lie::No,
        1 => Lie::Some(1000),
        _ => Lie::Some(50),
    }
}
fn nums<T: Field>(x: impl IntoIterator<Item = u32>) -> Vec<T> {
    x.into_iter().map(T::from).collect()
}
/// Bytes with runs, extremes and plain noise.
fn bytes(n: usize) -> Vec<u8> {
    let k = choose(5);
    (0..n)
        .map(|i| match k {
            0 => 0,
            1 => 255,
            2 => [0, 255, 128, 1][choose_usize(4)],
            3 => (i as u8).wrapping_mul(37),
            _ => choose(256) as u8,
        })
        .collect()
}

// ---------------------------------------------------------------- SHA-256

const K: [u32; 64] = k_table();
/// Fractional bits of the cube roots of the first primes, by integer search.
const fn k_table() -> [u32; 64] {
    let mut r = [0u32; 64];
    let (mut i, mut p) = (0, 2u128);
    while i < 64 {
        let mut d = 2;
        let mut prime = true;
        while d * d <= p {
            if p % d == 0 {
                prime = false;
            }
            d += 1;
        }
        if prime {
            // largest x with x^3 <= p * 2^96
            let (mut lo, mut hi) = (0u128, 1u128 << 36);
            while lo + 1 < hi {
                let m = (lo + hi) / 2;
                // m < 2^36, so m^3 < 2^108
                if m * m * m <= p << 96 {
                    lo = m;
                } else {
                    hi = m;
                }
            }
            r[i] = lo as u32;
            i += 1;
        }
        p += 1;
    }
    r
}
const H0: [u32; 8] =
    [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
fn compress(h: &mut [u32; 8], block: &[u8]) {
    let mut w: Vec<u32> = block.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
    for i in 16..64 {
        let (a, b) = (w[i - 15], w[i - 2]);
        let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
        let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
        w.push(s0.wrapping_add(s1).wrapping_add(w[i - 16]).wrapping_add(w[i - 7]));
    }
    let mut v = *h;
    for i in 0..64 {
        let [a, b, c, d, e, f, g, hh] = v;
        let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let t1 = hh.wrapping_add(s1).wrapping_add((e & f) ^ (!e & g)).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let t2 = s0.wrapping_add((a & b) ^ (a & c) ^ (b & c));
        v = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}
/// Of a message given in bits, first bit first.
fn sha_ref_bits(m: &[bool]) -> [u8; 32] {
    let mut m: Vec<bool> = m.to_vec();
    let n = m.len() as u64;
    m.push(true);
    while m.len() % 512 != 448 {
        m.push(false);
    }
    m.extend((0..64).rev().map(|i| n >> i & 1 == 1));
    let mut h = H0;
    let b: Vec<u8> = m.chunks(8).map(|c| c.iter().fold(0, |a, x| a << 1 | *x as u8)).collect();
    for c in b.chunks(64) {
        compress(&mut h, c);
    }
    let mut r = [0; 32];
    for (i, x) in h.iter().enumerate() {
        r[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    r
}
fn bits_of(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).rev().map(move |i| x >> i & 1 == 1)).collect()
}
fn sha_ref(m: &[u8]) -> [u8; 32] {
    sha_ref_bits(&bits_of(m))
}

#[derive(Clone)]
enum Sha {
    Var,
    B37,
    B37Bits,
    Batch(usize),
}
impl<C: Config> Gadget<C> for Sha {
    fn run<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        match self {
            Sha::Var => sha256::m31::sha256_var_bytes(b, x),
            Sha::B37 => sha256::m31::sha256_37bytes(b, x),
            Sha::B37Bits => sha256::m31::sha256_37bytes_compress(b, x),
            Sha::Batch(n) => {
                let c: Vec<Vec<Variable>> = x.chunks(x.len() / n).map(|c| c.to_vec()).collect();
                sha256::m31::sha256_37bytes_256batch_compress(b, &c).concat()
            }
        }
    }
}
/// 37 bytes as the bit gadgets take them: words of 32 bits least significant bit first, the last
/// byte most significant bit first.
fn layout37(m: &[u8]) -> Vec<u32> {
    let b = bits_of(m);
    let mut r: Vec<bool> = b[..288].chunks(32).flat_map(|w| w.iter().rev().copied().collect::<Vec<_>>()).collect();
    r.extend(&b[288..]);
    r.into_iter().map(|x| x as u32).collect()
}
fn sha() {
    type C = M31Config;
    let (j, x, want): (Sha, Vec<M31>, Vec<u8>) = match choose(6) {
        0 | 1 => {
            let n = if flip(500) { [1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128][choose_usize(11)] } else { range(1, 150) };
            let m = bytes(n);
            (Sha::Var, nums(m.iter().map(|x| *x as u32)), sha_ref(&m).to_vec())
        }
        2 | 3 => {
            let m = bytes(37);
            (Sha::B37, nums(m.iter().map(|x| *x as u32)), sha_ref(&m).to_vec())
        }
        4 => {
            let m = bytes(37);
            (Sha::B37Bits, nums(layout37(&m)), sha_ref(&m).to_vec())
        }
        _ => {
            // a batch shares its first 32 bytes
            let (n, pre) = (range(1, 3), bytes(32));
            let ms: Vec<Vec<u8>> = (0..n).map(|_| [pre.clone(), bytes(5)].concat()).collect();
            (Sha::Batch(n), nums(ms.iter().flat_map(|m| layout37(m))), ms.iter().flat_map(|m| sha_ref(m)).collect())
        }
    };
    let what = match j {
        Sha::Var => "sha256 of bytes",
        Sha::B37 => "sha256 of 37 bytes",
        Sha::B37Bits => "sha256 of 37 bytes in bits",
        Sha::Batch(_) => "sha256 of a batch",
    };
    oracle();
    match eval::<C, _>(&j, &x, registry_m31(), Lie::No) {
        Ok(o) if o == nums::<M31>(want.iter().map(|x| *x as u32)) => {}
        Ok(o) => bad!(P, "{what} computes something else: of {x:?} {o:?}, want {want:?}"),
        Err(e) => bad!(P, "{what} refuses correct values: {e}, inputs {x:?}"),
    }
    if matches!(j, Sha::Var | Sha::B37) && flip(300) {
        // what is no byte has no hash
        let mut x = x;
        let i = choose_usize(x.len());
        x[i] += M31::from([256u32, 1 << 16, (1 << 31) - 1 - 256][choose_usize(3)]);
        if x[i].to_u256().as_u32() > 255 {
            if let Ok(o) = eval::<C, _>(&j, &x, registry_m31(), Lie::No) {
                bad!(P, "{what} accepts a value that is no byte: {x:?} gives {o:?}");
            }
        }
    }
}

#[derive(Clone)]
struct ShaBits(Vec<usize>);
impl Gadget<GF2Config> for ShaBits {
    fn run<B: RootAPI<GF2Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut h = sha256::gf2::SHA256GF2::new();
        let mut x = x;
        for n in &self.0 {
            h.update(&x[..*n]);
            x = &x[*n..];
        }
        h.finalize(b)
    }
}
fn sha_bits() {
    let mut parts: Vec<usize> = (0..range(1, 3))
        .map(|_| if flip(400) { [0, 1, 440, 446, 447, 448, 449, 504, 511, 512, 513, 64, 8][choose_usize(13)] } else { choose_usize(700) })
        .collect();
    while parts.iter().sum::<usize>() > 1100 {
        parts.pop();
    }
    let n: usize = parts.iter().sum();
    let m: Vec<bool> = bits_of(&bytes(n.div_ceil(8)))[..n].to_vec();
    let x: Vec<F<GF2Config>> = nums(m.iter().map(|b| *b as u32));
    let want: Vec<F<GF2Config>> = nums(bits_of(&sha_ref_bits(&m)).into_iter().map(|b| b as u32));
    oracle();
    match eval::<GF2Config, _>(&ShaBits(parts.clone()), &x, HintRegistry::new(), Lie::No) {
        Ok(o) if o == want => {}
        Ok(o) => bad!(P, "sha256 over bits computes something else: parts {parts:?} {m:?}, {} bits", o.len()),
        Err(e) => bad!(P, "sha256 over bits refuses correct values: {e}, parts {parts:?}"),
    }
}

// ---------------------------------------------------------------- Poseidon

#[derive(Clone)]
struct Pos {
    width: usize,
    rate: usize,
    full: usize,
    partial: usize,
    flat: bool,
}
impl Gadget<M31Config> for Pos {
    fn run<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let p = PoseidonM31Params::new(b, self.rate, self.width, self.full, self.partial);
        if self.flat {
            p.hash_to_state_flatten(b, x)
        } else {
            p.hash_to_state(b, x)
        }
    }
}
fn pos_ref(p: &Pos, x: &[u32]) -> Vec<u32> {
    use gkr_hashers::poseidon::r#impls::*;
    use tiny_keccak::{Hasher, Keccak};
    const Q: u64 = (1 << 31) - 1;
    let row: Vec<u32> = match p.width {
        8 => MATRIX_CIRC_MDS_8_SML_ROW.to_vec(),
        12 => MATRIX_CIRC_MDS_12_SML_ROW.to_vec(),
        _ => MATRIX_CIRC_MDS_16_SML_ROW.to_vec(),
    };
    let kec = |d: &[u8]| {
        let mut k = Keccak::v256();
        k.update(d);
        let mut o = [0u8; 32];
        k.finalize(&mut o);
        o
    };
    let mut seed = kec(format!("{POSEIDON_SEED_PREFIX}_Mersenne 31_{}", p.width).as_bytes());
    let mut rc = vec![];
    for _ in 0..p.full + p.partial {
        for _ in 0..p.width {
            seed = kec(&seed);
            rc.push(u32::from_le_bytes(seed[..4].try_into().unwrap()) as u64 % Q);
        }
    }
    let five = |v: u64| {
        let s = v * v % Q;
        s * s % Q * v % Q
    };
    let w = p.width;
    let mut st = vec![0u64; w];
    let mut x = x.to_vec();
    while x.len() % p.rate != 0 {
        x.push(0);
    }
    for c in x.chunks(p.rate) {
        for (i, v) in c.iter().enumerate() {
            st[w - p.rate + i] = (st[w - p.rate + i] + *v as u64) % Q;
        }
        for r in 0..p.full + p.partial {
            let t: Vec<u64> = (0..w).map(|i| (st[i] + rc[r * w + i]) % Q).collect();
            for (i, s) in st.iter_mut().enumerate() {
                *s = (0..w).fold(0, |a, j| (a + t[j] * row[(i + j) % w] as u64) % Q);
            }
            if r >= p.full / 2 && r < p.full / 2 + p.partial {
                st[0] = five(st[0]);
            } else {
                st.iter_mut().for_each(|s| *s = five(*s));
            }
        }
    }
    st.into_iter().map(|v| v as u32).collect()
}
fn poseidon() {
    let width = [8, 12, 16, 16][choose_usize(4)];
    let usual = flip(500);
    let p = Pos {
        width,
        rate: if usual { width / 2 } else { range(1, width - 1) },
        full: if usual { 8 } else { 2 * range(1, 5) },
        partial: if usual { 14 } else { range(0, 15) },
        flat: flip(300),
    };
    let x: Vec<u32> = (0..range(0, 2 * width + 1)).map(|_| [0, 1, (1 << 31) - 2, choose(0x7fff_ffff) as u32][choose_usize(4)]).collect();
    let what = if p.flat { "poseidon in copied states" } else { "poseidon" };
    let want = pos_ref(&p, &x);
    let l = if p.flat { lie() } else { Lie::No };
    oracle();
    match eval::<M31Config, _>(&p, &nums::<M31>(x.iter().copied()), registry_m31(), l) {
        Ok(o) if o == nums::<M31>(want.iter().copied()) => {}
        Ok(o) => bad!(P, "{what} computes something else: of {x:?} {o:?}, want {want:?}, {l:?}"),
        Err(e) if l == Lie::No => bad!(P, "{what} refuses correct values: {e}"),
        Err(_) => {}
    }
}

// ---------------------------------------------------------------- small integers in M31

#[derive(Clone, Debug)]
enum Int {
    DivMod(u64),
    Less(usize),
    BigLess(usize, usize),
    BigZero(usize),
    FromBits,
    Put26,
    Put30,
    Put64,
    AddReduce(usize, usize),
    Add26,
}
impl Gadget<M31Config> for Int {
    fn run<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        match self {
            Int::DivMod(k) => {
                let (q, r) = mu::idiv_mod_bit(b, x[0], *k);
                vec![q, r]
            }
            Int::Less(n) => vec![mu::my_is_less(b, *n, x[0], x[1])],
            Int::BigLess(n, k) => vec![mu::big_less_than(b, *n, *k, &x[..*k], &x[*k..])],
            Int::BigZero(k) => vec![mu::big_is_zero(b, *k, x)],
            Int::FromBits => vec![mu::from_binary(b, x.to_vec())],
            Int::Put26 => {
                let mut o = [b.constant(0); 4];
                mu::m31_26_array_put_uint32(b, &mut o, [x[0], x[1]]);
                o.to_vec()
            }
            Int::Put30 => {
                let mut o = [b.constant(0); 4];
                mu::big_endian_m31_array_put_uint32(b, &mut o, [x[0], x[1]]);
                o.to_vec()
            }
            Int::Put64 => {
                let mut o = [b.constant(0); 8];
                mu::big_endian_put_uint64(b, &mut o, x[0]);
                o.to_vec()
            }
            Int::AddReduce(k, n) => mu::big_array_add_reduce(b, &x[..*k], &x[*k..], *n),
            Int::Add26 => mu::sha_m31_26_add(b, &x[..2], &x[2..], 26).to_vec(),
        }
    }
}
fn upto(n: usize) -> u32 {
    let m = 1u64 << n;
    match choose(4) {
        0 => 0,
        1 => m as u32 - 1,
        2 => choose(3.min(m)) as u32,
        _ => choose(m) as u32,
    }
}
fn integers() {
    let put32 = |v: u32| v.to_be_bytes().iter().map(|b| *b as u32).collect::<Vec<_>>();
    let (j, x, want): (Int, Vec<u32>, Vec<u32>) = match choose(10) {
        0 => {
            let (v, k) = (upto(30), range(0, 30));
            (Int::DivMod(k as u64), vec![v], vec![(v as u64 >> k) as u32, (v as u64 & ((1 << k) - 1)) as u32])
        }
        1 => {
            let n = range(1, 29);
            let a = upto(n);
            let b = if flip(300) { a } else { upto(n) };
            (Int::Less(n), vec![a, b], vec![(a < b) as u32])
        }
        2 => {
            let (n, k) = (range(1, 16), range(2, 6));
            let a: Vec<u32> = (0..k).map(|_| upto(n)).collect();
            let mut b = a.clone();
            for _ in 0..choose(3) {
                b[choose_usize(k)] = upto(n);
            }
            let lt = a.iter().rev().lt(b.iter().rev());
            (Int::BigLess(n, k), [a, b].concat(), vec![lt as u32])
        }
        3 => {
            let k = range(1, 6);
            let a: Vec<u32> = (0..k).map(|_| if flip(700) { 0 } else { upto(31).min((1 << 31) - 2) }).collect();
            let z = a.iter().all(|v| *v == 0);
            (Int::BigZero(k), a, vec![z as u32])
        }
        4 => {
            let a: Vec<u32> = (0..range(1, 30)).map(|_| choose(2) as u32).collect();
            let v = a.iter().rev().fold(0, |s, b| s << 1 | b);
            (Int::FromBits, a, vec![v])
        }
        5 => {
            let v = upto(32);
            (Int::Put26, vec![v & ((1 << 26) - 1), v >> 26], put32(v))
        }
        6 => {
            let v = upto(32);
            (Int::Put30, vec![v & ((1 << 30) - 1), v >> 30], put32(v))
        }
        7 => {
            let v = upto(30);
            (Int::Put64, vec![v], [vec![0; 4], put32(v)].concat())
        }
        8 => {
            let (k, n) = (range(1, 5), range(1, 29));
            let a: Vec<u32> = (0..2 * k).map(|_| upto(n)).collect();
            let mut c = 0;
            let mut r = vec![];
            for i in 0..k {
                let s = a[i] as u64 + a[k + i] as u64 + c;
                r.push((s & ((1 << n) - 1)) as u32);
                c = s >> n;
            }
            (Int::AddReduce(k, n), a, r)
        }
        _ => {
            let (a, b) = (upto(32), upto(32));
            let s = a.wrapping_add(b);
            let cut = |v: u32| [v & ((1 << 26) - 1), v >> 26];
            (Int::Add26, [cut(a), cut(b)].concat(), cut(s).to_vec())
        }
    };
    let what = format!("{j:?}");
    let what = what.split('(').next().unwrap().to_string();
    oracle();
    match eval::<M31Config, _>(&j, &nums::<M31>(x.iter().copied()), registry_m31(), Lie::No) {
        Ok(o) if o == nums::<M31>(want.iter().copied()) => {}
        Ok(o) => bad!(P, "{what} computes something else: {j:?} of {x:?} {o:?}, want {want:?}"),
        Err(e) => bad!(P, "{what} refuses correct values: {j:?} of {x:?} {e}"),
    }
}

// ---------------------------------------------------------------- look-ups

#[derive(Debug)]
struct Look<T> {
    table_keys: Vec<Vec<T>>,
    table_values: Vec<Vec<T>>,
    query_keys: Vec<Vec<T>>,
    query_results: Vec<Vec<T>>,
    query_count: Vec<T>,
}
impl<T: Copy> Look<T> {
    fn flat(&self) -> A<T> {
        let rows = [&self.table_keys, &self.table_values, &self.query_keys, &self.query_results];
        A(rows.into_iter().flatten().flatten().chain(&self.query_count).copied().collect())
    }
}
fn logup() {
    match choose(4) {
        0 => logup_in::<M31Config>(),
        1 => logup_in::<BN254Config>(),
        2 => logup_in::<GoldilocksConfig>(),
        _ => logup_in::<BabyBearConfig>(),
    }
}
fn draw<T: Field>() -> T {
    match choose(4) {
        0 => T::from(choose(4) as u32),
        1 => -T::from(choose(4) as u32),
        _ => T::from(choose(1 << 31) as u32) * T::from(choose(1 << 31) as u32),
    }
}
fn logup_in<C: Config>() {
    let p = LogUpParams { key_len: range(1, 3), value_len: range(1, 3), n_table_rows: range(1, 9), n_queries: range(1, 9) };
    let circuit = <LogUpCircuit as StdCircuit<C>>::new_circuit(&p);
    let mut a = {
        let mut v = vec![];
        <LogUpCircuit as StdCircuit<C>>::new_assignment(&p, rand::thread_rng()).dump_into(&mut v, &mut vec![]);
        let mut v = v.into_iter();
        let mut rows = |n: usize, w: usize| -> Vec<Vec<F<C>>> { (0..n).map(|_| v.by_ref().take(w).collect()).collect() };
        Look {
            table_keys: rows(p.n_table_rows, p.key_len),
            table_values: rows(p.n_table_rows, p.value_len),
            query_keys: rows(p.n_queries, p.key_len),
            query_results: rows(p.n_queries, p.value_len),
            query_count: rows(1, p.n_table_rows).remove(0),
        }
    };
    let what = "logup";
    if flip(500) {
        // rows of small numbers, some of them equal
        for i in 0..p.n_table_rows {
            a.table_keys[i] = (0..p.key_len).map(|_| draw()).collect();
            a.table_values[i] = (0..p.value_len).map(|_| draw()).collect();
        }
        a.query_count = vec![F::<C>::ZERO; p.n_table_rows];
        for i in 0..p.n_queries {
            let q = choose_usize(p.n_table_rows);
            a.query_count[q] += F::<C>::ONE;
            a.query_keys[i] = a.table_keys[q].clone();
            a.query_results[i] = a.table_values[q].clone();
        }
    }
    let run = |a: &Look<F<C>>| attempt(|| debug_eval::<C, _, _, _>(&circuit, &a.flat(), EmptyHintCaller::new()));
    oracle();
    if let Err(e) = run(&a) {
        bad!(P, "{what} refuses correct values: {p:?} {e}");
    }
    // the multiset of queries, with the counts, is no longer that of the table
    let row = |k: &Vec<F<C>>, v: &Vec<F<C>>| [k.clone(), v.clone()].concat();
    for _ in 0..range(1, 3) {
        match choose(4) {
            0 => {
                let (i, j) = (choose_usize(p.n_queries), choose_usize(p.key_len));
                a.query_keys[i][j] += F::<C>::from(range(1, 3) as u32);
            }
            1 => {
                let (i, j) = (choose_usize(p.n_queries), choose_usize(p.value_len));
                a.query_results[i][j] = draw();
            }
            2 => {
                let i = choose_usize(p.n_table_rows);
                a.query_count[i] += draw::<F<C>>();
            }
            _ => {
                let (i, j) = (choose_usize(p.n_queries), choose_usize(p.n_queries));
                let t = a.query_results[i].clone();
                a.query_results[i] = a.query_results[j].clone();
                a.query_results[j] = t;
            }
        }
    }
    let mut sum: Vec<(Vec<F<C>>, F<C>)> = vec![];
    let mut put = |r: Vec<F<C>>, n: F<C>| match sum.iter_mut().find(|e| e.0 == r) {
        Some(e) => e.1 += n,
        None => sum.push((r, n)),
    };
    for i in 0..p.n_table_rows {
        put(row(&a.table_keys[i], &a.table_values[i]), a.query_count[i]);
    }
    for i in 0..p.n_queries {
        put(row(&a.query_keys[i], &a.query_results[i]), -F::<C>::ONE);
    }
    let right = sum.iter().all(|e| e.1 == F::<C>::ZERO);
    let got = (0..3).all(|_| run(&a).is_ok());
    if got && !right {
        bad!(P, "{what} accepts a query that is not in the table: {p:?} {a:?}");
    }
    if !got && right {
        bad!(P, "{what} refuses correct values: {p:?} {a:?}");
    }
}

#[derive(Clone)]
struct Single {
    rows: usize,
    vals: usize,
    by_parts: bool,
    count: bool,
}
impl<C: Config> Gadget<C> for Single {
    fn run<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let w = 1 + self.vals;
        let mut t = LogUpSingleKeyTable::new(8);
        let (rows, x) = x.split_at(self.rows * w);
        if self.by_parts {
            rows.chunks(w).for_each(|r| t.add_table_row(r[0], r[1..].to_vec()));
        } else {
            t.new_table(rows.chunks(w).map(|r| r[0]).collect(), rows.chunks(w).map(|r| r[1..].to_vec()).collect());
        }
        let (x, counts) = x.split_at(if self.count { x.len() - self.rows } else { x.len() });
        if self.by_parts {
            x.chunks(w).for_each(|r| t.query(r[0], r[1..].to_vec()));
        } else {
            t.batch_query(x.chunks(w).map(|r| r[0]).collect(), x.chunks(w).map(|r| r[1..].to_vec()).collect());
        }
        if self.count {
            t.final_check_with_query_count(b, counts);
        } else {
            t.final_check(b);
        }
        vec![]
    }
}
fn single_key() {
    match choose(4) {
        0 => single_in::<M31Config>(),
        1 => single_in::<BN254Config>(),
        2 => single_in::<GoldilocksConfig>(),
        _ => single_in::<BabyBearConfig>(),
    }
}
fn single_in<C: Config>() {
    let (rows, vals, nq) = (range(1, 8), range(0, 3), range(1, 8));
    let j = Single { rows, vals, by_parts: flip(500), count: flip(300) };
    let mut keys: Vec<u32> = vec![];
    while keys.len() < rows {
        let k = if flip(500) { choose(rows as u64 + 3) as u32 } else { choose(0x7000_0000) as u32 };
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    let mut x: Vec<F<C>> = vec![];
    for k in &keys {
        x.push(F::<C>::from(*k));
        x.extend((0..vals).map(|_| draw::<F<C>>()));
    }
    let w = 1 + vals;
    let mut n = vec![0u32; rows];
    for _ in 0..nq {
        let i = choose_usize(rows);
        n[i] += 1;
        let r = x[i * w..(i + 1) * w].to_vec();
        x.extend(r);
    }
    if j.count {
        x.extend(nums::<F<C>>(n));
    }
    let what = "a table of single keys";
    complete::<C, _>(what, &j, &x, registry);
    // one query that is no row
    let mut y = x.clone();
    let at = rows * w + choose_usize(nq) * w;
    let c = choose_usize(w);
    y[at + c] = if c == 0 && flip(500) { F::<C>::from(keys[choose_usize(rows)]) } else { y[at + c] + F::<C>::from(range(1, 5) as u32) };
    if !(0..rows).any(|i| y[i * w..(i + 1) * w] == y[at..at + w]) {
        sound::<C, _>(what, "a query that is no row", &j, &y, registry, lie());
    }
}

#[derive(Clone, Debug)]
struct Ranges {
    bits: usize,
    /// bits of each value, and whether the one-chunk entry is asked
    n: Vec<(usize, bool)>,
}
impl<C: Config> Gadget<C> for Ranges {
    fn run<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut t = LogUpRangeProofTable::new(self.bits);
        t.initial(b);
        for (v, (n, one)) in x.iter().zip(&self.n) {
            if *one {
                t.rangeproof_onechunk(b, *v, *n);
            } else {
                t.rangeproof(b, *v, *n);
            }
        }
        t.final_check(b);
        vec![]
    }
}
fn range_proof() {
    match choose(4) {
        0 => range_in::<M31Config>(27),
        1 => range_in::<BN254Config>(120),
        2 => range_in::<GoldilocksConfig>(59),
        _ => range_in::<BabyBearConfig>(27),
    }
}
fn pow2<T: Field>(n: usize) -> T {
    (0..n).fold(T::ONE, |v, _| v + v)
}
fn range_in<C: Config>(top: usize) {
    let bits = range(1, 5);
    let nv = range(1, 4);
    let j = Ranges {
        bits,
        n: (0..nv)
            .map(|_| {
                let n = if flip(300) { bits } else if flip(300) { range(1, bits) } else { range(1, top - bits) };
                (n, n <= bits && flip(500))
            })
            .collect(),
    };
    let below = |n: usize| -> F<C> {
        match choose(4) {
            0 => F::<C>::ZERO,
            1 => pow2::<F<C>>(n) - F::<C>::ONE,
            _ => (0..n).fold(F::<C>::ZERO, |v, _| v + v + F::<C>::from(choose(2) as u32)),
        }
    };
    let x: Vec<F<C>> = j.n.iter().map(|(n, _)| below(*n)).collect();
    let what = "a range proof";
    simrt::log(|| format!("{j:?} {x:?}"));
    complete::<C, _>(what, &j, &x, registry);
    let mut y = x;
    let i = choose_usize(nv);
    let n = j.n[i].0;
    let (v, why): (F<C>, _) = match choose(4) {
        0 => (pow2::<F<C>>(n), "the first value past its range"),
        1 => (pow2::<F<C>>(n) + below(n), "a value past its range"),
        2 => (-F::<C>::ONE - below(n.min(4)), "a negative value"),
        _ => (draw::<F<C>>() * pow2::<F<C>>(n) + below(n), "a value far out of range"),
    };
    let max = pow2::<F<C>>(n).to_u256();
    if v.to_u256() < max {
        return;
    }
    y[i] = v;
    sound::<C, _>(what, why, &j, &y, registry, lie());
}

// ---------------------------------------------------------------- matrices

fn matrix() {
    match choose(4) {
        0 => matrix_in::<M31Config>(),
        1 => matrix_in::<BN254Config>(),
        2 => matrix_in::<GoldilocksConfig>(),
        _ => matrix_in::<BabyBearConfig>(),
    }
}
fn matrix_in<C: Config>() {
    let (m, k, n) = (range(1, 5), range(1, 5), range(1, 5));
    let p = MatMulParams { m1: m, n1: k, m2: k, n2: n };
    let circuit = <MatMulCircuit as StdCircuit<C>>::new_circuit(&p);
    let mut v = vec![];
    <MatMulCircuit as StdCircuit<C>>::new_assignment(&p, rand::thread_rng()).dump_into(&mut v, &mut vec![]);
    let mut a = v;
    let (second, result) = (m * k, m * k + k * n);
    if flip(600) {
        a[..result].iter_mut().for_each(|v| *v = draw());
        for i in 0..m {
            for l in 0..n {
                a[result + i * n + l] = (0..k).fold(F::<C>::ZERO, |s, t| s + a[i * k + t] * a[second + t * n + l]);
            }
        }
    }
    let run = |a: &Vec<F<C>>| attempt(|| debug_eval::<C, _, _, _>(&circuit, &A(a.clone()), EmptyHintCaller::new()));
    oracle();
    if let Err(e) = run(&a) {
        bad!(P, "a matrix product refuses correct values: {p:?} {e} {a:?}");
    }
    for _ in 0..range(1, 2) {
        let (i, l) = (choose_usize(m), choose_usize(n));
        a[result + i * n + l] += F::<C>::from(range(1, 3) as u32);
    }
    if (0..3).all(|_| run(&a).is_ok()) {
        bad!(P, "a matrix product accepts a wrong entry: {p:?} {a:?}");
    }
}

// ---------------------------------------------------------------- 2048-bit integers

type Bn = F<BN254Config>;
#[derive(Clone, Debug)]
enum Big {
    Acc,
    Add,
    Mul,
    Less,
    GreaterEq,
    Equal,
    RawGreaterEq,
    Product,
}
fn u2048(x: &[Variable]) -> U2048Variable {
    U2048Variable::from_raw(x[..N_LIMBS].try_into().unwrap())
}
impl Gadget<BN254Config> for Big {
    fn run<B: RootAPI<BN254Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let two = b.constant(u120::BN_TWO_TO_120);
        let at = |i: usize| u2048(&x[i * N_LIMBS..]);
        match self {
            Big::Acc => {
                let (r, c) = u120::accumulate_u120(x, &two, b);
                vec![r, c]
            }
            Big::Add => {
                U2048Variable::assert_add(&at(0), &at(1), &at(2), &x[4 * N_LIMBS], &at(3), &two, b);
                vec![]
            }
            Big::Mul => {
                U2048Variable::assert_mul(&at(0), &at(1), &at(2), &at(3), &at(4), &two, b);
                vec![]
            }
            Big::Less => vec![at(0).assert_is_less_than(&at(1), b)],
            Big::GreaterEq => vec![at(0).assert_is_greater_eq(&at(1), b)],
            Big::Equal => vec![at(0).assert_is_equal(&at(1), b)],
            Big::RawGreaterEq => vec![at(0).unconstrained_greater_eq(&at(1), b)],
            Big::Product => U2048Variable::mul_without_mod_reduction(&at(0), &at(1), &two, b),
        }
    }
}
fn noise(bits: usize) -> BigUint {
    let b = bytes(bits.div_ceil(8));
    BigUint::from_bytes_le(&b) % (BigUint::from(1u32) << bits)
}
fn bn(v: &BigUint) -> Bn {
    let mut d = v.to_u64_digits();
    d.resize(4, 0);
    Bn::from_raw([d[0], d[1], d[2], d[3]])
}
fn limbs(v: &BigUint, n: usize) -> Vec<Bn> {
    let mut v = v.clone();
    let m = BigUint::from(1u32) << 120usize;
    (0..n)
        .map(|_| {
            let r = bn(&(&v % &m));
            v = &v / &m;
            r
        })
        .collect()
}
fn wide() -> BigUint {
    let n = if flip(400) { 2048 } else { [1, 8, 119, 120, 121, 240, 480, 600, 2000, 2040][choose_usize(10)] };
    noise(n)
}
fn big() {
    let one = BigUint::from(1u32);
    let hon = |j: Big, x: Vec<Bn>| eval::<BN254Config, _>(&j, &x, HintRegistry::new(), Lie::No);
    oracle();
    match choose(8) {
        0 => {
            let v: Vec<BigUint> = (0..range(2, 9)).map(|_| noise(120)).collect();
            let s = v.iter().fold(BigUint::from(0u32), |a, b| a + b.clone());
            let m = BigUint::from(1u32) << 120usize;
            let want = vec![bn(&(&s % &m)), bn(&(&s / &m))];
            let got = hon(Big::Acc, v.iter().map(bn).collect());
            if got.as_ref() != Ok(&want) {
                bad!(P, "accumulate_u120 computes something else: of {v:?} {got:?}, want {want:?}");
            }
        }
        k @ (1 | 2) => {
            let m = wide() + one.clone();
            let (x, y) = if k == 1 { (wide() % &m, wide() % &m) } else { (wide(), wide() % &m) };
            let s = if k == 1 { x.clone() + y.clone() } else { &x * &y };
            let (r, c) = (&s % &m, &s / &m);
            if c.bits() > 2160 {
                return;
            }
            let what = if k == 1 { "2048-bit addition" } else { "2048-bit multiplication" };
            let l = |v: &BigUint| limbs(v, N_LIMBS);
            let pack = |r: &[Bn], c: &[Bn]| {
                if k == 1 {
                    (Big::Add, [l(&x), l(&y), r.to_vec(), l(&m), c[..1].to_vec()].concat())
                } else {
                    (Big::Mul, [l(&x), l(&y), r.to_vec(), c.to_vec(), l(&m)].concat())
                }
            };
            let (mut rl, mut cl) = (l(&r), l(&c));
            let (j, v) = pack(&rl, &cl);
            if let Err(e) = hon(j, v) {
                bad!(P, "{what} refuses correct values: {x} {y} mod {m}: {e}");
            }
            if k == 1 && c == one {
                // the sum itself, not brought below the modulus
                let (j, v) = pack(&l(&s), &l(&BigUint::from(0u32)));
                if hon(j, v).is_ok() {
                    bad!(P, "{what} accepts a result above the modulus: {x} {y} mod {m}");
                }
            }
            let i = choose_usize(N_LIMBS);
            let d = if flip(500) { Bn::ONE } else { pow2::<Bn>(choose_usize(119)) };
            let v = if flip(700) { &mut rl[i] } else { &mut cl[if k == 1 { 0 } else { i }] };
            *v = if v.to_u256().as_u128() >= 1 << 119 { *v - d } else { *v + d };
            let (j, v) = pack(&rl, &cl);
            if hon(j, v).is_ok() {
                bad!(P, "{what} accepts a wrong result: {x} {y} mod {m}, limb {i}");
            }
        }
        3 => {
            let (x, y) = (noise(2160), wide());
            let want = limbs(&(&x * &y), 2 * N_LIMBS);
            let got = hon(Big::Product, [limbs(&x, N_LIMBS), limbs(&y, N_LIMBS)].concat());
            if got.as_ref() != Ok(&want) {
                bad!(P, "2048-bit product computes something else: {x} {y} {got:?}");
            }
        }
        k => {
            let x = wide();
            let y = match choose(4) {
                0 => x.clone(),
                1 => x.clone() + (one.clone() << (120 * choose_usize(17))),
                2 if x > one => x.clone() - one,
                _ => wide(),
            };
            let (j, want) = match k {
                4 => (Big::Less, x < y),
                5 => (Big::GreaterEq, x >= y),
                6 => (Big::Equal, x == y),
                _ => (Big::RawGreaterEq, x >= y),
            };
            let got = hon(j.clone(), [limbs(&x, N_LIMBS), limbs(&y, N_LIMBS)].concat());
            if got != Ok(vec![Bn::from(want as u32)]) {
                bad!(P, "2048-bit {j:?} computes something else: {x} {y} {got:?}");
            }
        }
    }
}

// ---------------------------------------------------------------- a foreign prime field

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Sub,
    Mul,
    Neg,
    Inv,
    Div,
    Const(u32),
    Select,
    Copy,
    Reduce,
}
#[derive(Clone, Debug)]
struct Foreign<T> {
    ops: Vec<(Op, usize, usize)>,
    n: usize,
    bit: u32,
    zero: bool,
    _t: std::marker::PhantomData<T>,
}
fn elem<T: FieldParams>(x: &[Variable]) -> Element<T> {
    Element::new(x.to_vec(), 0, false, false, false, Variable::default())
}
impl<T: FieldParams + Clone + Default> Gadget<M31Config> for Foreign<T> {
    fn run<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let l = T::nb_limbs() as usize;
        let mut f = GField::new(b, T::default());
        let mut v: Vec<Element<T>> = x.chunks(l).take(self.n).map(elem).collect();
        for (op, i, j) in &self.ops {
            let (p, q) = (v[*i].clone(), v[*j].clone());
            let r = match op {
                Op::Add => f.add(b, &p, &q),
                Op::Sub => f.sub(b, &p, &q),
                Op::Mul => f.mul(b, &p, &q),
                Op::Neg => f.neg(b, &p),
                Op::Inv => f.inverse(b, &p),
                Op::Div => f.div(b, &p, &q),
                Op::Const(k) => f.mul_const(b, &p, BigInt::from(*k)),
                Op::Select => {
                    let s = b.constant(self.bit);
                    f.select(b, s, &p, &q)
                }
                Op::Copy => f.copy(b, &p),
                Op::Reduce => f.reduce(b, &p, true),
            };
            v.push(r);
        }
        let want = elem(&x[self.n * l..]);
        f.assert_is_equal(b, v.last().unwrap(), &want);
        let z = if self.zero {
            let c = f.reduce(b, v.last().unwrap(), true);
            vec![f.is_zero(b, &c)]
        } else {
            vec![]
        };
        f.check_mul(b);
        f.table.final_check(b);
        z
    }
}
fn limbs8(v: &BigUint, n: usize) -> Vec<M31> {
    let mut b = v.to_bytes_le();
    b.resize(n, 0);
    nums(b.into_iter().map(|x| x as u32))
}
fn modulus<T: FieldParams>() -> BigUint {
    T::modulus().to_biguint().unwrap()
}
fn residue(p: &BigUint) -> BigUint {
    match choose(6) {
        0 => BigUint::from(choose(3) as u32),
        1 => p.clone() - BigUint::from(range(1, 3) as u32),
        2 => noise(range(1, 300)) % p,
        _ => noise(400) % p,
    }
}
fn program<T: FieldParams>(max: usize) -> (Foreign<T>, Vec<BigUint>, BigUint) {
    let p = modulus::<T>();
    let n = range(1, 3);
    let ins: Vec<BigUint> = (0..n).map(|_| residue(&p)).collect();
    let mut v = ins.clone();
    let mut ops = vec![];
    let bit = choose(2) as u32;
    let zero = BigUint::from(0u32);
    let inv = |a: &BigUint| a.modpow(&(p.clone() - BigUint::from(2u32)), &p);
    for _ in 0..range(1, max) {
        let (i, j) = (choose_usize(v.len()), if flip(400) { v.len() - 1 } else { choose_usize(v.len()) });
        let op = match choose(12) {
            0 | 1 => Op::Add,
            2 | 3 => Op::Sub,
            4 | 5 => Op::Mul,
            6 => Op::Neg,
            7 if v[i] != zero => Op::Inv,
            8 if v[j] != zero => Op::Div,
            9 => Op::Const([0, 1, 2, 3, 12, 27][choose_usize(6)]),
            10 => Op::Select,
            _ => [Op::Copy, Op::Reduce][choose_usize(2)],
        };
        let (a, b) = (v[i].clone(), v[j].clone());
        let r = match op {
            Op::Add => (a + b) % &p,
            Op::Sub => (a + p.clone() - b) % &p,
            Op::Mul => (&a * &b) % &p,
            Op::Neg => (p.clone() - a) % &p,
            Op::Inv => inv(&a),
            Op::Div => (&a * &inv(&b)) % &p,
            Op::Const(k) => (&a * &BigUint::from(k)) % &p,
            Op::Select => if bit == 1 { a } else { b },
            Op::Copy | Op::Reduce => a,
        };
        ops.push((op, i, j));
        v.push(r);
    }
    let want = v.last().unwrap().clone();
    (Foreign { ops, n, bit, zero: false, _t: std::marker::PhantomData }, ins, want)
}
fn foreign() {
    if flip(700) {
        foreign_in::<Bls12381Fp>()
    } else {
        foreign_in::<Bls12381Fr>()
    }
}
fn foreign_in<T: FieldParams + Clone + Default>() {
    let l = T::nb_limbs() as usize;
    let (mut j, ins, want) = program::<T>(7);
    let pack = |w: &BigUint| -> Vec<M31> { ins.iter().chain([w]).flat_map(|v| limbs8(v, l)).collect() };
    let what = "foreign field arithmetic";
    simrt::log(|| format!("{:?} {ins:?} {want:?}", j.ops));
    complete::<M31Config, _>(what, &j, &pack(&want), registry_m31);
    let p = modulus::<T>();
    let wrong = match choose(3) {
        0 => (want.clone() + BigUint::from(1u32)) % &p,
        1 => (want.clone() + (BigUint::from(1u32) << (8 * choose_usize(l)))) % &p,
        _ => residue(&p),
    };
    if wrong != want {
        sound::<M31Config, _>(what, "a wrong result", &j, &pack(&wrong), registry_m31, lie());
    }
    if flip(300) {
        j.zero = true;
        oracle();
        let z = eval::<M31Config, _>(&j, &pack(&want), registry_m31(), Lie::No);
        if z != Ok(vec![M31::from((want == BigUint::from(0u32)) as u32)]) {
            bad!(P, "a foreign field zero test computes something else: {want:?} {z:?}");
        }
    }
}
/// A prover who chooses the quotient and the carries of a product to fit a wrong remainder.
fn forged() {
    type T = Bls12381Fp;
    let p = modulus::<T>();
    let (a, b) = (residue(&p), residue(&p));
    let r = (&a * &b) % &p;
    // the remainder the forging prover will answer
    let low = r.to_bytes_le()[0];
    let w = if low == 0 { r.clone() + BigUint::from(1u32) } else { r.clone() - BigUint::from(1u32) };
    let j = Foreign::<T> { ops: vec![(Op::Mul, 0, 1)], n: 2, bit: 0, zero: false, _t: std::marker::PhantomData };
    let x: Vec<M31> = [&a, &b, &w].into_iter().flat_map(|v| limbs8(v, 48)).collect();
    sound::<M31Config, _>("foreign field product", "a forged remainder", &j, &x, registry_m31, Lie::Product);
}

// ---------------------------------------------------------------- the tower of BLS12-381

fn fq() -> Fq {
    Fq::from(residue(&modulus::<Bls12381Fp>()))
}
fn fq2() -> Fq2 {
    Fq2::new(fq(), if flip(100) { Fq::default() } else { fq() })
}
fn fq6() -> Fq6 {
    Fq6::new(fq2(), fq2(), fq2())
}
fn fq12() -> Fq12 {
    Fq12::new(fq6(), fq6())
}
trait Flat {
    fn flat(&self, o: &mut Vec<M31>);
    fn v(&self) -> Vec<M31> {
        let mut o = vec![];
        self.flat(&mut o);
        o
    }
}
impl Flat for Fq {
    fn flat(&self, o: &mut Vec<M31>) {
        o.extend(limbs8(&self.big(), 48));
    }
}
impl Flat for Fq2 {
    fn flat(&self, o: &mut Vec<M31>) {
        self.c0.flat(o);
        self.c1.flat(o);
    }
}
impl Flat for Fq6 {
    fn flat(&self, o: &mut Vec<M31>) {
        self.c0.flat(o);
        self.c1.flat(o);
        self.c2.flat(o);
    }
}
impl Flat for Fq12 {
    fn flat(&self, o: &mut Vec<M31>) {
        self.c0.flat(o);
        self.c1.flat(o);
    }
}
fn ge2(x: &[Variable]) -> GE2 {
    GE2::from_vars(x[..48].to_vec(), x[48..96].to_vec())
}
fn ge6(x: &[Variable]) -> GE6 {
    GE6 { b0: ge2(x), b1: ge2(&x[96..]), b2: ge2(&x[192..]) }
}
fn ge12(x: &[Variable]) -> GE12 {
    GE12 { c0: ge6(x), c1: ge6(&x[288..]) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum TOp {
    Add,
    Sub,
    Neg,
    Double,
    Mul,
    Square,
    Div,
    Inverse,
    NonResidue,
    Conjugate,
    Frobenius,
    MulByElement,
    Cyclotomic,
    By014,
    Frobenius1,
    Copy,
}
#[derive(Clone, Debug)]
struct Tower(u32, TOp);
impl Gadget<M31Config> for Tower {
    fn run<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        match self.0 {
            2 => {
                let mut e = Ext2::new(b);
                let (p, q, w) = (ge2(x), ge2(&x[96..]), ge2(&x[192..]));
                let r = match self.1 {
                    TOp::Add => e.add(b, &p, &q),
                    TOp::Sub => e.sub(b, &p, &q),
                    TOp::Neg => e.neg(b, &p),
                    TOp::Double => e.double(b, &p),
                    TOp::Mul => e.mul(b, &p, &q),
                    TOp::Square => e.square(b, &p),
                    TOp::Div => e.div(b, &p, &q),
                    TOp::Inverse => e.inverse(b, &p),
                    TOp::NonResidue => e.mul_by_non_residue(b, &p),
                    TOp::Conjugate | TOp::Frobenius => e.conjugate(b, &p),
                    TOp::MulByElement | TOp::By014 => e.mul_by_element(b, &p, &q.a0),
                    TOp::Copy | TOp::Cyclotomic | TOp::Frobenius1 => e.copy(b, &p),
                };
                e.assert_isequal(b, &r, &w);
                e.curve_f.check_mul(b);
                e.curve_f.table.final_check(b);
            }
            6 => {
                let mut e = Ext6::new(b);
                let (p, q, w) = (ge6(x), ge6(&x[288..]), ge6(&x[576..]));
                let r = match self.1 {
                    TOp::Add => e.add(b, &p, &q),
                    TOp::Sub => e.sub(b, &p, &q),
                    TOp::Neg | TOp::Conjugate | TOp::Frobenius => e.neg(b, &p),
                    TOp::Double => e.double(b, &p),
                    TOp::Mul => e.mul(b, &p, &q),
                    TOp::Square => e.square(b, &p),
                    TOp::Div => e.div(b, &p, &q),
                    TOp::Inverse => e.inverse(b, &p),
                    TOp::NonResidue => e.mul_by_non_residue(b, &p),
                    TOp::MulByElement | TOp::By014 => e.mul_by_e2(b, &p, &q.b0),
                    TOp::Copy | TOp::Cyclotomic | TOp::Frobenius1 => e.mul_by_01(b, &p, &q.b0, &q.b1),
                };
                e.assert_isequal(b, &r, &w);
                e.ext2.curve_f.check_mul(b);
                e.ext2.curve_f.table.final_check(b);
            }
            _ => {
                let mut e = Ext12::new(b);
                let (p, q, w) = (ge12(x), ge12(&x[576..]), ge12(&x[1152..]));
                let r = match self.1 {
                    TOp::Add | TOp::Double | TOp::NonResidue => e.add(b, &p, &q),
                    TOp::Sub | TOp::Neg | TOp::MulByElement => e.sub(b, &p, &q),
                    TOp::Mul => e.mul(b, &p, &q),
                    TOp::Square => e.square(b, &p),
                    TOp::Div => e.div(b, &p, &q),
                    TOp::Inverse => e.inverse(b, &p),
                    TOp::Conjugate => e.conjugate(b, &p),
                    TOp::Frobenius => e.frobenius_square(b, &p),
                    TOp::Cyclotomic => e.cyclotomic_square(b, &p),
                    TOp::By014 => e.mul_by_014(b, &p, &q.c0.b0, &q.c0.b1),
                    TOp::Frobenius1 => e.frobenius(b, &p),
                    TOp::Copy => e.copy(b, &p),
                };
                e.assert_isequal(b, &r, &w);
                e.ext6.ext2.curve_f.check_mul(b);
                e.ext6.ext2.curve_f.table.final_check(b);
            }
        }
        vec![]
    }
}
fn tower() {
    let op = [
        TOp::Add,
        TOp::Sub,
        TOp::Neg,
        TOp::Double,
        TOp::Mul,
        TOp::Mul,
        TOp::Square,
        TOp::Div,
        TOp::Inverse,
        TOp::NonResidue,
        TOp::Conjugate,
        TOp::MulByElement,
        TOp::Frobenius,
        TOp::Cyclotomic,
        TOp::By014,
        TOp::Frobenius1,
        TOp::Copy,
    ][choose_usize(17)];
    let k = [2, 2, 6, 12][choose_usize(4)];
    let half = |x: Fq2| Fq2::new(x.c0, -x.c1);
    macro_rules! ring {
        ($p:expr, $q:expr) => {
            match op {
                TOp::Add => $p + $q,
                TOp::Sub => $p - $q,
                TOp::Neg => -$p,
                TOp::Double => $p + $p,
                TOp::Mul => $p * $q,
                TOp::Square => $p * $p,
                TOp::Div => $p / $q,
                TOp::Inverse => $p.inverse().unwrap(),
                _ => unreachable!(),
            }
        };
    }
    use num_traits::Zero;
    let (mut x, want): (Vec<M31>, Vec<M31>) = match k {
        2 => {
            let (p, q) = (fq2(), fq2());
            if p.is_zero() || q.is_zero() {
                return;
            }
            let r = match op {
                TOp::NonResidue => p.nr(),
                TOp::Conjugate | TOp::Frobenius => half(p),
                TOp::MulByElement | TOp::By014 => Fq2::new(p.c0 * q.c0, p.c1 * q.c0),
                TOp::Copy | TOp::Cyclotomic | TOp::Frobenius1 => p,
                _ => ring!(p, q),
            };
            ([p.v(), q.v()].concat(), r.v())
        }
        6 => {
            let (p, q) = (fq6(), fq6());
            if p.is_zero() || q.is_zero() {
                return;
            }
            let r = match op {
                TOp::NonResidue => p.nr(),
                TOp::Conjugate | TOp::Frobenius => -p,
                TOp::MulByElement | TOp::By014 => Fq6::new(p.c0 * q.c0, p.c1 * q.c0, p.c2 * q.c0),
                TOp::Copy | TOp::Cyclotomic | TOp::Frobenius1 => p * Fq6::new(q.c0, q.c1, Fq2::default()),
                _ => ring!(p, q),
            };
            ([p.v(), q.v()].concat(), r.v())
        }
        _ => {
            let (mut p, q) = (fq12(), fq12());
            if p.is_zero() || q.is_zero() {
                return;
            }
            if op == TOp::Cyclotomic {
                let t = Fq12::new(p.c0, -p.c1) / p;
                let e = modulus::<Bls12381Fp>();
                p = t.pow((&e * &e).to_u64_digits()) * t;
            }
            let r = match op {
                TOp::Cyclotomic => p * p,
                TOp::By014 => {
                    use num_traits::One;
                    let z = Fq2::default();
                    p * Fq12::new(Fq6::new(q.c0.c0, q.c0.c1, z), Fq6::new(z, Fq2::one(), z))
                }
                TOp::Frobenius1 => p.pow(modulus::<Bls12381Fp>().to_u64_digits()),
                TOp::Copy => p,
                TOp::Add | TOp::Double | TOp::NonResidue => p + q,
                TOp::Sub | TOp::Neg | TOp::MulByElement => p - q,
                TOp::Conjugate => Fq12::new(p.c0, -p.c1),
                TOp::Frobenius => {
                    let e = modulus::<Bls12381Fp>();
                    p.pow((&e * &e).to_u64_digits())
                }
                _ => ring!(p, q),
            };
            ([p.v(), q.v()].concat(), r.v())
        }
    };
    let n = x.len();
    x.extend(want);
    let (j, what) = (Tower(k, op), format!("Fq{k} {op:?}"));
    complete::<M31Config, _>(&what, &j, &x, registry_m31);
    if flip(if k == 12 { 200 } else { 500 }) {
        let i = n + 48 * choose_usize((x.len() - n) / 48);
        let i = i + choose_usize(47);
        x[i] = M31::from((x[i].to_u256().as_u32() + range(1, 255) as u32) & 255);
        sound::<M31Config, _>(&what, "a wrong result", &j, &x, registry_m31, lie());
    }
}

// ---------------------------------------------------------------- the curves

#[derive(Clone, Copy, Debug)]
enum COp {
    Add,
    Double,
    Triple,
    DoubleAdd,
    DoubleN(usize),
    Phi,
    Compressed,
    Cofactor,
    Seed,
}
#[derive(Clone, Debug)]
struct Curve1(COp);
impl Gadget<M31Config> for Curve1 {
    fn run<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut g = G1::new(b);
        let at = |i: usize| G1Affine::from_vars(x[96 * i..96 * i + 48].to_vec(), x[96 * i + 48..96 * i + 96].to_vec());
        let (p, q, w) = (at(0), at(1), at(2));
        let r = match self.0 {
            COp::Add => g.add(b, &p, &q),
            COp::Double => g.double(b, &p),
            COp::Triple => {
                let d = g.double(b, &p);
                g.add(b, &d, &p)
            }
            COp::DoubleAdd => g.double_and_add(b, &p, &q),
            COp::DoubleN(n) => g.double_n(b, &p, n),
            COp::Phi => g.phi(b, &p),
            COp::Compressed => g.uncompressed(b, &x[96..144]),
            COp::Cofactor => g.clear_cofactor(b, &p),
            COp::Seed => g.scalar_mul_by_seed_square(b, &p),
        };
        g.assert_is_equal(b, &r, &w);
        g.curve_f.check_mul(b);
        g.curve_f.table.final_check(b);
        vec![]
    }
}
#[derive(Clone, Debug)]
struct Curve2(COp);
impl Gadget<M31Config> for Curve2 {
    fn run<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut g = G2::new(b);
        let at = |i: usize| G2AffP::new(ge2(&x[192 * i..]), ge2(&x[192 * i + 96..]));
        let (p, q, w) = (at(0), at(1), at(2));
        let r = match self.0 {
            COp::Add => g.add(b, &p, &q),
            COp::Phi => g.psi(b, &p),
            COp::Compressed => g.uncompressed(b, &x[192..288]),
            COp::Cofactor => g.clear_cofactor(b, &p),
            COp::Seed => g.scalar_mul_by_seed(b, &p),
            COp::Double => g.double(b, &p),
            COp::Triple => g.triple(b, &p),
            COp::DoubleAdd => g.double_and_add(b, &p, &q),
            COp::DoubleN(n) => g.double_n(b, &p, n),
        };
        g.assert_is_equal(b, &r, &w);
        g.ext2.curve_f.check_mul(b);
        g.ext2.curve_f.table.final_check(b);
        vec![]
    }
}
fn chord<T: ark_ff::Field + std::ops::Sub<Output = T> + std::ops::Div<Output = T>>(p: (T, T), q: (T, T)) -> Option<(T, T)> {
    let l = if p.0 == q.0 {
        if p.1 != q.1 || p.1.is_zero() {
            return None;
        }
        let s = p.0 * p.0;
        (s + s + s) / (p.1 + p.1)
    } else {
        (q.1 - p.1) / (q.0 - p.0)
    };
    let x = l * l - p.0 - q.0;
    Some((x, l * (p.0 - x) - p.1))
}
fn point<T: ark_ff::Field + std::ops::Neg<Output = T>>(draw: fn() -> T, b: T) -> (T, T) {
    let mut x = draw();
    loop {
        if let Some(y) = (x * x * x + b).sqrt() {
            if !y.is_zero() {
                return (x, if flip(500) { -y } else { y });
            }
        }
        x = x + T::one();
    }
}
fn curve() {
    use num_traits::Zero;
    if flip(20) {
        return pairing();
    }
    let op = match choose(8) {
        0 | 1 => COp::Add,
        2 => COp::Double,
        3 => COp::Triple,
        4 => COp::DoubleAdd,
        5 => COp::DoubleN(range(1, 3)),
        6 => COp::Phi,
        _ => {
            if flip(30) {
                [COp::Cofactor, COp::Seed][choose_usize(2)]
            } else {
                COp::Compressed
            }
        }
    };
    fn group<T: ark_ff::Field + std::ops::Sub<Output = T> + std::ops::Div<Output = T>>(op: COp, p: (T, T), q: (T, T)) -> Option<(T, T)> {
        Some(match op {
            COp::Double => chord(p, p)?,
            COp::Triple => chord(p, chord(p, p)?)?,
            COp::DoubleAdd if p.0 == q.0 => return None,
            COp::DoubleAdd => chord(p, chord(p, q)?)?,
            COp::DoubleN(n) => {
                let mut r = p;
                for _ in 0..n {
                    r = chord(r, r)?;
                }
                r
            }
            _ => {
                if p.0 == q.0 {
                    return None;
                }
                chord(p, q)?
            }
        })
    }
    let wrong = flip(400);
    macro_rules! judge {
        ($g:expr, $j:expr, $p:expr, $q:expr, $r:expr) => {{
            let mut x: Vec<M31> = [$p, $q, $r.0.v(), $r.1.v()].concat();
            let what = format!("{} {}", $g, format!("{op:?}").split('(').next().unwrap());
            complete::<M31Config, _>(&what, &$j, &x, registry_m31);
            if wrong && !matches!(op, COp::Cofactor | COp::Seed) {
                let n = $r.0.v().len();
                let i = x.len() - 1 - choose_usize(2 * n / 48) * 48 - range(1, 47);
                x[i] = M31::from((x[i].to_u256().as_u32() + range(1, 255) as u32) & 255);
                sound::<M31Config, _>(&what, "a wrong result", &$j, &x, registry_m31, lie());
            }
        }};
    }
    if flip(600) {
        let b = Fq::from(4u32);
        let (p, q) = (point(fq, b), point(fq, b));
        let flat = |p: &(Fq, Fq)| [p.0.v(), p.1.v()].concat();
        match op {
            COp::Phi => {
                // the cube root of one the curve's endomorphism uses
                let w = Fq::from(modulus::<Bls12381Fp>() - BigUint::from(1u32));
                let e = (modulus::<Bls12381Fp>() - BigUint::from(1u32)) / BigUint::from(3u32);
                let mut c = Fq::from(2u32).pow(e.to_u64_digits());
                let _ = w;
                let known = "4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436";
                if c.big() != BigUint::parse_bytes(known.as_bytes(), 10).unwrap() {
                    c = c * c;
                }
                let r = (p.0 * c, p.1);
                judge!("G1", Curve1(op), flat(&p), flat(&q), r)
            }
            COp::Compressed => {
                let half = modulus::<Bls12381Fp>() / BigUint::from(2u32);
                let mut c: Vec<u8> = p.0.big().to_bytes_le();
                c.resize(48, 0);
                c.reverse();
                c[0] |= if p.1.big() > half { 0xa0 } else { 0x80 };
                let mut qq: Vec<M31> = nums(c.into_iter().map(|x| x as u32));
                qq.resize(96, M31::ZERO);
                judge!("G1", Curve1(op), flat(&p), qq, p)
            }
            // a point of order three
            COp::Cofactor | COp::Seed if p.0.is_zero() => {}
            COp::Cofactor => {
                let r = times(&[SEED + 1], p);
                if let Some(r) = r {
                    judge!("G1", Curve1(op), flat(&p), flat(&q), r)
                }
            }
            COp::Seed => {
                let x2 = SEED as u128 * SEED as u128;
                if let Some(r) = times(&[x2 as u64, (x2 >> 64) as u64], p) {
                    judge!("G1", Curve1(op), flat(&p), flat(&q), r)
                }
            }
            _ => {
                if let Some(r) = group(op, p, q) {
                    judge!("G1", Curve1(op), flat(&p), flat(&q), r)
                }
            }
        }
    } else {
        let b = Fq2::new(Fq::from(4u32), Fq::from(4u32));
        let (p, q) = (point(fq2, b), point(fq2, b));
        let flat = |p: &(Fq2, Fq2)| [p.0.v(), p.1.v()].concat();
        let r = match op {
            COp::Phi => Some(psi(p)),
            COp::Compressed => {
                let half = modulus::<Bls12381Fp>() / BigUint::from(2u32);
                let top = if p.1.c1.big() == BigUint::from(0u32) { p.1.c0 } else { p.1.c1 };
                let mut c: Vec<u8> = [p.0.c0, p.0.c1]
                    .iter()
                    .flat_map(|v| {
                        let mut c = v.big().to_bytes_le();
                        c.resize(48, 0);
                        c
                    })
                    .collect();
                c.reverse();
                c[0] |= if top.big() > half { 0xa0 } else { 0x80 };
                let mut qq: Vec<M31> = nums(c.into_iter().map(|x| x as u32));
                qq.resize(192, M31::ZERO);
                judge!("G2", Curve2(op), flat(&p), qq, p);
                return;
            }
            COp::Cofactor | COp::Seed if p.0.is_zero() => return,
            COp::Cofactor => in_g2(p),
            COp::Seed => times(&[SEED], p).map(|r| (r.0, -r.1)),
            _ => group(op, p, q),
        };
        if let Some(r) = r {
            judge!("G2", Curve2(op), flat(&p), flat(&q), r)
        }
    }
}
/// The absolute value of the seed of BLS12-381, which is negative.
const SEED: u64 = 0xd201000000010000;
fn plus<T: ark_ff::Field + std::ops::Sub<Output = T> + std::ops::Div<Output = T>>(a: Option<(T, T)>, b: Option<(T, T)>) -> Option<(T, T)> {
    match (a, b) {
        (Some(a), Some(b)) => chord(a, b),
        (a, b) => a.or(b),
    }
}
/// None is the point at infinity.
fn times<T: ark_ff::Field + std::ops::Sub<Output = T> + std::ops::Div<Output = T>>(k: &[u64], p: (T, T)) -> Option<(T, T)> {
    let (mut r, mut d) = (None, Some(p));
    for w in k {
        for i in 0..64 {
            if w >> i & 1 == 1 {
                r = plus(r, d);
            }
            d = plus(d, d);
        }
    }
    r
}
/// Untwist, Frobenius, twist.
fn psi(p: (Fq2, Fq2)) -> (Fq2, Fq2) {
    use num_traits::One;
    let m = modulus::<Bls12381Fp>() - BigUint::from(1u32);
    let u = Fq2::new(Fq::one(), Fq::one());
    let c = |k: u32| u.pow((&m / BigUint::from(k)).to_u64_digits()).inverse().unwrap();
    let conj = |v: Fq2| Fq2::new(v.c0, -v.c1);
    (conj(p.0) * c(3), conj(p.1) * c(2))
}
/// A multiple that lies in the second group: [x^2-x-1]P + [x-1]psi(P) + psi(psi(2P)).
fn in_g2(p: (Fq2, Fq2)) -> Option<(Fq2, Fq2)> {
    let neg = |p: Option<(Fq2, Fq2)>| p.map(|p| (p.0, -p.1));
    let xp = neg(times(&[SEED], p));
    let xxp = xp.and_then(|q| neg(times(&[SEED], q)));
    let np = neg(Some(p));
    let a = plus(plus(xxp, neg(xp)), np);
    let b = plus(xp, np).map(psi);
    plus(plus(a, b), times(&[2], p).map(|q| psi(psi(q))))
}

// ---------------------------------------------------------------- pairings and subgroups

#[derive(Clone, Copy, Debug)]
enum Pair {
    One,
    InG1,
    InG2,
}
impl Gadget<M31Config> for Pair {
    fn run<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut g = Pairing::new(b);
        let p = |x: &[Variable]| G1Affine::from_vars(x[..48].to_vec(), x[48..96].to_vec());
        let q = |x: &[Variable]| G2AffP::new(ge2(x), ge2(&x[96..]));
        macro_rules! close {
            ($($f:expr),*) => {{
                $($f.check_mul(b);
                $f.table.final_check(b);)*
            }};
        }
        match self {
            Pair::One => {
                g.ext12.assert_final_exponentiation_is_one(b, &ge12(x));
                close!(g.ext12.ext6.ext2.curve_f)
            }
            Pair::InG1 => {
                g.assert_is_on_g1(b, &p(x));
                close!(g.g1.curve_f, g.curve.base_api)
            }
            Pair::InG2 => {
                g.assert_is_on_g2(b, &q(x));
                close!(g.ext12.ext6.ext2.curve_f, g.g2.ext2.curve_f)
            }
        }
        vec![]
    }
}
fn pairing() {
    use num_traits::Zero;
    let p0 = point(fq, Fq::from(4u32));
    let q0 = point(fq2, Fq2::new(Fq::from(4u32), Fq::from(4u32)));
    let flat1 = |p: &(Fq, Fq)| [p.0.v(), p.1.v()].concat();
    let flat2 = |p: &(Fq2, Fq2)| [p.0.v(), p.1.v()].concat();
    let (Some(p), Some(q)) = (times(&[SEED + 1], p0), in_g2(q0)) else { return };
    match choose(5) {
        0 | 1 => {
            complete::<M31Config, _>("the check of the first group", &Pair::InG1, &flat1(&p), registry_m31);
            let (w, why) = if flip(500) { (p0, "a point of another order") } else { ((p.0, p.1 + Fq::from(1u32)), "a pair that is no point") };
            sound::<M31Config, _>("the check of the first group", why, &Pair::InG1, &flat1(&w), registry_m31, lie());
        }
        2 | 3 => {
            complete::<M31Config, _>("the check of the second group", &Pair::InG2, &flat2(&q), registry_m31);
            let (w, why) = if flip(500) { (q0, "a point of another order") } else { ((q.0, q.1 + q.1), "a pair that is no point") };
            sound::<M31Config, _>("the check of the second group", why, &Pair::InG2, &flat2(&w), registry_m31, lie());
        }
        _ => {
            // what the easy part of the final exponentiation leaves of an element
            let f = fq12();
            if f.is_zero() {
                return;
            }
            let t = Fq12::new(f.c0, -f.c1) / f;
            let e = modulus::<Bls12381Fp>();
            let t = t.pow((&e * &e).to_u64_digits()) * t;
            let r = modulus::<Bls12381Fr>();
            let what = "the check of the final exponentiation";
            if flip(300) {
                complete::<M31Config, _>(what, &Pair::One, &t.pow(r.to_u64_digits()).v(), registry_m31);
            } else {
                let (l, why) = match choose(3) {
                    0 => (lie(), "an element whose power is not one"),
                    _ => (Lie::Zero, "an element whose power is not one from a prover who answers zeros"),
                };
                sound::<M31Config, _>(what, why, &Pair::One, &t.v(), registry_m31, l);
            }
        }
    }
}

// ---------------------------------------------------------------- hashing to the base field

#[derive(Clone)]
struct ToField(usize);
impl Gadget<M31Config> for ToField {
    fn run<B: RootAPI<M31Config>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut f = GField::new(b, Bls12381Fp::default());
        let r = f.hash_to_fp(b, &x[..self.0], 2);
        for (i, e) in r.iter().enumerate() {
            let w = elem(&x[self.0 + 48 * i..self.0 + 48 * i + 48]);
            f.assert_is_equal(b, e, &w);
        }
        f.check_mul(b);
        f.table.final_check(b);
        vec![]
    }
}
fn hash_field() {
    let m = bytes(range(0, 40));
    // RFC 9380 expand_message_xmd
    let mut dst = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_".to_vec();
    dst.push(dst.len() as u8);
    let b0 = sha_ref(&[vec![0; 64], m.clone(), vec![0, 128, 0], dst.clone()].concat());
    let mut out: Vec<u8> = vec![];
    let mut last = [0u8; 32];
    for i in 1..=4u8 {
        let mix: Vec<u8> = b0.iter().zip(&last).map(|(a, b)| a ^ b).collect();
        last = sha_ref(&[mix, vec![i], dst.clone()].concat());
        out.extend(last);
    }
    let p = modulus::<Bls12381Fp>();
    let mut x: Vec<M31> = nums(m.iter().map(|x| *x as u32));
    for c in out.chunks(64) {
        x.extend(limbs8(&(BigUint::from_bytes_be(c) % &p), 48));
    }
    let j = ToField(m.len());
    complete::<M31Config, _>("hash to field", &j, &x, registry_m31);
}
