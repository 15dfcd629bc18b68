//! Random source programs, an independent evaluator for them, and an independent reading of
//! the layered circuits they compile to.
use expander_compiler::circuit::config::{CircuitField, Config};
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::source::{
    BoolBinOpType, Circuit as SCircuit, Constraint, ConstraintType, Instruction as I, RootCircuit, UnconstrainedBinOpType as U,
};
use expander_compiler::circuit::layered::{self, Coef, Input, InputType, InputUsize};
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::frontend::HintCaller;
use expander_compiler::hints::BuiltinHintIds as H;
use expander_compiler::utils::error::Error;
use ethnum::U256;
use simrt::{choose, choose_usize, entropy, flip, range};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type F<C> = CircuitField<C>;
pub type Root<C> = RootCircuit<C>;

// ---------------------------------------------------------------- generator

#[derive(Clone, Copy, Debug)]
pub struct GOpts {
    pub max_circuits: usize,
    pub max_inputs: usize,
    pub max_insns: usize,
    pub max_cons: usize,
    pub max_outs: usize,
    pub max_terms: usize,
    pub sub_permille: u64,
    pub max_public: usize,
    /// hints and unconstrained operations
    pub free: bool,
    /// operations that need the witness solver's help (division, bits, zero tests)
    pub helped: bool,
    pub random: bool,
    pub custom: bool,
}
pub fn gopts() -> GOpts {
    let wide = flip(250);
    GOpts {
        max_circuits: [1, 2, 4, 8][choose_usize(4)],
        max_inputs: if wide { 10 } else { range(1, 5) },
        max_insns: [3, 8, 16, 40][choose_usize(4)],
        max_cons: choose_usize(7),
        max_outs: range(0, 6),
        max_terms: range(1, 6),
        sub_permille: [0, 100, 350, 600][choose_usize(4)],
        max_public: [0, 1, 3][choose_usize(3)],
        free: flip(600),
        helped: flip(750),
        random: flip(160),
        custom: false,
    }
}

pub fn small<T: Field>() -> T {
    match choose(8) {
        0 => T::zero(),
        1 | 2 => T::one(),
        3 => -T::one(),
        4 | 5 => T::from(choose(10) as u32),
        _ => any(),
    }
}
pub fn any<T: Field>() -> T {
    T::from_u256(U256::from_words(entropy() as u128, ((entropy() as u128) << 64) | entropy() as u128))
}
/// A random coefficient: not a choice of the run, so that a smaller run draws no special values.
pub fn drawn<T: Field>() -> T {
    T::random_unsafe(&mut rand::thread_rng())
}
fn nonzero<T: Field>() -> T {
    let v: T = small();
    if v.is_zero() {
        T::one()
    } else {
        v
    }
}

struct Gen<C: Config> {
    insns: Vec<I<C>>,
    n: usize,
    bools: Vec<usize>,
    zeroes: Vec<usize>,
    nonzeroes: Vec<usize>,
}
impl<C: Config> Gen<C> {
    fn push(&mut self, i: I<C>, outs: usize) -> usize {
        self.insns.push(i);
        self.n += outs;
        self.n - outs + 1
    }
    fn var(&self) -> usize {
        if flip(400) {
            // near the end
            self.n - choose_usize(self.n.min(4))
        } else {
            range(1, self.n)
        }
    }
    fn boolish(&self) -> usize {
        if !self.bools.is_empty() && flip(930) {
            self.bools[choose_usize(self.bools.len())]
        } else {
            self.var()
        }
    }
    fn lin(&mut self, terms: Vec<(F<C>, usize)>, constant: F<C>) -> usize {
        self.push(
            I::LinComb(LinComb { terms: terms.into_iter().map(|(coef, var)| LinCombTerm { coef, var }).collect(), constant }),
            1,
        )
    }
    /// A variable that is zero for every input, by construction.
    fn zero(&mut self) -> usize {
        let v = match choose(4) {
            0 => {
                let a = self.var();
                let b = self.var();
                let m = self.push(I::Mul(vec![a, b]), 1);
                let m2 = self.push(I::Mul(vec![b, a]), 1);
                self.lin(vec![(F::<C>::one(), m), (-F::<C>::one(), m2)], F::<C>::zero())
            }
            1 => {
                let a = self.var();
                let k: F<C> = small();
                let c: F<C> = small();
                let x = self.lin(vec![(k, a)], c);
                self.lin(vec![(F::<C>::one(), x), (-k, a)], -c)
            }
            2 => {
                let a = self.var();
                let z = self.push(I::IsZero(a), 1);
                self.push(I::Mul(vec![a, z]), 1)
            }
            _ => {
                let (a, b) = (self.var(), self.var());
                let k: F<C> = small();
                let x = self.lin(vec![(F::<C>::one(), a), (k, b)], F::<C>::zero());
                let sq = self.push(I::Mul(vec![x, x]), 1);
                let aa = self.push(I::Mul(vec![a, a]), 1);
                let ab = self.push(I::Mul(vec![b, a]), 1);
                let bb = self.push(I::Mul(vec![b, b]), 1);
                self.lin(vec![(F::<C>::one(), sq), (-F::<C>::one(), aa), (-(k + k), ab), (-(k * k), bb)], F::<C>::zero())
            }
        };
        self.zeroes.push(v);
        v
    }
}

const BIN: [(U, H); 17] = [
    (U::Div, H::Div),
    (U::Pow, H::Pow),
    (U::IntDiv, H::IntDiv),
    (U::Mod, H::Mod),
    (U::ShiftL, H::ShiftL),
    (U::ShiftR, H::ShiftR),
    (U::LesserEq, H::LesserEq),
    (U::GreaterEq, H::GreaterEq),
    (U::Lesser, H::Lesser),
    (U::Greater, H::Greater),
    (U::Eq, H::Eq),
    (U::NotEq, H::NotEq),
    (U::BoolOr, H::BoolOr),
    (U::BoolAnd, H::BoolAnd),
    (U::BitOr, H::BitOr),
    (U::BitAnd, H::BitAnd),
    (U::BitXor, H::BitXor),
];
fn bin(i: usize) -> (U, usize) {
    let x = &BIN[i];
    let id = H::Identity as u64 as usize
        + match i {
            0 => 1,
            1 => 10,
            n @ 2..=9 => n + 9,
            n @ 10..=16 => n - 8,
            _ => unreachable!(),
        };
    (x.0.clone(), id)
}

pub struct Src<C: Config> {
    pub root: Root<C>,
    /// leading inputs of the root that are meant to be 0 or 1
    pub bools: usize,
}

pub fn gen<C: Config>(o: &GOpts) -> Src<C> {
    let n = range(1, o.max_circuits);
    let mut ids = vec![0usize];
    while ids.len() < n {
        let id = match choose(3) {
            0 => entropy() as usize,
            1 => range(1, 12),
            _ => usize::MAX - choose_usize(3),
        };
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    let public = choose_usize(o.max_public + 1);
    let mut circuits: HashMap<usize, SCircuit<C>> = HashMap::new();
    let mut bools_of: HashMap<usize, usize> = HashMap::new();
    let mut bools_out: HashMap<usize, Vec<usize>> = HashMap::new();
    let mut zeroes_out: HashMap<usize, Vec<usize>> = HashMap::new();
    let mut expected_zeroes = 0;
    let mut cost_of: HashMap<usize, usize> = HashMap::new();
    let limit = [100, 300, 1500][choose_usize(3)];
    for (ci, &id) in ids.iter().enumerate().rev() {
        let is_root = ci == 0;
        let num_inputs = if flip(30) { 0 } else { range(1, o.max_inputs) };
        let num_inputs = if is_root { num_inputs.max(1) } else { num_inputs };
        let nb = if num_inputs > 0 && flip(500) { choose_usize(num_inputs + 1) } else { 0 };
        let mut g = Gen::<C> { insns: vec![], n: num_inputs, bools: (1..=nb).collect(), zeroes: vec![], nonzeroes: vec![] };
        if num_inputs == 0 {
            g.push(I::ConstantLike(Coef::Constant(small())), 1);
        }
        let k = range(1, o.max_insns);
        let mut cost = 0;
        while g.insns.len() < k {
            if ci + 1 < ids.len() && flip(o.sub_permille) {
                let s = ids[range(ci + 1, ids.len() - 1)];
                if cost + cost_of[&s] > limit {
                    g.zero();
                    continue;
                }
                cost += cost_of[&s];
                let c = &circuits[&s];
                let (ni, no) = (c.num_inputs, c.outputs.len());
                let inputs = (0..ni).map(|i| if i < bools_of[&s] { g.boolish() } else { g.var() }).collect();
                let first = g.push(I::SubCircuitCall { sub_circuit_id: s, inputs, num_outputs: no }, no);
                for b in &bools_out[&s] {
                    g.bools.push(first + b);
                }
                for z in &zeroes_out[&s] {
                    g.zeroes.push(first + z);
                }
                continue;
            }
            match choose(24) {
                0..=4 => {
                    let t = if flip(60) { 0 } else { range(1, o.max_terms) };
                    let terms = (0..t).map(|_| (if flip(40) { F::<C>::zero() } else { nonzero() }, g.var())).collect();
                    let c = if flip(500) { F::<C>::zero() } else { small() };
                    g.lin(terms, c);
                }
                5..=8 => {
                    let t = if flip(700) { 2 } else { range(2, 2 + o.max_terms) };
                    let v = (0..t).map(|_| g.var()).collect();
                    g.push(I::Mul(v), 1);
                }
                9 | 10 if o.helped => {
                    let checked = flip(500);
                    let x = g.var();
                    let y = if !g.nonzeroes.is_empty() && flip(400) { g.nonzeroes[choose_usize(g.nonzeroes.len())] } else { g.var() };
                    g.push(I::Div { x, y, checked }, 1);
                }
                11 | 12 if !g.bools.is_empty() || flip(80) => {
                    let (x, y) = (g.boolish(), g.boolish());
                    let op = match choose(3) {
                        0 => BoolBinOpType::Xor,
                        1 => BoolBinOpType::Or,
                        _ => BoolBinOpType::And,
                    };
                    let v = g.push(I::BoolBinOp { x, y, op }, 1);
                    g.bools.push(v);
                }
                13 if o.helped => {
                    let x = if flip(200) { g.boolish() } else { g.var() };
                    let v = g.push(I::IsZero(x), 1);
                    g.bools.push(v);
                }
                14 | 15 => {
                    let c = if public > 0 && flip(300) {
                        Coef::PublicInput(choose_usize(public))
                    } else if o.random && flip(400) {
                        Coef::Random
                    } else {
                        Coef::Constant(small())
                    };
                    let v = g.push(I::ConstantLike(c), 1);
                    if let Coef::Constant(x) = c {
                        if !x.is_zero() {
                            g.nonzeroes.push(v);
                        }
                        if x.is_zero() || x == F::<C>::one() {
                            g.bools.push(v);
                        }
                    }
                }
                16 if o.helped => {
                    let bit = flip(700);
                    let x = if bit { g.boolish() } else { g.var() };
                    let m = max_bits::<C>();
                    let num_bits = if bit { range(1, 3.min(m)) } else { m };
                    if num_bits < 40 || flip(100) {
                        let v = g.push(I::ToBinary { x, num_bits }, num_bits);
                        g.bools.extend(v..v + num_bits);
                    }
                }
                17 | 18 if o.free => {
                    let (x, y) = (g.var(), g.var());
                    let op = bin(choose_usize(17)).0;
                    g.push(I::UnconstrainedBinOp { x, y, op }, 1);
                }
                19 if o.free => {
                    let (cond, if_true, if_false) = (g.boolish(), g.var(), g.var());
                    g.push(I::UnconstrainedSelect { cond, if_true, if_false }, 1);
                }
                20 | 21 if o.free => {
                    let (hint_id, ni, no) = match choose(6) {
                        0 => (bin(choose_usize(17)).1, 2, 1),
                        1 => {
                            let n = range(1, 4);
                            (H::Identity as u64 as usize, n, n)
                        }
                        2 => (H::Select as u64 as usize, 3, 1),
                        3 if flip(300) => (H::ToBinary as u64 as usize, 1, range(256, 300)),
                        _ => ((range(1, 5)) << choose(60), range(1, 4), range(1, 3)),
                    };
                    let inputs = (0..ni).map(|_| g.var()).collect();
                    g.push(I::Hint { hint_id, inputs, num_outputs: no }, no);
                }
                22 if o.custom => {
                    let n = range(1, 3);
                    let inputs = (0..n).map(|_| g.var()).collect();
                    g.push(I::CustomGate { gate_type: range(1, 4), inputs }, 1);
                }
                23 => {
                    g.zero();
                }
                _ => {}
            }
        }
        let mut constraints = vec![];
        for _ in 0..choose_usize(o.max_cons + 1) {
            let (typ, var) = match choose(5) {
                0 | 1 => {
                    let v = if !g.zeroes.is_empty() && flip(500) { g.zeroes[choose_usize(g.zeroes.len())] } else { g.zero() };
                    (ConstraintType::Zero, v)
                }
                2 => (ConstraintType::Bool, g.boolish()),
                3 if o.helped => {
                    let v = if !g.nonzeroes.is_empty() && flip(500) { g.nonzeroes[choose_usize(g.nonzeroes.len())] } else { g.var() };
                    (ConstraintType::NonZero, v)
                }
                4 if flip(120) => (ConstraintType::Zero, g.var()),
                _ => {
                    let v = g.zero();
                    (ConstraintType::Bool, v)
                }
            };
            constraints.push(Constraint { typ, var });
        }
        let mut outputs: Vec<usize> = vec![];
        if is_root && flip(200) {
            expected_zeroes = range(1, 2);
            for _ in 0..expected_zeroes {
                let z = g.zero();
                outputs.push(z);
            }
        }
        let no = if flip(60) { 0 } else { range(1, o.max_outs.max(1)) };
        let no = if is_root && o.max_outs > 0 { no.max(1) } else { no.min(o.max_outs.max(1)) };
        for _ in 0..no {
            outputs.push(if !g.bools.is_empty() && flip(150) { g.boolish() } else { g.var() });
        }
        if is_root && constraints.is_empty() && outputs.is_empty() {
            outputs.push(g.var());
        }
        cost_of.insert(id, cost + g.n + constraints.len());
        bools_of.insert(id, nb);
        bools_out.insert(id, (0..outputs.len()).filter(|&i| g.bools.contains(&outputs[i])).collect());
        zeroes_out.insert(id, (0..outputs.len()).filter(|&i| g.zeroes.contains(&outputs[i])).collect());
        circuits.insert(id, SCircuit { instructions: g.insns, constraints, outputs, num_inputs });
    }
    Src { root: RootCircuit { num_public_inputs: public, expected_num_output_zeroes: expected_zeroes, circuits }, bools: bools_of[&0] }
}

/// Bits that can be decomposed in exactly one way.
pub fn max_bits<C: Config>() -> usize {
    let p = F::<C>::MODULUS;
    (255 - p.leading_zeros()) as usize
}

pub fn gen_inputs<C: Config>(s: &Src<C>) -> (Vec<F<C>>, Vec<F<C>>) {
    let n = s.root.circuits[&0].num_inputs;
    let wild = flip(150);
    let x = (0..n)
        .map(|i| if i < s.bools && !wild { F::<C>::from(flip(500) as u32) } else { small() })
        .collect();
    let p = (0..s.root.num_public_inputs).map(|_| small()).collect();
    (x, p)
}

// ---------------------------------------------------------------- hints

/// What hints with ids outside the builtin range return.
pub fn hint_fn<T: Field>(id: usize, args: &[T], n: usize) -> Vec<T> {
    (0..n)
        .map(|i| {
            let mut s = T::from((id % 1009) as u32 + i as u32);
            for (j, a) in args.iter().enumerate() {
                s = s * T::from(3) + *a * T::from((i + j) as u32) + *a * *a;
            }
            s
        })
        .collect()
}
pub struct Caller;
impl<T: Field> HintCaller<T> for Caller {
    fn call(&self, id: usize, args: &[T], n: usize) -> Result<Vec<T>, Error> {
        Ok(hint_fn(id, args, n))
    }
}

// ---------------------------------------------------------------- evaluator

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V<T> {
    Is(T),
    /// depends on a random coefficient
    Random,
    /// depends on an operation without a value
    Undef,
}
use V::*;

pub struct Eval<T> {
    pub outs: Vec<V<T>>,
    /// every constraint with a value holds
    pub sat: bool,
    /// some operation has no value
    pub undef: bool,
    /// ... and a constraint uses its result directly
    pub undef_used: bool,
    /// 0/0 occurred, whose quotient the prover may choose
    pub loose: bool,
    /// whether the constraints hold depends on a random coefficient
    pub random: bool,
    /// a hint needs a random coefficient
    pub random_hint: bool,
    /// random values are drawn
    pub draw: bool,
}
impl<T> Eval<T> {
    pub fn new() -> Self {
        Eval { outs: vec![], sat: true, undef: false, undef_used: false, loose: false, random: false, random_hint: false, draw: false }
    }
    /// The program has one meaning for this input.
    pub fn defined(&self) -> bool {
        !self.undef && !self.random && !self.random_hint
    }
}

fn int(x: impl Field) -> U256 {
    x.to_u256()
}
fn bits_of(p: U256) -> u32 {
    256 - p.leading_zeros()
}
fn shl(x: U256, k: U256, p: U256) -> U256 {
    if k > p / 2 {
        return shr(x, p - k, p);
    }
    let b = bits_of(p);
    if k >= U256::from(b) {
        return U256::ZERO;
    }
    let v = x << k.as_u32();
    if b == 256 {
        v
    } else {
        v & ((U256::ONE << b) - 1)
    }
}
fn shr(x: U256, k: U256, p: U256) -> U256 {
    if k > p / 2 {
        return shl(x, p - k, p);
    }
    if k >= U256::new(256) {
        U256::ZERO
    } else {
        x >> k.as_u32()
    }
}
fn pow<T: Field>(x: T, e: U256) -> T {
    let mut r = T::one();
    for i in (0..256).rev() {
        r = r * r;
        if (e >> i) & U256::ONE == U256::ONE {
            r = r * x;
        }
    }
    r
}
/// `None`: no value (a division by zero).
pub fn binop<T: Field>(op: &U, x: T, y: T) -> Option<T> {
    let p = T::MODULUS;
    let (a, b) = (int(x), int(y));
    let t = |v: U256| T::from_u256(v % p);
    let q = |c: bool| T::from(c as u32);
    Some(match op {
        U::Div => x * y.inv()?,
        U::Pow => pow(x, b),
        U::IntDiv => t(a.checked_div(b)?),
        U::Mod => t(a.checked_rem(b)?),
        U::ShiftL => t(shl(a, b, p)),
        U::ShiftR => t(shr(a, b, p)),
        U::LesserEq => q(a <= b),
        U::GreaterEq => q(a >= b),
        U::Lesser => q(a < b),
        U::Greater => q(a > b),
        U::Eq => q(a == b),
        U::NotEq => q(a != b),
        U::BoolOr => q(a != U256::ZERO || b != U256::ZERO),
        U::BoolAnd => q(a != U256::ZERO && b != U256::ZERO),
        U::BitOr => t(a | b),
        U::BitAnd => t(a & b),
        U::BitXor => t(a ^ b),
    })
}
fn builtin<T: Field>(id: usize, x: &[T], n: usize) -> Option<Vec<T>> {
    let base = H::Identity as u64 as usize;
    if id == base {
        return Some(x.to_vec());
    }
    if id == H::Select as u64 as usize {
        return Some(vec![if x[0].is_zero() { x[2] } else { x[1] }]);
    }
    if id == H::ToBinary as u64 as usize {
        return Some(to_bits(x[0], n).unwrap());
    }
    (0..17).find(|&i| bin(i).1 == id).map(|i| vec![binop(&bin(i).0, x[0], x[1]).unwrap_or(T::zero())])
}
pub fn to_bits<T: Field>(x: T, n: usize) -> Option<Vec<T>> {
    let a = int(x);
    if n < 256 && (a >> n as u32) != U256::ZERO {
        return None;
    }
    Some((0..n).map(|i| T::from((i < 256 && (a >> i as u32) & U256::ONE == U256::ONE) as u32)).collect())
}

/// `stub`: whether hints and custom gates have the compiler's own stand-in meaning.
pub fn eval<C: Config>(r: &Root<C>, x: &[F<C>], public: &[F<C>], stub: bool) -> Eval<F<C>> {
    settle(eval_with(r, x, public, stub, false), || eval_with(r, x, public, stub, true))
}
/// What depends on random values is known all the same when it is equal for several draws of them:
/// in a large field, that is when it is equal for almost all.
pub fn settle<T: Field>(mut e: Eval<T>, f: impl Fn() -> Eval<T>) -> Eval<T> {
    if !e.random || e.random_hint || e.undef || bits_of(T::MODULUS) < 24 {
        return e;
    }
    let d: Vec<Eval<T>> = (0..3).map(|_| f()).collect();
    if d.iter().any(|q| q.undef || q.random || q.random_hint || q.loose != e.loose || q.sat != d[0].sat) {
        return e;
    }
    simrt::probe("random_settled");
    e.sat = d[0].sat;
    e.random = false;
    for (k, o) in e.outs.iter_mut().enumerate() {
        if *o == Random {
            if d.iter().all(|x| x.outs[k] == d[0].outs[k]) {
                *o = d[0].outs[k];
            }
        }
    }
    e
}
fn eval_with<C: Config>(r: &Root<C>, x: &[F<C>], public: &[F<C>], stub: bool, draw: bool) -> Eval<F<C>> {
    let mut e = Eval::new();
    e.draw = draw;
    let outs = eval_in(r, 0, x.iter().map(|v| Is(*v)).collect(), public, stub, &mut e);
    let k = r.expected_num_output_zeroes;
    for o in &outs[..k] {
        match o {
            Is(v) => e.sat &= v.is_zero(),
            Random => e.random = true,
            Undef => e.undef = true,
        }
    }
    for o in &outs[k..] {
        match o {
            Random => e.random = true,
            Undef => e.undef = true,
            _ => {}
        }
    }
    e.outs = outs[k..].to_vec();
    e
}
fn eval_in<C: Config>(r: &Root<C>, id: usize, x: Vec<V<F<C>>>, public: &[F<C>], stub: bool, e: &mut Eval<F<C>>) -> Vec<V<F<C>>> {
    let c = &r.circuits[&id];
    assert_eq!(x.len(), c.num_inputs);
    let mut v: Vec<V<F<C>>> = vec![Undef];
    v.extend(x);
    // variables whose own operation has no value
    let mut born: BTreeSet<usize> = BTreeSet::new();
    fn mix<T>(a: &[V<T>]) -> Option<V<T>> {
        if a.iter().any(|x| matches!(x, Undef)) {
            Some(Undef)
        } else if a.iter().any(|x| matches!(x, Random)) {
            Some(Random)
        } else {
            None
        }
    }
    fn val<T: Copy>(a: &V<T>) -> T {
        match a {
            Is(x) => *x,
            _ => unreachable!(),
        }
    }
    for i in &c.instructions {
        let args: Vec<V<F<C>>> = expander_compiler::circuit::ir::common::Instruction::<C>::inputs(i).iter().map(|k| v[*k]).collect();
        let no = expander_compiler::circuit::ir::common::Instruction::<C>::num_outputs(i);
        if let I::SubCircuitCall { sub_circuit_id, .. } = i {
            let o = eval_in(r, *sub_circuit_id, args, public, stub, e);
            v.extend(o);
            continue;
        }
        if let Some(m) = mix(&args) {
            if m == Random && !matches!(i, I::LinComb(_) | I::Mul(_)) {
                // the witness solver has to know the value
                e.random_hint |= !matches!(i, I::CustomGate { .. });
            }
            if m == Undef {
                e.undef = true;
            }
            v.extend(std::iter::repeat(m).take(no));
            continue;
        }
        let a: Vec<F<C>> = args.iter().map(val).collect();
        let one = F::<C>::one();
        let res: Option<Vec<F<C>>> = match i {
            I::LinComb(l) => {
                let mut s = l.constant;
                for (t, x) in l.terms.iter().zip(&a) {
                    s = s + t.coef * *x;
                }
                Some(vec![s])
            }
            I::Mul(_) => Some(vec![a.iter().fold(one, |p, x| p * *x)]),
            I::Div { checked, .. } => match a[1].inv() {
                Some(y) if !a[1].is_zero() => Some(vec![a[0] * y]),
                _ if a[0].is_zero() && !checked => {
                    e.loose = true;
                    Some(vec![F::<C>::zero()])
                }
                _ => None,
            },
            I::BoolBinOp { op, .. } => {
                let b: Vec<Option<bool>> = a.iter().map(|x| if x.is_zero() { Some(false) } else if *x == one { Some(true) } else { None }).collect();
                match (b[0], b[1]) {
                    (Some(x), Some(y)) => Some(vec![F::<C>::from(match op {
                        BoolBinOpType::Xor => x ^ y,
                        BoolBinOpType::Or => x | y,
                        BoolBinOpType::And => x & y,
                    } as u32)]),
                    _ => None,
                }
            }
            I::IsZero(_) => Some(vec![F::<C>::from(a[0].is_zero() as u32)]),
            I::Hint { hint_id, num_outputs, .. } => Some(match builtin(*hint_id, &a, *num_outputs) {
                Some(o) => o,
                None if stub => expander_compiler::hints::stub_impl(*hint_id, &a, *num_outputs),
                None => hint_fn(*hint_id, &a, *num_outputs),
            }),
            I::ConstantLike(Coef::Constant(x)) => Some(vec![*x]),
            I::ConstantLike(Coef::PublicInput(k)) => Some(vec![if stub { Coef::<C>::PublicInput(*k).get_value_unsafe() } else { public[*k] }]),
            I::ConstantLike(Coef::Random) => {
                v.push(if e.draw { Is(drawn()) } else { Random });
                continue;
            }
            I::UnconstrainedBinOp { op, .. } => binop(op, a[0], a[1]).map(|x| vec![x]),
            I::UnconstrainedSelect { .. } => Some(vec![if a[0].is_zero() { a[2] } else { a[1] }]),
            I::CustomGate { gate_type, .. } => Some(expander_compiler::hints::stub_impl(*gate_type, &a, 1)),
            I::ToBinary { num_bits, .. } => to_bits(a[0], *num_bits),
            I::Commit(_) | I::SubCircuitCall { .. } => unreachable!(),
        };
        match res {
            Some(o) => v.extend(o.into_iter().map(Is)),
            None => {
                e.undef = true;
                // only operations that the circuit itself constrains
                if !matches!(i, I::UnconstrainedBinOp { .. }) {
                    born.extend(v.len()..v.len() + no);
                }
                v.extend(std::iter::repeat(Undef).take(no));
            }
        }
    }
    for k in &c.constraints {
        match v[k.var] {
            Is(x) => {
                e.sat &= match k.typ {
                    ConstraintType::Zero => x.is_zero(),
                    ConstraintType::NonZero => !x.is_zero(),
                    ConstraintType::Bool => x.is_zero() || x == F::<C>::one(),
                }
            }
            Random => {
                e.random = true;
                // its inverse is a hint
                e.random_hint |= k.typ == ConstraintType::NonZero;
            }
            Undef => e.undef_used |= born.contains(&k.var),
        }
    }
    if id == 0 {
        e.undef_used |= c.outputs.iter().any(|o| born.contains(o));
    }
    c.outputs.iter().map(|o| v[*o]).collect()
}

// ---------------------------------------------------------------- layered circuits

/// An independent reading of a layered circuit: every violated structural rule, and its gates
/// spelled out layer by layer.
pub struct Flat<C: Config> {
    pub sizes: Vec<usize>,
    /// per layer: output, coefficient, inputs as (layer index, wire), custom gate kind
    pub layers: Vec<Vec<(usize, Coef<C>, Vec<(usize, usize)>, Option<usize>)>>,
}
fn pow2(n: usize) -> bool {
    n.count_ones() == 1
}
pub fn flatten<C: Config, T: InputType>(c: &layered::Circuit<C, T>) -> Result<Flat<C>, String> {
    if c.layer_ids.is_empty() {
        return Err("no layers".into());
    }
    for (k, s) in c.segments.iter().enumerate() {
        let ins = s.num_inputs.to_vec();
        if ins.is_empty() || !ins.iter().all(|n| pow2(*n)) || !pow2(s.num_outputs) {
            return Err(format!("segment {k} has sizes {ins:?} -> {}", s.num_outputs));
        }
        for (ch, allocs) in &s.child_segs {
            if *ch >= k {
                return Err(format!("segment {k} refers to segment {ch}"));
            }
            let cs = &c.segments[*ch];
            let ci = cs.num_inputs.to_vec();
            for a in allocs {
                let off = a.input_offset.to_vec();
                if off.len() != ci.len() || ci.len() > ins.len() {
                    return Err(format!("segment {k}: child {ch} is given {} layers of input", off.len()));
                }
                for l in 0..ci.len() {
                    if off[l] % ci[l] != 0 || off[l] + ci[l] > ins[l] {
                        return Err(format!("segment {k}: child {ch} is placed at input {} of {}", off[l], ins[l]));
                    }
                }
                if a.output_offset % cs.num_outputs != 0 || a.output_offset + cs.num_outputs > s.num_outputs {
                    return Err(format!("segment {k}: child {ch} is placed at output {} of {}", a.output_offset, s.num_outputs));
                }
            }
        }
    }
    if let Some(x) = c.layer_ids.iter().find(|x| **x >= c.segments.len()) {
        return Err(format!("layer refers to segment {x}"));
    }
    let mut sizes = vec![c.segments[c.layer_ids[0]].num_inputs.get(0)];
    let mut layers = vec![];
    for (n, &id) in c.layer_ids.iter().enumerate() {
        let s = &c.segments[id];
        for (back, m) in s.num_inputs.to_vec().into_iter().enumerate() {
            if back > n || sizes[n - back] != m {
                return Err(format!("layer {n} reads {m} wires of the layer {back} before, of sizes {sizes:?}"));
            }
        }
        let mut out = vec![];
        collect(c, id, &vec![0; s.num_inputs.len()], 0, n, &mut out)?;
        sizes.push(s.num_outputs);
        layers.push(out);
    }
    if c.num_actual_outputs > *sizes.last().unwrap() || c.expected_num_output_zeroes > c.num_actual_outputs {
        return Err(format!("{} outputs, {} of them zero, in a layer of {}", c.num_actual_outputs, c.expected_num_output_zeroes, sizes.last().unwrap()));
    }
    Ok(Flat { sizes, layers })
}
#[allow(clippy::type_complexity)]
fn collect<C: Config, T: InputType>(
    c: &layered::Circuit<C, T>,
    id: usize,
    ioff: &[usize],
    ooff: usize,
    layer: usize,
    out: &mut Vec<(usize, Coef<C>, Vec<(usize, usize)>, Option<usize>)>,
) -> Result<(), String> {
    let s = &c.segments[id];
    let mut put = |ins: &[T::Input], o: usize, coef: Coef<C>, custom: Option<usize>| -> Result<(), String> {
        if let Coef::PublicInput(p) = coef {
            if p >= c.num_public_inputs {
                return Err(format!("segment {id} reads public input {p}"));
            }
        }
        if o >= s.num_outputs {
            return Err(format!("segment {id} writes wire {o} of {}", s.num_outputs));
        }
        let mut v = vec![];
        for i in ins {
            if i.layer() >= s.num_inputs.len() || i.offset() >= s.num_inputs.get(i.layer()) {
                return Err(format!("segment {id} reads wire {i:?} of {:?}", s.num_inputs));
            }
            v.push((layer - i.layer(), ioff[i.layer()] + i.offset()));
        }
        out.push((ooff + o, coef, v, custom));
        Ok(())
    };
    for g in &s.gate_muls {
        put(&g.inputs, g.output, g.coef, None)?;
    }
    for g in &s.gate_adds {
        put(&g.inputs, g.output, g.coef, None)?;
    }
    for g in &s.gate_consts {
        put(&g.inputs, g.output, g.coef, None)?;
    }
    for g in &s.gate_customs {
        put(&g.inputs, g.output, g.coef, Some(g.gate_type))?;
    }
    for (ch, allocs) in &s.child_segs {
        for a in allocs {
            let off: Vec<usize> = a.input_offset.to_vec().iter().zip(ioff).map(|(x, y)| x + y).collect();
            collect(c, *ch, &off, ooff + a.output_offset, layer, out)?;
        }
    }
    Ok(())
}
impl<C: Config> Flat<C> {
    /// The first wire that is read although nothing ever writes it.
    pub fn unwritten(&self) -> Option<(usize, usize)> {
        let mut set: Vec<BTreeSet<usize>> = vec![(0..self.sizes[0]).collect()];
        for l in &self.layers {
            for g in l {
                for (k, w) in &g.2 {
                    if !set[*k].contains(w) {
                        return Some((*k, *w));
                    }
                }
            }
            set.push(l.iter().map(|g| g.0).collect());
        }
        None
    }
    /// The largest number of references to one wire by products.
    pub fn fan_out(&self) -> usize {
        let mut n: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for g in self.layers.iter().flatten().filter(|g| g.2.len() == 2 && g.3.is_none()) {
            for w in &g.2 {
                *n.entry(*w).or_default() += 1;
            }
        }
        n.into_values().max().unwrap_or(0)
    }
    pub fn has_random(&self) -> bool {
        self.layers.iter().flatten().any(|g| g.1 == Coef::Random)
    }
    /// Evaluates with the given value for every random coefficient, in order of appearance.
    pub fn eval(&self, x: &[F<C>], public: &[F<C>], mut random: impl FnMut() -> F<C>, stub: bool) -> Vec<F<C>> {
        let mut v = vec![x.to_vec()];
        for (n, l) in self.layers.iter().enumerate() {
            let mut o = vec![F::<C>::zero(); self.sizes[n + 1]];
            for (w, coef, ins, custom) in l {
                let a: Vec<F<C>> = ins.iter().map(|(k, w)| v[*k][*w]).collect();
                let t = match custom {
                    None => a.iter().fold(F::<C>::one(), |p, x| p * *x),
                    Some(k) => expander_compiler::hints::stub_impl(*k, &a, 1)[0],
                };
                let c = match coef {
                    Coef::Constant(c) => *c,
                    Coef::Random => random(),
                    Coef::PublicInput(k) => {
                        if stub {
                            Coef::<C>::PublicInput(*k).get_value_unsafe()
                        } else {
                            public[*k]
                        }
                    }
                };
                o[*w] = o[*w] + t * c;
            }
            v.push(o);
        }
        v.pop().unwrap()
    }
}
