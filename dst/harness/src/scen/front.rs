//! C13: programs written against the front end, run in debug mode, compiled, and modelled.
use super::c13::{self, Kind};
use super::circ::{binop, drawn, settle, hint_fn, max_bits, small, to_bits, Eval, F, V};
use super::oracle;
use super::prog::attempt;
use crate::{bad, with_config};
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::source::UnconstrainedBinOpType as U;
use expander_compiler::circuit::layered::{CrossLayerInputType, NormalInputType};
use expander_compiler::declare_circuit;
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::{self, extra, internal, memorized, Define, Field, HintRegistry, RootAPI, Variable};
use expander_compiler::utils::error::Error;
use simrt::{choose, choose_usize, flip, range};
use std::cell::RefCell;
use std::sync::Arc;

const P: &str = "C13";
const S: &str = "C14";
const SUBS: usize = 8;

/// An operand: a variable (counted back from the newest), a bit, or a constant.
#[derive(Clone, Copy, Debug)]
enum A {
    Var(usize),
    Bit(usize),
    Const(u32),
}
#[derive(Clone, Debug)]
enum Op {
    Bin(u8, A, A),
    Div(A, A, bool),
    Neg(A),
    Inverse(A),
    Bool(u8, A, A),
    IsZero(A),
    Bits(A, usize),
    FromBits(usize),
    AssertZero(A),
    AssertSame(A, A),
    AssertNonZero(A),
    AssertDifferent(A, A),
    AssertBool(A),
    Hint(usize, Vec<A>, usize),
    Const(u32),
    Random,
    Un(usize, A, A),
    Compare(bool, A, A),
    Call(usize, Vec<A>, u32),
}
#[derive(Clone, Debug, Default)]
struct Body {
    ops: Vec<Op>,
    outs: Vec<usize>,
}
/// Body 0 is the circuit itself, body k is what the k-th function does.
#[derive(Clone, Debug, Default)]
pub struct Prg(Arc<Vec<Body>>);

thread_local! {
    static PRG: RefCell<Prg> = RefCell::new(Prg::default());
}

// Shapes of declared circuits.
declare_circuit!(Cir {
    a: Variable,
    v: [Variable],
    p: PublicVariable,
    m: [[Variable; 2]; 3],
    q: [PublicVariable; 2],
    w: [[Variable]],
    prg: Prg,
});
fn inputs_of<T: Clone>(c: &Cir<T>) -> Vec<T> {
    let mut r = vec![c.a.clone()];
    r.extend(c.v.iter().cloned());
    r.push(c.p.clone());
    r.extend(c.m.iter().flatten().cloned());
    r.extend(c.q.iter().cloned());
    r.extend(c.w.iter().flatten().cloned());
    r
}
impl<C: Config> Define<C> for Cir<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        PRG.with(|p| *p.borrow_mut() = self.prg.clone());
        let o = exec::<C, B>(api, 0, inputs_of(self), 0);
        api.set_outputs(o);
    }
}

const KEYS: [&str; 3] = ["sim.front.a", "sim.front.b", "sim.front.c"];
fn key_fn<T: Field, const K: usize>(x: &[T], out: &mut [T]) -> Result<(), Error> {
    let n = out.len();
    out.copy_from_slice(&hint_fn(K + 1, x, n));
    Ok(())
}
fn registry<C: Config>() -> HintRegistry<F<C>> {
    let mut r = HintRegistry::new();
    r.register(KEYS[0], key_fn::<F<C>, 0>);
    r.register(KEYS[1], key_fn::<F<C>, 1>);
    r.register(KEYS[2], key_fn::<F<C>, 2>);
    r
}

// ---------------------------------------------------------------- against the API

fn simple<C: Config, B: RootAPI<C>, const K: usize>(api: &mut B, x: &Vec<Variable>) -> Vec<Variable> {
    exec::<C, B>(api, K, x.clone(), 0)
}
#[memorized]
fn list_a<C: Config, B: RootAPI<C>>(api: &mut B, x: &Vec<Variable>, k: u32) -> Vec<Variable> {
    exec::<C, B>(api, 4, x.clone(), k)
}
#[memorized]
fn list_b<C: Config, B: RootAPI<C>>(api: &mut B, x: &Vec<Variable>, k: u32) -> Vec<Variable> {
    exec::<C, B>(api, 5, x.clone(), k)
}
#[memorized]
fn nested<C: Config, B: RootAPI<C>>(api: &mut B, k: usize, x: Vec<Vec<Variable>>) -> Vec<Vec<Variable>> {
    let o = exec::<C, B>(api, 6, x.into_iter().flatten().collect(), k as u32);
    split(&o, k as u32)
}
#[memorized]
fn pair<C: Config, B: RootAPI<C>>(api: &mut B, x: &Variable, y: Variable, k: i64) -> Variable {
    exec::<C, B>(api, 7, vec![*x, y], k as u32)[0]
}
#[memorized]
fn check_only<C: Config, B: RootAPI<C>>(api: &mut B, x: &Vec<Variable>, k: u64) {
    exec::<C, B>(api, 8, x.clone(), k as u32);
}
/// Cuts a list into pieces in a way that depends on `k`.
fn split<T: Clone>(x: &[T], k: u32) -> Vec<Vec<T>> {
    let n = k as usize % (x.len() + 1);
    vec![x[..n].to_vec(), vec![], x[n..].to_vec()]
}

fn un<C: Config, B: RootAPI<C>>(api: &mut B, k: usize, x: Arg<F<C>>, y: Arg<F<C>>) -> Variable {
    macro_rules! go {
        ($f:ident) => {
            match (x, y) {
                (Arg::V(x), Arg::V(y)) => api.$f(x, y),
                (Arg::K(x), Arg::V(y)) => api.$f(x, y),
                (Arg::V(x), Arg::K(y)) => api.$f(x, y),
                (Arg::K(x), Arg::K(y)) => api.$f(x, y),
            }
        };
    }
    match k {
        0 => go!(unconstrained_add),
        1 => go!(unconstrained_mul),
        2 => match x {
            Arg::V(x) => api.unconstrained_identity(x),
            Arg::K(x) => api.unconstrained_identity(x),
        },
        3 => go!(unconstrained_div),
        4 => go!(unconstrained_pow),
        5 => go!(unconstrained_int_div),
        6 => go!(unconstrained_mod),
        7 => go!(unconstrained_shift_l),
        8 => go!(unconstrained_shift_r),
        9 => go!(unconstrained_lesser_eq),
        10 => go!(unconstrained_greater_eq),
        11 => go!(unconstrained_lesser),
        12 => go!(unconstrained_greater),
        13 => go!(unconstrained_eq),
        14 => go!(unconstrained_not_eq),
        15 => go!(unconstrained_bool_or),
        16 => go!(unconstrained_bool_and),
        17 => go!(unconstrained_bit_or),
        18 => go!(unconstrained_bit_and),
        _ => go!(unconstrained_bit_xor),
    }
}
const UN: [U; 17] = [
    U::Div,
    U::Pow,
    U::IntDiv,
    U::Mod,
    U::ShiftL,
    U::ShiftR,
    U::LesserEq,
    U::GreaterEq,
    U::Lesser,
    U::Greater,
    U::Eq,
    U::NotEq,
    U::BoolOr,
    U::BoolAnd,
    U::BitOr,
    U::BitAnd,
    U::BitXor,
];

#[derive(Clone, Copy)]
enum Arg<T> {
    V(Variable),
    K(T),
}
fn exec<C: Config, B: RootAPI<C>>(api: &mut B, body: usize, inputs: Vec<Variable>, k: u32) -> Vec<Variable> {
    let prg = PRG.with(|p| p.borrow().clone());
    let body = &prg.0[body];
    let mut v = inputs;
    let mut bits: Vec<usize> = vec![];
    if k != 0 {
        v.push(api.constant(k));
    }
    macro_rules! arg {
        ($a:expr) => {
            match $a {
                A::Const(c) => Arg::K(F::<C>::from(c)),
                a => Arg::V(v[at(a, v.len(), &bits)]),
            }
        };
    }
    macro_rules! one {
        ($f:ident, $x:expr) => {
            match arg!($x) {
                Arg::V(x) => api.$f(x),
                Arg::K(x) => api.$f(x),
            }
        };
    }
    macro_rules! two {
        ($f:ident, $x:expr, $y:expr $(, $z:expr)*) => {
            match (arg!($x), arg!($y)) {
                (Arg::V(x), Arg::V(y)) => api.$f(x, &y $(, $z)*),
                (Arg::K(x), Arg::V(y)) => api.$f(x, y $(, $z)*),
                (Arg::V(x), Arg::K(y)) => api.$f(&x, y $(, $z)*),
                (Arg::K(x), Arg::K(y)) => api.$f(x, y $(, $z)*),
            }
        };
    }
    for op in &body.ops {
        match op {
            Op::Bin(f, x, y) => {
                let r = match f {
                    0 => two!(add, *x, *y),
                    1 => two!(sub, *x, *y),
                    _ => two!(mul, *x, *y),
                };
                v.push(r);
            }
            Op::Div(x, y, checked) => {
                let r = two!(div, *x, *y, *checked);
                v.push(r);
            }
            Op::Neg(x) => v.push(one!(neg, *x)),
            Op::Inverse(x) => v.push(one!(inverse, *x)),
            Op::Bool(f, x, y) => {
                let r = match f {
                    0 => two!(xor, *x, *y),
                    1 => two!(or, *x, *y),
                    _ => two!(and, *x, *y),
                };
                bits.push(v.len());
                v.push(r);
            }
            Op::IsZero(x) => {
                let r = one!(is_zero, *x);
                bits.push(v.len());
                v.push(r);
            }
            Op::Bits(x, n) => {
                let r = match arg!(*x) {
                    Arg::V(x) => api.to_binary(x, *n),
                    Arg::K(x) => api.to_binary(x, *n),
                };
                bits.extend(v.len()..v.len() + n);
                v.extend(r);
            }
            Op::FromBits(n) => {
                let x: Vec<Variable> = bits.iter().take(*n).map(|i| v[*i]).collect();
                v.push(api.from_binary(&x));
            }
            Op::AssertZero(x) => one!(assert_is_zero, *x),
            Op::AssertSame(x, y) => two!(assert_is_equal, *x, *y),
            Op::AssertNonZero(x) => one!(assert_is_non_zero, *x),
            Op::AssertDifferent(x, y) => two!(assert_is_different, *x, *y),
            Op::AssertBool(x) => one!(assert_is_bool, *x),
            Op::Hint(h, x, n) => {
                let x: Vec<Variable> = x.iter().map(|a| v[at(*a, v.len(), &bits)]).collect();
                v.extend(api.new_hint(KEYS[*h], &x, *n));
            }
            Op::Const(c) => v.push(api.constant(*c)),
            Op::Random => v.push(api.get_random_value()),
            Op::Un(f, x, y) => {
                let r = un::<C, B>(api, *f, arg!(*x), arg!(*y));
                v.push(r);
            }
            Op::Compare(strict, x, y) => {
                let r = if *strict { two!(gt, *x, *y) } else { two!(geq, *x, *y) };
                bits.push(v.len());
                v.push(r);
            }
            Op::Call(f, x, k) => {
                let x: Vec<Variable> = x.iter().map(|a| v[at(*a, v.len(), &bits)]).collect();
                match f {
                    1 => v.extend(api.memorized_simple_call(simple::<C, B, 1>, &x)),
                    2 => v.extend(api.memorized_simple_call(simple::<C, B, 2>, &x)),
                    3 => v.extend(api.memorized_simple_call(simple::<C, B, 3>, &x)),
                    4 => v.extend(memorized_list_a::<C, B>(api, &x, *k)),
                    5 => v.extend(memorized_list_b::<C, B>(api, &x, *k)),
                    6 => v.extend(memorized_nested::<C, B>(api, *k as usize, split(&x, *k)).into_iter().flatten()),
                    7 => v.push(memorized_pair::<C, B>(api, &x[0], x[x.len() - 1], *k as i64)),
                    _ => memorized_check_only::<C, B>(api, &x, *k as u64),
                }
            }
        }
    }
    body.outs.iter().map(|o| v[v.len() - 1 - o % v.len()]).collect()
}
fn at(a: A, n: usize, bits: &[usize]) -> usize {
    match a {
        A::Bit(i) if !bits.is_empty() => bits[i % bits.len()],
        A::Var(i) | A::Bit(i) => n - 1 - i % n,
        A::Const(i) => n - 1 - i as usize % n,
    }
}

// ---------------------------------------------------------------- model

fn model<T: Field>(prg: &Prg, body: usize, inputs: Vec<V<T>>, k: u32, e: &mut Eval<T>) -> Vec<V<T>> {
    let body = &prg.0[body];
    let mut v = inputs;
    let mut bits: Vec<usize> = vec![];
    if k != 0 {
        v.push(V::Is(T::from(k)));
    }
    // `None` for an operand without a value, after noting why
    macro_rules! get {
        ($($a:expr),*) => {{
            let args: Vec<V<T>> = vec![$(match $a { A::Const(c) => V::Is(T::from(c)), a => v[at(a, v.len(), &bits)] }),*];
            args
        }};
    }
    fn known<T: Copy>(args: &[V<T>]) -> Result<Vec<T>, V<T>> {
        if args.iter().any(|a| matches!(a, V::Undef)) {
            return Err(V::Undef);
        }
        args.iter().map(|a| match a { V::Is(x) => Ok(*x), _ => Err(V::Random) }).collect()
    }
    macro_rules! put {
        ($e:expr, $args:expr, $linear:expr, $f:expr) => {{
            let f: &dyn Fn(&[T]) -> Option<T> = &$f;
            let r = match known(&$args) {
                Ok(a) => f(&a).map_or(V::Undef, V::Is),
                Err(r) => {
                    if matches!(r, V::Random) && !$linear {
                        $e.random_hint = true;
                    }
                    r
                }
            };
            $e.undef |= matches!(r, V::Undef);
            v.push(r);
        }};
    }
    macro_rules! check {
        ($args:expr, $f:expr) => {{
            let f: &dyn Fn(&[T]) -> bool = &$f;
            match known(&$args) {
                Ok(a) => e.sat &= f(&a),
                Err(V::Random) => e.random = true,
                _ => e.undef = true,
            }
        }};
    }
    for op in &body.ops {
        match op {
            Op::Bin(f, x, y) => put!(e, get!(*x, *y), true, |a| Some(match f {
                0 => a[0] + a[1],
                1 => a[0] - a[1],
                _ => a[0] * a[1],
            })),
            Op::Div(x, y, checked) => {
                let g = get!(*x, *y);
                if let Ok(a) = known(&g) {
                    e.loose |= a[0].is_zero() && a[1].is_zero();
                }
                put!(e, g, false, |a| match a[1].inv() {
                    Some(i) if !a[1].is_zero() => Some(a[0] * i),
                    _ if a[0].is_zero() && !checked => Some(T::zero()),
                    _ => None,
                })
            }
            Op::Neg(x) => put!(e, get!(*x), true, |a| Some(-a[0])),
            Op::Inverse(x) => put!(e, get!(*x), false, |a| if a[0].is_zero() { None } else { a[0].inv() }),
            Op::Bool(f, x, y) => {
                let g = get!(*x, *y);
                bits.push(v.len());
                put!(e, g, false, |a| {
                    let b: Vec<bool> = a.iter().map(|x| *x == T::one()).collect();
                    if a.iter().any(|x| !x.is_zero() && *x != T::one()) {
                        return None;
                    }
                    Some(T::from(match f {
                        0 => b[0] ^ b[1],
                        1 => b[0] | b[1],
                        _ => b[0] & b[1],
                    } as u32))
                })
            }
            Op::IsZero(x) => {
                let g = get!(*x);
                bits.push(v.len());
                put!(e, g, false, |a| Some(T::from(a[0].is_zero() as u32)))
            }
            Op::Bits(x, n) => {
                let g = get!(*x);
                bits.extend(v.len()..v.len() + n);
                for i in 0..*n {
                    put!(e, g, false, |a| to_bits(a[0], *n).map(|b| b[i]));
                }
            }
            Op::FromBits(n) => {
                let g: Vec<V<T>> = bits.iter().take(*n).map(|i| v[*i]).collect();
                put!(e, g, true, |a| Some(a.iter().rev().fold(T::zero(), |s, b| s + s + *b)))
            }
            Op::AssertZero(x) => check!(get!(*x), |a| a[0].is_zero()),
            Op::AssertSame(x, y) => check!(get!(*x, *y), |a| a[0] == a[1]),
            // the inverse is a hint
            Op::AssertNonZero(x) => {
                let g = get!(*x);
                e.random_hint |= matches!(known(&g), Err(V::Random));
                check!(g, |a| !a[0].is_zero())
            }
            Op::AssertDifferent(x, y) => {
                let g = get!(*x, *y);
                e.random_hint |= matches!(known(&g), Err(V::Random));
                check!(g, |a| a[0] != a[1])
            }
            Op::AssertBool(x) => check!(get!(*x), |a| a[0].is_zero() || a[0] == T::one()),
            Op::Hint(h, x, n) => {
                let g: Vec<V<T>> = x.iter().map(|a| v[at(*a, v.len(), &bits)]).collect();
                for i in 0..*n {
                    put!(e, g, false, |a| Some(hint_fn(h + 1, a, *n)[i]));
                }
            }
            Op::Const(c) => v.push(V::Is(T::from(*c))),
            Op::Random => v.push(if e.draw { V::Is(drawn()) } else { V::Random }),
            Op::Un(f, x, y) => put!(e, get!(*x, *y), false, |a| match f {
                0 => Some(a[0] + a[1]),
                1 => Some(a[0] * a[1]),
                2 => Some(a[0]),
                n => binop(&UN[*n - 3], a[0], a[1]),
            }),
            Op::Compare(strict, x, y) => {
                let g = get!(*x, *y);
                bits.push(v.len());
                put!(e, g, false, |a| {
                    let (x, y) = (a[0].to_u256(), a[1].to_u256());
                    Some(T::from(if *strict { x > y } else { x >= y } as u32))
                })
            }
            Op::Call(f, x, k) => {
                let x: Vec<V<T>> = x.iter().map(|a| v[at(*a, v.len(), &bits)]).collect();
                let k = if *f < 4 { 0 } else { *k };
                let x = if *f == 7 { vec![x[0], x[x.len() - 1]] } else { x };
                let o = model(prg, *f, x, k, e);
                match f {
                    7 => v.push(o[0]),
                    8 => {}
                    _ => v.extend(o),
                }
            }
        }
    }
    body.outs.iter().map(|o| v[v.len() - 1 - o % v.len()]).collect()
}

// ---------------------------------------------------------------- generation

fn gen<C: Config>() -> Prg {
    let calls = [0, 150, 350][choose_usize(3)];
    let konst = [30, 200][choose_usize(2)];
    let size = [4, 10, 20][choose_usize(3)];
    let helped = flip(800);
    let random = flip(60);
    let compare = flip(15) && [32usize, 31, 256].contains(&F::<C>::FIELD_SIZE);
    let mut cost = [0usize; SUBS + 1];
    let mut bodies = vec![];
    for b in (0..=SUBS).rev() {
        let var = || A::Var(if flip(500) { choose_usize(4) } else { choose_usize(40) });
        let any = || if flip(konst) { A::Const([0, 1, 2, 5, u32::MAX][choose_usize(5)]) } else { var() };
        let bit = || {
            if flip(konst / 2) {
                A::Const(choose(2) as u32)
            } else if flip(950) {
                A::Bit(choose_usize(30))
            } else {
                var()
            }
        };
        let mut ops = vec![Op::IsZero(var())];
        let n = range(1, if b == 0 { size * 2 } else { size });
        for _ in 0..n {
            if b < SUBS && flip(calls) {
                let f = range(b + 1, SUBS);
                if cost[b] + cost[f] < 300 {
                    cost[b] += cost[f];
                    let x = (0..range(1, 4)).map(|_| var()).collect();
                    ops.push(Op::Call(f, x, choose(3) as u32));
                }
                continue;
            }
            cost[b] += 1;
            let op = match choose(22) {
                0..=5 => Op::Bin(choose(3) as u8, any(), any()),
                6 if helped => Op::Div(any(), any(), flip(500)),
                7 => Op::Neg(any()),
                8 if helped => Op::Inverse(any()),
                9 | 10 => Op::Bool(choose(3) as u8, bit(), bit()),
                11 if helped => Op::IsZero(any()),
                12 if helped => {
                    let m = max_bits::<C>();
                    if m < 40 && flip(300) {
                        Op::Bits(any(), m)
                    } else {
                        Op::Bits(bit(), range(1, 3.min(m)))
                    }
                }
                13 => Op::FromBits(choose_usize(5)),
                14 => {
                    let x = var();
                    match choose(4) {
                        0 => Op::AssertSame(x, x),
                        1 => {
                            ops.push(Op::Bin(1, x, x));
                            Op::AssertZero(A::Var(0))
                        }
                        2 if flip(200) => Op::AssertZero(any()),
                        _ => {
                            ops.push(Op::IsZero(x));
                            ops.push(Op::Bin(2, A::Var(0), A::Var(1)));
                            Op::AssertBool(A::Bit(choose_usize(30)))
                        }
                    }
                }
                15 if helped => {
                    if flip(500) {
                        Op::AssertNonZero(any())
                    } else {
                        Op::AssertDifferent(any(), any())
                    }
                }
                16 => Op::AssertBool(bit()),
                17 => Op::Hint(choose_usize(3), (0..range(1, 3)).map(|_| var()).collect(), range(1, 3)),
                18 => Op::Const([0, 1, 3, 77][choose_usize(4)]),
                19 if random => Op::Random,
                20 if compare => Op::Compare(flip(500), any(), any()),
                _ => Op::Un(choose_usize(20), any(), any()),
            };
            ops.push(op);
        }
        let outs = (0..if b == 0 || b == 7 { range(1, 4) } else { choose_usize(4) }).map(|_| choose_usize(20)).collect();
        bodies.push(Body { ops, outs });
    }
    bodies.reverse();
    Prg(Arc::new(bodies))
}

fn fill<T: Clone>(prg: &Prg, nv: usize, nw: &[usize], mut f: impl FnMut() -> T) -> Cir<T> {
    Cir {
        a: f(),
        v: (0..nv).map(|_| f()).collect(),
        p: f(),
        m: [[f(), f()], [f(), f()], [f(), f()]],
        q: [f(), f()],
        w: nw.iter().map(|n| (0..*n).map(|_| f()).collect()).collect(),
        prg: prg.clone(),
    }
}

pub fn front() {
    with_config!(choose_usize(5), C => run::<C>());
}
fn run<C: Config>() {
    let prg = gen::<C>();
    let nv = choose_usize(4);
    let nw: Vec<usize> = (0..choose_usize(3)).map(|_| choose_usize(3)).collect();
    let cir = fill(&prg, nv, &nw, Variable::default);
    let bits = flip(600);
    let ins: Vec<Cir<F<C>>> = (0..range(2, 5)).map(|_| fill(&prg, nv, &nw, || if bits { F::<C>::from(choose(2) as u32) } else { small() })).collect();
    let evs: Vec<Eval<F<C>>> = ins
        .iter()
        .map(|c| {
            let with = |draw: bool| {
                let mut e = Eval::new();
                e.draw = draw;
                let x: Vec<V<F<C>>> = inputs_of(c).into_iter().map(V::Is).collect();
                e.outs = model(&prg, 0, x, 0, &mut e);
                e.random |= e.outs.iter().any(|o| matches!(o, V::Random));
                e
            };
            settle(with(false), || with(true))
        })
        .collect();
    let what = format!("front end, modulus {}", F::<C>::MODULUS);
    simrt::log(|| format!("{what}\n{prg:#?}"));
    oracle();
    for (c, e) in ins.iter().zip(&evs) {
        if e.undef || e.random || e.random_hint {
            continue;
        }
        match attempt(|| extra::debug_eval::<C, Cir<Variable>, Cir<F<C>>, _>(&cir, c, registry::<C>())) {
            Ok(o) => {
                if !e.sat {
                    bad!(P, "debug run misses a violated assertion: ({what})");
                } else if o.iter().zip(&e.outs).any(|(a, b)| *b != V::Is(*a) && *b != V::Random) || o.len() != e.outs.len() {
                    bad!(P, "debug run wrong: {o:?}, the program says {:?} ({what})", e.outs);
                }
            }
            Err(m) => {
                if e.sat {
                    bad!(P, "debug run fails: {m} ({what})");
                }
            }
        }
    }
    if flip(350) {
        check::<C, CrossLayerInputType>(&cir, &ins, &evs, &what);
    } else {
        check::<C, NormalInputType>(&cir, &ins, &evs, &what);
    }
}

/// Compiles through the front end.
pub trait FrontKind: Kind {
    fn compile<C: Config>(c: &Cir<Variable>, o: frontend::CompileOptions) -> Result<(frontend::WitnessSolver<C>, expander_compiler::circuit::layered::Circuit<C, Self>), Error>;
}
impl FrontKind for NormalInputType {
    fn compile<C: Config>(c: &Cir<Variable>, o: frontend::CompileOptions) -> Result<(frontend::WitnessSolver<C>, expander_compiler::circuit::layered::Circuit<C, Self>), Error> {
        frontend::compile::<C, _>(c, o).map(|r| (r.witness_solver, r.layered_circuit))
    }
}
impl FrontKind for CrossLayerInputType {
    fn compile<C: Config>(c: &Cir<Variable>, o: frontend::CompileOptions) -> Result<(frontend::WitnessSolver<C>, expander_compiler::circuit::layered::Circuit<C, Self>), Error> {
        frontend::compile_cross_layer::<C, _>(c, o).map(|r| (r.witness_solver, r.layered_circuit))
    }
}

/// C12: a program and how to compile it.
pub fn maker() -> std::sync::Arc<dyn Fn() -> super::c12::Made> {
    with_config!(choose_usize(5), C => maker_in::<C>())
}
fn maker_in<C: Config>() -> std::sync::Arc<dyn Fn() -> super::c12::Made> {
    let prg = gen::<C>();
    let nv = choose_usize(4);
    let nw: Vec<usize> = (0..choose_usize(3)).map(|_| choose_usize(3)).collect();
    let cir = fill(&prg, nv, &nw, Variable::default);
    let opts = c13::options();
    let cross = flip(350);
    simrt::log(|| format!("{opts:?} cross-layer {cross} modulus {}\n{prg:#?}", F::<C>::MODULUS));
    std::sync::Arc::new(move || {
        if cross {
            super::c12::made(attempt(|| CrossLayerInputType::compile::<C>(&cir, opts.clone()).map_err(|e| format!("{e:?}"))))
        } else {
            super::c12::made(attempt(|| NormalInputType::compile::<C>(&cir, opts.clone()).map_err(|e| format!("{e:?}"))))
        }
    })
}

/// C15: assignments given as circuits, one at a time and together, with and without hints.
pub fn modes() {
    with_config!(choose_usize(5), C => modes_in::<C>());
}
fn modes_in<C: Config>() {
    use internal::DumpLoadTwoVariables;
    const P: &str = "C15";
    let prg = gen::<C>();
    let nv = choose_usize(4);
    let nw: Vec<usize> = (0..choose_usize(3)).map(|_| choose_usize(3)).collect();
    let cir = fill(&prg, nv, &nw, Variable::default);
    let n = [1, 2, 3, 8, 9, 16, 17, 19][choose_usize(8)];
    let ins: Vec<Cir<F<C>>> = (0..n).map(|_| fill(&prg, nv, &nw, small)).collect();
    let what = format!("assignments, modulus {}", F::<C>::MODULUS);
    simrt::log(|| format!("{what}\n{prg:#?}"));
    let opts = c13::options();
    let Ok(Ok((solver, lc))) = attempt(|| <NormalInputType as FrontKind>::compile::<C>(&cir, opts)) else { return };
    oracle();
    let reg = registry::<C>();
    let raw: Vec<_> = ins
        .iter()
        .map(|c| {
            let (mut x, mut p) = (vec![], vec![]);
            c.dump_into(&mut x, &mut p);
            (x, p)
        })
        .collect();
    for hinted in [true, false] {
        let what = format!("{what}, hints known: {hinted}");
        let one = |k: usize| if hinted { solver.solve_witness_with_hints(&ins[k], &reg) } else { solver.solve_witness(&ins[k]) };
        let alone: Vec<_> = (0..n).map(|k| attempt(|| one(k))).collect();
        if let Some(Err(m)) = alone.iter().find(|a| a.is_err()) {
            bad!(P, "panic: one assignment: {m} ({what})");
            return;
        }
        let alone: Vec<_> = alone.into_iter().map(|a| a.unwrap_or_else(|_| unreachable!())).collect();
        for (k, a) in alone.iter().enumerate() {
            let (x, p) = raw[k].clone();
            let r = if hinted { solver.solve_witness_from_raw_inputs(x, p, &reg) } else { solver.solve_witness_from_raw_inputs(x, p, &extra::EmptyHintCaller::new()) };
            let same = match (a, &r) {
                (Ok(a), Ok(r)) => a.iter_scalar().eq(r.iter_scalar()) && a.iter_scalar().next().map(|w| w.1) == Some(raw[k].1.clone()),
                (Err(a), Err(r)) => format!("{a:?}") == format!("{r:?}"),
                _ => false,
            };
            if !same {
                bad!(P, "assignment and raw inputs differ: ({what})");
                return;
            }
        }
        let together = attempt(|| if hinted { solver.solve_witnesses_with_hints(&ins, &reg) } else { solver.solve_witnesses(&ins) });
        match together {
            Err(m) => bad!(P, "panic: {n} assignments: {m} ({what})"),
            Ok(Err(e)) => {
                if alone.iter().all(|a| a.is_ok()) {
                    bad!(P, "fails together: {e:?} ({what})");
                }
            }
            Ok(Ok(w)) => {
                if let Some(Err(e)) = alone.iter().find(|a| a.is_err()) {
                    bad!(P, "error lost: {e:?} ({what})");
                    return;
                }
                simrt::probe("together");
                let expected: Vec<_> = alone.iter().map(|a| a.as_ref().ok().and_then(|w| w.iter_scalar().next())).collect();
                super::c15::whole::<C>(&w, &expected, &what);
                // a verdict per instance, equal to the one it gets alone
                let v = lc.run(&w);
                for (k, a) in alone.iter().enumerate() {
                    if v.len() != n || a.as_ref().is_ok_and(|a| v[k] != lc.run(a)[0] && v[k] != lc.run(a)[0]) {
                        bad!(P, "wrong verdict: instance {k} ({what})");
                        return;
                    }
                }
            }
        }
    }
}

fn check<C: Config, I: FrontKind>(cir: &Cir<Variable>, ins: &[Cir<F<C>>], evs: &[Eval<F<C>>], what: &str) {
    use internal::DumpLoadTwoVariables;
    let opts = c13::options();
    let what = format!("{what} {opts:?} cross-layer {}", I::CROSS);
    let raw: Vec<(Vec<F<C>>, Vec<F<C>>)> = ins
        .iter()
        .map(|c| {
            let (mut x, mut p) = (vec![], vec![]);
            c.dump_into(&mut x, &mut p);
            (x, p)
        })
        .collect();
    let sat = evs.iter().any(|e| e.defined() && e.sat);
    let (solver, lc) = match attempt(|| I::compile::<C>(cir, opts)) {
        // assertions on constants are checked at once
        Err(m) => {
            if sat || !["failed", "division by zero", "too large"].iter().any(|r| m.contains(r)) {
                bad!(S, "front end panics: {m} ({what})");
            }
            return;
        }
        Ok(Err(m)) => {
            c13::refusal(&m, c13::meaning(evs, &raw), true, &what);
            return;
        }
        Ok(Ok(r)) => r,
    };
    simrt::probe("compiled");
    let Some(flat) = c13::structure_of(&lc, &what) else { return };
    let reg = registry::<C>();
    for (c, ((x, p), e)) in ins.iter().zip(raw.iter().zip(evs)) {
        c13::meaning_of::<C, I>(e, x, p, &solver, &reg, &lc, &flat, &what);
        let a = attempt(|| solver.solve_witness_with_hints(c, &reg));
        let b = attempt(|| solver.solve_witness_from_raw_inputs(x.clone(), p.clone(), &reg));
        if let (Ok(Ok(a)), Ok(Ok(b))) = (a, b) {
            if a.iter_scalar().collect::<Vec<_>>() != b.iter_scalar().collect::<Vec<_>>() {
                bad!(P, "assignment and raw inputs differ: ({what})");
            }
        }
    }
}
