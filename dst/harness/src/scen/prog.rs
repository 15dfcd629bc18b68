//! Random device programs: kernels, a script of context operations, a scalar reference
//! model, and an executor that performs the script on the real `Context`.
//!
//! The structure of a program (kernels and steps) is separate from its data (contents of the
//! uploads), so that one graph can be proven with several witnesses.
use expander_compiler::circuit::config::{CircuitField, Config, SIMDField};
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::{BasicAPI, Error, HintRegistry, RootAPI, Variable, API};
use expander_compiler::utils::error::Error as UErr;
use expander_compiler::zkcuda::context::{ComputationGraph, Context, DeviceMemoryHandle};
use expander_compiler::zkcuda::kernel::{compile_with_spec_and_shapes, IOVecSpec, KernelPrimitive};
use expander_compiler::zkcuda::shape::{Reshape, Transpose};
use arith::SimdField;
use simrt::{choose, choose_usize, flip, range};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub type F<C> = CircuitField<C>;
pub type S<C> = SIMDField<C>;

// ---------------------------------------------------------------- panics

/// Runs real code that may refuse by panicking. The simulator's own unwinding passes through.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<simrt::SimAbort>() || e.is::<simrt::ProcExit>() {
                resume_unwind(e);
            }
            Err(simrt::panic_text(&*e))
        }
    }
}

// ---------------------------------------------------------------- kernels

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Const(u32),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    AddC(usize, u32),
    MulC(usize, u32),
    Neg(usize),
    Div(usize, usize, bool),
    IsZero(usize),
    /// product of its two inputs, off by one where both equal the marker
    HMul(usize, usize),
    /// `k` mixtures of its inputs
    HMix(Vec<usize>, usize),
    /// a memorised sub-circuit: (a*b+a, a-b)
    Sub2(usize, usize),
    /// a memorised sub-circuit that contains a hint and a constraint: returns a*b
    SubH(usize, usize),
    Eq(usize, usize),
    NonZero(usize),
    Bool(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Io {
    pub shape: Vec<usize>,
    pub inp: bool,
    pub out: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct KDef {
    pub ios: Vec<Io>,
    pub ops: Vec<Op>,
    /// variable assigned to each element of each output
    pub outs: Vec<Vec<usize>>,
}
pub fn len(shape: &[usize]) -> usize {
    shape.iter().product()
}
/// In this field the marker makes the hint `sim.mul` wrong, so that the kernel's constraint fails.
pub const MARK: u32 = 7;

fn fu<T: FieldArith>(x: u32) -> T {
    T::from(x)
}
static HINT_FAULTS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Injected hint failures so far (only differences mean anything).
pub fn hint_faults() -> u64 {
    HINT_FAULTS.load(std::sync::atomic::Ordering::SeqCst)
}
fn gate() -> Result<(), UErr> {
    simrt::yield_now();
    if simrt::fault("hint.error") {
        HINT_FAULTS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        return Err(UErr::UserError("injected hint failure".into()));
    }
    Ok(())
}
fn hmul_val<T: FieldArith + PartialEq>(a: T, b: T) -> T {
    let m = fu::<T>(MARK);
    // two-element fields have no spare value for a marker
    if a == m && b == m && m != T::one() {
        a * b + T::one()
    } else {
        a * b
    }
}
fn hmix_val<T: FieldArith>(x: &[T], i: usize) -> T {
    let mut s = fu::<T>(3 + i as u32);
    for (j, v) in x.iter().enumerate() {
        s = s + *v * fu::<T>((i * 2 + j + 1) as u32) + *v * *v;
    }
    s
}
pub fn hints<C: Config>() -> HintRegistry<F<C>> {
    let mut h = HintRegistry::new();
    h.register("sim.mul", |x, y| {
        gate()?;
        y[0] = hmul_val(x[0], x[1]);
        Ok(())
    });
    h.register("sim.mix", |x, y| {
        gate()?;
        for (i, v) in y.iter_mut().enumerate() {
            *v = hmix_val(x, i);
        }
        Ok(())
    });
    h
}
fn sub2<C: Config, B: RootAPI<C>>(api: &mut B, x: &Vec<Variable>) -> Vec<Variable> {
    let p = api.mul(x[0], x[1]);
    let p = api.add(p, x[0]);
    let q = api.sub(x[0], x[1]);
    vec![p, q]
}
fn subh<C: Config, B: RootAPI<C>>(api: &mut B, x: &Vec<Variable>) -> Vec<Variable> {
    let h = api.new_hint("sim.mul", &[x[0], x[1]], 1)[0];
    let p = api.mul(x[0], x[1]);
    api.assert_is_equal(h, p);
    vec![h]
}

impl KDef {
    pub fn n_in(&self) -> usize {
        self.ios.iter().filter(|x| x.inp).map(|x| len(&x.shape)).sum()
    }
    pub fn has_hints(&self) -> bool {
        self.ops.iter().any(|o| matches!(o, Op::HMul(..) | Op::HMix(..) | Op::SubH(..) | Op::Div(..) | Op::IsZero(_) | Op::NonZero(_)))
    }
    /// All values of one instance in one lane, and whether every constraint holds.
    pub fn eval<T: FieldArith + PartialEq>(&self, inputs: &[T]) -> (Vec<T>, bool) {
        let (v, ok, _) = self.eval_where(inputs);
        (v, ok)
    }
    fn eval_where<T: FieldArith + PartialEq>(&self, inputs: &[T]) -> (Vec<T>, bool, Vec<T>) {
        let mut v: Vec<T> = inputs.to_vec();
        let mut ok = true;
        let mut asserted = vec![];
        for o in &self.ops {
            match o {
                Op::Const(c) => v.push(fu(*c)),
                Op::Add(a, b) => v.push(v[*a] + v[*b]),
                Op::Sub(a, b) => v.push(v[*a] - v[*b]),
                Op::Mul(a, b) => v.push(v[*a] * v[*b]),
                Op::AddC(a, c) => v.push(v[*a] + fu::<T>(*c)),
                Op::MulC(a, c) => v.push(v[*a] * fu::<T>(*c)),
                Op::Neg(a) => v.push(-v[*a]),
                Op::Div(a, b, checked) => match v[*b].inv() {
                    Some(i) if !v[*b].is_zero() => v.push(v[*a] * i),
                    _ => {
                        if *checked || !v[*a].is_zero() {
                            ok = false;
                        }
                        v.push(T::zero())
                    }
                },
                Op::IsZero(a) => v.push(fu(v[*a].is_zero() as u32)),
                Op::HMul(a, b) => v.push(hmul_val(v[*a], v[*b])),
                Op::HMix(x, k) => {
                    let xs: Vec<T> = x.iter().map(|i| v[*i]).collect();
                    for i in 0..*k {
                        v.push(hmix_val(&xs, i));
                    }
                }
                Op::Sub2(a, b) => {
                    let (a, b) = (v[*a], v[*b]);
                    v.push(a * b + a);
                    v.push(a - b);
                }
                Op::SubH(a, b) => {
                    let h = hmul_val(v[*a], v[*b]);
                    ok &= h == v[*a] * v[*b];
                    v.push(h);
                }
                Op::Eq(a, b) => {
                    let d = v[*a] - v[*b];
                    ok &= d.is_zero();
                    asserted.push(d);
                }
                Op::NonZero(a) => {
                    ok &= !v[*a].is_zero();
                    asserted.push(v[*a]);
                }
                Op::Bool(a) => {
                    let d = v[*a] * (v[*a] - T::one());
                    ok &= d.is_zero();
                    asserted.push(d);
                }
            }
        }
        (v, ok, asserted)
    }
    pub fn compile<C: Config>(&self) -> Result<KernelPrimitive<C>, Error> {
        let specs: Vec<IOVecSpec> =
            self.ios.iter().map(|i| IOVecSpec { len: len(&i.shape), is_input: i.inp, is_output: i.out }).collect();
        let shapes: Vec<Vec<usize>> = self.ios.iter().map(|i| i.shape.clone()).collect();
        compile_with_spec_and_shapes::<C, _>(|api: &mut API<C>, io: &mut Vec<Vec<Variable>>| self.define(api, io), &specs, &shapes)
    }
    fn define<C: Config>(&self, api: &mut API<C>, io: &mut [Vec<Variable>]) {
        let mut v: Vec<Variable> = vec![];
        for (s, x) in self.ios.iter().zip(io.iter()) {
            if s.inp {
                v.extend(x.iter().copied());
            }
        }
        for o in &self.ops {
            match o {
                Op::Const(c) => v.push(api.constant(*c)),
                Op::Add(a, b) => v.push(api.add(v[*a], v[*b])),
                Op::Sub(a, b) => v.push(api.sub(v[*a], v[*b])),
                Op::Mul(a, b) => v.push(api.mul(v[*a], v[*b])),
                Op::AddC(a, c) => v.push(api.add(v[*a], *c)),
                Op::MulC(a, c) => v.push(api.mul(*c, v[*a])),
                Op::Neg(a) => v.push(api.neg(v[*a])),
                Op::Div(a, b, c) => {
                    // a division nobody uses may be dropped together with its condition
                    let q = api.div(v[*a], v[*b], *c);
                    let p = api.mul(q, v[*b]);
                    api.assert_is_equal(p, v[*a]);
                    v.push(q)
                }
                Op::IsZero(a) => v.push(api.is_zero(v[*a])),
                Op::HMul(a, b) => v.extend(api.new_hint("sim.mul", &[v[*a], v[*b]], 1)),
                Op::HMix(x, k) => {
                    let xs: Vec<Variable> = x.iter().map(|i| v[*i]).collect();
                    v.extend(api.new_hint("sim.mix", &xs, *k))
                }
                Op::Sub2(a, b) => {
                    let r = api.memorized_simple_call(sub2::<C, API<C>>, &[v[*a], v[*b]]);
                    v.extend(r)
                }
                Op::SubH(a, b) => {
                    let r = api.memorized_simple_call(subh::<C, API<C>>, &[v[*a], v[*b]]);
                    v.extend(r)
                }
                Op::Eq(a, b) => api.assert_is_equal(v[*a], v[*b]),
                Op::NonZero(a) => api.assert_is_non_zero(v[*a]),
                Op::Bool(a) => api.assert_is_bool(v[*a]),
            }
        }
        for (i, s) in self.ios.iter().enumerate() {
            if s.out {
                for (j, x) in self.outs[i].iter().enumerate() {
                    io[i][j] = v[*x];
                }
            }
        }
    }
}

/// What kernels a program may contain.
#[derive(Clone, Copy)]
pub struct KOpts {
    pub hints: bool,
    /// constraints that may fail on some data
    pub may_fail: bool,
    pub max_ops: usize,
    /// arithmetic only (no division, zero test, assertion)
    pub plain: bool,
}

pub fn gen_kernel<T: FieldArith + PartialEq>(ios: Vec<Io>, o: KOpts) -> KDef {
    let n_in: usize = ios.iter().filter(|x| x.inp).map(|x| len(&x.shape)).sum();
    let mut k = KDef { ios, ops: vec![], outs: vec![] };
    let mut n = n_in;
    let konst = vec![false; n_in];
    let mut konst = konst;
    if n == 0 {
        k.ops.push(Op::Const(5));
        konst.push(true);
        n = 1;
    }
    let nops = range(0, o.max_ops);
    for _ in 0..nops {
        // later variables preferred, so that chains become deep
        let pick = || {
            if flip(600) {
                n - 1 - choose_usize(n.min(4))
            } else {
                choose_usize(n)
            }
        };
        let (a, b) = (pick(), pick());
        let kk = if o.plain { choose(8) } else { choose(16) };
        let op = match kk {
            0 | 1 => Op::Add(a, b),
            2 | 3 => Op::Mul(a, b),
            4 => Op::Sub(a, b),
            5 => Op::AddC(a, 1 + choose(9) as u32),
            6 => Op::MulC(a, choose(6) as u32),
            7 => [Op::Neg(a), Op::Const(choose(9) as u32)][choose_usize(2)].clone(),
            8 => Op::Sub2(a, b),
            9 => Op::IsZero(a),
            10 if o.hints => Op::HMul(a, b),
            11 if o.hints => Op::HMix((0..range(1, 3)).map(|_| pick()).collect(), range(1, 3)),
            12 if o.hints && o.may_fail => Op::SubH(a, b),
            13 if o.may_fail => Op::Div(a, b, flip(400)),
            14 if o.may_fail && flip(300) => match choose(3) {
                0 => Op::Eq(a, b),
                1 => Op::NonZero(a),
                _ => Op::Bool(a),
            },
            15 if o.hints && o.may_fail => {
                k.ops.push(Op::HMul(a, b));
                k.ops.push(Op::Mul(a, b));
                konst.push(false);
                konst.push(konst[a] && konst[b]);
                n += 2;
                Op::Eq(n - 2, n - 1)
            }
            _ => Op::Add(a, b),
        };
        let (ks, made): (bool, usize) = match &op {
            Op::Const(_) => (true, 1),
            Op::HMix(_, k) => (false, *k),
            Op::HMul(..) => (false, 1),
            Op::Sub2(..) => (false, 2),
            Op::SubH(..) => (false, 1),
            Op::Eq(..) | Op::NonZero(_) | Op::Bool(_) => (false, 0),
            Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) | Op::Div(a, b, _) => (konst[*a] && konst[*b], 1),
            Op::AddC(a, _) | Op::MulC(a, _) | Op::Neg(a) | Op::IsZero(a) => (konst[*a], 1),
        };
        // a condition on a compile-time constant is a matter for the compiler's checks, not of data
        let cond_on_const = match &op {
            Op::Eq(a, b) => konst[*a] && konst[*b],
            Op::NonZero(a) | Op::Bool(a) => konst[*a],
            Op::Div(a, b, _) => konst[*b] || konst[*a],
            _ => false,
        };
        if cond_on_const {
            continue;
        }
        k.ops.push(op);
        if matches!(k.ops.last(), Some(Op::Eq(..) | Op::NonZero(_) | Op::Bool(_) | Op::Div(..))) && degenerate::<T>(&k, n_in) {
            k.ops.pop();
            continue;
        }
        for _ in 0..made {
            konst.push(ks);
        }
        n += made;
    }
    for io in &k.ios {
        let mut v = vec![];
        if io.out {
            for j in 0..len(&io.shape) {
                v.push(if flip(400) { n - 1 - (j % n.min(6)) } else { choose_usize(n) });
            }
        }
        k.outs.push(v);
    }
    k
}
/// Is the last condition's quantity (or divisor) the same for all data?
fn degenerate<T: FieldArith + PartialEq>(k: &KDef, n_in: usize) -> bool {
    let mut g = simrt::Rng::new(0x9e37 + k.ops.len() as u64);
    let mut seen: Option<T> = None;
    for _ in 0..12 {
        let x: Vec<T> = (0..n_in).map(|_| fu(g.below(1 << 20) as u32)).collect();
        let (v, _, a) = k.eval_where(&x);
        let q = match k.ops.last().unwrap() {
            Op::Div(_, b, _) => v[*b],
            _ => *a.last().unwrap(),
        };
        match seen {
            None => seen = Some(q),
            Some(s) if s != q => return false,
            _ => {}
        }
    }
    // the same everywhere: harmless only if it is a tautology
    !(matches!(k.ops.last(), Some(Op::Eq(..) | Op::Bool(_))) && seen.unwrap().is_zero())
}

// ---------------------------------------------------------------- scripts

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Scalar,
    Pack,
    Simd,
    Flat,
}
#[derive(Clone, Debug)]
pub enum Step {
    /// new view = new memory
    Upload { shape: Vec<usize>, how: How },
    Reshape { view: usize, shape: Vec<usize> },
    Transpose { view: usize, axes: Vec<usize> },
    /// slot holds the kernel at the time of the call; new views = outputs, in order
    Call { kernel: usize, slot: usize, np: usize, ins: Vec<Option<usize>> },
    Download { view: usize, how: How },
}
#[derive(Clone, Debug, Default)]
pub struct Script {
    pub kernels: Vec<KDef>,
    pub slots: usize,
    pub steps: Vec<Step>,
    /// shapes are chosen so that no layout can conflict
    pub legal: bool,
    pub transposes: bool,
    /// how likely the marker value is in the data
    pub mark_permille: u64,
}
/// Contents of the uploads, lane-major within each element.
#[derive(Clone, Debug, PartialEq)]
pub struct Data<T> {
    pub uploads: Vec<Vec<T>>,
}

#[derive(Clone, Copy)]
pub struct POpts {
    pub k: KOpts,
    pub max_calls: usize,
    pub max_elems: usize,
    pub transposes: bool,
    /// 0: powers of two, 1: mixed factors, 2: arbitrary (layout conflicts possible)
    pub mode: u64,
    pub downloads: bool,
    pub max_np: usize,
    pub mark_permille: u64,
    /// every kernel has an output (else input-only kernels occur)
    pub max_dims: usize,
}

#[derive(Clone)]
struct VS {
    mem: usize,
    shape: Vec<usize>,
    /// fine factors in view order and how many of them each dimension takes
    fine: Vec<usize>,
    groups: Vec<usize>,
    transposed: bool,
}
impl VS {
    fn head(&self) -> &[usize] {
        &self.fine[..self.groups.first().copied().unwrap_or(0)]
    }
}

fn split_factors(mut x: usize, mode: u64) -> Vec<usize> {
    let mut f = vec![];
    let mut p = 2;
    while x > 1 {
        while x % p == 0 {
            f.push(p);
            x /= p;
        }
        p += 1;
    }
    // random order, and sometimes coarser
    for i in (1..f.len()).rev() {
        f.swap(i, choose_usize(i + 1));
    }
    if mode != 0 && f.len() > 1 && flip(200) {
        let b = f.pop().unwrap();
        *f.last_mut().unwrap() *= b;
    }
    f
}
fn dim(mode: u64, max: usize) -> usize {
    let c: &[usize] = if mode == 0 { &[2, 1, 4, 8] } else { &[2, 3, 1, 4, 5, 6, 8, 7, 9] };
    let v: Vec<usize> = c.iter().copied().filter(|x| *x <= max.max(1)).collect();
    v[choose_usize(v.len())]
}
/// A parallel count up to the maximum, beyond the small ones.
fn wide(mode: u64, max: usize) -> usize {
    let c: &[usize] = if mode == 0 { &[8, 16, 32, 64, 256, 512] } else { &[8, 13, 16, 17, 32, 40, 64, 255, 257, 300, 512, 600] };
    let v: Vec<usize> = c.iter().copied().filter(|x| *x <= max && x * 3 >= max).collect();
    if v.is_empty() {
        1
    } else {
        v[choose_usize(v.len())]
    }
}
fn gen_shape(mode: u64, max: usize, max_dims: usize) -> Vec<usize> {
    let nd = choose_usize(max_dims + 1);
    let mut s = vec![];
    let mut left = max;
    for _ in 0..nd {
        let d = dim(mode, left);
        left /= d;
        s.push(d);
    }
    s
}

pub fn gen_script<T: FieldArith + PartialEq>(o: POpts) -> Script {
    let mut sc = Script { legal: o.mode != 2, mark_permille: o.mark_permille, transposes: o.transposes, ..Default::default() };
    let mut views: Vec<VS> = vec![];
    let mut mems = 0;
    let mut slot_kernel: Vec<usize> = vec![];
    let calls = range(1, o.max_calls);
    let upload = |sc: &mut Script, views: &mut Vec<VS>, mems: &mut usize, shape: Vec<usize>, fine: Vec<Vec<usize>>| -> usize {
        let how = match choose(4) {
            0 => How::Scalar,
            1 => How::Pack,
            2 => How::Simd,
            _ if shape.len() == 2 => How::Flat,
            _ => How::Simd,
        };
        sc.steps.push(Step::Upload { shape: shape.clone(), how });
        views.push(VS { mem: *mems, shape, groups: fine.iter().map(|x| x.len()).collect(), fine: fine.concat(), transposed: false });
        *mems += 1;
        views.len() - 1
    };
    for _ in 0..calls {
        // shuffle some views around
        for _ in 0..choose(3) {
            if views.is_empty() {
                break;
            }
            let vi = choose_usize(views.len());
            let v = views[vi].clone();
            if o.transposes && v.shape.len() > 1 && flip(400) {
                let mut axes: Vec<usize> = (0..v.shape.len()).collect();
                for i in (1..axes.len()).rev() {
                    axes.swap(i, choose_usize(i + 1));
                }
                let mut off = vec![0];
                for g in &v.groups {
                    off.push(off.last().unwrap() + g);
                }
                let fine: Vec<usize> = axes.iter().flat_map(|a| v.fine[off[*a]..off[*a + 1]].to_vec()).collect();
                views.push(VS {
                    mem: v.mem,
                    shape: axes.iter().map(|a| v.shape[*a]).collect(),
                    groups: axes.iter().map(|a| v.groups[*a]).collect(),
                    fine,
                    transposed: true,
                });
                sc.steps.push(Step::Transpose { view: vi, axes });
            } else {
                let nv = regroup(&v, o.mode);
                if nv.shape.len() > 4 {
                    continue;
                }
                sc.steps.push(Step::Reshape { view: vi, shape: nv.shape.clone() });
                views.push(nv);
            }
        }
        // parallel dimension, as a sequence of factors
        let pf: Vec<usize> = {
            let cand: Vec<usize> = (0..views.len()).filter(|i| !views[*i].shape.is_empty() && views[*i].shape[0] <= o.max_np).collect();
            if !cand.is_empty() && flip(600) {
                views[cand[choose_usize(cand.len())]].head().to_vec()
            } else {
                split_factors([1, 2, 4, dim(o.mode, o.max_np), dim(o.mode, o.max_np), wide(o.mode, o.max_np)][choose_usize(6)], o.mode)
            }
        };
        let np = len(&pf);
        // kernel: an existing one, or one made for what there is
        let reuse = !slot_kernel.is_empty() && flip(500);
        let (slot, kid) = if reuse {
            let s = choose_usize(slot_kernel.len());
            (s, slot_kernel[s])
        } else {
            let nio = range(1, 4);
            let mut ios = vec![];
            for _ in 0..nio {
                // shape of an existing view's element, often
                let cand: Vec<&VS> =
                    views.iter().filter(|v| !v.shape.is_empty() && v.head() == &pf[..] && v.shape[0] == np && v.shape.len() <= 4).collect();
                let shape = if !cand.is_empty() && flip(600) {
                    cand[choose_usize(cand.len())].shape[1..].to_vec()
                } else {
                    gen_shape(o.mode, o.max_elems, o.max_dims)
                };
                let (inp, out) = [(true, false), (false, true), (true, true)][choose_usize(3)];
                ios.push(Io { shape, inp, out });
            }
            if !ios.iter().any(|x| x.out) && flip(700) {
                ios.last_mut().unwrap().out = true;
            }
            if !ios.iter().any(|x| x.inp) {
                ios[0].inp = true;
            }
            let k = gen_kernel::<T>(ios, o.k);
            sc.kernels.push(k);
            let kid = sc.kernels.len() - 1;
            let s = if slot_kernel.is_empty() || flip(500) {
                slot_kernel.push(kid);
                slot_kernel.len() - 1
            } else {
                let s = choose_usize(slot_kernel.len());
                slot_kernel[s] = kid;
                s
            };
            (s, kid)
        };
        let k = sc.kernels[kid].clone();
        let mut ins = vec![];
        let mut any_par = k.ios.iter().any(|x| x.out);
        let last_in = k.ios.iter().rposition(|x| x.inp);
        for (i, io) in k.ios.iter().enumerate() {
            if !io.inp {
                ins.push(None);
                continue;
            }
            let must_par = io.out || (!any_par && Some(i) == last_in && !flip(100));
            let bcast = !must_par && flip(300);
            any_par |= !bcast;
            let mut want = io.shape.clone();
            if !bcast {
                want.insert(0, np);
            }
            let fits = |v: &VS| v.shape == want && (bcast || v.head() == &pf[..]);
            let cand: Vec<usize> = (0..views.len()).filter(|i| fits(&views[*i])).collect();
            // or a regrouping of an existing view
            let total = len(&want);
            let re: Vec<VS> = views
                .iter()
                .filter(|v| len(&v.shape) == total && !fits(v) && (bcast || v.fine.starts_with(&pf)))
                .filter_map(|v| group_as(v, &want, o.mode))
                .collect();
            let c = choose(10);
            let vi = if c < 6 && !cand.is_empty() {
                cand[choose_usize(cand.len())]
            } else if c < 9 && !re.is_empty() {
                let nv = re[choose_usize(re.len())].clone();
                let src = views.iter().rposition(|v| v.mem == nv.mem && v.fine == nv.fine && v.transposed == nv.transposed).unwrap();
                sc.steps.push(Step::Reshape { view: src, shape: nv.shape.clone() });
                views.push(nv);
                views.len() - 1
            } else {
                let mut fine: Vec<Vec<usize>> = io.shape.iter().map(|d| split_factors(*d, o.mode)).collect();
                if !bcast {
                    fine.insert(0, pf.clone());
                }
                upload(&mut sc, &mut views, &mut mems, want, fine)
            };
            ins.push(Some(vi));
        }
        sc.steps.push(Step::Call { kernel: kid, slot, np, ins });
        for io in &k.ios {
            if io.out {
                let mut shape = vec![np];
                shape.extend(&io.shape);
                let mut fine = vec![pf.clone()];
                fine.extend(io.shape.iter().map(|d| split_factors(*d, o.mode)));
                views.push(VS { mem: mems, shape, groups: fine.iter().map(|x| x.len()).collect(), fine: fine.concat(), transposed: false });
                mems += 1;
            }
        }
        if o.downloads && flip(500) && !views.is_empty() {
            let v = choose_usize(views.len());
            if views[v].shape.len() <= 4 {
                sc.steps.push(Step::Download { view: v, how: [How::Scalar, How::Pack, How::Simd][choose_usize(3)] });
            }
        }
    }
    if o.downloads {
        for v in 0..views.len() {
            if flip(300) && views[v].shape.len() <= 4 {
                sc.steps.push(Step::Download { view: v, how: [How::Scalar, How::Pack, How::Simd][choose_usize(3)] });
            }
        }
    }
    sc.slots = slot_kernel.len();
    sc
}
/// Another grouping of the same factors (mode 2: any factorisation of the length).
fn regroup(v: &VS, mode: u64) -> VS {
    if mode == 2 && flip(500) {
        let mut f = split_factors(len(&v.shape), 0);
        if f.is_empty() {
            f.push(1);
        }
        let mut shape = vec![];
        for x in f {
            if shape.is_empty() || (flip(500) && shape.len() < 4) {
                shape.push(x);
            } else {
                *shape.last_mut().unwrap() *= x;
            }
        }
        let groups = vec![1; shape.len()];
        return VS { mem: v.mem, fine: shape.clone(), shape, groups, transposed: v.transposed };
    }
    let mut shape = vec![];
    let mut groups = vec![];
    for (i, x) in v.fine.iter().enumerate() {
        if i == 0 || (flip(450) && shape.len() < 4) {
            shape.push(*x);
            groups.push(1);
        } else {
            *shape.last_mut().unwrap() *= x;
            *groups.last_mut().unwrap() += 1;
        }
    }
    // unit dimensions
    while shape.len() < 4 && (flip(120) || (shape.is_empty() && flip(500))) {
        let at = choose_usize(shape.len() + 1);
        shape.insert(at, 1);
        groups.insert(at, 0);
    }
    VS { mem: v.mem, fine: v.fine.clone(), shape, groups, transposed: v.transposed }
}
fn group_as(v: &VS, want: &[usize], mode: u64) -> Option<VS> {
    if mode == 2 && flip(300) {
        return Some(VS { mem: v.mem, fine: want.to_vec(), shape: want.to_vec(), groups: vec![1; want.len()], transposed: v.transposed })
            .filter(|_| false);
    }
    let mut groups = vec![];
    let mut i = 0;
    for w in want {
        let mut p = 1;
        let mut g = 0;
        while p < *w && i < v.fine.len() {
            p *= v.fine[i];
            i += 1;
            g += 1;
        }
        if p != *w {
            return None;
        }
        groups.push(g);
    }
    if i != v.fine.len() {
        return None;
    }
    Some(VS { mem: v.mem, fine: v.fine.clone(), shape: want.to_vec(), groups, transposed: v.transposed })
}

impl Script {
    pub fn n_calls(&self) -> usize {
        self.steps.iter().filter(|s| matches!(s, Step::Call { .. })).count()
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, k) in self.kernels.iter().enumerate() {
            s += &format!("kernel {i}: {k:?}\n");
        }
        for x in &self.steps {
            s += &format!("{x:?}\n");
        }
        s
    }
}

/// Random contents for the uploads: small values, with the marker now and then.
pub fn gen_data<C: Config>(sc: &Script) -> Data<F<C>> {
    let pack = S::<C>::PACK_SIZE;
    let mut uploads = vec![];
    let big = flip(300);
    let mut g = simrt::Rng::new(simrt::entropy());
    for s in &sc.steps {
        if let Step::Upload { shape, how } = s {
            let n = len(shape);
            let mut v = Vec::with_capacity(n * pack);
            for _ in 0..n {
                let one = |g: &mut simrt::Rng| {
                    if g.below(1000) < sc.mark_permille {
                        MARK
                    } else if big {
                        g.next() as u32
                    } else {
                        let x = g.below(12) as u32;
                        if x == MARK {
                            1
                        } else {
                            x
                        }
                    }
                };
                if *how == How::Scalar {
                    let x = one(&mut g);
                    v.extend((0..pack).map(|_| fu::<F<C>>(x)));
                } else {
                    v.extend((0..pack).map(|_| fu::<F<C>>(one(&mut g))));
                }
            }
            uploads.push(v);
        }
    }
    Data { uploads }
}

// ---------------------------------------------------------------- reference model

pub struct Trace<T> {
    /// value of every view: element-major, lanes within
    pub views: Vec<(Vec<usize>, Vec<T>)>,
    /// per call, per instance, per lane: constraints hold
    pub sat: Vec<Vec<Vec<bool>>>,
    /// memory of every view
    pub mem: Vec<usize>,
    /// plain contents of every memory
    pub mems: Vec<Vec<T>>,
    /// per call: the memories of its outputs
    pub outs: Vec<Vec<usize>>,
}
impl<T> Trace<T> {
    pub fn all_sat(&self) -> bool {
        self.sat.iter().all(|c| c.iter().all(|i| i.iter().all(|x| *x)))
    }
}

pub fn model<C: Config>(sc: &Script, d: &Data<F<C>>) -> Trace<F<C>> {
    let pack = S::<C>::PACK_SIZE;
    let mut t = Trace { views: vec![], sat: vec![], mem: vec![], mems: vec![], outs: vec![] };
    let mut up = 0;
    for s in &sc.steps {
        match s {
            Step::Upload { shape, .. } => {
                t.mem.push(t.mems.len());
                t.mems.push(d.uploads[up].clone());
                t.views.push((shape.clone(), d.uploads[up].clone()));
                up += 1;
            }
            Step::Reshape { view, shape } => {
                t.mem.push(t.mem[*view]);
                let v = t.views[*view].1.clone();
                t.views.push((shape.clone(), v));
            }
            Step::Transpose { view, axes } => {
                let (shape, v) = &t.views[*view];
                let ns: Vec<usize> = axes.iter().map(|a| shape[*a]).collect();
                let mut stride = vec![1; shape.len()];
                for i in (0..shape.len().saturating_sub(1)).rev() {
                    stride[i] = stride[i + 1] * shape[i + 1];
                }
                let mut nv = Vec::with_capacity(v.len());
                let mut idx = vec![0usize; ns.len()];
                for _ in 0..len(&ns) {
                    let p: usize = idx.iter().zip(axes).map(|(i, a)| i * stride[*a]).sum();
                    nv.extend_from_slice(&v[p * pack..(p + 1) * pack]);
                    for j in (0..ns.len()).rev() {
                        idx[j] += 1;
                        if idx[j] < ns[j] {
                            break;
                        }
                        idx[j] = 0;
                    }
                }
                t.mem.push(t.mem[*view]);
                t.views.push((ns, nv));
            }
            Step::Call { kernel, np, ins, .. } => {
                let k = &sc.kernels[*kernel];
                let mut outs: Vec<Vec<F<C>>> = k.ios.iter().map(|_| vec![]).collect();
                let mut sat = vec![];
                for p in 0..*np {
                    let mut lanes = vec![];
                    let mut ok = vec![];
                    for l in 0..pack {
                        let mut x = vec![];
                        for (io, i) in k.ios.iter().zip(ins) {
                            if let Some(i) = i {
                                let (shape, v) = &t.views[*i];
                                let n = len(&io.shape);
                                let base = if *shape == io.shape { 0 } else { p * n };
                                x.extend((0..n).map(|e| v[(base + e) * pack + l]));
                            }
                        }
                        let (v, o) = k.eval(&x);
                        lanes.push(v);
                        ok.push(o);
                    }
                    for (i, io) in k.ios.iter().enumerate() {
                        if io.out {
                            for x in &k.outs[i] {
                                outs[i].extend(lanes.iter().map(|v| v[*x]));
                            }
                        }
                    }
                    sat.push(ok);
                }
                t.sat.push(sat);
                let mut om = vec![];
                for (io, v) in k.ios.iter().zip(outs) {
                    if io.out {
                        let mut shape = vec![*np];
                        shape.extend(&io.shape);
                        om.push(t.mems.len());
                        t.mem.push(t.mems.len());
                        t.mems.push(v.clone());
                        t.views.push((shape, v));
                    }
                }
                t.outs.push(om);
            }
            Step::Download { .. } => {}
        }
    }
    t
}

// ---------------------------------------------------------------- execution on the real context

pub type Ctx<C> = Context<C, HintRegistry<F<C>>>;
pub fn new_ctx<C: Config>() -> Ctx<C> {
    Context::new(hints::<C>())
}

fn n1<T: Clone>(v: &[T]) -> Vec<T> {
    v.to_vec()
}
fn n2<T: Clone>(v: &[T], s: &[usize]) -> Vec<Vec<T>> {
    v.chunks(len(&s[1..])).map(n1).collect()
}
fn n3<T: Clone>(v: &[T], s: &[usize]) -> Vec<Vec<Vec<T>>> {
    v.chunks(len(&s[1..])).map(|x| n2(x, &s[1..])).collect()
}
fn n4<T: Clone>(v: &[T], s: &[usize]) -> Vec<Vec<Vec<Vec<T>>>> {
    v.chunks(len(&s[1..])).map(|x| n3(x, &s[1..])).collect()
}
fn n5<T: Clone>(v: &[T], s: &[usize]) -> Vec<Vec<Vec<Vec<Vec<T>>>>> {
    v.chunks(len(&s[1..])).map(|x| n4(x, &s[1..])).collect()
}
macro_rules! by_rank {
    ($flat:expr, $shape:expr, $v:ident => $e:expr) => {
        match $shape.len() {
            0 => {
                let $v = $flat[0].clone();
                $e
            }
            1 => {
                let $v = n1($flat);
                $e
            }
            2 => {
                let $v = n2($flat, $shape);
                $e
            }
            3 => {
                let $v = n3($flat, $shape);
                $e
            }
            4 => {
                let $v = n4($flat, $shape);
                $e
            }
            5 => {
                let $v = n5($flat, $shape);
                $e
            }
            n => panic!("harness: rank {n}"),
        }
    };
}
pub fn upload<C: Config>(ctx: &mut Ctx<C>, shape: &[usize], how: How, v: &[F<C>]) -> DeviceMemoryHandle {
    let pack = S::<C>::PACK_SIZE;
    match how {
        How::Scalar => {
            let flat: Vec<F<C>> = v.chunks(pack).map(|x| x[0]).collect();
            by_rank!(&flat, shape, x => ctx.copy_to_device(&x))
        }
        How::Pack => {
            let n = v.len() / pack;
            let mut flat = Vec::with_capacity(v.len());
            for l in 0..pack {
                flat.extend((0..n).map(|e| v[e * pack + l]));
            }
            let mut s = vec![pack];
            s.extend(shape);
            by_rank!(&flat, &s[..], x => ctx.copy_to_device_and_pack_simd_any(x))
        }
        How::Simd => {
            let flat: Vec<S<C>> = v.chunks(pack).map(|x| S::<C>::pack(x)).collect();
            by_rank!(&flat, shape, x => ctx.copy_simd_to_device(&x))
        }
        How::Flat => {
            let flat: Vec<S<C>> = v.chunks(pack).map(|x| S::<C>::pack(x)).collect();
            ctx.copy_flat_simd_to_device(flat, shape[1])
        }
    }
}
/// `copy_to_device_and_pack_simd` has no rank-0 form; this keeps the macro total.
trait PackAny<C: Config, T> {
    fn copy_to_device_and_pack_simd_any(&mut self, x: T) -> DeviceMemoryHandle;
}
impl<C: Config, T: expander_compiler::zkcuda::vec_shaped::VecShaped<F<C>>> PackAny<C, T> for Ctx<C> {
    fn copy_to_device_and_pack_simd_any(&mut self, x: T) -> DeviceMemoryHandle {
        self.copy_to_device_and_pack_simd(&x)
    }
}
pub fn download<C: Config>(ctx: &Ctx<C>, h: &DeviceMemoryHandle, shape: &[usize], how: How) -> Vec<F<C>> {
    fn f1<T>(v: Vec<Vec<T>>) -> Vec<T> {
        v.into_iter().flatten().collect()
    }
    macro_rules! down {
        ($m:ident, $t:ty, $n:expr) => {
            match $n {
                0 => vec![ctx.$m::<$t>(h.clone())],
                1 => ctx.$m::<Vec<$t>>(h.clone()),
                2 => f1(ctx.$m::<Vec<Vec<$t>>>(h.clone())),
                3 => f1(f1(ctx.$m::<Vec<Vec<Vec<$t>>>>(h.clone()))),
                4 => f1(f1(f1(ctx.$m::<Vec<Vec<Vec<Vec<$t>>>>>(h.clone())))),
                5 => f1(f1(f1(f1(ctx.$m::<Vec<Vec<Vec<Vec<Vec<$t>>>>>>(h.clone()))))),
                n => panic!("harness: rank {n}"),
            }
        };
    }
    match how {
        How::Scalar => down!(copy_to_host, F<C>, shape.len()),
        How::Pack => down!(copy_to_host_and_unpack_simd, F<C>, shape.len() + 1),
        _ => down!(copy_simd_to_host, S<C>, shape.len()).iter().flat_map(|x| x.unpack()).collect(),
    }
}
/// What a download of this view has to return.
pub fn expected<C: Config>(v: &[F<C>], how: How) -> Vec<F<C>> {
    let pack = S::<C>::PACK_SIZE;
    match how {
        How::Scalar => v.chunks(pack).map(|x| x[0]).collect(),
        How::Pack => (0..pack).flat_map(|l| v.chunks(pack).map(move |x| x[l])).collect(),
        _ => v.to_vec(),
    }
}

pub struct Exec<C: Config> {
    pub ctx: Ctx<C>,
    pub handles: Vec<DeviceMemoryHandle>,
}
pub enum Stop {
    /// a layout conflict was refused
    Illegal(String),
    /// a call returned an error
    Err(String),
    /// anything else the real code did wrong
    Bad(String),
}

/// Kernels compiled once per program; the slots that calls go through are separate, so that
/// one address can hold different kernels over time.
pub struct Compiled<C: Config> {
    pub prims: Vec<KernelPrimitive<C>>,
}
pub fn compile_kernels<C: Config>(sc: &Script) -> Result<Compiled<C>, String> {
    let mut prims = vec![];
    for k in &sc.kernels {
        match attempt(|| k.compile::<C>()) {
            Ok(Ok(p)) => prims.push(p),
            Ok(Err(e)) => return Err(format!("kernel {k:?} refused: {e:?}")),
            Err(p) => return Err(format!("kernel {k:?} panics: {p}")),
        }
    }
    Ok(Compiled { prims })
}

pub fn is_layout_conflict(p: &str) -> bool {
    p.contains("illegal shape")
}

/// Performs the script. Downloads are compared with the model if it is given.
pub fn exec<C: Config>(
    sc: &Script,
    k: &Compiled<C>,
    d: &Data<F<C>>,
    m: Option<&Trace<F<C>>>,
    reuse_slots: bool,
    mut each: impl FnMut(usize, &Step, &mut Exec<C>),
) -> Result<Exec<C>, (Stop, Exec<C>)> {
    let mut e = Exec { ctx: new_ctx::<C>(), handles: vec![] };
    let mut slots: Vec<Option<KernelPrimitive<C>>> = (0..sc.slots).map(|_| None).collect();
    let mut in_slot: Vec<Option<usize>> = vec![None; sc.slots];
    let mut up = 0;
    for (si, s) in sc.steps.iter().enumerate() {
        let r: Result<(), Stop> = match s {
            Step::Upload { shape, how } => {
                let r = attempt(|| upload::<C>(&mut e.ctx, shape, *how, &d.uploads[up]));
                up += 1;
                r.map(|h| e.handles.push(h)).map_err(|p| Stop::Bad(format!("upload of {shape:?} ({how:?}) panics: {p}")))
            }
            Step::Reshape { view, shape } => attempt(|| e.handles[*view].reshape(shape))
                .map(|h| e.handles.push(h))
                .map_err(|p| Stop::Bad(format!("reshape to {shape:?} panics: {p}"))),
            Step::Transpose { view, axes } => attempt(|| e.handles[*view].transpose(axes))
                .map(|h| e.handles.push(h))
                .map_err(|p| Stop::Bad(format!("transpose {axes:?} panics: {p}"))),
            Step::Call { kernel, slot, np, ins } => {
                let prim: &KernelPrimitive<C> = if reuse_slots {
                    if in_slot[*slot] != Some(*kernel) {
                        slots[*slot] = Some(k.prims[*kernel].clone());
                        in_slot[*slot] = Some(*kernel);
                    }
                    slots[*slot].as_ref().unwrap()
                } else {
                    &k.prims[*kernel]
                };
                let mut ios: Vec<DeviceMemoryHandle>;
                let res = loop {
                    ios = ins.iter().map(|i| i.and_then(|i| e.handles[i].clone())).collect();
                    let f0 = hint_faults();
                    let r = attempt(|| e.ctx.call_kernel(prim, *np, &mut ios));
                    let failed = hint_faults() != f0;
                    match &r {
                        Ok(Ok(())) if failed => {
                            return Err((Stop::Bad(format!("error lost: call of kernel {kernel} x{np} succeeds although a hint failed")), e));
                        },
                        // an injected failure: the call is repeated
                        Ok(Err(_)) if failed => simrt::probe("failed call repeated"),
                        _ => break r,
                    }
                };
                match res {
                    Err(p) if !sc.legal && is_layout_conflict(&p) => Err(Stop::Illegal(p)),
                    Err(p) => Err(Stop::Bad(format!("call of kernel {kernel} x{np} panics: {p}"))),
                    Ok(Err(x)) => Err(Stop::Err(format!("call of kernel {kernel} x{np}: {x:?}"))),
                    Ok(Ok(())) => {
                        let mut r = Ok(());
                        for (io, h) in sc.kernels[*kernel].ios.iter().zip(&ios) {
                            if io.out != h.is_some() {
                                r = Err(Stop::Bad(format!("call of kernel {kernel}: output handle present: {}, expected {}", h.is_some(), io.out)));
                            }
                            if io.out {
                                e.handles.push(h.clone());
                            }
                        }
                        r
                    }
                }
            }
            Step::Download { view, how } => match m {
                None => Ok(()),
                Some(m) => {
                    let (shape, v) = &m.views[*view];
                    match attempt(|| download::<C>(&e.ctx, &e.handles[*view], shape, *how)) {
                        Err(p) => Err(Stop::Bad(format!("download of view {view} {shape:?} ({how:?}) panics: {p}"))),
                        Ok(g) if g != expected::<C>(v, *how) => Err(Stop::Bad(format!("download of view {view} {shape:?} ({how:?}): data differ"))),
                        Ok(_) => Ok(()),
                    }
                }
            },
        };
        if let Err(x) = r {
            return Err((x, e));
        }
        each(si, s, &mut e);
    }
    Ok(e)
}

/// Compiles, or loads, the graph and solves the hints.
pub fn finish<C: Config>(e: &mut Exec<C>, load: Option<ComputationGraph<C>>) -> Result<Option<ComputationGraph<C>>, String> {
    let r = match load {
        None => attempt(|| e.ctx.compile_computation_graph().map(Some)),
        Some(g) => attempt(|| e.ctx.load_computation_graph(g).map(|_| None)),
    };
    match r {
        Err(p) => Err(format!("graph: panics: {p}")),
        Ok(Err(x)) => Err(format!("graph: {x:?}")),
        Ok(Ok(g)) => match attempt(|| e.ctx.solve_witness()) {
            Err(p) => Err(format!("witness: panics: {p}")),
            Ok(Err(x)) => Err(format!("witness: {x:?}")),
            Ok(Ok(())) => Ok(g),
        },
    }
}

// ---------------------------------------------------------------- witness against graph

/// Per template and lane: do all instances satisfy the template's circuit?
pub fn eval_templates<C: Config>(g: &ComputationGraph<C>, mems: &[Vec<S<C>>]) -> Result<Vec<Vec<bool>>, String> {
    Ok(eval_instances(g, mems)?
        .into_iter()
        .map(|t| (0..S::<C>::PACK_SIZE).map(|l| t.iter().all(|i| i[l])).collect())
        .collect())
}
/// Per template, instance and lane.
pub fn eval_instances<C: Config>(g: &ComputationGraph<C>, mems: &[Vec<S<C>>]) -> Result<Vec<Vec<Vec<bool>>>, String> {
    if g.commitments_lens().len() != mems.len() {
        return Err(format!("{} vectors, {} announced", mems.len(), g.commitments_lens().len()));
    }
    for (i, (l, m)) in g.commitments_lens().iter().zip(mems).enumerate() {
        if *l != m.len() {
            return Err(format!("vector {i} has length {}, announced {l}", m.len()));
        }
    }
    let mut res = vec![];
    for (ti, t) in g.proof_templates().iter().enumerate() {
        let k = g.kernels().get(t.kernel_id()).ok_or(format!("template {ti} names kernel {}", t.kernel_id()))?;
        let lci = k.layered_circuit_input();
        if lci.len() != t.commitment_indices().len() || lci.len() != t.is_broadcast().len() || lci.len() != t.commitment_bit_orders().len() {
            return Err(format!("template {ti} has {} inputs, kernel {}", t.commitment_indices().len(), lci.len()));
        }
        let mut views: Vec<Vec<S<C>>> = vec![];
        for j in 0..lci.len() {
            let m = mems.get(t.commitment_indices()[j]).ok_or(format!("template {ti} names vector {}", t.commitment_indices()[j]))?;
            let bo = &t.commitment_bit_orders()[j];
            if 1usize << bo.len() != m.len() {
                return Err(format!("template {ti} input {j}: {} order bits for {} values", bo.len(), m.len()));
            }
            let mut seen = bo.clone();
            seen.sort();
            if seen != (0..bo.len()).collect::<Vec<_>>() {
                return Err(format!("template {ti} input {j}: order {bo:?} is no permutation"));
            }
            let want = lci[j].len * if t.is_broadcast()[j] { 1 } else { t.parallel_count() };
            if want != m.len() {
                return Err(format!("template {ti} input {j}: {} values, kernel takes {want}", m.len()));
            }
            views.push(
                (0..m.len())
                    .map(|i| {
                        let mut p = 0;
                        for (b, a) in bo.iter().enumerate() {
                            p |= (i >> b & 1) << a;
                        }
                        m[p]
                    })
                    .collect(),
            );
        }
        let lc = k.layered_circuit();
        let mut all = vec![];
        for p in 0..t.parallel_count() {
            let mut x = vec![S::<C>::zero(); lc.input_size()];
            for j in 0..lci.len() {
                let base = if t.is_broadcast()[j] { 0 } else { p * lci[j].len };
                if lci[j].offset + lci[j].len > x.len() {
                    return Err(format!("template {ti} input {j} exceeds the circuit input"));
                }
                x[lci[j].offset..lci[j].offset + lci[j].len].copy_from_slice(&views[j][base..base + lci[j].len]);
            }
            let (_, ok) = lc.eval_with_public_inputs_simd(x, &[]);
            all.push(ok);
        }
        res.push(all);
    }
    Ok(res)
}
/// The same from the model.
pub fn model_templates<T>(t: &Trace<T>, pack: usize) -> Vec<Vec<bool>> {
    t.sat.iter().map(|c| (0..pack).map(|l| c.iter().all(|i| i[l])).collect()).collect()
}

/// The configurations a scenario may run under.
#[macro_export]
macro_rules! with_config {
    ($n:expr, $C:ident => $e:expr) => {{
        use expander_compiler::circuit::config as cfgs;
        match $n {
            0 => {
                type $C = cfgs::M31Config;
                $e
            }
            1 => {
                type $C = cfgs::BN254Config;
                $e
            }
            2 => {
                type $C = cfgs::GF2Config;
                $e
            }
            3 => {
                type $C = cfgs::GoldilocksConfig;
                $e
            }
            _ => {
                type $C = cfgs::BabyBearConfig;
                $e
            }
        }
    }};
}
