//! C13, C14: the compiled circuit means what the source says and is well formed.
use super::front::front;
use super::circ::{self, drawn, eval, flatten, gen, gen_inputs, gopts, small, Caller, Eval, Flat, Src, F, V};
use super::prog::attempt;
use super::{oracle, quiet, scen};
use crate::runner::{Check, Scen};
use crate::{bad, with_config};
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::hint_normalized;
use expander_compiler::circuit::layered::{self, CrossLayerInputType, InputType, InputUsize, NormalInputType};
use expander_compiler::compile::{compile_with_options, CompileOptions};
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::{HintCaller, WitnessSolver};
use expander_compiler::utils::error::Error;
use expander_compiler::field::FieldRaw;
use gkr_engine::FieldEngine;
use model::arith::{SimdField as _};
use model::circuit::CoefType;
use simrt::{choose, choose_usize, flip, range};

const P: &str = "C13";
const S: &str = "C14";

pub fn options() -> CompileOptions {
    let mut o = CompileOptions::default().with_opt_level(1 + choose_usize(3));
    if flip(300) {
        o = o.with_mul_fanout_limit(range(2, 6));
    }
    if flip(300) {
        o = o.without_input_reorder();
    }
    o
}


type Sf<C> = expander_compiler::circuit::config::SIMDField<C>;

/// What a layered input type adds to the common checks.
pub trait Kind: InputType + Sized {
    const CROSS: bool;
    /// Outputs of the exported circuit, each random coefficient drawn anew.
    fn exported<C: Config>(lc: &layered::Circuit<C, Self>, x: &[F<C>], public: &[F<C>]) -> Vec<F<C>>;
}
fn splat<C: Config>(x: &[F<C>]) -> Vec<Sf<C>> {
    x.iter().map(|v| <Sf<C> as From<F<C>>>::from(*v)).collect()
}
fn lane<C: Config>(x: &[Sf<C>]) -> Vec<F<C>> {
    x.iter().map(|v| v.unpack()[0]).collect()
}
impl Kind for NormalInputType {
    const CROSS: bool = false;
    fn exported<C: Config>(lc: &layered::Circuit<C, Self>, x: &[F<C>], public: &[F<C>]) -> Vec<F<C>> {
        let mut c = lc.export_to_expander::<C::FieldConfig>().flatten();
        for l in c.layers.iter_mut() {
            macro_rules! fill {
                ($f:ident) => {
                    for g in l.$f.iter_mut() {
                        if g.coef_type == CoefType::Random {
                            g.coef = drawn();
                        }
                    }
                };
            }
            fill!(mul);
            fill!(add);
            fill!(const_);
        }
        let o = c.outputs(splat::<C>(x), &splat::<C>(public));
        if c.expected_num_output_zeros != lc.expected_num_output_zeroes {
            bad!(S, "zero outputs: the exported circuit has {}, the circuit {}", c.expected_num_output_zeros, lc.expected_num_output_zeroes);
        }
        lane::<C>(&o)
    }
}
impl Kind for CrossLayerInputType {
    const CROSS: bool = true;
    fn exported<C: Config>(lc: &layered::Circuit<C, Self>, x: &[F<C>], public: &[F<C>]) -> Vec<F<C>> {
        let mut c = lc.export_to_expander::<C::FieldConfig>().flatten();
        c.public_input = splat::<C>(public);
        for l in c.layers.iter_mut() {
            macro_rules! fill {
                ($f:ident) => {
                    for g in l.$f.iter_mut() {
                        if g.coef_type == CoefType::Random {
                            g.coef = drawn();
                        }
                    }
                };
            }
            fill!(gate_muls);
            fill!(gate_adds);
            fill!(gate_csts);
        }
        if c.expected_num_output_zeros != lc.expected_num_output_zeroes {
            bad!(S, "zero outputs: the exported circuit has {}, the circuit {}", c.expected_num_output_zeros, lc.expected_num_output_zeroes);
        }
        let e = c.evaluate(&splat::<C>(x));
        lane::<C>(e.vals.last().unwrap())
    }
}

// ---------------------------------------------------------------- source programs

pub struct Case<C: Config> {
    pub s: Src<C>,
    pub ins: Vec<(Vec<F<C>>, Vec<F<C>>)>,
    pub evs: Vec<Eval<F<C>>>,
}
pub fn case<C: Config>(o: &circ::GOpts) -> Case<C> {
    let s = gen::<C>(o);
    s.root.validate().expect("the generator makes valid programs");
    let n = range(2, 6);
    let ins: Vec<_> = (0..n).map(|_| gen_inputs(&s)).collect();
    let evs = ins.iter().map(|(x, p)| eval(&s.root, x, p, false)).collect();
    Case { s, ins, evs }
}

fn source() {
    fn run<C: Config>() {
        let o = gopts();
        let c = case::<C>(&o);
        for _ in 0..range(1, 3) {
            if flip(350) {
                one::<C, CrossLayerInputType>(&c, &o);
            } else {
                one::<C, NormalInputType>(&c, &o);
            }
        }
    }
    with_config!(choose_usize(5), C => run::<C>());
}

const REFUSALS: [&str; 4] = ["division by zero", "constraint is not zero", "circuit has no inputs", "root circuit should have constraints or outputs"];

/// Two inputs show that the program can be satisfied and depends on its inputs.
pub fn meaning<T: PartialEq>(evs: &[Eval<T>], ins: &[(Vec<T>, Vec<T>)]) -> bool {
    evs.iter().zip(ins).any(|(e, (_, p))| {
        e.defined() && e.sat && !e.loose && evs.iter().zip(ins).any(|(f, (_, q))| f.defined() && p == q && f.outs != e.outs)
    })
}
/// `subs`: there may be sub-circuits left without inputs, which are not supported.
pub fn refusal(m: &Error, meaning: bool, subs: bool, what: &str) {
    match m {
        Error::UserError(m) => {
            if !REFUSALS.iter().any(|r| m.contains(r)) {
                bad!(S, "valid program refused: {m} ({what})");
            } else if meaning && !(subs && m.contains("circuit has no inputs")) {
                bad!(S, "meaningful program refused: {m} ({what})");
            }
        }
        Error::InternalError(m) => bad!(S, "compiler error: {m} ({what})"),
    }
}

fn one<C: Config, I: Kind>(c: &Case<C>, o: &circ::GOpts) {
    let opts = options();
    let what = format!("{opts:?} {} modulus {}", if I::CROSS { "cross" } else { "normal" }, F::<C>::MODULUS);
    simrt::log(|| format!("{what}\n{:#?}", c.s.root));
    oracle();
    let meaning = meaning(&c.evs, &c.ins);
    let (solver, lc) = match attempt(|| compile_with_options::<C, I>(&c.s.root, opts.clone())) {
        Err(e) => {
            bad!(S, "compiler panics: {e} ({what})");
            return;
        }
        Ok(Err(m)) => {
            refusal(&m, meaning, c.s.root.circuits.len() > 1, &what);
            return;
        }
        Ok(Ok(r)) => r,
    };
    simrt::probe("compiled");
    simrt::log(|| format!("{solver:#?}"));
    let Some(flat) = structure(c, o, &opts, &solver, &lc, &what) else { return };
    let solver = WitnessSolver { circuit: solver };
    for (e, (x, p)) in c.evs.iter().zip(&c.ins) {
        meaning_of::<C, I>(e, x, p, &solver, &Caller, &lc, &flat, &what);
    }
    if !o.free && !o.random {
        for _ in 0..4 {
            forge::<C, I>(c, &solver, &lc, &what);
        }
    }
}

pub fn structure_of<C: Config, I: Kind>(lc: &layered::Circuit<C, I>, what: &str) -> Option<Flat<C>> {
    let flat = match flatten(lc) {
        Ok(f) => f,
        Err(m) => {
            bad!(S, "malformed circuit: {m} ({what})");
            return None;
        }
    };
    if let Some((l, w)) = flat.unwritten() {
        bad!(S, "read before written: wire {w} of layer {l} ({what})");
        return None;
    }
    if !I::CROSS && lc.segments.iter().any(|s| InputUsize::to_vec(&s.num_inputs).len() != 1) {
        bad!(S, "wrong input form: a normal circuit reads more than one layer ({what})");
    }
    Some(flat)
}
fn structure<C: Config, I: Kind>(
    c: &Case<C>,
    o: &circ::GOpts,
    opts: &CompileOptions,
    solver: &hint_normalized::RootCircuit<C>,
    lc: &layered::Circuit<C, I>,
    what: &str,
) -> Option<Flat<C>> {
    let root = &c.s.root;
    let r0 = &root.circuits[&0];
    let flat = structure_of(lc, what)?;
    let so = &solver.circuits[&0];
    let counts = [
        ("public inputs of the circuit", lc.num_public_inputs, root.num_public_inputs),
        ("public inputs of the solver", solver.num_public_inputs, root.num_public_inputs),
        ("inputs of the solver", solver.input_size(), r0.num_inputs),
        ("inputs of the circuit", lc.input_size(), so.outputs.len()),
        ("outputs", lc.num_actual_outputs - lc.expected_num_output_zeroes, r0.outputs.len() - root.expected_num_output_zeroes),
    ];
    for (n, a, b) in counts {
        if a != b {
            bad!(S, "wrong count: {n}: {a}, expected {b} ({what})");
            return None;
        }
    }
    if let (Some(limit), 1) = (opts.mul_fanout_limit, root.circuits.len()) {
        simrt::probe("limited");
        if flat.fan_out() > limit {
            bad!(S, "fan-out limit exceeded: a wire is read by {} products ({what})", flat.fan_out());
        }
    }
    // Hints may repeat inputs; padding repeats the first input of all.
    if !opts.allow_input_reorder && !o.free && !o.helped {
        let mut v: Vec<usize> = vec![];
        for x in so.outputs.iter().filter(|v| **v <= r0.num_inputs) {
            if !v.contains(x) {
                v.push(*x);
            }
        }
        let first = v.iter().copied().min();
        v.retain(|x| Some(*x) != first);
        if v.windows(2).any(|w| w[0] >= w[1]) {
            bad!(S, "inputs reordered: {:?} ({what})", so.outputs);
        }
    }
    Some(flat)
}

#[allow(clippy::too_many_arguments)]
pub fn meaning_of<C: Config, I: Kind>(
    e: &Eval<F<C>>,
    x: &[F<C>],
    p: &[F<C>],
    solver: &WitnessSolver<C>,
    hints: &impl HintCaller<F<C>>,
    lc: &layered::Circuit<C, I>,
    flat: &Flat<C>,
    what: &str,
) {
    let w = match attempt(|| solver.solve_witness_from_raw_inputs(x.to_vec(), p.to_vec(), hints)) {
        Err(m) => {
            bad!(P, "witness solver panics: {m} ({what})");
            return;
        }
        Ok(Err(m)) => {
            if e.defined() {
                bad!(P, "witness solver fails: {m:?} ({what})");
            }
            return;
        }
        Ok(Ok(w)) => w,
    };
    let (lx, lp) = w.iter_scalar().next().unwrap();
    if lp != p {
        bad!(P, "public inputs changed: {lp:?} from {p:?} ({what})");
    }
    let z = lc.expected_num_output_zeroes;
    let actual = lc.num_actual_outputs;
    let split = |v: Vec<F<C>>| (v[z..actual].to_vec(), v[..z].iter().all(|x| x.is_zero()));
    let runs: [(&str, &dyn Fn() -> (Vec<F<C>>, bool)); 4] = [
        ("run", &|| {
            let (s, mut o) = lc.run_with_output(&w);
            (o.remove(0), s[0])
        }),
        ("eval", &|| lc.eval_with_public_inputs(lx.clone(), &lp)),
        ("export", &|| split(I::exported(lc, &lx, &lp))),
        ("gates", &|| split(flat.eval(&lx, &lp, drawn, false))),
    ];
    simrt::probe(if e.defined() { if e.sat { "accepted" } else { "rejected" } } else { "undefined" });
    for (name, f) in runs {
        let (outs, mut sat) = match attempt(f) {
            Ok(r) => r,
            Err(m) => {
                bad!(P, "{name} panics: {m} ({what})");
                return;
            }
        };
        // a random combination may vanish by chance
        let must_fail = (e.defined() && !e.sat) || (e.undef_used && !e.random);
        for _ in 0..2 {
            sat &= !must_fail || !sat || attempt(f).map_or(false, |r| r.1);
        }
        for (k, (a, b)) in outs.iter().zip(&e.outs).enumerate() {
            if let (V::Is(b), true) = (b, e.defined() || !e.undef) {
                if a != b {
                    bad!(P, "wrong output: {name}: output {k} is {a:?}, the program says {b:?} for {x:?} {p:?} ({what})");
                    return;
                }
            }
        }
        if must_fail && sat {
            bad!(P, "violated constraint accepted: {name}: {x:?} {p:?} ({what})");
            return;
        }
        if e.defined() && e.sat && !sat {
            bad!(P, "satisfied constraints rejected: {name}: {x:?} {p:?} ({what})");
            return;
        }
    }
}

/// A prover that puts other values on the circuit's inputs than the solver would.
fn forge<C: Config, I: Kind>(c: &Case<C>, solver: &WitnessSolver<C>, lc: &layered::Circuit<C, I>, what: &str) {
    let (x, p) = &c.ins[choose_usize(c.ins.len())];
    let outs = &solver.circuit.circuits[&0].outputs;
    let n = c.s.root.circuits[&0].num_inputs;
    let Ok(Ok(w)) = attempt(|| solver.solve_witness_from_raw_inputs(x.clone(), p.clone(), &Caller)) else { return };
    let (mut lx, _) = w.iter_scalar().next().unwrap();
    // where an input can be read back without doubt
    let once = |v: usize| outs.iter().filter(|o| **o == v).count() == 1;
    let free: Vec<usize> = (0..outs.len()).filter(|i| outs[*i] > n || once(outs[*i])).collect();
    if free.is_empty() {
        return;
    }
    for _ in 0..range(1, 3) {
        let i = free[choose_usize(free.len())];
        lx[i] = match choose(4) {
            0 => lx[i] + F::<C>::one(),
            1 => lx[free[choose_usize(free.len())]],
            _ => small(),
        };
    }
    let mut y = x.clone();
    for (i, v) in outs.iter().enumerate() {
        if *v <= n && once(*v) {
            y[*v - 1] = lx[i];
        }
    }
    let e = eval(&c.s.root, &y, p, false);
    if e.loose || e.random {
        return;
    }
    simrt::probe("forged");
    for _ in 0..3 {
        let Ok((o, sat)) = attempt(|| lc.eval_with_public_inputs(lx.clone(), p)) else { return };
        if !sat {
            return;
        }
        if e.defined() && e.sat {
            simrt::probe("forged_ok");
            if o.iter().zip(&e.outs).any(|(a, b)| *b != V::Is(*a) && *b != V::Random) {
                bad!(P, "forged output: {o:?} instead of {:?} for {y:?} {p:?} with witness {lx:?} ({what})", e.outs);
                return;
            }
            return;
        }
    }
    if e.undef && !e.undef_used {
        return;
    }
    bad!(P, "forged witness accepted: {lx:?} for {y:?} {p:?} ({what})");
}

pub fn scens() -> Vec<Scen> {
    let mut s = vec![scen("source", 6, quiet, source), scen("front_end", 4, quiet, front)];
    s.extend(super::lopt::scens(3));
    s
}
pub fn check() -> Check {
    Check {
        id: P,
        quick: 200_000,
        thorough: 100_000_000,
        scens: scens(),
        rule: "one run = one seeded program, compiled under seeded options, hash seeds and random draws, \
               evaluated on seeded inputs, honest and forged witnesses, and compared with an independent \
               evaluator. Non-trivial = the comparison was reached.",
        real: "expander_compiler front end, IR passes, layering, witness solver, evaluation and export (real code, unmodified)",
        stub: "fields' crates, prover engine and exported-circuit evaluation (own implementations), getrandom and clock (seeded)",
        parallel: false,
    }
}
