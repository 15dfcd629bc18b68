//! C15: witness solving agrees in every calling mode.
use super::c13::{case, options, Case, Kind};
use super::circ::{gopts, hint_fn, Eval, F, V};
use super::prog::attempt;
use super::{oracle, scen};
use crate::runner::Check;
use crate::{bad, with_config};
use expander_compiler::circuit::config::{Config, SIMDField};
use expander_compiler::circuit::layered::witness::{Witness, WitnessValues};
use expander_compiler::circuit::layered::{Circuit, CrossLayerInputType, NormalInputType};
use expander_compiler::compile::compile_with_options;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::frontend::{HintCaller, WitnessSolver};
use expander_compiler::utils::error::Error;
use model::arith::SimdField as _;
use simrt::{choose, choose_usize, flip, range, Knobs, Rng};
use std::cell::{Cell, RefCell};
use std::sync::Arc;

const P: &str = "C15";

fn switching(r: &mut Rng) -> Knobs {
    Knobs { switch_permille: [0, 100, 400, 900][r.below(4) as usize], max_steps: 2_000_000, ..Knobs::default() }
}

/// Hints that fail for some of their arguments and let other threads run meanwhile.
struct Failing {
    salt: u64,
    one_in: u64,
}
impl Failing {
    fn fails<T: Field>(&self, id: usize, args: &[T]) -> bool {
        let mut h = self.salt ^ id as u64;
        for a in args {
            h = (h ^ a.to_u256().as_u64()).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        }
        self.one_in > 0 && h % self.one_in == 0
    }
}
impl<T: Field> HintCaller<T> for Failing {
    fn call(&self, id: usize, args: &[T], n: usize) -> Result<Vec<T>, Error> {
        simrt::yield_now();
        if self.fails(id, args) {
            simrt::note_fault("hint.error");
            return Err(Error::UserError(format!("hint {id} fails")));
        }
        Ok(hint_fn(id, args, n))
    }
}

/// Inputs and public inputs, or the error.
type Solved<C> = Result<(Vec<F<C>>, Vec<F<C>>), String>;

fn modes() {
    if flip(350) {
        with_config!(choose_usize(5), C => run::<C, CrossLayerInputType>());
    } else {
        with_config!(choose_usize(5), C => run::<C, NormalInputType>());
    }
}
fn run<C: Config, I: Kind + Send + Sync>() {
    let mut o = gopts();
    o.free = flip(850);
    o.random = false;
    o.max_circuits = o.max_circuits.min(4);
    o.max_insns = o.max_insns.min(16);
    let c = case::<C>(&o);
    let opts = options();
    let what = format!("{opts:?} modulus {}", F::<C>::MODULUS);
    simrt::log(|| format!("{what}\n{:#?}", c.s.root));
    let Ok(Ok((solver, lc))) = attempt(|| compile_with_options::<C, I>(&c.s.root, opts.clone())) else { return };
    let solver = Arc::new(WitnessSolver { circuit: solver });
    let hints = Arc::new(Failing { salt: choose(1 << 20), one_in: [0, 0, 3, 10, 40][choose_usize(5)] });
    let pack = SIMDField::<C>::PACK_SIZE;
    // which of the inputs each assignment has
    let n = match choose(5) {
        0 => choose_usize(3),
        1 => pack,
        2 => pack + choose_usize(3),
        3 => 2 * pack + 1 - choose_usize(3).min(2 * pack),
        _ => range(1, 3 * pack + 2),
    }
    .min(40);
    let good: Vec<usize> = (0..c.ins.len()).filter(|i| c.evs[*i].defined()).collect();
    let only_good = flip(600) && !good.is_empty();
    let pick: Vec<usize> = (0..n).map(|_| if only_good { good[choose_usize(good.len())] } else { choose_usize(c.ins.len()) }).collect();
    oracle();

    // one at a time
    let mut alone: Vec<Option<Result<Witness<C>, Error>>> = vec![];
    for (x, p) in &c.ins {
        let r = attempt(|| solver.solve_witness_from_raw_inputs(x.clone(), p.clone(), &*hints));
        if let Err(m) = &r {
            bad!(P, "panic: one assignment: {m} ({what})");
        }
        alone.push(r.ok());
    }
    if alone.iter().any(|a| a.is_none()) {
        return;
    }
    let alone: Vec<Result<Witness<C>, Error>> = alone.into_iter().map(|a| a.unwrap()).collect();
    let parts: Vec<Solved<C>> = alone.iter().map(|a| a.as_ref().map(|w| w.iter_scalar().next().unwrap()).map_err(|e| format!("{e:?}"))).collect();
    for (k, r) in alone.iter().enumerate() {
        if let (Ok(w), e) = (r, &c.evs[k]) {
            verdicts(&lc, w, &[e], &[parts[k].clone().ok()], &format!("one assignment, {what}"));
        }
    }

    // in threads that share the solver
    let jobs: Vec<_> = (0..range(0, 3))
        .map(|_| {
            let (solver, hints) = (solver.clone(), hints.clone());
            let order: Vec<usize> = (0..range(1, 4)).map(|_| choose_usize(c.ins.len())).collect();
            let batch = flip(400);
            let ins: Vec<_> = order.iter().map(|i| c.ins[*i].clone()).collect();
            let out: Arc<std::sync::Mutex<Vec<Result<Witness<C>, Error>>>> = Arc::new(std::sync::Mutex::new(vec![]));
            let o2 = out.clone();
            let j = simrt::spawn(simrt::current_proc(), "solver", move || {
                if batch {
                    let n = ins.len();
                    let r = solver.solve_witnesses_from_raw_inputs(n, |i| ins[i].clone(), &*hints);
                    o2.lock().unwrap().push(r);
                } else {
                    for (x, p) in ins {
                        let r = solver.solve_witness_from_raw_inputs(x, p, &*hints);
                        o2.lock().unwrap().push(r);
                    }
                }
            });
            (j, out, order, batch)
        })
        .collect();

    // all at once
    let reads = RefCell::new(vec![0; n]);
    let out_of_range = Cell::new(false);
    let all = attempt(|| {
        solver.solve_witnesses_from_raw_inputs(
            n,
            |i| {
                if i >= n {
                    out_of_range.set(true);
                    return c.ins[0].clone();
                }
                reads.borrow_mut()[i] += 1;
                c.ins[pick[i]].clone()
            },
            &*hints,
        )
    });
    let all = match all {
        Ok(r) => r,
        Err(m) => {
            bad!(P, "panic: {n} assignments: {m} ({what})");
            return;
        }
    };
    if out_of_range.get() {
        bad!(P, "wrong assignment asked: beyond the last ({what})");
    }
    let reads = reads.into_inner();
    if all.is_ok() && reads.iter().any(|r| *r != 1) {
        bad!(P, "wrong assignment asked: times {reads:?} ({what})");
    }
    let expected: Vec<Option<(Vec<F<C>>, Vec<F<C>>)>> = pick.iter().map(|i| parts[*i].clone().ok()).collect();
    batch(&c, &lc, all, &pick, &parts, &what);

    for (j, out, order, as_batch) in jobs {
        if let Err(m) = j.join() {
            bad!(P, "panic: in a thread: {} ({what})", simrt::panic_text(&*m));
            continue;
        }
        simrt::probe("threads");
        let out = std::mem::take(&mut *out.lock().unwrap());
        let whats = format!("in a thread, {what}");
        if as_batch {
            for r in out {
                batch(&c, &lc, r, &order, &parts, &whats);
            }
        } else {
            for (i, r) in order.iter().zip(out) {
                batch(&c, &lc, r, &[*i], &parts, &whats);
            }
        }
    }

    // a witness put together by hand
    if n > 0 && expected.iter().all(|e| e.is_some()) {
        let mut values = vec![];
        let (mut a, mut b) = (0, 0);
        for e in expected.iter().flatten() {
            values.extend(e.0.iter().copied());
            values.extend(e.1.iter().copied());
            (a, b) = (e.0.len(), e.1.len());
        }
        let w = Witness { num_witnesses: n, num_inputs_per_witness: a, num_public_inputs_per_witness: b, values: WitnessValues::Scalar(values) };
        whole(&w, &expected, &format!("scalar values, {what}"));
        let evs: Vec<&Eval<F<C>>> = pick.iter().map(|i| &c.evs[*i]).collect();
        verdicts(&lc, &w, &evs, &expected, &format!("scalar values, {what}"));
    }
}

fn batch<C: Config, I: Kind>(
    c: &Case<C>,
    lc: &Circuit<C, I>,
    r: Result<Witness<C>, Error>,
    pick: &[usize],
    parts: &[Solved<C>],
    what: &str,
) {
    let what = format!("{} assignments {pick:?}, {what}", pick.len());
    let failing: Vec<&String> = pick.iter().filter_map(|i| parts[*i].as_ref().err()).collect();
    match r {
        Err(e) => {
            simrt::probe("batch_failed");
            if failing.is_empty() {
                bad!(P, "fails together: {e:?}, although each assignment alone is solved ({what})");
            } else if !failing.iter().any(|f| **f == format!("{e:?}")) {
                bad!(P, "wrong error: {e:?}, alone they fail with {failing:?} ({what})");
            }
        }
        Ok(w) => {
            if let Some(e) = failing.first() {
                bad!(P, "error lost: {e:?} ({what})");
                return;
            }
            simrt::probe("batch_solved");
            if pick.is_empty() {
                if w.num_witnesses != 0 || w.iter_scalar().next().is_some() || w.iter_simd().next().is_some() {
                    bad!(P, "wrong witness: not empty ({what})");
                }
                return;
            }
            let expected: Vec<_> = pick.iter().map(|i| parts[*i].clone().ok()).collect();
            whole(&w, &expected, &what);
            let evs: Vec<&Eval<F<C>>> = pick.iter().map(|i| &c.evs[*i]).collect();
            verdicts(lc, &w, &evs, &expected, &what);
        }
    }
}

/// The witness holds what each assignment gives alone, at its own position, in every view.
pub fn whole<C: Config>(w: &Witness<C>, expected: &[Option<(Vec<F<C>>, Vec<F<C>>)>], what: &str) {
    let expected: Vec<(Vec<F<C>>, Vec<F<C>>)> = expected.iter().flatten().cloned().collect();
    let pack = SIMDField::<C>::PACK_SIZE;
    if w.num_witnesses != expected.len()
        || w.num_inputs_per_witness != expected[0].0.len()
        || w.num_public_inputs_per_witness != expected[0].1.len()
    {
        bad!(P, "wrong witness: {} of {} and {} values ({what})", w.num_witnesses, w.num_inputs_per_witness, w.num_public_inputs_per_witness);
        return;
    }
    match attempt(|| w.iter_scalar().collect::<Vec<_>>()) {
        Ok(v) => {
            if v != expected {
                let k = (0..v.len().min(expected.len())).find(|k| v[*k] != expected[*k]);
                bad!(P, "wrong witness: assignment {k:?} of {} ({what})", v.len());
            }
        }
        Err(m) => bad!(P, "panic: iter_scalar: {m} ({what})"),
    }
    let lanes = |inputs: &[SIMDField<C>], public: &[SIMDField<C>], from: usize, name: &str| {
        let u: Vec<Vec<F<C>>> = inputs.iter().map(|x| x.unpack()).collect();
        let q: Vec<Vec<F<C>>> = public.iter().map(|x| x.unpack()).collect();
        for l in 0..pack {
            // the last assignment fills the remaining lanes
            let Some(e) = expected.get((from + l).min(expected.len() - 1)) else { return };
            let (a, b): (Vec<_>, Vec<_>) = (u.iter().map(|x| x[l]).collect(), q.iter().map(|x| x[l]).collect());
            if a != e.0 || b != e.1 {
                bad!(P, "wrong packed witness: {name}: lane {l} of assignments {from} onwards ({what})");
                return;
            }
        }
    };
    match attempt(|| w.iter_simd().collect::<Vec<_>>()) {
        Ok(v) => {
            if v.len() != expected.len().div_ceil(pack) {
                bad!(P, "wrong packed witness: {} blocks ({what})", v.len());
            }
            for (k, (a, b)) in v.iter().enumerate() {
                lanes(a, b, k * pack, "iter_simd");
            }
        }
        Err(m) => bad!(P, "panic: iter_simd: {m} ({what})"),
    }
    match attempt(|| w.to_simd::<SIMDField<C>>()) {
        Ok((a, b)) => lanes(&a, &b, 0, "to_simd"),
        Err(m) => bad!(P, "panic: to_simd: {m} ({what})"),
    }
}

/// Each instance is judged at its own position as the program judges it.
pub fn verdicts<C: Config, I: Kind>(
    lc: &Circuit<C, I>,
    w: &Witness<C>,
    evs: &[&Eval<F<C>>],
    inputs: &[Option<(Vec<F<C>>, Vec<F<C>>)>],
    what: &str,
) {
    let (verdict, outs) = match (attempt(|| lc.run(w)), attempt(|| lc.run_with_output(w))) {
        (Ok(v), Ok((v2, o))) => {
            if v.len() != evs.len() || v2.len() != evs.len() || o.len() != evs.len() {
                bad!(P, "wrong number of verdicts: {} and {} ({what})", v.len(), v2.len());
                return;
            }
            (v2.iter().zip(&v).map(|(a, b)| (*a, *b)).collect::<Vec<_>>(), o)
        }
        (Err(m), _) | (_, Err(m)) => {
            bad!(P, "panic: run: {m} ({what})");
            return;
        }
    };
    for (k, e) in evs.iter().enumerate() {
        if inputs[k].is_none() {
            continue;
        }
        let must_fail = (e.defined() && !e.sat) || (e.undef_used && !e.random);
        let must_pass = e.defined() && e.sat;
        for v in [verdict[k].0, verdict[k].1] {
            // a random combination may vanish by chance
            let again = || (0..3).all(|_| lc.run(w).get(k) == Some(&true));
            if (must_pass && !v) || (must_fail && v && again()) {
                bad!(P, "wrong verdict: {v} for instance {k} ({what})");
                return;
            }
        }
        if must_pass || (e.defined() && !e.outs.is_empty()) {
            for (a, b) in outs[k].iter().zip(&e.outs) {
                if *b != V::Is(*a) && matches!(b, V::Is(_)) {
                    bad!(P, "wrong output: of instance {k} ({what})");
                    return;
                }
            }
        }
    }
}
pub fn check() -> Check {
    Check {
        id: P,
        quick: 60_000,
        thorough: 50_000_000,
        scens: vec![scen("modes", 6, switching, modes), scen("assignments", 3, switching, super::front::modes)],
        rule: "one run = one seeded program and a seeded list of assignments, solved one by one, as one batch, and by \
               simulated threads that share the solver and interleave at hint calls, with hints that fail for seeded \
               arguments; every witness, view and verdict is compared with the assignments solved alone and with an \
               independent evaluation. Non-trivial = a solver was built.",
        real: "witness solver, hint registry and built-in hints, Witness, layered evaluation, compiler (real code, unmodified)",
        stub: "field crates (own implementations, true moduli and pack sizes 1 to 16), getrandom and clock (seeded)",
        parallel: true,
    }
}
