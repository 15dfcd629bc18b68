//! C14: compiled circuits honour their structural contract.
use super::c13::{self, case, options, Kind};
use super::circ::{flatten, gopts, F, V};
use super::prog::attempt;
use super::{oracle, quiet, scen};
use crate::runner::Check;
use crate::{bad, with_config};
use expander_compiler::builder::final_build_opt;
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::dest::{CircuitRelaxed, Instruction};
use expander_compiler::circuit::ir::expr::VarSpec;
use expander_compiler::circuit::layered::{CrossLayerInputType, NormalInputType};
use expander_compiler::compile::{compile_step_1, compile_with_options, CompileOptions};
use expander_compiler::field::FieldArith;
use simrt::{choose_usize, flip, range};

const S: &str = "C14";

/// The largest number of uses of one variable in products.
fn uses<C: Config>(c: &CircuitRelaxed<C>) -> usize {
    let mut n = vec![0; c.num_inputs + 1];
    for i in &c.instructions {
        let mut outs = 1;
        match i {
            Instruction::InternalVariable { expr } => {
                for t in expr.iter() {
                    if let VarSpec::Quad(x, y) = t.vars {
                        n[x] += 1;
                        n[y] += 1;
                    }
                }
            }
            Instruction::SubCircuitCall { num_outputs, .. } => outs = *num_outputs,
            Instruction::ConstantLike { .. } => {}
        }
        n.resize(n.len() + outs, 0);
    }
    n.into_iter().skip(1).max().unwrap_or(0)
}

fn fan_out() {
    fn run<C: Config>() {
        let mut o = gopts();
        o.random = false;
        o.max_public = 0;
        let c = case::<C>(&o);
        let lim = range(2, 9);
        let what = format!("limit {lim}, modulus {}", F::<C>::MODULUS);
        simrt::log(|| format!("{what}\n{:#?}", c.s.root));
        let Ok(Ok((n, _))) = attempt(|| compile_step_1(&c.s.root, CompileOptions::default().with_opt_level(1 + choose_usize(3)))) else { return };
        let (hl, _) = n.remove_and_export_hints();
        let Ok(Ok(r)) = attempt(|| final_build_opt::process(&hl)) else { return };
        if r.validate().is_err() {
            return;
        }
        oracle();
        let l = match attempt(|| r.solve_mul_fanout_limit(lim)) {
            Ok(l) => l,
            Err(m) => {
                bad!(S, "fan-out pass panics: {m} ({what})");
                return;
            }
        };
        if let Err(m) = l.validate() {
            bad!(S, "fan-out pass makes an invalid circuit: {m:?} ({what})");
            return;
        }
        if l.input_size() != r.input_size() {
            bad!(S, "fan-out pass changes the inputs: {} to {} ({what})", r.input_size(), l.input_size());
            return;
        }
        let before = r.circuits.values().map(uses).max().unwrap_or(0);
        let after = l.circuits.values().map(uses).max().unwrap_or(0);
        simrt::probe(if before > lim { "over_limit" } else { "under_limit" });
        if after > lim {
            bad!(S, "fan-out limit exceeded: a variable is used in {after} products after the pass ({what})");
        }
        for _ in 0..3 {
            let x: Vec<F<C>> = (0..r.input_size()).map(|_| super::circ::small()).collect();
            let (a, b) = (r.eval_unsafe(x.clone()), l.eval_unsafe(x.clone()));
            if a != b {
                bad!("C13", "fan-out pass changes the meaning: {a:?} and {b:?} for {x:?} ({what})");
            }
        }
    }
    with_config!(choose_usize(5), C => run::<C>());
}

/// Programs with custom gates, whose meaning is the compiler's own stand-in.
fn custom() {
    fn one<C: Config, I: Kind>() {
        let mut o = gopts();
        o.custom = true;
        o.random = false;
        o.free = false;
        let c = case::<C>(&o);
        let opts = options();
        let what = format!("custom gates, {opts:?} cross-layer {} modulus {}", I::CROSS, F::<C>::MODULUS);
        simrt::log(|| format!("{what}\n{:#?}", c.s.root));
        let (_, lc) = match attempt(|| compile_with_options::<C, I>(&c.s.root, opts.clone())) {
            Err(e) => {
                bad!(S, "compiler panics: {e} ({what})");
                return;
            }
            Ok(Err(m)) => {
                c13::refusal(&m, false, true, &what);
                return;
            }
            Ok(Ok(r)) => r,
        };
        oracle();
        let Some(flat) = c13::structure_of(&lc, &what) else { return };
        // equal readings of the gates
        let x: Vec<F<C>> = (0..lc.input_size()).map(|_| super::circ::small()).collect();
        if flat.has_random() {
            return;
        }
        let z = lc.expected_num_output_zeroes;
        let g = flat.eval(&x, &[], F::<C>::zero, true);
        let (a, s) = lc.eval_unsafe(x);
        if a != g[z..lc.num_actual_outputs] || s != g[..z].iter().all(|v| v.is_zero()) {
            bad!("C13", "evaluation differs from the gates: {a:?} {s} ({what})");
        }
    }
    if flip(400) {
        with_config!(choose_usize(5), C => one::<C, CrossLayerInputType>());
    } else {
        with_config!(choose_usize(5), C => one::<C, NormalInputType>());
    }
}

pub fn check() -> Check {
    let mut scens = c13::scens();
    scens.push(scen("fan_out", 4, quiet, fan_out));
    scens.push(scen("custom", 2, quiet, custom));
    Check {
        id: S,
        quick: 150_000,
        thorough: 100_000_000,
        scens,
        rule: "one run = one seeded program, compiled under seeded options, hash seeds and random draws, \
               whose result is read gate by gate against the structural rules. Non-trivial = the compiler gave an answer.",
        real: "expander_compiler front end, IR passes, layering, witness solver, evaluation and export (real code, unmodified)",
        stub: "fields' crates, prover engine and exported-circuit evaluation (own implementations), getrandom and clock (seeded)",
        parallel: false,
    }
}
