//! C12: one program always compiles to the same bytes.
use super::c08::bytes;
use super::c13::{self, Kind};
use super::circ::{gen, gopts, Src, F};
use super::front;
use super::prog::*;
use super::{oracle, scen};
use crate::procs::new_proc;
use crate::runner::Check;
use crate::{bad, with_config};
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::ir::source::RootCircuit;
use expander_compiler::circuit::layered::{Circuit, CrossLayerInputType, NormalInputType};
use expander_compiler::compile::{compile_with_options, CompileOptions};
use expander_compiler::frontend::WitnessSolver;
use serdes::ExpSerde;
use simrt::{choose, choose_usize, flip, range, Knobs, Rng};
use std::sync::{Arc, Mutex};

const P: &str = "C12";

/// A compilation: the name and bytes of everything it makes, or its error.
pub type Made = Result<Vec<(&'static str, Vec<u8>)>, String>;
pub type Make = Arc<dyn Fn() -> Made>;

pub fn check() -> Check {
    Check {
        id: P,
        quick: 40_000,
        thorough: 50_000_000,
        scens: vec![
            scen("circuits", 6, switching, circuits),
            scen("front_end", 4, switching, front_end),
            scen("graphs", 3, switching, graphs),
            scen("optimiser", 3, switching, || compare(super::lopt::maker(), (0..choose_usize(2)).map(|_| super::lopt::maker()).collect())),
        ],
        rule: "one run = one seeded program compiled several times: again after other programs, and at the same time in \
               other simulated processes and threads, each with hash seeds and random draws of its own and interleaved \
               by the scheduler at field operations; all bytes must agree. Non-trivial = two compilations were compared.",
        real: "expander_compiler compiler, front end, kernel and computation graph construction, serialisation (real code, unmodified)",
        stub: "field crates, prover engine and byte format of basic types (own implementations), getrandom and clock (seeded)",
        parallel: true,
    }
}
fn switching(r: &mut Rng) -> Knobs {
    Knobs { switch_permille: [0, 100, 400, 900][r.below(4) as usize], max_steps: 4_000_000, ..Knobs::default() }
}

pub fn made<C: Config, I: Kind>(r: Result<Result<(WitnessSolver<C>, Circuit<C, I>), String>, String>) -> Made
where
    Circuit<C, I>: ExpSerde,
{
    match r {
        Ok(Ok((s, l))) => Ok(vec![("layered circuit", bytes(&l)), ("witness solver", bytes(&s))]),
        Ok(Err(_)) => Err("error".into()),
        Err(_) => Err("panic".into()),
    }
}

fn source<C: Config, I: Kind>(root: RootCircuit<C>, o: CompileOptions) -> Make
where
    Circuit<C, I>: ExpSerde,
{
    Arc::new(move || {
        made::<C, I>(attempt(|| {
            compile_with_options::<C, I>(&root, o.clone()).map(|(s, l)| (WitnessSolver { circuit: s }, l)).map_err(|e| format!("{e:?}"))
        }))
    })
}
fn circuits() {
    fn one<C: Config>() -> Make {
        let mut o = gopts();
        o.custom = flip(100);
        if flip(300) {
            o.max_circuits = 12;
        }
        let s: Src<C> = gen(&o);
        let opts = c13::options();
        simrt::log(|| format!("{opts:?} modulus {}\n{:#?}", F::<C>::MODULUS, s.root));
        if flip(350) {
            source::<C, CrossLayerInputType>(s.root, opts)
        } else {
            source::<C, NormalInputType>(s.root, opts)
        }
    }
    use expander_compiler::field::FieldArith;
    let any = || with_config!(choose_usize(5), C => one::<C>());
    let m = any();
    let decoys = (0..choose(3)).map(|_| any()).collect();
    compare(m, decoys);
}
fn front_end() {
    let m = front::maker();
    let decoys = (0..choose(2)).map(|_| front::maker()).collect();
    compare(m, decoys);
}
fn graphs() {
    fn one<C: Config>() -> Make {
        let sc = gen_script::<F<C>>(POpts {
            k: KOpts { hints: flip(500), may_fail: false, max_ops: [4, 12][choose_usize(2)], plain: false },
            max_calls: 3,
            max_elems: [2, 4][choose_usize(2)],
            transposes: flip(300),
            mode: choose(2),
            downloads: true,
            max_np: [3, 8][choose_usize(2)],
            mark_permille: 30,
            max_dims: 2,
        });
        let d = gen_data::<C>(&sc);
        simrt::log(|| sc.describe());
        Arc::new(move || {
            let k = compile_kernels::<C>(&sc)?;
            let mut v: Vec<(&'static str, Vec<u8>)> = k.prims.iter().map(|p| ("kernel primitive", bytes(p))).collect();
            let Ok(mut e) = exec(&sc, &k, &d, None, false, |_, _, _| {}) else { return Ok(v) };
            if let Ok(Some(g)) = finish(&mut e, None) {
                v.push(("computation graph", bytes(&g)));
                for x in e.ctx.export_device_memories() {
                    v.push(("witness memory", bytes(&x)));
                }
            }
            Ok(v)
        })
    }
    let any = || with_config!(choose_usize(5), C => one::<C>());
    let m = any();
    let decoys = (0..choose(2)).map(|_| any()).collect();
    compare(m, decoys);
}

fn compare(m: Make, decoys: Vec<Make>) {
    let first = m();
    oracle();
    simrt::probe(if first.is_ok() { "made" } else { "refused" });
    let done: Arc<Mutex<Vec<(usize, Made)>>> = Arc::default();
    let n = range(1, 3);
    simrt::preempt_begin();
    let jobs: Vec<_> = (0..n)
        .map(|k| {
            let (m, decoys, done) = (m.clone(), decoys.clone(), done.clone());
            let proc = if flip(700) { new_proc() } else { simrt::current_proc() };
            let (before, again) = (flip(500), flip(200));
            simrt::spawn(proc, "compile", move || {
                for d in decoys.iter().filter(|_| before) {
                    let _ = d();
                }
                for _ in 0..1 + again as usize {
                    let r = m();
                    done.lock().unwrap().push((k, r));
                }
            })
        })
        .collect();
    for j in jobs {
        if let Err(e) = j.join() {
            bad!(P, "panic: {}", simrt::panic_text(&*e));
        }
    }
    simrt::preempt_end();
    let mut all = std::mem::take(&mut *done.lock().unwrap());
    for d in &decoys {
        let _ = d();
    }
    all.push((99, m()));
    for (k, r) in all {
        let what = if k == 99 { "later".into() } else { format!("in task {k}") };
        match (&first, &r) {
            (Ok(a), Ok(b)) => {
                if a.len() != b.len() {
                    bad!(P, "different results: {} and {} objects, {what}", a.len(), b.len());
                    return;
                }
                for ((n, x), (_, y)) in a.iter().zip(b) {
                    if x != y {
                        let at = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
                        bad!(P, "different {n}: {} and {} bytes, from byte {at} on, {what}", x.len(), y.len());
                        return;
                    }
                }
            }
            (Err(a), Err(b)) if a == b => {}
            (a, b) => {
                let t = |m: &Made| m.as_ref().map_or_else(|e| e.clone(), |_| "a circuit".into());
                bad!(P, "different results: {} and {}, {what}", t(a), t(b));
                return;
            }
        }
    }
}
