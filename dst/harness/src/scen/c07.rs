//! Kernel calls over many instances under scheduled worker threads and failing hints.
use super::prog::*;
use super::*;
use crate::{bad, with_config};
use arith::SimdField;
use expander_compiler::circuit::config::Config;
use expander_compiler::field::FieldArith;
use simrt::{choose, choose_usize, flip};

const P: &str = "C07";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 60_000,
        thorough: 3_000_000,
        scens: vec![
            scen("calls", 6, workers, calls),
            scen("calls_failing", 4, workers_failing, calls),
            scen("solver", 3, workers_failing, solver),
        ],
        rule: "one run = one seeded program of kernel calls (random kernels with hints and sub-circuits, up to 40 \
               instances) whose worker threads are interleaved by the scheduler at task start, hint calls and field \
               operations; every call's outputs, the witness and repeated calls after an injected hint failure are \
               compared with the sequential model. Non-trivial = the final comparison was reached.",
        real: "zkcuda::context (call_kernel, solve_witness, export), kernel, ir::hint_normalized evaluation, hint registry (real code)",
        stub: "worker pool (simulated rayon: one simulated task per worker), field arithmetic, getrandom",
        parallel: true,
    }
}

fn workers(r: &mut Rng) -> Knobs {
    Knobs {
        switch_permille: [0, 50, 200, 500, 900][r.below(5) as usize],
        max_steps: 2_000_000,
        ..Knobs::default()
    }
}
fn workers_failing(r: &mut Rng) -> Knobs {
    let mut k = workers(r);
    k.faults = vec!["hint.error".into()];
    k.fault_permille = [5, 30, 120, 400][r.below(4) as usize];
    k.fault_budget = 1 + r.below(4);
    k
}

fn calls() {
    with_config!(choose(5), C => calls_in::<C>())
}
fn calls_in<C: Config>() {
    let sc = gen_script::<F<C>>(POpts {
        k: KOpts { hints: flip(850), may_fail: flip(200), max_ops: 7, plain: false },
        max_calls: 3,
        max_elems: [2, 4, 8][choose_usize(3)],
        transposes: flip(300),
        mode: choose(2),
        downloads: true,
        max_np: [3, 8, 17, 40][choose_usize(4)],
        mark_permille: [0, 50][choose_usize(2)],
        max_dims: 2,
    });
    simrt::log(|| sc.describe());
    let d = gen_data::<C>(&sc);
    let m = model::<C>(&sc, &d);
    let Ok(k) = compile_kernels::<C>(&sc) else { return };
    let fine = flip(300);
    if fine {
        simrt::preempt_begin();
    }
    let r = exec(&sc, &k, &d, Some(&m), false, |_, _, _| {});
    let mut e = match r {
        Ok(e) => e,
        Err((Stop::Illegal(_), _)) => return,
        Err((Stop::Err(x) | Stop::Bad(x), _)) => {
            bad!(P, "call: {x}");
            return;
        }
    };
    // every view, not only the ones the program downloads
    for (v, (shape, x)) in m.views.iter().enumerate() {
        if shape.len() <= 4 {
            match attempt(|| download::<C>(&e.ctx, &e.handles[v], shape, How::Simd)) {
                Ok(g) if g == expected::<C>(x, How::Simd) => {}
                Ok(_) => {
                    bad!(P, "call: view {v} {shape:?} differs from sequential execution");
                    return;
                }
                Err(p) => {
                    bad!(P, "call: download of view {v} panics: {p}");
                    return;
                }
            }
        }
    }
    let f0 = hint_faults();
    let g = match finish(&mut e, None) {
        Ok(g) => g.unwrap(),
        Err(_) if hint_faults() != f0 => {
            simrt::probe("failed solve");
            oracle();
            return;
        }
        Err(x) => {
            bad!(P, "finish: {x}");
            return;
        }
    };
    if hint_faults() != f0 {
        bad!(P, "error lost: solve_witness succeeds although a hint failed");
        return;
    }
    match eval_templates::<C>(&g, &e.ctx.export_device_memories()) {
        Err(x) => bad!(P, "graph: {x}"),
        Ok(s) => {
            let w = model_templates(&m, S::<C>::PACK_SIZE);
            if s != w {
                bad!(P, "satisfy: template satisfaction {s:?}, sequential model says {w:?}");
            }
        }
    }
    if fine {
        simrt::preempt_end();
    }
    oracle();
}

/// Several instances of one kernel's own evaluator in threads that share it and its hints.
fn solver() {
    with_config!(choose(5), C => solver_in::<C>())
}
fn solver_in<C: Config>() {
    let n = 1 + choose_usize(4);
    let ios = vec![
        Io { shape: vec![n], inp: true, out: false },
        Io { shape: vec![1 + choose_usize(3)], inp: false, out: true },
        Io { shape: vec![2], inp: true, out: true },
    ];
    let kd = gen_kernel::<F<C>>(ios, KOpts { hints: true, may_fail: false, max_ops: 8, plain: false });
    let Ok(Ok(prim)) = attempt(|| kd.compile::<C>()) else { return };
    let h = hints::<C>();
    let np = 2 + choose_usize(10);
    let n_in = kd.n_in();
    let pack = S::<C>::PACK_SIZE;
    let mut g = simrt::Rng::new(simrt::entropy());
    let data: Vec<Vec<Vec<F<C>>>> =
        (0..np).map(|_| (0..n_in).map(|_| (0..pack).map(|_| F::<C>::from(g.below(50) as u32 + 8)).collect()).collect()).collect();
    let ir = prim.ir_for_calling();
    let data: &Vec<Vec<Vec<F<C>>>> = &data;
    let (h, kd) = (&h, &kd);
    if flip(400) {
        simrt::preempt_begin();
    }
    use rayon::prelude::*;
    let res: Vec<(usize, Result<Vec<S<C>>, String>, bool)> = (0..np)
        .into_par_iter()
        .map(|i| {
            let mut x: Vec<S<C>> = data[i].iter().map(|v| S::<C>::pack(v)).collect();
            x.resize(ir.input_size(), S::<C>::zero());
            let f0 = hint_faults();
            let r = ir.eval_safe_simd(x, &[], h).map_err(|e| format!("{e:?}"));
            (i, r, hint_faults() != f0)
        })
        .collect();
    let mut any = false;
    for (i, r, others) in res {
        match r {
            Err(x) if others => {
                any = true;
                simrt::log(|| format!("instance {i}: {x}"));
            }
            Err(x) => {
                bad!(P, "solver: instance {i} fails without a reason: {x}");
                return;
            }
            Ok(o) => {
                for l in 0..pack {
                    let x: Vec<F<C>> = data[i].iter().map(|v| v[l]).collect();
                    let (v, _) = kd.eval(&x);
                    for ((io, outs), off) in kd.ios.iter().zip(&kd.outs).zip(prim.ir_output_offsets()) {
                        if io.out {
                            let mut at = *off;
                            for w in outs {
                                if o[at].unpack()[l] != v[*w] {
                                    bad!(P, "solver: instance {i} lane {l} output {at} differs from sequential execution");
                                    return;
                                }
                                at += 1;
                            }
                        }
                    }
                }
            }
        }
    }
    if any {
        simrt::probe("instance failed");
    }
    oracle();
}
