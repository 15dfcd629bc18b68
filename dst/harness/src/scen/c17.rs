//! Device-context histories against a plain array model.
use super::prog::*;
use super::*;
use crate::{bad, with_config};
use expander_compiler::circuit::config::Config;
use expander_compiler::zkcuda::context::{call_kernel, ComputationGraph, DeviceMemoryHandle};
use expander_compiler::zkcuda::shape::{Reshape, Transpose};
use expander_compiler::field::FieldArith;
use serdes::ExpSerde;
use simrt::{choose, choose_usize, flip};

const P: &str = "C17";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 100_000,
        thorough: 8_000_000,
        scens: vec![scen("history", 8, quiet, history), scen("misuse", 3, quiet, misuse), scen("macros", 1, quiet, macros)],
        rule: "one run = one seeded history of uploads, views, kernel calls and downloads (random kernels) on one \
               context, then compile, solve, export; and the same history on a second context that loads the graph. \
               Non-trivial = the final witness was evaluated against the graph.",
        real: "zkcuda::{context, kernel, shape, vec_shaped}, frontend, compile pipeline, layered circuit (real code)",
        stub: "field arithmetic, rayon (simulated), getrandom (seeded)",
        parallel: false,
    }
}

fn opts(mode: u64, transposes: bool) -> POpts {
    POpts {
        k: KOpts { hints: flip(600), may_fail: flip(500), max_ops: 10, plain: flip(300) },
        max_calls: 5,
        max_elems: 8,
        transposes,
        mode,
        downloads: true,
        max_np: 9,
        mark_permille: [0, 0, 20, 200][choose_usize(4)],
        max_dims: 3,
    }
}

fn history() {
    with_config!(choose(5), C => history_in::<C>())
}
fn history_in<C: Config>() {
    let o = opts(choose(3), flip(600));
    let sc = gen_script::<F<C>>(o);
    simrt::log(|| sc.describe());
    let d = gen_data::<C>(&sc);
    let m = model::<C>(&sc, &d);
    let k = match compile_kernels::<C>(&sc) {
        Ok(k) => k,
        Err(e) => {
            simrt::probe("kernel refused");
            simrt::log(|| e.clone());
            bad!(P, "kernel: {e}");
            return;
        }
    };
    let mut e = match exec(&sc, &k, &d, Some(&m), flip(700), |_, _, _| {}) {
        Ok(e) => e,
        Err((Stop::Illegal(_), _)) => {
            simrt::probe("layout refused");
            return;
        }
        Err((Stop::Err(x) | Stop::Bad(x), _)) => {
            bad!(P, "history: {x}");
            return;
        }
    };
    let g = match finish(&mut e, None) {
        Ok(g) => g.unwrap(),
        Err(x) if !sc.legal && is_layout_conflict(&x) => {
            simrt::probe("layout refused");
            return;
        }
        Err(x) => {
            bad!(P, "finish: {x}");
            return;
        }
    };
    let mems = e.ctx.export_device_memories();
    match eval_templates::<C>(&g, &mems) {
        Err(x) => bad!(P, "graph: {x}"),
        Ok(s) => {
            let w = model_templates(&m, <S<C> as arith::SimdField>::PACK_SIZE);
            if s != w {
                bad!(P, "satisfy: template satisfaction {s:?}, model says {w:?}");
                return;
            }
            if m.all_sat() {
                simrt::probe("satisfied");
            } else {
                simrt::probe("unsatisfied");
            }
        }
    }
    oracle();
    if flip(600) {
        return;
    }
    // The same history in another process that loads the graph, perhaps with other data.
    let same = flip(500);
    let d2 = if same { d } else { gen_data::<C>(&sc) };
    let reuse = flip(500);
    let file = flip(300);
    let bytes = if file {
        let mut b = vec![];
        if let Err(x) = g.serialize_into(&mut b) {
            bad!(P, "reload: graph is not written: {x:?}");
            return;
        }
        b
    } else {
        vec![]
    };
    let p2 = simrt::choose(2) as usize;
    let p2 = if p2 == 1 { crate::procs::new_proc() } else { simrt::current_proc() };
    let r = simrt::spawn(p2, "loader", move || -> Result<(), String> {
        let g2 = if file {
            ComputationGraph::<C>::deserialize_from(std::io::Cursor::new(bytes)).map_err(|x| format!("graph is not read: {x:?}"))?
        } else {
            g.clone()
        };
        let m2 = model::<C>(&sc, &d2);
        let k2 = compile_kernels::<C>(&sc)?;
        let mut e2 = match exec(&sc, &k2, &d2, Some(&m2), reuse, |_, _, _| {}) {
            Ok(e) => e,
            Err((Stop::Illegal(x) | Stop::Err(x) | Stop::Bad(x), _)) => return Err(format!("history: {x}")),
        };
        finish(&mut e2, Some(g2))?;
        let mems2 = e2.ctx.export_device_memories();
        if same && mems2 != mems {
            return Err("witness differs from that of the context that compiled the graph".into());
        }
        let s2 = eval_templates::<C>(&g, &mems2)?;
        let w2 = model_templates(&m2, <S<C> as arith::SimdField>::PACK_SIZE);
        if s2 != w2 {
            return Err(format!("template satisfaction {s2:?}, model says {w2:?}"));
        }
        Ok(())
    })
    .join();
    match r {
        Ok(Ok(())) => simrt::probe("reloaded"),
        Ok(Err(x)) => bad!(P, "reload: {x}"),
        Err(x) => bad!(P, "reload: panics: {}", simrt::panic_text(&*x)),
    }
}

// ---------------------------------------------------------------- invalid operations

fn misuse() {
    with_config!(choose(5), C => misuse_in::<C>())
}
/// `f` must be refused, by an error or a panic.
fn refused(what: &str, f: impl FnOnce() -> Result<(), String>) -> bool {
    match attempt(f) {
        Ok(Ok(())) => {
            bad!(P, "accepted: {what}");
            false
        }
        Ok(Err(x)) | Err(x) => {
            simrt::log(|| format!("{what}: {x}"));
            simrt::probe("refused");
            true
        }
    }
}
fn misuse_in<C: Config>() {
    let mut o = opts(choose(2), false);
    o.k.may_fail = false;
    o.mark_permille = 0;
    let sc = gen_script::<F<C>>(o);
    simrt::log(|| sc.describe());
    let d = gen_data::<C>(&sc);
    let m = model::<C>(&sc, &d);
    let Ok(k) = compile_kernels::<C>(&sc) else { return };
    // refused views leave everything as it was
    let at = choose_usize(sc.steps.len());
    let r = exec(&sc, &k, &d, Some(&m), false, |si, _, e| {
        if si != at || e.handles.is_empty() {
            return;
        }
        let vi = choose_usize(e.handles.len());
        let shape = m.views[vi].0.clone();
        let h = &e.handles[vi];
        let n = len(&shape);
        match choose(7) {
            0 => {
                let bad = [n + 1, n * 2, n.saturating_sub(1)][choose_usize(3)];
                refused("reshape to another length", || Ok(drop(h.reshape(&[bad]))));
            }
            1 => {
                refused("reshape to another length", || Ok(drop(h.reshape(&[n, 2]))));
            }
            2 => {
                let axes: Vec<usize> = (0..shape.len() + 1).collect();
                refused("transpose with too many axes", || Ok(drop(h.transpose(&axes))));
            }
            3 if shape.len() > 1 => {
                let axes: Vec<usize> = (0..shape.len() - 1).collect();
                refused("transpose with too few axes", || Ok(drop(h.transpose(&axes))));
            }
            4 if shape.len() > 1 => {
                let mut axes: Vec<usize> = (0..shape.len()).collect();
                let a = choose_usize(axes.len());
                axes[a] = axes[(a + 1) % shape.len()];
                refused("transpose with a repeated axis", || Ok(drop(h.transpose(&axes))));
            }
            5 if !shape.is_empty() => {
                let mut axes: Vec<usize> = (0..shape.len()).collect();
                axes[choose_usize(shape.len())] = shape.len() + choose_usize(2);
                refused("transpose with an axis that does not exist", || Ok(drop(h.transpose(&axes))));
            }
            _ => {
                let none: DeviceMemoryHandle = None;
                if flip(500) {
                    refused("reshape of nothing", || Ok(drop(none.reshape(&[1]))));
                } else {
                    refused("download of nothing", || Ok(drop(e.ctx.copy_to_host::<Vec<F<C>>>(none))));
                }
            }
        }
    });
    let mut e = match r {
        Ok(e) => e,
        Err((Stop::Illegal(x) | Stop::Err(x) | Stop::Bad(x), _)) => {
            bad!(P, "history: {x}");
            return;
        }
    };
    let v = choose_usize(e.handles.len());
    let (shape, n) = (m.views[v].0.clone(), len(&m.views[v].0));
    let ki = choose_usize(k.prims.len());
    let kd = &sc.kernels[ki];
    // a correct call's handles, from fresh uploads
    let np = [1usize, 2, 4][choose_usize(3)];
    fn fresh<C: Config>(e: &mut Exec<C>, sh: &[usize]) -> DeviceMemoryHandle {
        let v = vec![F::<C>::from(1u32); len(sh) * <S<C> as arith::SimdField>::PACK_SIZE];
        upload::<C>(&mut e.ctx, sh, How::Simd, &v)
    }
    fn args<C: Config>(e: &mut Exec<C>, kd: &KDef, np: usize) -> Vec<DeviceMemoryHandle> {
        kd.ios
            .iter()
            .map(|io| {
                let mut s = vec![np];
                s.extend(&io.shape);
                io.inp.then(|| fresh::<C>(e, &s)).flatten()
            })
            .collect()
    }
    let call = |e: &mut Exec<C>, np: usize, mut ios: Vec<DeviceMemoryHandle>| {
        e.ctx.call_kernel(&k.prims[ki], np, &mut ios).map_err(|x| format!("{x:?}"))
    };
    let inp = kd.ios.iter().position(|x| x.inp);
    match choose(12) {
        0 => {
            let mut a = args(&mut e, kd, np);
            if flip(500) {
                a.push(None)
            } else {
                a.pop();
            }
            refused("kernel call with a wrong number of arguments", || call(&mut e, np, a));
        }
        1 if inp.is_some() => {
            let mut a = args(&mut e, kd, np);
            a[inp.unwrap()] = None;
            refused("kernel call with a missing input", || call(&mut e, np, a));
        }
        2 if inp.is_some() => {
            let mut a = args(&mut e, kd, np);
            let i = inp.unwrap();
            let mut s = vec![np];
            s.extend(&kd.ios[i].shape);
            let what = match choose(4) {
                0 => {
                    s[0] += 1 + choose_usize(2);
                    "one instance too many"
                }
                1 => {
                    s.push(2);
                    "an additional dimension"
                }
                2 => {
                    let j = choose_usize(s.len());
                    s[j] += 1;
                    "a longer dimension"
                }
                _ => {
                    if np > 1 {
                        s[0] = np / 2;
                    } else {
                        s[0] = 2;
                    }
                    "another number of instances"
                }
            };
            a[i] = fresh(&mut e, &s);
            refused(&format!("kernel call with {what}"), || call(&mut e, np, a));
        }
        3 if kd.ios.iter().any(|x| x.inp && x.out) => {
            let i = kd.ios.iter().position(|x| x.inp && x.out).unwrap();
            let mut a = args(&mut e, kd, np);
            a[i] = fresh(&mut e, &kd.ios[i].shape);
            refused("kernel call that broadcasts an output", || call(&mut e, np, a));
        }
        4 => {
            refused("solving before the graph is there", || e.ctx.solve_witness().map_err(|x| format!("{x:?}")));
        }
        5 => {
            refused("export before solving", || Ok(drop(e.ctx.export_device_memories())));
            let g = finish(&mut e, None);
            if let Err(x) = g {
                bad!(P, "finish: {x}");
                return;
            }
            match choose(3) {
                0 => refused("compiling twice", || e.ctx.compile_computation_graph().map(|_| ()).map_err(|x| format!("{x:?}"))),
                1 => refused("solving twice", || e.ctx.solve_witness().map_err(|x| format!("{x:?}"))),
                _ => {
                    let a = args(&mut e, kd, np);
                    refused("kernel call after compilation", || call(&mut e, np, a))
                }
            };
        }
        6 => {
            refused("download with another rank", || {
                if shape.len() == 1 {
                    let _: F<C> = e.ctx.copy_to_host(e.handles[v].clone());
                } else {
                    let _: Vec<F<C>> = e.ctx.copy_to_host(e.handles[v].clone());
                }
                Ok(())
            });
        }
        7 => {
            let one = F::<C>::from(1u32);
            let a = vec![vec![one; 2], vec![one; 3]];
            let b = vec![vec![vec![one; 2]; 2], vec![vec![one; 2]; 1]];
            let c: Vec<Vec<F<C>>> = vec![vec![one; 2], vec![]];
            let ctx = &mut e.ctx;
            match choose(4) {
                0 => refused("upload of a ragged array", || Ok(drop(ctx.copy_to_device(&a)))),
                1 => refused("upload of a ragged array", || Ok(drop(ctx.copy_to_device(&b)))),
                2 => refused("upload of an empty array", || Ok(drop(ctx.copy_to_device(&c)))),
                _ => refused("upload of an empty array", || Ok(drop(ctx.copy_to_device(&Vec::<F<C>>::new())))),
            };
        }
        8 => {
            let one = S::<C>::one();
            let cols = 2 + choose_usize(3);
            let n = cols * choose_usize(3) + 1 + choose_usize(cols - 1);
            let ctx = &mut e.ctx;
            refused("flat upload that does not fill its rows", || Ok(drop(ctx.copy_flat_simd_to_device(vec![one; n], cols))));
        }
        9 => {
            let pack = <S<C> as arith::SimdField>::PACK_SIZE;
            let one = F::<C>::from(1u32);
            let ctx = &mut e.ctx;
            refused("packed upload with a wrong number of lanes", || {
                Ok(drop(ctx.copy_to_device_and_pack_simd(&vec![one; pack + 1])))
            });
        }
        _ => {
            // a graph that was damaged, or belongs to another history
            let g = match finish(&mut e, None) {
                Ok(g) => g.unwrap(),
                Err(x) => {
                    bad!(P, "finish: {x}");
                    return;
                }
            };
            let mut b = g.clone();
            let t = choose_usize(b.proof_templates.len());
            let what = match choose(7) {
                0 => {
                    b.proof_templates.pop();
                    "without its last template"
                }
                1 => {
                    let x = b.proof_templates[t].clone();
                    b.proof_templates.push(x);
                    "with one template too many"
                }
                2 => {
                    let j = choose_usize(b.commitments_lens.len());
                    b.commitments_lens[j] *= 2;
                    "with another vector length"
                }
                3 => {
                    b.proof_templates[t].parallel_count *= 2;
                    "with another parallel count"
                }
                4 => {
                    let j = choose_usize(b.proof_templates[t].commitment_indices.len());
                    b.proof_templates[t].commitment_indices[j] += 1;
                    "with another vector"
                }
                5 => {
                    let j = choose_usize(b.proof_templates[t].is_broadcast.len());
                    b.proof_templates[t].is_broadcast[j] ^= true;
                    "with another broadcast flag"
                }
                _ => {
                    b.commitments_lens.pop();
                    "without its last vector"
                }
            };
            let what = format!("graph {what}");
            match exec(&sc, &k, &d, None, false, |_, _, _| {}) {
                Ok(mut e2) => {
                    refused(&what, || e2.ctx.load_computation_graph(b).map_err(|x| format!("{x:?}")));
                }
                Err(_) => return,
            }
            let _ = n;
        }
    }
    oracle();
}

// ---------------------------------------------------------------- kernels written with the macros

mod mk {
    use expander_compiler::frontend::*;
    use expander_compiler::zkcuda::kernel::*;

    /// d[i][j][k] += a[k] * b[i][j]; e = sum(a) - s; f[i] = 2 f[i] + s
    #[kernel]
    pub fn mixed<C: Config>(
        api: &mut API<C>,
        a: &[InputVariable; 3],
        b: &[[InputVariable; 3]; 2],
        s: &InputVariable,
        d: &mut [[[InputOutputVariable; 3]; 3]; 2],
        e: &mut OutputVariable,
        f: &mut [InputOutputVariable; 2],
    ) {
        for i in 0..2 {
            for j in 0..3 {
                for k in 0..3 {
                    let t = api.mul(a[k], b[i][j]);
                    d[i][j][k] = api.add(d[i][j][k], t);
                }
            }
        }
        let mut t = api.neg(*s);
        for x in a {
            t = api.add(t, *x);
        }
        *e = t;
        for x in f.iter_mut() {
            let y = api.mul(*x, 2);
            *x = api.add(y, *s);
        }
    }
    /// out[j][i] = x[i][j] * 3 + i + 10 j
    #[kernel]
    pub fn flip_array<C: Config>(api: &mut API<C>, x: &[[InputVariable; 4]; 2], out: &mut [[OutputVariable; 2]; 4]) {
        for i in 0..2 {
            for j in 0..4 {
                let t = api.mul(x[i][j], 3);
                out[j][i] = api.add(t, (i + 10 * j) as u32);
            }
        }
    }
    /// out[a][b][c] = x[c][a][b] + 1, y += x[0][0][0]
    #[kernel]
    pub fn cube<C: Config>(
        api: &mut API<C>,
        x: &[[[InputVariable; 2]; 3]; 4],
        out: &mut [[[OutputVariable; 4]; 2]; 3],
        y: &mut InputOutputVariable,
    ) {
        for a in 0..3 {
            for b in 0..2 {
                for c in 0..4 {
                    out[a][b][c] = api.add(x[c][a][b], 1);
                }
            }
        }
        *y = api.add(*y, x[0][0][0]);
    }
    pub fn all<C: Config>() -> Result<[KernelPrimitive<C>; 3], Error> {
        Ok([compile_mixed()?, compile_flip_array()?, compile_cube()?])
    }
}

fn macros() {
    with_config!(choose(5), C => macros_in::<C>())
}
fn macros_in<C: Config>() {
    let r = attempt(|| macros_body::<C>());
    match r {
        Ok(Ok(())) => oracle(),
        Ok(Err(x)) => bad!(P, "macros: {x}"),
        Err(x) => bad!(P, "macros: panics: {x}"),
    }
}
fn macros_body<C: Config>() -> Result<(), String> {
    let [mixed, flip_array, cube] = mk::all::<C>().map_err(|e| format!("{e:?}"))?;
    let np = [1, 2, 3, 4, 5, 8][choose_usize(6)];
    let mut g = simrt::Rng::new(simrt::entropy());
    let mut r = |n: usize| -> Vec<F<C>> { (0..n).map(|_| F::<C>::from(g.below(1000) as u32)).collect() };
    let c = |x: u32| F::<C>::from(x);
    let mut ctx: Ctx<C> = new_ctx::<C>();
    let bcast = flip(500);
    for _ in 0..1 + choose(2) {
        match choose(3) {
            0 => {
                let a = r(3);
                let b: Vec<_> = (0..np).map(|_| vec![r(3), r(3)]).collect();
                let s = r(np);
                let d: Vec<_> = (0..np).map(|_| (0..2).map(|_| (0..3).map(|_| r(3)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
                let f: Vec<_> = (0..np).map(|_| r(2)).collect();
                let aa = if bcast { ctx.copy_to_device(&a) } else { ctx.copy_to_device(&vec![a.clone(); np]) };
                let (bb, ss) = (ctx.copy_to_device(&b), ctx.copy_to_device(&s));
                let (mut dd, mut ff) = (ctx.copy_to_device(&d), ctx.copy_to_device(&f));
                let mut ee = None;
                call_kernel!(ctx, mixed, np, aa, bb, ss, mut dd, mut ee, mut ff).map_err(|e| format!("call: {e:?}"))?;
                let (d2, e2, f2) = (
                    ctx.copy_to_host::<Vec<Vec<Vec<Vec<F<C>>>>>>(dd),
                    ctx.copy_to_host::<Vec<F<C>>>(ee),
                    ctx.copy_to_host::<Vec<Vec<F<C>>>>(ff),
                );
                for p in 0..np {
                    if e2[p] != a[0] + a[1] + a[2] - s[p] {
                        return Err(format!("scalar output of instance {p} of {np}"));
                    }
                    for i in 0..2 {
                        if f2[p][i] != f[p][i] * c(2) + s[p] {
                            return Err(format!("output f[{i}] of instance {p} of {np}"));
                        }
                        for j in 0..3 {
                            for k in 0..3 {
                                if d2[p][i][j][k] != d[p][i][j][k] + a[k] * b[p][i][j] {
                                    return Err(format!("output d[{i}][{j}][{k}] of instance {p} of {np}"));
                                }
                            }
                        }
                    }
                }
            }
            1 => {
                let x: Vec<_> = (0..np).map(|_| vec![r(4), r(4)]).collect();
                let xx = ctx.copy_to_device(&x);
                let mut yy = None;
                call_kernel!(ctx, flip_array, np, xx, mut yy).map_err(|e| format!("call: {e:?}"))?;
                let y = ctx.copy_to_host::<Vec<Vec<Vec<F<C>>>>>(yy);
                for p in 0..np {
                    for i in 0..2 {
                        for j in 0..4 {
                            if y[p][j][i] != x[p][i][j] * c(3) + c((i + 10 * j) as u32) {
                                return Err(format!("output [{j}][{i}] of instance {p} of {np}"));
                            }
                        }
                    }
                }
            }
            _ => {
                let x: Vec<_> = (0..np).map(|_| (0..4).map(|_| (0..3).map(|_| r(2)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
                let y = r(np);
                let (xx, mut yy) = (ctx.copy_to_device(&x), ctx.copy_to_device(&y));
                let mut oo = None;
                call_kernel!(ctx, cube, np, xx, mut oo, mut yy).map_err(|e| format!("call: {e:?}"))?;
                let (o, y2) = (ctx.copy_to_host::<Vec<Vec<Vec<Vec<F<C>>>>>>(oo), ctx.copy_to_host::<Vec<F<C>>>(yy));
                for p in 0..np {
                    if y2[p] != y[p] + x[p][0][0][0] {
                        return Err(format!("output y of instance {p} of {np}"));
                    }
                    for a in 0..3 {
                        for b in 0..2 {
                            for k in 0..4 {
                                if o[p][a][b][k] != x[p][k][a][b] + c(1) {
                                    return Err(format!("output [{a}][{b}][{k}] of instance {p} of {np}"));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let g = ctx.compile_computation_graph().map_err(|e| format!("graph: {e:?}"))?;
    ctx.solve_witness().map_err(|e| format!("witness: {e:?}"))?;
    let s = eval_templates::<C>(&g, &ctx.export_device_memories())?;
    if s.iter().flatten().any(|x| !x) {
        return Err("the witness does not satisfy the graph".into());
    }
    Ok(())
}
