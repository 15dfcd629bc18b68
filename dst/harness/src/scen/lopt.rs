//! Layered circuits written down directly, with segments that share gates, nest and repeat: what the
//! optimiser of layered circuits is given. Compiled programs reach only a part of these.
use super::c12::Make;
use super::c13::{self, Kind};
use super::circ::{flatten, small, F};
use super::prog::attempt;
use super::{oracle, scen};
use crate::runner::Scen;
use crate::{bad, with_config};
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::*;
use expander_compiler::compile::{compile_step_3, CompileOptions};
use expander_compiler::field::FieldArith;
use serdes::ExpSerde;
use simrt::{choose_usize, flip, range};
use std::collections::BTreeMap;
use std::sync::Arc;

/// A gate without its place: inputs as (layer, wire), output, coefficient, custom kind.
#[derive(Clone)]
struct G<C: Config> {
    ins: Vec<(usize, usize)>,
    out: usize,
    coef: Coef<C>,
    custom: Option<usize>,
}
fn gate<C: Config>(ins: &[usize], out: usize, random: bool, public: usize) -> G<C> {
    let custom = flip(60).then(|| 1 + choose_usize(3));
    let n = if custom.is_some() { range(1, 3) } else { [0, 1, 1, 2, 2][choose_usize(5)] };
    G {
        ins: (0..n)
            .map(|_| {
                let l = choose_usize(ins.len());
                (l, choose_usize(ins[l]))
            })
            .collect(),
        out: choose_usize(out),
        coef: match simrt::choose(if random { 12 } else { 40 }) {
            0 if random => Coef::Random,
            1 if public > 0 => Coef::PublicInput(choose_usize(public)),
            _ => Coef::Constant(small()),
        },
        custom,
    }
}
fn put<C: Config, I: InputType>(s: &mut Segment<C, I>, g: &G<C>) {
    let i: Vec<I::Input> = g.ins.iter().map(|(l, o)| I::Input::new(*l, *o)).collect();
    let (output, coef) = (g.out, g.coef);
    match (g.custom, i.len()) {
        (Some(gate_type), _) => s.gate_customs.push(GateCustom { gate_type, inputs: i, output, coef }),
        (_, 0) => s.gate_consts.push(Gate { inputs: [], output, coef }),
        (_, 1) => s.gate_adds.push(Gate { inputs: [i[0].clone()], output, coef }),
        _ => s.gate_muls.push(Gate { inputs: [i[0].clone(), i[1].clone()], output, coef }),
    }
}

pub fn any<C: Config, I: Kind>() -> Circuit<C, I> {
    let public = choose_usize(3);
    let random = flip(300);
    let nl = range(1, 4);
    let big = flip(250);
    let size = || 1usize << if big { range(3, 8) } else { choose_usize(5) };
    let mut sizes = vec![size()];
    let mut segments: Vec<Segment<C, I>> = vec![];
    // gates that segments have in common
    let mut common: Vec<G<C>> = vec![];
    // the layer of each segment: where its inputs end
    let mut dims: Vec<Vec<usize>> = vec![];
    // gates of each segment with those of its parts
    let mut weight: Vec<usize> = vec![];
    let mut layer_ids = vec![];
    for l in 0..nl {
        let out = size();
        let back = if I::CROSS { range(1, l + 1) } else { 1 };
        let ins: Vec<usize> = (0..back).map(|k| sizes[l - k]).collect();
        // parts of this layer, then the layer itself
        let parts = choose_usize(4);
        for k in 0..=parts {
            let whole = k == parts;
            let (i, o) = if whole {
                (ins.clone(), out)
            } else {
                let b = if I::CROSS { range(1, back) } else { 1 };
                let part = |n: usize| 1usize << choose_usize(n.trailing_zeros() as usize + 1);
                (ins[..b].iter().map(|n| part(*n)).collect(), part(out))
            };
            if whole && flip(150) {
                // the same segment as another layer
                if let Some(x) = layer_ids.iter().copied().find(|x: &usize| dims[*x] == i && segments[*x].num_outputs == o) {
                    layer_ids.push(x);
                    continue;
                }
            }
            let mut s = Segment::<C, I> { num_inputs: I::InputUsize::from_vec(i.clone()), num_outputs: o, ..Default::default() };
            let n = if big && whole { range(60, 300) } else { choose_usize(if big { 30 } else { 14 }) };
            for _ in 0..n {
                let fits = |g: &G<C>| g.out < o && g.ins.iter().all(|(l, w)| *l < i.len() && *w < i[*l]);
                let old = if flip(400) && !common.is_empty() { Some(common[choose_usize(common.len())].clone()) } else { None };
                let g = old.filter(fits).unwrap_or_else(|| gate(&i, o, random, public));
                if flip(500) {
                    common.push(g.clone());
                }
                put(&mut s, &g);
            }
            let mut total = n;
            for _ in 0..if segments.is_empty() { 0 } else { choose_usize(if big { 3 } else { 5 }) } {
                let ch = choose_usize(segments.len());
                let ci = &dims[ch];
                let co = segments[ch].num_outputs;
                if ci.len() > i.len() || co > o || ci.iter().zip(&i).any(|(a, b)| a > b) {
                    continue;
                }
                let times = range(1, 3);
                if total + times * (weight[ch] + 1) > 4000 {
                    continue;
                }
                total += times * (weight[ch] + 1);
                let mut at: Vec<Allocation<I>> = (0..times)
                    .map(|_| Allocation {
                        input_offset: I::InputUsize::from_vec(ci.iter().zip(&i).map(|(a, b)| a * choose_usize(b / a)).collect()),
                        output_offset: co * choose_usize(o / co),
                    })
                    .collect();
                at.dedup();
                s.child_segs.push((ch, at));
            }
            if whole {
                // the next layers may read any wire of this one
                let mut set = vec![false; o];
                s.gate_muls.iter().for_each(|g| set[g.output] = true);
                s.gate_adds.iter().for_each(|g| set[g.output] = true);
                s.gate_consts.iter().for_each(|g| set[g.output] = true);
                s.gate_customs.iter().for_each(|g| set[g.output] = true);
                let from = simrt::choose(2);
                for w in (0..o).filter(|w| !set[*w]) {
                    let ins = if from == 0 { vec![] } else { vec![(0, w % i[0])] };
                    put(&mut s, &G { ins, out: w, coef: Coef::Constant(small()), custom: None });
                }
            }
            segments.push(s);
            dims.push(i);
            weight.push(total);
            if whole {
                layer_ids.push(segments.len() - 1);
            }
        }
        sizes.push(out);
    }
    let outs = range(1, *sizes.last().unwrap());
    Circuit { num_public_inputs: public, num_actual_outputs: outs, expected_num_output_zeroes: choose_usize(outs + 1), segments, layer_ids }
}

/// What a circuit computes, wire by wire: constant coefficients of equal gates summed, the others counted.
type Meaning<C> = Vec<BTreeMap<(usize, Option<usize>, Vec<(usize, usize)>), (F<C>, Vec<String>)>>;
/// Whether some layer has the same gate twice with a coefficient that is no constant. The optimiser keeps gates in
/// sets and drops one of them; the compiler computes each wire once and never makes such a pair.
fn doubled<C: Config>(m: &Meaning<C>) -> bool {
    m.iter().any(|l| l.values().any(|(_, o)| o.windows(2).any(|w| w[0] == w[1])))
}
fn meaning<C: Config, I: Kind>(c: &Circuit<C, I>) -> Result<(Vec<usize>, Meaning<C>), String> {
    let f = flatten(c)?;
    let m = f
        .layers
        .iter()
        .map(|l| {
            let mut m: BTreeMap<_, (F<C>, Vec<String>)> = BTreeMap::new();
            for (o, coef, ins, custom) in l {
                let mut k = ins.clone();
                if custom.is_none() {
                    k.sort();
                }
                let e = m.entry((*o, *custom, k)).or_insert((F::<C>::zero(), vec![]));
                match coef {
                    Coef::Constant(x) => e.0 = e.0 + *x,
                    x => e.1.push(format!("{x:?}")),
                }
            }
            m.retain(|_, e| !e.0.is_zero() || !e.1.is_empty());
            m.values_mut().for_each(|e| e.1.sort());
            m
        })
        .collect();
    Ok((f.sizes, m))
}

fn run<C: Config, I: Kind>(p: &'static str) {
    let c = any::<C, I>();
    let Ok(before) = meaning(&c) else { return };
    if doubled::<C>(&before.1) {
        return simrt::probe("doubled gate");
    }
    if !matches!(attempt(|| c.validate()), Ok(Ok(()))) {
        return simrt::probe("invalid");
    }
    let level = 1 + choose_usize(3);
    simrt::log(|| format!("level {level}\n{c}"));
    let what = format!("level {level}, {} segments, modulus {}", c.segments.len(), F::<C>::MODULUS);
    let o = CompileOptions::default().with_opt_level(level);
    let r = match attempt(|| compile_step_3(c.clone(), o)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => return bad!(p, "valid circuit refused: {what}: {e:?}"),
        Err(e) => return bad!(p, "optimiser panics: {what}: {e}"),
    };
    oracle();
    simrt::probe(if r.segments.len() < c.segments.len() { "fewer segments" } else { "segments kept" });
    let after = match meaning(&r) {
        Ok(m) => m,
        Err(e) => return bad!("C14", "invalid circuit: optimised: {e} ({what})"),
    };
    if (r.num_public_inputs, r.num_actual_outputs, r.expected_num_output_zeroes) != (c.num_public_inputs, c.num_actual_outputs, c.expected_num_output_zeroes) {
        return bad!("C14", "other inputs or outputs: optimised ({what})");
    }
    if before.0 != after.0 {
        return bad!("C14", "other layer sizes: {:?} instead of {:?} ({what})", after.0, before.0);
    }
    for (n, (a, b)) in before.1.iter().zip(&after.1).enumerate() {
        for k in a.keys().chain(b.keys()) {
            if a.get(k) != b.get(k) {
                return bad!("C13", "optimised circuit computes something else: layer {n}, gate {k:?}: {:?} instead of {:?} ({what})", b.get(k), a.get(k));
            }
        }
    }
}
fn meaning_kept() {
    with_config!(choose_usize(5), C => if flip(400) { run::<C, CrossLayerInputType>("C13") } else { run::<C, NormalInputType>("C13") })
}
pub fn scens(weight: u32) -> Vec<Scen> {
    vec![scen("optimiser", weight, super::quiet, meaning_kept)]
}

/// The same circuit optimised again.
pub fn maker() -> Make {
    fn one<C: Config, I: Kind + Send + Sync + 'static>() -> Make
    where
        Circuit<C, I>: ExpSerde,
    {
        let c = any::<C, I>();
        let level = 1 + choose_usize(3);
        Arc::new(move || {
            match attempt(|| compile_step_3(c.clone(), CompileOptions::default().with_opt_level(level))) {
                Ok(Ok(r)) => {
                    let mut b = vec![];
                    r.serialize_into(&mut b).unwrap();
                    Ok(vec![("optimised circuit", b)])
                }
                Ok(Err(_)) => Err("error".into()),
                Err(_) => Err("panic".into()),
            }
        })
    }
    with_config!(choose_usize(5), C => if flip(400) { one::<C, CrossLayerInputType>() } else { one::<C, NormalInputType>() })
}
