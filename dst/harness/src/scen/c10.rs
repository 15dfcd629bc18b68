//! C10 and C11: artifacts on streams that split, interrupt and fail, and artifacts that are
//! damaged or belong to something else.
use super::c08::{bytes, job, popts};
use super::circ::{any, gen, gopts, small, F};
use super::prog::*;
use super::*;
use crate::alloc;
use crate::{bad, local_backend, with_config};
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::ir::common::{Circuit as IrCircuit, RootCircuit as IrRoot};
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::hint_normalized::Instruction as H;
use expander_compiler::circuit::ir::source::{BoolBinOpType as B, Constraint, ConstraintType as T, Instruction as I, UnconstrainedBinOpType as U};
use expander_compiler::circuit::ir::{hint_normalized, source};
use expander_compiler::circuit::layered::witness::{Witness, WitnessValues};
use expander_compiler::circuit::layered::{
    Allocation, Circuit, Coef, CrossLayerInputType, Gate, GateCustom, Input, InputType, InputUsize, NormalInputType, Segment,
};
use expander_compiler::compile::compile_with_options;
use expander_compiler::frontend::WitnessSolver;
use expander_compiler::zkcuda::context::ComputationGraph;
use expander_compiler::zkcuda::proving_system::{CombinedProof, KernelWiseProvingSystem, ProvingSystem};
use arith::{Field, SimdField};
use expander_compiler::zkcuda::proving_system::expander_pcs_defered::BN254ConfigSha2UniKZG;
use gkr::{BN254ConfigSha2Hyrax, GF2ExtConfigSha2Orion, M31x16ConfigSha2OrionVanilla};
use serdes::ExpSerde;
use simrt::{choose, choose_usize, entropy, fault, flip, range};
use std::collections::{HashMap, VecDeque};
use std::io::{BufReader, BufWriter, Error, ErrorKind, Read, Write};
use std::ops::Range;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

const P: &str = "C10";
const Q: &str = "C11";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 100_000,
        thorough: 100_000_000,
        scens: vec![scen("stream", 8, stream, memory), scen("pipe", 4, piped, pipe), scen("file", 4, disk, file)],
        rule: "one run = one to four generated objects (compiled and arbitrary layered circuits of both kinds, source programs, \
               witness solvers, witnesses, kernels, computation graphs, set-ups, proofs; any field) written one after the other \
               to a simulated stream, a pipe to another process, or a file, whose transfers are short, interrupted or fail at \
               seeded points, and read back over one that behaves the same. What arrives must be the bytes of the objects, each \
               read must take exactly its own bytes and give an equal object, and a stream that failed must be an error. \
               Non-trivial = at least one transfer was compared.",
        real: "ExpSerde implementations of expander_compiler (circuits, witnesses, instructions, expressions), compiler, kernels (real code)",
        stub: "byte format of integers, vectors, options, maps and derived structures (crates serdes, serdes_derive), field crates, prover engine, file system and pipes",
        parallel: false,
    }
}
pub fn check_damage() -> Check {
    Check {
        id: Q,
        quick: 200_000,
        thorough: 100_000_000,
        scens: vec![scen("damage", 8, reading, damage), scen("foreign", 4, reading, foreign), scen("crash", 3, crashing, crash)],
        rule: "one run = one generated object whose stored bytes are cut at seeded points, changed in the header, overwritten with \
               zeroes, noise, large numbers or parts of another file, left behind by a process killed while writing, or read as \
               an object of another field, configuration or kind; reading goes through short and interrupted transfers with a \
               limit on memory. Cut and foreign files and changed headers must give an error, and nothing may panic, allocate \
               out of proportion or run on. Non-trivial = at least one damaged read was judged.",
        real: "ExpSerde implementations of expander_compiler (circuits, witnesses, instructions, expressions) (real code)",
        stub: "byte format of integers, vectors, options, maps and derived structures (crates serdes, serdes_derive), field crates, file system",
        parallel: false,
    }
}
fn stream(r: &mut Rng) -> Knobs {
    Knobs {
        faults: vec!["stream.".into()],
        fault_permille: [0, 20, 200, 500][r.below(4) as usize],
        fault_budget: [1, 4, 1000][r.below(3) as usize],
        ..quiet(r)
    }
}
fn reading(r: &mut Rng) -> Knobs {
    Knobs { faults: vec!["stream.short_read".into(), "stream.read_interrupted".into()], ..stream(r) }
}
fn piped(r: &mut Rng) -> Knobs {
    Knobs { switch_permille: [0, 100, 500][r.below(3) as usize], max_steps: 3_000_000, ..stream(r) }
}
fn disk(r: &mut Rng) -> Knobs {
    Knobs { faults: vec!["disk.".into()], ..stream(r) }
}
fn crashing(r: &mut Rng) -> Knobs {
    Knobs { switch_permille: 500, faults: vec!["disk.short_write".into(), "disk.write_eintr".into()], ..stream(r) }
}

// ---------------------------------------------------------------- objects

/// One stored object.
struct Art {
    name: &'static str,
    kind: Stored,
    modulus: ethnum::U256,
    config: usize,
    bytes: Vec<u8>,
    write: Box<dyn Fn(&mut dyn Write) -> Result<Result<(), String>, String>>,
    /// reads an object; Ok(None): an equal one
    read: ReadFn,
}
type ReadFn = Box<dyn Fn(&mut dyn Read) -> Result<Result<Option<String>, String>, String>>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Stored {
    Layered(bool),
    Source,
    Solver,
    Witness,
    Graph,
    Other,
}

fn art<C: Config, X: ExpSerde + 'static>(name: &'static str, kind: Stored, x: X, same: impl Fn(&X, &X) -> bool + 'static) -> Art {
    simrt::probe(name);
    let b = bytes(&x);
    let (x, b2) = (Arc::new(x), b.clone());
    let y = x.clone();
    Art {
        name,
        kind,
        modulus: F::<C>::MODULUS,
        config: C::CONFIG_ID,
        bytes: b,
        write: Box::new(move |w| attempt(|| x.serialize_into(w).map_err(|e| format!("{e:?}")))),
        read: Box::new(move |r| {
            attempt(|| {
                let z = X::deserialize_from(r).map_err(|e| format!("{e:?}"))?;
                Ok(if !same(&y, &z) {
                    Some("not equal".into())
                } else if bytes(&z) != b2 {
                    Some("it is written differently".into())
                } else {
                    None
                })
            })
        }),
    }
}
fn eq<X: PartialEq>(a: &X, b: &X) -> bool {
    a == b
}

fn number() -> usize {
    match choose(12) {
        0 => 0,
        1..=6 => choose_usize(20),
        7 => 250 + choose_usize(12),
        8 => 65530 + choose_usize(12),
        9 => (1usize << 32) - 6 + choose_usize(12),
        10 => entropy() as usize & ((1 << 40) - 1),
        _ => choose_usize(1000),
    }
}
fn value<C: Config>() -> F<C> {
    if flip(500) {
        small()
    } else {
        any()
    }
}
fn numbers(n: usize) -> Vec<usize> {
    (0..choose_usize(n)).map(|_| number()).collect()
}
fn coef<C: Config>() -> Coef<C> {
    match choose(4) {
        0 => Coef::Random,
        1 => Coef::PublicInput(number()),
        _ => Coef::Constant(value::<C>()),
    }
}
fn lin_comb<C: Config>() -> LinComb<C> {
    LinComb { terms: (0..choose_usize(5)).map(|_| LinCombTerm { var: number(), coef: value::<C>() }).collect(), constant: value::<C>() }
}
fn source_insn<C: Config>() -> I<C> {
    match choose(13) {
        0 => I::LinComb(lin_comb()),
        1 => I::Mul(numbers(5)),
        2 => I::Div { x: number(), y: number(), checked: flip(500) },
        3 => I::BoolBinOp { x: number(), y: number(), op: [B::Xor, B::Or, B::And][choose_usize(3)].clone() },
        4 => I::IsZero(number()),
        5 => I::Commit(numbers(5)),
        6 => I::Hint { hint_id: number(), inputs: numbers(5), num_outputs: number() },
        7 => I::ConstantLike(coef()),
        8 => I::SubCircuitCall { sub_circuit_id: number(), inputs: numbers(5), num_outputs: number() },
        9 => {
            let all = [
                U::Div, U::Pow, U::IntDiv, U::Mod, U::ShiftL, U::ShiftR, U::LesserEq, U::GreaterEq, U::Lesser, U::Greater, U::Eq,
                U::NotEq, U::BoolOr, U::BoolAnd, U::BitOr, U::BitAnd, U::BitXor,
            ];
            I::UnconstrainedBinOp { x: number(), y: number(), op: all[choose_usize(all.len())].clone() }
        }
        10 => I::UnconstrainedSelect { cond: number(), if_true: number(), if_false: number() },
        11 => I::CustomGate { gate_type: number(), inputs: numbers(5) },
        _ => I::ToBinary { x: number(), num_bits: number() },
    }
}
fn solver_insn<C: Config>() -> H<C> {
    match choose(6) {
        0 => H::LinComb(lin_comb()),
        1 => H::Mul(numbers(5)),
        2 => H::Hint { hint_id: number(), inputs: numbers(5), num_outputs: number() },
        3 => H::ConstantLike(coef()),
        4 => H::SubCircuitCall { sub_circuit_id: number(), inputs: numbers(5), num_outputs: number() },
        _ => H::CustomGate { gate_type: number(), inputs: numbers(5) },
    }
}
fn ids() -> Vec<usize> {
    let mut v = vec![0];
    for _ in 0..choose_usize(4) {
        let n = if flip(300) { entropy() as usize } else { number() };
        if !v.contains(&n) {
            v.push(n);
        }
    }
    v
}
fn any_source<C: Config>() -> source::RootCircuit<C> {
    let c = || IrCircuit {
        instructions: (0..choose_usize(8)).map(|_| source_insn::<C>()).collect(),
        constraints: (0..choose_usize(4)).map(|_| Constraint { typ: [T::Zero, T::NonZero, T::Bool][choose_usize(3)], var: number() }).collect(),
        outputs: numbers(5),
        num_inputs: number(),
    };
    IrRoot {
        num_public_inputs: number(),
        expected_num_output_zeroes: number(),
        circuits: ids().into_iter().map(|i| (i, c())).collect::<HashMap<_, _>>(),
    }
}
fn any_solver<C: Config>() -> hint_normalized::RootCircuit<C> {
    let c = || IrCircuit {
        instructions: (0..choose_usize(8)).map(|_| solver_insn::<C>()).collect(),
        constraints: numbers(4),
        outputs: numbers(5),
        num_inputs: number(),
    };
    IrRoot {
        num_public_inputs: number(),
        expected_num_output_zeroes: number(),
        circuits: ids().into_iter().map(|i| (i, c())).collect::<HashMap<_, _>>(),
    }
}
trait Layer: InputType + 'static {
    const CROSS: bool;
    fn input() -> Self::Input {
        Self::Input::new(if Self::CROSS { number() } else { 0 }, number())
    }
    fn size() -> Self::InputUsize {
        Self::InputUsize::from_vec(if Self::CROSS { numbers(4) } else { vec![number()] })
    }
}
impl Layer for NormalInputType {
    const CROSS: bool = false;
}
impl Layer for CrossLayerInputType {
    const CROSS: bool = true;
}
fn any_layered<C: Config, L: Layer>() -> Circuit<C, L> {
    fn gates<C: Config, L: Layer, const N: usize>() -> Vec<Gate<C, L, N>> {
        (0..choose_usize(4)).map(|_| Gate { inputs: [0; N].map(|_| L::input()), output: number(), coef: coef() }).collect()
    }
    let segments = (0..choose_usize(4))
        .map(|_| Segment {
            num_inputs: L::size(),
            num_outputs: number(),
            child_segs: (0..choose_usize(3))
                .map(|_| (number(), (0..choose_usize(3)).map(|_| Allocation { input_offset: L::size(), output_offset: number() }).collect()))
                .collect(),
            gate_muls: gates::<C, L, 2>(),
            gate_adds: gates::<C, L, 1>(),
            gate_consts: gates::<C, L, 0>(),
            gate_customs: (0..choose_usize(3))
                .map(|_| GateCustom { gate_type: number(), inputs: (0..choose_usize(4)).map(|_| L::input()).collect(), output: number(), coef: coef() })
                .collect(),
        })
        .collect();
    Circuit {
        num_public_inputs: number(),
        num_actual_outputs: number(),
        expected_num_output_zeroes: number(),
        segments,
        layer_ids: numbers(5),
    }
}
fn any_witness<C: Config>() -> Witness<C> {
    let (n, a, b) = (range(1, 20), range(1, 5), choose_usize(3));
    let p = SIMDField::<C>::PACK_SIZE;
    let vals: Vec<F<C>> = (0..n * (a + b)).map(|_| value::<C>()).collect();
    let values = if n > 1 && p > 1 {
        let one = |blk: usize, i: usize| {
            let v: Vec<F<C>> = (0..p).map(|j| vals[(blk * p + j).min(n - 1) * (a + b) + i]).collect();
            SIMDField::<C>::pack(&v)
        };
        WitnessValues::Simd((0..n.div_ceil(p)).flat_map(|k| (0..a + b).map(move |i| (k, i))).map(|(k, i)| one(k, i)).collect())
    } else {
        WitnessValues::Scalar(vals)
    };
    Witness { num_witnesses: n, num_inputs_per_witness: a, num_public_inputs_per_witness: b, values }
}
fn same_witness<C: Config>(x: &Witness<C>, y: &Witness<C>) -> bool {
    let shape = |w: &Witness<C>| (w.num_witnesses, w.num_inputs_per_witness, w.num_public_inputs_per_witness);
    shape(x) == shape(y)
        && x.iter_scalar().eq(y.iter_scalar())
        && x.iter_simd().map(|v| bytes(&v)).eq(y.iter_simd().map(|v| bytes(&v)))
}
fn layered<C: Config, L: Layer>(c: Circuit<C, L>) -> Art {
    art::<C, _>(if L::CROSS { "cross-layer circuit" } else { "layered circuit" }, Stored::Layered(L::CROSS), c, eq)
}
fn witness<C: Config>(w: Witness<C>) -> Art {
    art::<C, _>("witness", Stored::Witness, w, same_witness)
}
fn solver<C: Config>(s: hint_normalized::RootCircuit<C>) -> Art {
    art::<C, _>("witness solver", Stored::Solver, WitnessSolver::<C> { circuit: s }, |a, b| a.circuit == b.circuit)
}

fn compiled<C: Config>() -> Vec<Art> {
    let mut o = gopts();
    o.custom = flip(100);
    let s = gen::<C>(&o);
    let opts = c13::options();
    let mut v = vec![];
    let sols = |s: &hint_normalized::RootCircuit<C>, v: &mut Vec<Art>| {
        v.push(solver::<C>(s.clone()));
        let ins: Vec<_> = (0..range(1, 20)).map(|_| (0..s.input_size()).map(|_| small()).collect::<Vec<F<C>>>()).collect();
        let public: Vec<F<C>> = (0..s.num_public_inputs).map(|_| small()).collect();
        let ws = WitnessSolver::<C> { circuit: s.clone() };
        let w = attempt(|| {
            if ins.len() == 1 {
                ws.solve_witness_from_raw_inputs(ins[0].clone(), public.clone(), &circ::Caller)
            } else {
                ws.solve_witnesses_from_raw_inputs(ins.len(), |i| (ins[i].clone(), public.clone()), &circ::Caller)
            }
        });
        if let Ok(Ok(w)) = w {
            simrt::probe("solved witness");
            v.push(witness(w));
        }
    };
    if flip(350) {
        if let Ok(Ok((w, c))) = attempt(|| compile_with_options::<C, CrossLayerInputType>(&s.root, opts)) {
            sols(&w, &mut v);
            v.push(layered(c));
        }
    } else if let Ok(Ok((w, c))) = attempt(|| compile_with_options::<C, NormalInputType>(&s.root, opts)) {
        sols(&w, &mut v);
        v.push(layered(c));
    }
    v.push(art::<C, _>("source circuit", Stored::Source, s.root, eq));
    v
}
fn arbitrary<C: Config>() -> Vec<Art> {
    vec![match choose(5) {
        0 => layered(any_layered::<C, NormalInputType>()),
        1 => layered(any_layered::<C, CrossLayerInputType>()),
        2 => art::<C, _>("source circuit", Stored::Source, any_source::<C>(), eq),
        3 => solver::<C>(any_solver::<C>()),
        _ => witness::<C>(any_witness::<C>()),
    }]
}
fn graphs<C: Config>() -> Vec<Art> {
    let sc = gen_script::<F<C>>(popts(8));
    let Ok(k) = compile_kernels::<C>(&sc) else { return vec![] };
    let mut v: Vec<Art> = k.prims.iter().map(|p| art::<C, _>("kernel primitive", Stored::Other, p.clone(), eq)).collect();
    if let Some(j) = c08::job_of::<C>(sc) {
        for k in j.graph.kernels().iter().take(1) {
            v.push(art::<C, _>("kernel", Stored::Other, k.clone(), eq));
        }
        v.push(graph(j.graph));
    }
    v
}
fn graph<C: Config>(g: ComputationGraph<C>) -> Art {
    art::<C, _>("computation graph", Stored::Graph, g, |a, b| {
        a.kernels() == b.kernels() && a.commitments_lens() == b.commitments_lens() && a.proof_templates() == b.proof_templates()
    })
}
fn proofs<C: Config, KP, B>(_: &'static str, _: bool) -> Vec<Art>
where
    KP: KernelWiseProvingSystem<C> + 'static,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::VerifierSetup: 'static,
    B::ProverSetup: 'static,
{
    let Some(j) = job::<C>(popts(3)) else { return vec![] };
    if c08::is_transposed(&j.graph) || !j.trace.all_sat() {
        return vec![];
    }
    let (p, v) = B::setup(&j.graph);
    let pf = B::prove(&p, &j.graph, j.mems.clone());
    let ok = |_: &_, _: &_| true;
    let g = Arc::new(j.graph);
    let verified = {
        let (g, v) = (g.clone(), v.clone());
        move |_: &CombinedProof<C, KP>, y: &CombinedProof<C, KP>| B::verify(&v, &g, y)
    };
    let mut out = vec![];
    if flip(600) {
        out.push(art::<C, _>("proof", Stored::Other, pf, verified));
    } else {
        out.push(art::<C, _>("prover setup", Stored::Other, p, ok));
        out.push(art::<C, _>("verifier setup", Stored::Other, v, |_: &B::VerifierSetup, _: &B::VerifierSetup| true));
    }
    out
}

/// Up to `n` objects to be stored one after the other.
fn objects(n: usize) -> Vec<Art> {
    let mut v = vec![];
    for _ in 0..range(1, n) {
        let mut a = match choose(10) {
            0..=4 => with_config!(choose_usize(5), C => arbitrary::<C>()),
            5..=7 => with_config!(choose_usize(5), C => compiled::<C>()),
            8 => with_config!(choose_usize(5), C => graphs::<C>()),
            _ => local_backend!(choose_usize(c08::N_LOCAL), proofs),
        };
        if a.len() > 1 && flip(600) {
            let k = choose_usize(a.len());
            a = vec![a.swap_remove(k)];
        }
        v.extend(a);
    }
    if v.is_empty() {
        v = arbitrary::<M31Config>();
    }
    v
}

// ---------------------------------------------------------------- streams

#[derive(Default)]
struct Faults {
    hard: Option<&'static str>,
}
fn hard_error(name: &'static str, f: &mut Faults, kinds: &[ErrorKind]) -> Option<Error> {
    if f.hard.is_some() && !flip(300) {
        return None;
    }
    if !fault(name) {
        return None;
    }
    f.hard = Some(name);
    Some(Error::new(kinds[choose_usize(kinds.len())], "simulated stream failure"))
}
struct Out<'a> {
    to: &'a mut Vec<u8>,
    f: Faults,
}
impl Write for Out<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if fault("stream.write_interrupted") {
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some(e) = hard_error("stream.write_error", &mut self.f, &[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::PermissionDenied]) {
            return Err(e);
        }
        if self.f.hard.is_none() && fault("stream.write_nothing") {
            self.f.hard = Some("stream.write_nothing");
            return Ok(0);
        }
        let n = if b.len() > 1 && fault("stream.short_write") { range(1, b.len() - 1) } else { b.len() };
        self.to.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct In<'a> {
    from: &'a [u8],
    at: usize,
    f: Faults,
}
impl Read for In<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if fault("stream.read_interrupted") {
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some(e) = hard_error("stream.read_error", &mut self.f, &[ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::WouldBlock]) {
            return Err(e);
        }
        let mut n = b.len().min(self.from.len() - self.at);
        if n > 1 && fault("stream.short_read") {
            n = range(1, n - 1);
        }
        b[..n].copy_from_slice(&self.from[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// What a write must have done, given whether its stream failed.
fn wrote(a: &Art, r: Result<Result<(), String>, String>, failed: Option<&'static str>, got: &[u8]) -> bool {
    oracle();
    match (r, failed) {
        (Err(p), _) => {
            bad!(P, "writing panics: {}: {p}", a.name);
            false
        }
        (Ok(Ok(())), Some(f)) => {
            bad!(P, "failed write not reported: {}, {f}", a.name);
            false
        }
        (Ok(Err(e)), None) => {
            bad!(P, "writing fails: {}: {e}", a.name);
            false
        }
        (Ok(Err(_)), Some(_)) => {
            simrt::probe("write error reported");
            false
        }
        (Ok(Ok(())), None) => {
            if got != a.bytes {
                bad!(P, "wrong bytes on the stream: {}: {} bytes for {}", a.name, got.len(), a.bytes.len());
                return false;
            }
            true
        }
    }
}
fn was_read(a: &Art, r: Result<Result<Option<String>, String>, String>, failed: Option<&'static str>, taken: Option<usize>) -> bool {
    oracle();
    match (r, failed) {
        (Err(p), _) => bad!(P, "reading panics: {}: {p}", a.name),
        (Ok(Ok(_)), Some(f)) => bad!(P, "failed read not reported: {}, {f}", a.name),
        (Ok(Err(e)), None) => bad!(P, "reading fails: {}: {e}", a.name),
        (Ok(Err(_)), Some(_)) => simrt::probe("read error reported"),
        (Ok(Ok(Some(d))), None) => bad!(P, "different object: {}: {d}", a.name),
        (Ok(Ok(None)), None) => {
            if taken.is_some_and(|n| n != a.bytes.len()) {
                bad!(P, "reads beyond or short of its bytes: {}: {taken:?} of {}", a.name, a.bytes.len());
                return false;
            }
            return true;
        }
    }
    false
}

fn memory() {
    let v = objects(3);
    let mut buf = vec![];
    for a in &v {
        let at = buf.len();
        let mut o = Out { to: &mut buf, f: Faults::default() };
        let r = (a.write)(&mut o);
        let failed = o.f.hard;
        if !wrote(a, r, failed, &buf[at..].to_vec()) {
            return;
        }
    }
    let mut i = In { from: &buf, at: 0, f: Faults::default() };
    for a in &v {
        let at = i.at;
        let r = (a.read)(&mut i);
        let (failed, n) = (i.f.hard, i.at - at);
        if !was_read(a, r, failed, Some(n)) {
            return;
        }
    }
}

/// A bounded pipe between two processes.
#[derive(Default)]
struct Pipe {
    q: VecDeque<u8>,
    cap: usize,
    /// the writer is done or gone, the reader is gone
    closed: [bool; 2],
    /// the reader found the pipe empty and closed, the writer found it closed
    seen: [bool; 2],
}
#[derive(Clone)]
struct End(Arc<Mutex<Pipe>>);
struct Tx(End);
impl Write for Tx {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if fault("stream.write_interrupted") {
            return Err(ErrorKind::Interrupted.into());
        }
        let p = self.0 .0.clone();
        simrt::wait_until(move || {
            let p = p.lock().unwrap();
            p.q.len() < p.cap || p.closed[1]
        });
        let mut p = self.0 .0.lock().unwrap();
        if p.closed[1] {
            p.seen[1] = true;
            return Err(ErrorKind::BrokenPipe.into());
        }
        let mut n = b.len().min(p.cap - p.q.len());
        if n > 1 && fault("stream.short_write") {
            n = range(1, n - 1);
        }
        p.q.extend(&b[..n]);
        drop(p);
        simrt::bump();
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Rx(End, usize);
impl Read for Rx {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if fault("stream.read_interrupted") {
            return Err(ErrorKind::Interrupted.into());
        }
        let p = self.0 .0.clone();
        simrt::wait_until(move || {
            let p = p.lock().unwrap();
            !p.q.is_empty() || p.closed[0]
        });
        let mut p = self.0 .0.lock().unwrap();
        let mut n = b.len().min(p.q.len());
        if n == 0 {
            p.seen[0] = true;
        }
        if n > 1 && fault("stream.short_read") {
            n = range(1, n - 1);
        }
        for (x, y) in b.iter_mut().zip(p.q.drain(..n)) {
            *x = y;
        }
        drop(p);
        self.1 += n;
        simrt::bump();
        Ok(n)
    }
}
fn pipe() {
    let v = Arc::new(objects(2));
    let pipe = End(Arc::new(Mutex::new(Pipe { cap: [1, 3, 16, 200, 5000][choose_usize(5)], ..Pipe::default() })));
    let leave = [None, Some(choose_usize(v.iter().map(|a| a.bytes.len()).sum::<usize>() + 1))][flip(300) as usize];
    let who = choose_usize(2);
    let (vw, pw) = (v.clone(), pipe.clone());
    let writer = crate::procs::new_proc();
    let w = simrt::spawn(writer, "writer", move || {
        for a in vw.iter() {
            let r = (a.write)(&mut Tx(pw.clone()));
            let seen = pw.0.lock().unwrap().seen[1];
            if !wrote(a, r, seen.then_some("closed pipe"), &a.bytes) {
                break;
            }
        }
        pw.0.lock().unwrap().closed[0] = true;
        simrt::bump();
    });
    let (vr, pr) = (v.clone(), pipe.clone());
    let reader = crate::procs::new_proc();
    let r = simrt::spawn(reader, "reader", move || {
        let mut x = Rx(pr.clone(), 0);
        for a in vr.iter() {
            let at = x.1;
            let r = (a.read)(&mut x);
            let seen = pr.0.lock().unwrap().seen[0];
            let n = x.1 - at;
            if !was_read(a, r, seen.then_some("end of stream"), Some(n)) {
                break;
            }
        }
        pr.0.lock().unwrap().closed[1] = true;
        simrt::bump();
    });
    if let Some(n) = leave {
        // one end leaves once some bytes are through
        let p = pipe.clone();
        for _ in 0..n.min(200) {
            simrt::yield_now();
        }
        simrt::note_fault(["stream.writer_gone", "stream.reader_gone"][who]);
        let mut g = p.0.lock().unwrap();
        g.closed[who] = true;
        drop(g);
        simrt::kill_proc([writer, reader][who]);
        simrt::bump();
    }
    for (i, x) in [w.join(), r.join()].into_iter().enumerate() {
        if let (Err(e), false) = (x, leave.is_some() && who == i) {
            bad!(P, "panic: {}", simrt::panic_text(&*e));
        }
    }
}

fn disk_failed(what: &[&str]) -> u64 {
    what.iter().map(|k| simrt::fault_count(k)).sum()
}
const WRITE_FAULTS: [&str; 1] = ["disk.write_enospc"];
const READ_FAULTS: [&str; 1] = ["disk.read_eio"];
fn file() {
    let v = objects(3);
    let path = "/tmp/artifact.bin";
    if flip(300) {
        simrt::interpose::fs(|f| f.files.insert(path.into(), vec![0xaa; 100_000]));
    }
    let Ok(f) = std::fs::File::create(path) else { return };
    let buffered = [None, Some(range(1, 100))][choose_usize(2)];
    let mut total = vec![];
    {
        let mut w: Box<dyn Write> = match buffered {
            None => Box::new(f),
            Some(n) => Box::new(BufWriter::with_capacity(n, f)),
        };
        for a in &v {
            let before = disk_failed(&WRITE_FAULTS);
            let mut r = (a.write)(&mut w);
            if let Ok(Ok(())) = r {
                r = Ok(w.flush().map_err(|e| format!("{e:?}")));
            }
            total.extend_from_slice(&a.bytes);
            let failed = (disk_failed(&WRITE_FAULTS) > before).then_some("disk error");
            if !wrote(a, r, failed, &a.bytes) {
                return;
            }
        }
    }
    let on_disk = simrt::interpose::fs(|f| f.files.get(path).cloned()).unwrap_or_default();
    if on_disk != total {
        bad!(P, "wrong bytes on disk: {} for {}", on_disk.len(), total.len());
        return;
    }
    let Ok(f) = std::fs::File::open(path) else { return };
    let mut r: Box<dyn Read> = match buffered {
        None => Box::new(f),
        Some(n) => Box::new(BufReader::with_capacity(n, f)),
    };
    for a in &v {
        let before = disk_failed(&READ_FAULTS);
        let x = (a.read)(&mut r);
        let failed = (disk_failed(&READ_FAULTS) > before).then_some("disk error");
        if !was_read(a, x, failed, None) {
            return;
        }
    }
    let mut rest = [0; 1];
    if let Ok(1) = r.read(&mut rest) {
        bad!(P, "reads short of its bytes: {} bytes are left over", rest.len());
    }
}

// ---------------------------------------------------------------- damage

/// Files of the kinds the property speaks of.
fn files() -> Vec<Art> {
    let mut v = objects(1);
    v.retain(|a| a.kind != Stored::Other);
    if v.is_empty() {
        v = with_config!(choose_usize(5), C => arbitrary::<C>());
    }
    v
}
/// The bytes that say what the file is.
fn header(a: &Art) -> Range<usize> {
    let m = a.modulus.to_le_bytes();
    let find = || (0..64usize).find(|i| a.bytes.get(*i..*i + 32) == Some(&m[..]));
    match a.kind {
        Stored::Layered(_) => 0..find().map_or(8, |i| i + 32),
        Stored::Witness => find().map_or(0..0, |i| i..i + 32),
        Stored::Source | Stored::Solver => 0..8.min(a.bytes.len()),
        _ => 0..0,
    }
}
/// Reads with memory limited to a multiple of the file.
fn limited(f: &ReadFn, b: &[u8], name: &str, what: &str) -> Option<bool> {
    let mut i = In { from: b, at: 0, f: Faults::default() };
    alloc::LIMIT.store((64 << 20) + 64 * b.len(), Ordering::SeqCst);
    let r = f(&mut i);
    alloc::LIMIT.store(1 << 40, Ordering::SeqCst);
    oracle();
    match r {
        Err(p) if p.contains("out of memory") || p.contains("capacity overflow") || p.contains("allocates without end") => {
            bad!(Q, "unbounded allocation, {name}: {what}: {p}");
            None
        }
        Err(p) => {
            bad!(Q, "panic, {name}: {what}: {p}");
            None
        }
        Ok(r) => Some(r.is_ok()),
    }
}
fn damage() {
    let v = files();
    let a = &v[choose_usize(v.len())];
    let other = if flip(200) { objects(1).swap_remove(0).bytes } else { vec![] };
    let h = header(a);
    for _ in 0..range(3, 10) {
        let n = a.bytes.len();
        let mut b = a.bytes.clone();
        let (mut must_fail, mut cut) = (false, false);
        let mut what = a.name.to_string();
        if flip(400) {
            let at = match choose(4) {
                0 => n - 1 - choose_usize(n.min(40)),
                1 => choose_usize(n.min(80)),
                _ => choose_usize(n),
            };
            b.truncate(at);
            cut = true;
            what += &format!(" cut to {at} of {n} bytes");
        }
        if !b.is_empty() && (!cut || flip(200)) {
            let (at, len) = (choose_usize(b.len()), [1, 8, 64, 512][choose_usize(4)]);
            let at = if flip(300) { choose_usize(b.len().min(120)) } else { at };
            let kind = choose(6);
            match kind {
                0 => b[at] ^= 1 << choose(8),
                1 => b.iter_mut().skip(at).take(len).for_each(|x| *x = 0),
                2 => b.iter_mut().skip(at).take(len).for_each(|x| *x = entropy() as u8),
                3 => b.iter_mut().skip(at).take(len).for_each(|x| *x = 0xff),
                4 => {
                    // a number of any size where a number may be
                    let at = at / 8 * 8;
                    let x = [1u64 << 20, 1 << 33, 1 << 45, 1 << 60, u64::MAX, 1 << 63, entropy(), 0][choose_usize(8)];
                    for (i, y) in x.to_le_bytes().iter().enumerate() {
                        if at + i < b.len() {
                            b[at + i] = *y;
                        }
                    }
                }
                _ => {
                    for (i, x) in b.iter_mut().enumerate().skip(at) {
                        if let Some(y) = other.get(i) {
                            *x = *y;
                        }
                    }
                }
            }
            what += &format!(" with damage {kind} from byte {at} on");
            let hit = h.end <= b.len() && b[h.clone()] != a.bytes[h.clone()];
            must_fail = hit;
            simrt::note_fault(if hit { "damage.header" } else { "damage.block" });
        } else {
            must_fail = true;
            simrt::note_fault("damage.cut");
        }
        let Some(ok) = limited(&a.read, &b, a.name, &what) else { return };
        if ok && must_fail {
            bad!(Q, "damaged file accepted: {what}");
            return;
        }
    }
}

fn readers<C: Config>() -> Vec<(Stored, ReadFn)> {
    fn reader<X: ExpSerde + 'static>() -> ReadFn {
        Box::new(|r| attempt(|| X::deserialize_from(r).map(|_| None).map_err(|e| format!("{e:?}"))))
    }
    vec![
        (Stored::Layered(false), reader::<Circuit<C, NormalInputType>>()),
        (Stored::Layered(true), reader::<Circuit<C, CrossLayerInputType>>()),
        (Stored::Source, reader::<source::RootCircuit<C>>()),
        (Stored::Solver, reader::<WitnessSolver<C>>()),
        (Stored::Witness, reader::<Witness<C>>()),
        (Stored::Graph, reader::<ComputationGraph<C>>()),
    ]
}
/// Files of the same form say the same in their header.
fn form(k: Stored) -> usize {
    match k {
        Stored::Layered(_) => 0,
        Stored::Source | Stored::Solver => 1,
        Stored::Witness => 2,
        Stored::Graph => 3,
        Stored::Other => 4,
    }
}
fn foreign() {
    let v = files();
    let a = &v[choose_usize(v.len())];
    for _ in 0..range(1, 4) {
        let (modulus, config, rs) = with_config!(choose_usize(5), C => (F::<C>::MODULUS, C::CONFIG_ID, readers::<C>()));
        let (kind, read) = &rs[choose_usize(rs.len())];
        let same_field = modulus == a.modulus && config == a.config;
        let what = format!("{:?} of modulus {}, configuration {} as {kind:?} of modulus {modulus}, configuration {config}", a.kind, a.modulus, a.config);
        simrt::note_fault(if *kind == a.kind { "foreign.field" } else { "foreign.kind" });
        let Some(ok) = limited(read, &a.bytes, a.name, &what) else { return };
        // a computation graph has no header of its own
        let told = a.kind != Stored::Graph || *kind != Stored::Source && *kind != Stored::Solver;
        if ok && told && !(same_field && form(*kind) == form(a.kind)) {
            bad!(Q, "foreign file accepted: {what}");
            return;
        }
    }
}

/// A process is killed while it replaces an older file.
fn crash() {
    let mut v = files();
    let k = choose_usize(v.len());
    let a = Arc::new(v.swap_remove(k));
    let path = "/tmp/artifact.bin";
    if flip(500) {
        simrt::interpose::fs(|f| f.files.insert(path.into(), a.bytes.clone()));
    }
    let p = crate::procs::new_proc();
    let a2 = a.clone();
    let buffered = flip(400);
    let w = simrt::spawn(p, "writer", move || {
        let Ok(f) = std::fs::File::create(path) else { return };
        let mut w: Box<dyn Write> = if buffered { Box::new(BufWriter::with_capacity(64, f)) } else { Box::new(f) };
        let _ = (a2.write)(&mut w);
        let _ = w.flush();
    });
    for _ in 0..choose(1 + [8, 60, 400][choose_usize(3)]) {
        simrt::yield_now();
    }
    simrt::note_fault("crash.during_write");
    simrt::kill_proc(p);
    let _ = w.join();
    let b = simrt::interpose::fs(|f| f.files.get(path).cloned()).unwrap_or_default();
    let whole = b == a.bytes;
    if !whole {
        simrt::probe("torn file");
    }
    let Some(ok) = limited(&a.read, &b, a.name, &format!("{} left by a killed writer, {} of {} bytes", a.name, b.len(), a.bytes.len())) else { return };
    if ok != whole {
        bad!(Q, "{}: {}, {} of {} bytes", if ok { "torn file accepted" } else { "complete file refused" }, a.name, b.len(), a.bytes.len());
    }
}
