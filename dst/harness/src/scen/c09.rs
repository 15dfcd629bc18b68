//! Verifiers against tampered, mixed-up and foreign proofs, and against a prover that cheats.
use super::c08::*;
use super::dist::*;
use super::prog::*;
use super::*;
use crate::{bad, local_backend, served_backend};
use expander_compiler::circuit::config::*;
use expander_compiler::zkcuda::context::ComputationGraph;
use expander_compiler::zkcuda::proving_system::expander_pcs_defered::BN254ConfigSha2UniKZG;
use expander_compiler::zkcuda::proving_system::*;
use gkr::{BN254ConfigSha2Hyrax, GF2ExtConfigSha2Orion, M31x16ConfigSha2OrionVanilla};
use gkr_engine::Proof as Inner;
use serdes::ExpSerde;
use simrt::{choose, choose_usize, flip};
use std::sync::atomic::Ordering;

const P: &str = "C09";

pub fn check() -> Check {
    Check {
        id: P,
        quick: 40_000,
        thorough: 3_000_000,
        scens: vec![scen("local", 10, calm, local), scen("wide", 1, calm, wide), scen("served", 6, calm, served)],
        rule: "one run = one seeded program proved by one backend, then a handful of attacks on its verifier: template \
               proofs dropped, duplicated, swapped, truncated or corrupted, commitments swapped, dropped or taken from \
               another request, proofs checked against another graph, a prover that commits to another vector than it \
               proves, a prover that claims false outputs, a witness changed in one element. An accepted proof must \
               be one whose commitments satisfy every template of the graph it was checked against. Non-trivial = at \
               least one attack was carried out.",
        real: "zkcuda::proving_system verifiers and provers (dummy, expander, expander_local_deferred), zkcuda::context, kernel (real code)",
        stub: "GKR and polynomial commitments (transparent models), worker pool, field arithmetic, getrandom",
        parallel: true,
    }
}
fn calm(r: &mut Rng) -> Knobs {
    Knobs { switch_permille: [0, 100][r.below(2) as usize], max_steps: 4_000_000, ..Knobs::default() }
}
fn local() {
    model::gkr::DUAL.store(flip(500), Ordering::Relaxed);
    let np = [3, 8, 17][choose_usize(3)];
    local_backend!(choose_usize(N_LOCAL), one, popts(np))
}
fn wide() {
    model::gkr::DUAL.store(flip(500), Ordering::Relaxed);
    local_backend!(10 + choose_usize(6), one, popts(300))
}

fn one<C: Config, KP, B>(name: &'static str, dummy: bool, o: POpts)
where
    KP: KernelWiseProvingSystem<C>,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>>,
{
    let Some(j) = job::<C>(o) else { return };
    let Ok(setup) = attempt(|| B::setup(&j.graph)) else { return };
    if !j.trace.all_sat() {
        // whatever comes of it, no accepted proof
        model::gkr::LIE.store(flip(500), Ordering::Relaxed);
        if let Ok(pf) = attempt(|| B::prove(&setup.0, &j.graph, j.mems.clone())) {
            if let Ok(true) = attempt(|| B::verify(&setup.1, &j.graph, &pf)) {
                bad!(P, "violating witness accepted: {name}");
            }
        }
        simrt::probe("violating witness");
        return oracle();
    }
    let prove = |m: &[Vec<S<C>>]| attempt(|| B::prove(&setup.0, &j.graph, m.to_vec()));
    let Ok(pf) = prove(&j.mems) else { return };
    if !matches!(attempt(|| B::verify(&setup.1, &j.graph, &pf)), Ok(true)) {
        // C08's business
        return;
    }
    let a = Arena::<C, KP> {
        name,
        dummy,
        batched: false,
        graph: &j.graph,
        mems: &j.mems,
        pf: &pf,
        verify: &|g, pf| {
            if std::ptr::eq(g, &j.graph) {
                attempt(|| B::verify(&setup.1, g, pf)).unwrap_or(false)
            } else {
                attempt(|| B::verify(&B::setup(g).1, g, pf)).unwrap_or(false)
            }
        },
        prove: &|m| prove(m).ok(),
    };
    let j2 = job_with::<C>(j.sc.clone(), gen_data::<C>(&j.sc)).filter(|x| x.trace.all_sat());
    for _ in 0..simrt::range(2, 6) {
        let r = match choose(6) {
            0 | 1 => a.tamper(),
            2 => a.cheat(),
            3 => a.wrong_witness(),
            4 => match &j2 {
                Some(j2) if j2.mems != j.mems => prove(&j2.mems).ok().map_or(Ok(()), |p2| a.mix(&p2, &j2.mems)),
                _ => Ok(()),
            },
            _ => foreign::<C>(&j).map_or(Ok(()), |g| a.foreign(&g)),
        };
        if let Err(x) = r {
            return bad!(P, "{x}");
        }
    }
    oracle();
}

/// The same attacks on proofs made by the proving service.
fn served() {
    served_backend!(choose_usize(N_SERVED + 1), one_served)
}
fn one_served<C: Config, KP, B>(name: &'static str, batched: bool, bnd: bool)
where
    KP: KernelWiseProvingSystem<C> + 'static,
    B: ProvingSystem<C, Proof = CombinedProof<C, KP>> + 'static,
    B::VerifierSetup: 'static,
    B::ProverSetup: 'static,
{
    model::gkr::DUAL.store(!batched && flip(500), Ordering::Relaxed);
    let p = client_proc(port());
    let t = simrt::spawn(p, "client", move || {
        let Some(j) = job::<C>(served_opts(bnd)).map(std::sync::Arc::new) else { return };
        if is_transposed(&j.graph) {
            return;
        }
        simrt::probe(name);
        let Ok(setup) = attempt(|| B::setup(&j.graph)).map(std::sync::Arc::new) else { return };
        let dead = std::cell::Cell::new(false);
        // a prover that fails may leave the service waiting for ever
        let prove = |m: &[Vec<S<C>>]| -> Option<CombinedProof<C, KP>> {
            if dead.get() {
                return None;
            }
            let (s2, j2, m2) = (setup.clone(), j.clone(), m.to_vec());
            let t = simrt::spawn(simrt::current_proc(), "prover", move || B::prove(&s2.0, &j2.graph, m2));
            let end = simrt::now_ns() + 400_000_000_000;
            while !t.is_done() && simrt::now_ns() < end {
                simrt::sleep_ns(1_000_000_000);
            }
            let r = if t.is_done() { t.join().ok() } else { None };
            dead.set(r.is_none());
            r
        };
        if !j.trace.all_sat() {
            model::gkr::LIE.store(flip(700), Ordering::Relaxed);
            if let Some(pf) = prove(&j.mems) {
                if let Ok(true) = attempt(|| B::verify(&setup.1, &j.graph, &pf)) {
                    bad!(P, "violating witness accepted: {name}");
                }
            }
            simrt::probe("violating witness");
            return oracle();
        }
        let Some(pf) = prove(&j.mems) else { return };
        if !matches!(attempt(|| B::verify(&setup.1, &j.graph, &pf)), Ok(true)) {
            return;
        }
        let a = Arena::<C, KP> {
            name,
            dummy: false,
            batched,
            graph: &j.graph,
            mems: &j.mems,
            pf: &pf,
            verify: &|g, pf| attempt(|| B::verify(&setup.1, g, pf)).unwrap_or(false),
            prove: &prove,
        };
        let j2 = job_with::<C>(j.sc.clone(), gen_data::<C>(&j.sc)).filter(|x| x.trace.all_sat());
        for _ in 0..simrt::range(2, 6) {
            let r = match choose(6) {
                0 | 1 => a.tamper(),
                2 => a.cheat(),
                3 => a.wrong_witness(),
                4 => match &j2 {
                    Some(j2) if j2.mems != j.mems => prove(&j2.mems).map_or(Ok(()), |p2| a.mix(&p2, &j2.mems)),
                    _ => Ok(()),
                },
                _ => foreign::<C>(&j).map_or(Ok(()), |g| a.foreign(&g)),
            };
            if let Err(x) = r {
                return bad!(P, "{x}");
            }
        }
        oracle();
    });
    let _ = t.join();
}

/// The graph of the same program with one operation of one kernel changed, or of another program.
fn foreign<C: Config>(j: &Job<C>) -> Option<ComputationGraph<C>> {
    let mut sc = j.sc.clone();
    let k = choose_usize(sc.kernels.len());
    let ops = &mut sc.kernels[k].ops;
    if ops.is_empty() {
        return None;
    }
    let i = choose_usize(ops.len());
    ops[i] = match ops[i].clone() {
        Op::Const(c) => Op::Const(c + 1),
        Op::Add(a, b) => Op::Mul(a, b),
        Op::Sub(a, b) => Op::Sub(b, a),
        Op::Mul(a, b) => Op::Add(a, b),
        Op::AddC(a, c) => Op::AddC(a, c + 1),
        Op::MulC(a, c) => Op::MulC(a, c + 1),
        Op::Neg(a) => Op::AddC(a, 0),
        Op::Eq(a, _) => Op::Eq(a, a),
        _ => return None,
    };
    job_with::<C>(sc, j.data.clone()).map(|x| x.graph)
}

pub struct Arena<'a, C: Config, KP: KernelWiseProvingSystem<C>> {
    pub name: &'static str,
    pub dummy: bool,
    /// the last "template proof" is the batch opening of all commitments
    pub batched: bool,
    pub graph: &'a ComputationGraph<C>,
    pub mems: &'a [Vec<S<C>>],
    pub pf: &'a CombinedProof<C, KP>,
    pub verify: &'a dyn Fn(&ComputationGraph<C>, &CombinedProof<C, KP>) -> bool,
    pub prove: &'a dyn Fn(&[Vec<S<C>>]) -> Option<CombinedProof<C, KP>>,
}

fn again<T: ExpSerde>(b: &[u8]) -> Option<T> {
    attempt(|| T::deserialize_from(b).ok()).ok().flatten()
}
/// The byte strings inside a (non-dummy) template proof.
fn inner<T: ExpSerde>(p: &T) -> Vec<Inner> {
    Vec::<Inner>::deserialize_from(&bytes(p)[..]).expect("template proof")
}
fn outer<T: ExpSerde>(v: &Vec<Inner>) -> T {
    T::deserialize_from(&bytes(v)[..]).expect("template proof")
}
fn satisfies<C: Config>(g: &ComputationGraph<C>, m: &[Vec<S<C>>]) -> bool {
    eval_templates::<C>(g, m).is_ok_and(|t| t.iter().flatten().all(|x| *x))
}

impl<C: Config, KP: KernelWiseProvingSystem<C>> Arena<'_, C, KP> {
    /// Commitments that some template opens.
    fn used(&self) -> Vec<usize> {
        let mut u: Vec<usize> = self.graph.proof_templates().iter().flat_map(|t| t.commitment_indices().to_vec()).collect();
        u.sort();
        u.dedup();
        u
    }
    fn refused(&self, what: &str, pf: &CombinedProof<C, KP>) -> Result<(), String> {
        simrt::note_fault(&format!("attack.{}", what.split(':').next().unwrap().replace(' ', "_")));
        if (self.verify)(self.graph, pf) {
            return Err(format!("{what} accepted: {}, {} templates", self.name, self.graph.proof_templates().len()));
        }
        Ok(())
    }
    /// Accepted only if these are commitments to vectors that satisfy the graph (a dummy proof
    /// carries the vectors and nothing else).
    fn judged(&self, what: &str, pf: &CombinedProof<C, KP>, mems: &[Vec<S<C>>]) -> Result<(), String> {
        simrt::note_fault(&format!("attack.{}", what.replace(' ', "_")));
        if (self.verify)(self.graph, pf) && !satisfies(self.graph, mems) {
            return Err(format!("{what} accepted: {}", self.name));
        }
        Ok(())
    }

    pub fn tamper(&self) -> Result<(), String> {
        let mut pf = self.pf.clone();
        let n = pf.proofs.len();
        let pb: Vec<Vec<u8>> = pf.proofs.iter().map(bytes).collect();
        let cb: Vec<Vec<u8>> = pf.commitments.iter().map(bytes).collect();
        let k = choose_usize(n);
        let i = choose_usize(n);
        let used = self.used();
        // a deferred template proof with bytes behind its end says the same: no forgery
        let extends = !self.dummy
            && inner(&pf.proofs[i]).iter().zip(&inner(&pf.proofs[k])).all(|(a, b)| {
                let l = a.bytes.len().min(b.bytes.len());
                a.bytes[..l] == b.bytes[..l]
            });
        match choose(8) {
            0 => {
                pf.proofs.remove(k);
                self.refused("dropped template proof", &pf)
            }
            1 => {
                pf.proofs.truncate(k);
                self.refused("truncated list of template proofs", &pf)
            }
            2 if pb[i] != pb[k] && !extends => {
                pf.proofs[k] = pf.proofs[i].clone();
                self.refused("duplicated template proof", &pf)
            }
            3 if pb[i] != pb[k] && !extends => {
                pf.proofs.swap(i, k);
                self.refused("swapped template proofs", &pf)
            }
            4 | 5 if !self.dummy => {
                let mut v = inner(&pf.proofs[k]);
                let e = choose_usize(v.len());
                let len = v[e].bytes.len();
                match choose(4) {
                    0 if v.len() > 1 => {
                        let f = choose_usize(v.len());
                        if v[e].bytes == v[f].bytes {
                            return Ok(());
                        }
                        v.swap(e, f);
                    }
                    1 => {
                        v.remove(e);
                    }
                    2 if len > 0 => v[e].bytes.truncate(choose_usize(len)),
                    _ if len > 0 => {
                        // half of the time in the part that opens the commitments
                        let at = if flip(500) { len - 1 - choose_usize(len.min(40)) } else { choose_usize(len) };
                        v[e].bytes[at] ^= 1 << choose(8);
                    }
                    _ => return Ok(()),
                }
                pf.proofs[k] = outer(&v);
                self.refused("corrupted template proof", &pf)
            }
            4 if self.dummy => self.false_conditions(),
            6 => {
                let (a, b) = (used[choose_usize(used.len())], used[choose_usize(used.len())]);
                if cb[a] == cb[b] {
                    return Ok(());
                }
                if flip(500) {
                    pf.commitments.swap(a, b);
                } else {
                    pf.commitments[a] = pf.commitments[b].clone();
                }
                if !self.dummy {
                    return self.refused("swapped commitments", &pf);
                }
                let mut m = self.mems.to_vec();
                for (i, c) in pf.commitments.iter().enumerate() {
                    m[i] = again::<Vec<S<C>>>(&bytes(c)).unwrap();
                }
                self.judged("swapped commitments", &pf, &m)
            }
            _ => {
                let a = used[choose_usize(used.len())];
                let mut v = self.mems[a].clone();
                bump::<C>(&mut v);
                let mut b = commitment_bytes::<C>(&v, self.dummy);
                if !self.dummy && flip(300) {
                    // the length it claims
                    b = cb[a].clone();
                    let l = if flip(500) { v.len() * 2 } else { v.len() / 2 };
                    b[..8].copy_from_slice(&(l as u64).to_le_bytes());
                    v = self.mems[a].clone();
                }
                let Some(c) = again(&b) else { return Ok(()) };
                if flip(100) {
                    pf.commitments.truncate(a);
                    return self.refused("dropped commitment", &pf);
                }
                pf.commitments[a] = c;
                if !self.dummy {
                    return self.refused("corrupted commitment", &pf);
                }
                let mut m = self.mems.to_vec();
                m[a] = v;
                self.judged("corrupted commitment", &pf, &m)
            }
        }
    }
    /// A dummy proof that states the failed conditions of a violating witness.
    fn false_conditions(&self) -> Result<(), String> {
        let mut m = self.mems.to_vec();
        let used = self.used();
        let a = used[choose_usize(used.len())];
        bump::<C>(&mut m[a]);
        let Ok(cond) = eval_instances::<C>(self.graph, &m) else { return Ok(()) };
        let mut pf = self.pf.clone();
        pf.proofs = cond.iter().map(|c| again(&bytes(c)).expect("dummy proof")).collect();
        pf.commitments[a] = again(&commitment_bytes::<C>(&m[a], true)).unwrap();
        self.judged("stated failure", &pf, &m)
    }
    /// Pieces of a proof of other inputs to the same graph.
    pub fn mix(&self, p2: &CombinedProof<C, KP>, m2: &[Vec<S<C>>]) -> Result<(), String> {
        let mut pf = self.pf.clone();
        let used = self.used();
        match choose(3) {
            0 => {
                let a = used[choose_usize(used.len())];
                if bytes(&pf.commitments[a]) == bytes(&p2.commitments[a]) {
                    return Ok(());
                }
                pf.commitments[a] = p2.commitments[a].clone();
                if !self.dummy {
                    return self.refused("commitment of another request", &pf);
                }
                let mut m = self.mems.to_vec();
                m[a] = m2[a].clone();
                self.judged("commitment of another request", &pf, &m)
            }
            1 => {
                if used.iter().all(|a| bytes(&pf.commitments[*a]) == bytes(&p2.commitments[*a])) {
                    return Ok(());
                }
                pf.commitments = p2.commitments.clone();
                if self.dummy {
                    self.judged("commitments of another request", &pf, m2)
                } else {
                    self.refused("commitments of another request", &pf)
                }
            }
            _ => {
                let k = choose_usize(pf.proofs.len().min(p2.proofs.len()));
                if self.dummy || bytes(&pf.proofs[k]) == bytes(&p2.proofs[k]) {
                    return Ok(());
                }
                pf.proofs[k] = p2.proofs[k].clone();
                self.refused("template proof of another request", &pf)
            }
        }
    }
    /// Commitments to other vectors than those proved, honestly opened.
    pub fn cheat(&self) -> Result<(), String> {
        if self.dummy {
            return Ok(());
        }
        let used = self.used();
        let a = used[choose_usize(used.len())];
        let mut v = self.mems[a].clone();
        bump::<C>(&mut v);
        model::pcs::forge(Some((&self.mems[a][..], &v[..])));
        let pf = (self.prove)(self.mems);
        model::pcs::forge::<S<C>>(None);
        match pf {
            Some(pf) => self.refused("proof over other commitments", &pf),
            None => Ok(()),
        }
    }
    /// One element of the witness changed; the prover may lie about the outputs.
    pub fn wrong_witness(&self) -> Result<(), String> {
        let used = self.used();
        let a = used[choose_usize(used.len())];
        let mut m = self.mems.to_vec();
        bump::<C>(&mut m[a]);
        if satisfies(self.graph, &m) {
            return Ok(());
        }
        model::gkr::LIE.store(flip(700), Ordering::Relaxed);
        let pf = (self.prove)(&m);
        model::gkr::LIE.store(false, Ordering::Relaxed);
        match pf {
            Some(pf) => self.refused("proof of a violating witness", &pf),
            None => {
                simrt::note_fault("attack.proof_of_a_violating_witness_not_made");
                Ok(())
            }
        }
    }
    /// The proof checked against another graph.
    pub fn foreign(&self, g: &ComputationGraph<C>) -> Result<(), String> {
        simrt::note_fault("attack.foreign_graph");
        if (self.verify)(g, self.pf) && !satisfies(g, self.mems) {
            return Err(format!("proof of another graph accepted: {}", self.name));
        }
        Ok(())
    }
}

/// One lane of one element changed.
fn bump<C: Config>(v: &mut [S<C>]) {
    use arith::{Field, SimdField};
    let i = if flip(300) { v.len() - 1 } else { choose_usize(v.len()) };
    let mut l = v[i].unpack();
    let k = choose_usize(l.len());
    l[k] += F::<C>::ONE;
    v[i] = S::<C>::pack(&l);
}
