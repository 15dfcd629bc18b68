//! Layered circuits in the form the prover takes them.
use crate::arith::*;
use crate::engine::{FieldEngine, GKREngine, Transcript};
use crate::serdes::{ExpSerde, SerdeError, SerdeResult};
use std::io::Read;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CoefType {
    Constant,
    Random,
    PublicInput(usize),
}

#[derive(Debug, Clone)]
pub struct Gate<C: FieldEngine, const INPUT_NUM: usize> {
    pub i_ids: [usize; INPUT_NUM],
    pub o_id: usize,
    pub coef_type: CoefType,
    pub coef: C::CircuitField,
    pub gate_type: usize,
}
pub type GateMul<C> = Gate<C, 2>;
pub type GateAdd<C> = Gate<C, 1>;
pub type GateUni<C> = Gate<C, 1>;
pub type GateConst<C> = Gate<C, 0>;

#[derive(Debug, Clone, Default)]
pub struct Allocation {
    pub i_offset: usize,
    pub o_offset: usize,
}
pub type SegmentId = usize;

#[derive(Debug, Clone, Default)]
pub struct Segment<C: FieldEngine> {
    pub i_var_num: usize,
    pub o_var_num: usize,
    pub child_segs: Vec<(SegmentId, Vec<Allocation>)>,
    pub gate_muls: Vec<GateMul<C>>,
    pub gate_adds: Vec<GateAdd<C>>,
    pub gate_consts: Vec<GateConst<C>>,
    pub gate_uni: Vec<GateUni<C>>,
}

#[derive(Debug, Clone, Default)]
pub struct RecursiveCircuit<C: FieldEngine> {
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
    pub segments: Vec<Segment<C>>,
    pub layers: Vec<SegmentId>,
}

#[derive(Debug, Clone, Default)]
pub struct CircuitLayer<C: FieldEngine> {
    pub input_var_num: usize,
    pub output_var_num: usize,
    pub input_vals: Vec<C::SimdCircuitField>,
    pub output_vals: Vec<C::SimdCircuitField>,
    pub mul: Vec<GateMul<C>>,
    pub add: Vec<GateAdd<C>>,
    pub const_: Vec<GateConst<C>>,
    pub uni: Vec<GateUni<C>>,
}

#[derive(Debug, Clone, Default)]
pub struct Circuit<C: FieldEngine> {
    pub layers: Vec<CircuitLayer<C>>,
    pub public_input: Vec<C::SimdCircuitField>,
    pub expected_num_output_zeros: usize,
    pub rnd_coefs_identified: bool,
}

impl<C: FieldEngine> RecursiveCircuit<C> {
    fn collect(&self, seg: usize, i_off: usize, o_off: usize, l: &mut CircuitLayer<C>) {
        let s = &self.segments[seg];
        macro_rules! shift {
            ($src:ident, $dst:ident) => {
                for g in s.$src.iter() {
                    let mut g = g.clone();
                    for i in g.i_ids.iter_mut() {
                        assert!(*i < 1 << s.i_var_num, "gate input outside its segment");
                        *i += i_off;
                    }
                    assert!(g.o_id < 1 << s.o_var_num, "gate output outside its segment");
                    g.o_id += o_off;
                    l.$dst.push(g);
                }
            };
        }
        shift!(gate_muls, mul);
        shift!(gate_adds, add);
        shift!(gate_consts, const_);
        shift!(gate_uni, uni);
        for (c, allocs) in s.child_segs.iter() {
            for a in allocs {
                self.collect(*c, i_off + a.i_offset, o_off + a.o_offset, l);
            }
        }
    }
    pub fn flatten(&self) -> Circuit<C> {
        let mut layers: Vec<CircuitLayer<C>> = vec![];
        for &id in &self.layers {
            let mut l = CircuitLayer {
                input_var_num: self.segments[id].i_var_num,
                output_var_num: self.segments[id].o_var_num,
                ..Default::default()
            };
            self.collect(id, 0, 0, &mut l);
            if let Some(p) = layers.last() {
                assert_eq!(p.output_var_num, l.input_var_num, "layer sizes do not agree");
            }
            layers.push(l);
        }
        Circuit {
            layers,
            public_input: vec![],
            expected_num_output_zeros: self.expected_num_output_zeros,
            rnd_coefs_identified: false,
        }
    }
    pub fn load(path: &str) -> SerdeResult<Self> {
        let b = std::fs::read(path)?;
        Self::deserialize_from(&b[..])
    }
    pub fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let r = &mut r;
        if usize::deserialize_from(&mut *r)? != 3914834606642317635 {
            return Err(SerdeError::DeserializeError);
        }
        if ethnum::U256::deserialize_from(&mut *r)? != C::CircuitField::MODULUS {
            return Err(SerdeError::DeserializeError);
        }
        let num_public_inputs = usize::deserialize_from(&mut *r)?;
        let num_outputs = usize::deserialize_from(&mut *r)?;
        let expected_num_output_zeros = usize::deserialize_from(&mut *r)?;
        let n = usize::deserialize_from(&mut *r)?;
        let mut segments = vec![];
        for _ in 0..n {
            segments.push(Self::segment(r)?);
        }
        let layers = Vec::<usize>::deserialize_from(&mut *r)?;
        Ok(RecursiveCircuit { num_public_inputs, num_outputs, expected_num_output_zeros, segments, layers })
    }
    fn segment<R: Read>(r: &mut R) -> SerdeResult<Segment<C>> {
        let i = usize::deserialize_from(&mut *r)?;
        let o = usize::deserialize_from(&mut *r)?;
        if !i.is_power_of_two() || !o.is_power_of_two() {
            return Err(SerdeError::DeserializeError);
        }
        let child_segs = Vec::<(usize, Vec<(usize, usize)>)>::deserialize_from(&mut *r)?
            .into_iter()
            .map(|(s, a)| {
                (s, a.into_iter().map(|(i_offset, o_offset)| Allocation { i_offset, o_offset }).collect())
            })
            .collect();
        Ok(Segment {
            i_var_num: i.trailing_zeros() as usize,
            o_var_num: o.trailing_zeros() as usize,
            child_segs,
            gate_muls: Self::gates(r, false)?,
            gate_adds: Self::gates(r, false)?,
            gate_consts: Self::gates(r, false)?,
            gate_uni: Self::gates(r, true)?,
        })
    }
    fn gates<R: Read, const N: usize>(r: &mut R, custom: bool) -> SerdeResult<Vec<Gate<C, N>>> {
        let n = usize::deserialize_from(&mut *r)?;
        let mut v = vec![];
        for _ in 0..n {
            let mut gate_type = 2usize.wrapping_sub(N);
            let mut i_ids = [0; N];
            if custom {
                gate_type = usize::deserialize_from(&mut *r)?;
                if usize::deserialize_from(&mut *r)? != N {
                    return Err(SerdeError::DeserializeError);
                }
            }
            for i in i_ids.iter_mut() {
                *i = usize::deserialize_from(&mut *r)?;
            }
            let o_id = usize::deserialize_from(&mut *r)?;
            let (coef, coef_type) = match u8::deserialize_from(&mut *r)? {
                1 => (C::CircuitField::deserialize_from(&mut *r)?, CoefType::Constant),
                2 => (C::CircuitField::ZERO, CoefType::Random),
                3 => (
                    C::CircuitField::ZERO,
                    CoefType::PublicInput(usize::deserialize_from(&mut *r)?),
                ),
                _ => return Err(SerdeError::DeserializeError),
            };
            v.push(Gate { i_ids, o_id, coef_type, coef, gate_type });
        }
        Ok(v)
    }
}

impl<C: FieldEngine> CircuitLayer<C> {
    fn coef<const N: usize>(g: &Gate<C, N>, public: &[C::SimdCircuitField]) -> C::SimdCircuitField {
        match g.coef_type {
            CoefType::PublicInput(i) => public[i],
            _ => C::SimdCircuitField::from(g.coef),
        }
    }
    pub fn evaluate(
        &self,
        input: &[C::SimdCircuitField],
        public: &[C::SimdCircuitField],
    ) -> Vec<C::SimdCircuitField> {
        let mut o = vec![C::SimdCircuitField::ZERO; 1 << self.output_var_num];
        for g in &self.mul {
            o[g.o_id] += input[g.i_ids[0]] * input[g.i_ids[1]] * Self::coef(g, public);
        }
        for g in &self.add {
            o[g.o_id] += input[g.i_ids[0]] * Self::coef(g, public);
        }
        for g in &self.const_ {
            o[g.o_id] += Self::coef(g, public);
        }
        for g in &self.uni {
            let x = input[g.i_ids[0]];
            let y = match g.gate_type {
                12345 => x.exp(5),
                12346 => x,
                t => panic!("unknown gate type {t}"),
            };
            o[g.o_id] += y * Self::coef(g, public);
        }
        o
    }
}

impl<C: FieldEngine> Circuit<C> {
    pub fn log_input_size(&self) -> usize {
        self.layers[0].input_var_num
    }
    pub fn pre_process_gkr(&mut self) {
        self.rnd_coefs_identified = true;
    }
    pub fn fill_rnd_coefs<T: Transcript>(&mut self, t: &mut T) {
        assert!(self.rnd_coefs_identified, "pre_process_gkr must come first");
        for l in self.layers.iter_mut() {
            macro_rules! fill {
                ($f:ident) => {
                    for g in l.$f.iter_mut() {
                        if g.coef_type == CoefType::Random {
                            g.coef = t.generate_field_element::<C::CircuitField>();
                        }
                    }
                };
            }
            fill!(mul);
            fill!(add);
            fill!(const_);
            fill!(uni);
        }
    }
    pub fn evaluate(&mut self) {
        assert_eq!(
            self.layers[0].input_vals.len(),
            1 << self.layers[0].input_var_num,
            "wrong number of circuit inputs"
        );
        let n = self.layers.len();
        for i in 0..n {
            let o = self.layers[i].evaluate(&self.layers[i].input_vals, &self.public_input);
            if i + 1 < n {
                self.layers[i + 1].input_vals = o;
            } else {
                self.layers[i].output_vals = o;
            }
        }
    }
    /// Outputs for given inputs, without touching the circuit.
    pub fn outputs(
        &self,
        input: Vec<C::SimdCircuitField>,
        public: &[C::SimdCircuitField],
    ) -> Vec<C::SimdCircuitField> {
        let mut v = input;
        for l in &self.layers {
            v = l.evaluate(&v, public);
        }
        v
    }
    /// # Safety
    /// Kept unsafe for the sake of the interface.
    pub unsafe fn create_batch(&self, n: usize) -> (Vec<Self>, Vec<Vec<C::SimdCircuitField>>) {
        let v = (0..n)
            .map(|_| {
                let mut c = self.clone();
                c.layers[0].input_vals =
                    vec![C::SimdCircuitField::ZERO; 1 << c.layers[0].input_var_num];
                c
            })
            .collect();
        (v, vec![])
    }
    /// # Safety
    /// Kept unsafe for the sake of the interface.
    pub unsafe fn drop_batch(v: Vec<Self>) {
        drop(v)
    }
    pub fn single_thread_prover_load_circuit<G: GKREngine<FieldConfig = C>>(path: &str) -> Self {
        let mut c = RecursiveCircuit::<C>::load(path).expect("cannot load circuit").flatten();
        c.pre_process_gkr();
        c
    }
    pub fn verifier_load_circuit<G: GKREngine<FieldConfig = C>>(path: &str) -> Self {
        Self::single_thread_prover_load_circuit::<G>(path)
    }
}
