//! Cross-layer circuits, as exported to the prover prototype.
use crate::arith::*;
pub use crate::circuit::CoefType;
use crate::engine::FieldEngine;

#[derive(Debug, Clone)]
pub struct SimpleGate<C: FieldEngine, const INPUT_NUM: usize> {
    pub i_ids: [usize; INPUT_NUM],
    pub o_id: usize,
    pub coef_type: CoefType,
    pub coef: C::CircuitField,
}
#[derive(Debug, Clone)]
pub struct CrossLayerRelay<C: FieldEngine> {
    pub i_id: usize,
    pub o_id: usize,
    pub i_layer: usize,
    pub coef: C::CircuitField,
}
#[derive(Debug, Clone)]
pub struct Allocation {
    pub i_offset: Vec<usize>,
    pub o_offset: usize,
}
#[derive(Debug, Clone)]
pub struct CrossLayerSegment<C: FieldEngine> {
    pub input_size: Vec<usize>,
    pub output_size: usize,
    pub child_segs: Vec<(usize, Vec<Allocation>)>,
    pub gate_muls: Vec<SimpleGate<C, 2>>,
    pub gate_adds: Vec<SimpleGate<C, 1>>,
    pub gate_csts: Vec<SimpleGate<C, 0>>,
    pub gate_relay: Vec<CrossLayerRelay<C>>,
}
#[derive(Debug, Clone)]
pub struct CrossLayerRecursiveCircuit<C: FieldEngine> {
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
    pub layers: Vec<usize>,
    pub segments: Vec<CrossLayerSegment<C>>,
}
#[derive(Debug, Clone)]
pub struct CrossLayerCircuit<C: FieldEngine> {
    pub layers: Vec<CrossLayerSegment<C>>,
    pub public_input: Vec<C::SimdCircuitField>,
    pub expected_num_output_zeros: usize,
}

impl<C: FieldEngine> CrossLayerRecursiveCircuit<C> {
    fn collect(&self, seg: usize, i_off: &[usize], o_off: usize, out: &mut CrossLayerSegment<C>) {
        let s = &self.segments[seg];
        macro_rules! shift {
            ($f:ident) => {
                for g in &s.$f {
                    let mut g = g.clone();
                    for i in g.i_ids.iter_mut() {
                        assert!(*i < s.input_size[0], "gate input outside its segment");
                        *i += i_off[0];
                    }
                    assert!(g.o_id < s.output_size, "gate output outside its segment");
                    g.o_id += o_off;
                    out.$f.push(g);
                }
            };
        }
        shift!(gate_muls);
        shift!(gate_adds);
        shift!(gate_csts);
        for g in &s.gate_relay {
            let mut g = g.clone();
            assert!(g.i_id < s.input_size[g.i_layer], "relay input outside its segment");
            g.i_id += i_off[g.i_layer];
            g.o_id += o_off;
            out.gate_relay.push(g);
        }
        for (c, allocs) in &s.child_segs {
            for a in allocs {
                let off: Vec<usize> =
                    (0..a.i_offset.len()).map(|k| a.i_offset[k] + i_off.get(k).unwrap_or(&0)).collect();
                self.collect(*c, &off, o_off + a.o_offset, out);
            }
        }
    }
    pub fn flatten(&self) -> CrossLayerCircuit<C> {
        let layers = self
            .layers
            .iter()
            .map(|&id| {
                let s = &self.segments[id];
                let mut out = CrossLayerSegment {
                    input_size: s.input_size.clone(),
                    output_size: s.output_size,
                    child_segs: vec![],
                    gate_muls: vec![],
                    gate_adds: vec![],
                    gate_csts: vec![],
                    gate_relay: vec![],
                };
                self.collect(id, &vec![0; s.input_size.len()], 0, &mut out);
                out
            })
            .collect();
        CrossLayerCircuit {
            layers,
            public_input: vec![],
            expected_num_output_zeros: self.expected_num_output_zeros,
        }
    }
}
#[derive(Debug, Clone)]
pub struct CrossLayerCircuitEvals<C: FieldEngine> {
    pub vals: Vec<Vec<C::SimdCircuitField>>,
}
impl<C: FieldEngine> CrossLayerCircuit<C> {
    fn coef(&self, t: CoefType, c: C::CircuitField) -> C::SimdCircuitField {
        match t {
            CoefType::PublicInput(i) => self.public_input[i],
            _ => C::SimdCircuitField::from(c),
        }
    }
    pub fn max_num_input_var(&self) -> usize {
        self.layers.iter().map(|l| l.input_size[0].trailing_zeros() as usize).max().unwrap_or(0)
    }
    pub fn max_num_output_var(&self) -> usize {
        self.layers.iter().map(|l| l.output_size.trailing_zeros() as usize).max().unwrap_or(0)
    }
    /// All layer values, inputs first.
    pub fn evaluate(&self, input: &[C::SimdCircuitField]) -> CrossLayerCircuitEvals<C> {
        let mut vals = vec![input.to_vec()];
        for (l, s) in self.layers.iter().enumerate() {
            for (k, n) in s.input_size.iter().enumerate() {
                assert!(*n == 0 || k <= l && vals[l - k].len() == *n, "layer sizes do not agree");
            }
            let prev = &vals[l];
            let mut o = vec![C::SimdCircuitField::ZERO; s.output_size];
            for g in &s.gate_muls {
                o[g.o_id] += prev[g.i_ids[0]] * prev[g.i_ids[1]] * self.coef(g.coef_type, g.coef);
            }
            for g in &s.gate_adds {
                o[g.o_id] += prev[g.i_ids[0]] * self.coef(g.coef_type, g.coef);
            }
            for g in &s.gate_csts {
                o[g.o_id] += self.coef(g.coef_type, g.coef);
            }
            for g in &s.gate_relay {
                o[g.o_id] += vals[l - g.i_layer][g.i_id] * C::SimdCircuitField::from(g.coef);
            }
            vals.push(o);
        }
        CrossLayerCircuitEvals { vals }
    }
}
