From c9cffc96ab8604b6d55273e0122b441ddb43ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 01/36] fix: static hash map never finishes for keys congruent
 modulo 1000000007

Sub-circuit ids are 64-bit hashes, and two of them may be congruent. Every draw of
the parameters then collides, and the table is rebuilt for ever. Fold the key with
a redrawn multiplier first.
---
 expander_compiler/src/utils/static_hash_map.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/utils/static_hash_map.rs b/expander_compiler/src/utils/static_hash_map.rs
index 6d936aa..d0268d6 100644
--- a/expander_compiler/src/utils/static_hash_map.rs
+++ b/expander_compiler/src/utils/static_hash_map.rs
@@ -4,11 +4,18 @@ pub struct StaticHashMap {
     m: u64,
     a: u64,
     b: u64,
+    c: u64,
     v: Vec<usize>,
 }
 
 const MOD: u64 = 1_000_000_007;
 
+// Maps a 64-bit key into [0, MOD). The multiplier is redrawn with the other parameters,
+// so that no two keys collide for every draw (keys may be 64-bit hashes).
+fn fold(x: usize, c: u64) -> u64 {
+    ((x as u64).wrapping_mul(c) >> 32) % MOD
+}
+
 impl StaticHashMap {
     pub fn new(s: &[usize]) -> Self {
         if s.len() > (MOD / 1000) as usize {
@@ -23,10 +30,11 @@ impl StaticHashMap {
             for _ in 0..10 {
                 let a = rng.next_u64() % (MOD - 1) + 1;
                 let b = rng.next_u64() % (MOD - 1) + 1;
+                let c = rng.next_u64() | 1;
                 let mut v = vec![0; m as usize];
                 let mut ok = true;
                 for (i, &x) in s.iter().enumerate() {
-                    let x = (x as u64) % MOD;
+                    let x = fold(x, c);
                     let pos = ((x * a + b) % MOD * x % MOD) & (m - 1);
                     if v[pos as usize] != 0 {
                         ok = false;
@@ -40,7 +48,7 @@ impl StaticHashMap {
                             *x -= 1;
                         }
                     }
-                    return Self { m: m - 1, a, b, v };
+                    return Self { m: m - 1, a, b, c, v };
                 }
             }
             if m < MOD / 250 {
@@ -50,7 +58,7 @@ impl StaticHashMap {
     }
 
     pub fn get(&self, x: usize) -> usize {
-        let x = (x as u64) % MOD;
+        let x = fold(x, self.c);
         let pos = ((x * self.a + self.b) % MOD * x % MOD) & self.m;
         self.v[pos as usize]
     }
-- 
2.43.0


From 4e0c30313a22f13e0e338d8235e4f5b2b4cd8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 02/36] fix: hint memory takes its layout from a non-broadcast
 argument of the kernel call

solve_witness took the parallel split of the hint vector from the shape of the
first argument. It panicked when that argument was broadcast, and produced a
vector of another length than the graph announces when the parallel dimension
was split for padding (15 as 3x5).
---
 expander_compiler/src/zkcuda/context.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 2040731..315a9f1 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -796,6 +796,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         }
         self.state = ContextState::WitnessDone;
 
+        let dm_shapes = self.get_current_device_memory_shapes();
         for (kernel_call, proof_template) in
             self.kernel_calls.iter().zip(self.proof_templates.iter())
         {
@@ -812,7 +813,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 vec![None; kernel_primitive.io_specs().len()];
             let mut output_chunk_sizes: Vec<Option<usize>> =
                 vec![None; kernel_primitive.io_specs().len()];
-            let mut any_shape = None;
+            let mut any_handle = None;
             for (((input, &ib), ir_inputs), chunk_size) in kernel_call
                 .input_handles
                 .iter()
@@ -824,14 +825,12 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(input.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
-                }
                 let values = handle
                     .shape_history
                     .permute_vec(&self.device_memories[handle.id].values);
                 if !ib {
                     *chunk_size = Some(values.len() / kernel_call.num_parallel);
+                    any_handle = Some(handle);
                 }
                 *ir_inputs = values;
             }
@@ -846,15 +845,13 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(output.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
-                }
                 let values = handle
                     .shape_history
                     .permute_vec(&self.device_memories[handle.id].values);
                 assert!(!ib);
                 *chunk_size = Some(values.len() / kernel_call.num_parallel);
                 *ir_inputs = values;
+                any_handle = Some(handle);
             }
 
             let mut hints_inputs_per_parallel = Vec::new();
@@ -916,10 +913,14 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             let hints_id = make_device_mem(&mut self.device_memories, hints_all, vec![hints_len])
                 .unwrap()
                 .id;
-            // we need to assign correct shape to it
-            let any_shape = any_shape.unwrap();
-            let mut any_shape_products =
-                keep_shape_products_until(&prefix_products(&any_shape), kernel_call.num_parallel);
+            // we need to assign correct shape to it: the parallel dimension must be split
+            // exactly as in the other (non-broadcast) inputs and outputs of the kernel
+            let any_handle = any_handle.unwrap();
+            let (any_shape, _) = any_handle
+                .shape_history
+                .get_transposed_shape_and_bit_order(&dm_shapes[any_handle.id]);
+            let any_shape = keep_shape_until(&any_shape, kernel_call.num_parallel);
+            let mut any_shape_products = prefix_products(&any_shape);
             if kernel_call.num_parallel != hints_len {
                 any_shape_products.push(hints_len);
             }
-- 
2.43.0


From 037e96f53b9bdaf7080152f026ad8efbc79fc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 03/36] fix: a kernel at a reused address is no longer taken
 for the one that was there before

---
 expander_compiler/src/zkcuda/context.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 315a9f1..56c6819 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -396,12 +396,15 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         // because it recursively hashes nested generic structs.
         // Fast kernel registration: pointer-identity cache + skip clone on second call.
         let ptr = kernel as *const _ as usize;
-        let kernel_id = if let Some(&cached_id) = self.kernel_ptr_cache.get(&ptr) {
-            cached_id
-        } else {
-            let id = self.kernel_primitives.add(kernel);
-            self.kernel_ptr_cache.insert(ptr, id);
-            id
+        // An address may hold another kernel by now (dropped, moved or overwritten), so a hit
+        // only counts if the kernel is still the same one.
+        let kernel_id = match self.kernel_ptr_cache.get(&ptr) {
+            Some(&cached_id) if self.kernel_primitives.get(cached_id) == kernel => cached_id,
+            _ => {
+                let id = self.kernel_primitives.add(kernel);
+                self.kernel_ptr_cache.insert(ptr, id);
+                id
+            }
         };
 
         let has_outputs = kernel.io_specs().iter().any(|s| s.is_output);
-- 
2.43.0


From b3289313da5f173d8db2c88cf9c54e3438d714e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 04/36] fix: transposing a shape with dimensions of length 1 no
 longer breaks graph compilation

---
 expander_compiler/src/zkcuda/shape.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 46ffd1c..ea6b246 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -83,22 +83,21 @@ impl Entry {
         if self.axes.is_none() {
             return shape.to_vec();
         }
-        let mut segments = vec![];
+        // dimensions of length 1 take no part of `shape`
+        let mut segments = vec![vec![]; self.shape.len()];
         let mut cur_prod = 1;
-        let mut target = 1;
-        let mut self_shape_iter = self.shape.iter();
+        let mut cur_idx = 0;
         for &x in shape.iter() {
-            if cur_prod == target {
-                cur_prod = x.0;
-                target = *self_shape_iter.next().unwrap();
-                segments.push(vec![x]);
-            } else {
-                cur_prod *= x.0;
-                segments.last_mut().unwrap().push(x);
+            while cur_prod == self.shape[cur_idx] {
+                cur_prod = 1;
+                cur_idx += 1;
             }
+            cur_prod *= x.0;
+            segments[cur_idx].push(x);
+        }
+        for (segment, &len) in segments.iter().zip(self.shape.iter()) {
+            assert_eq!(segment.iter().map(|x| x.0).product::<usize>(), len);
         }
-        assert_eq!(cur_prod, target);
-        assert_eq!(self_shape_iter.next(), None);
         let mut res = Vec::with_capacity(shape.len());
         for i in self.axes.as_ref().unwrap() {
             res.extend(segments[*i].iter());
@@ -114,6 +113,10 @@ impl Entry {
         let mut cur_ts_prod = 1;
         let mut cur_ts_idx = 0;
         for &x in products.iter().skip(1) {
+            // dimensions of length 1 take no part of `products`
+            while ts[cur_ts_idx] == 1 {
+                cur_ts_idx += 1;
+            }
             segments_in_ts[self.axes.as_ref().unwrap()[cur_ts_idx]].push(x / cur_ts_prod);
             if x == cur_ts_prod * ts[cur_ts_idx] {
                 cur_ts_prod = x;
-- 
2.43.0


From 0897944d66b5f53593cad7ac247a0964d798645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 05/36] fix: dimensions that a transpose keeps together need no
 split in the memory layout

Compiling a graph panicked when a view moved several adjacent dimensions as one
block and nothing else required the memory to be split inside that block.
---
 expander_compiler/src/zkcuda/shape.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index ea6b246..1fa3d65 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -330,6 +330,8 @@ impl ShapeHistory {
                 .collect::<Vec<_>>()
         };
         for e in self.entries.iter() {
+            // dimensions that stay together need not be split in `shape`
+            let e = e.minimize(false);
             cur = if e.axes.as_ref().is_none() {
                 cur
             } else if cur.is_none() {
-- 
2.43.0


From 76b2028e5937ca0331733deccb452b4f013a70c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 06/36] fix: a circuit without constraints has no output that
 must be zero

---
 expander_compiler/src/layering/ir_split.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/layering/ir_split.rs b/expander_compiler/src/layering/ir_split.rs
index 240f6d8..e6b5322 100644
--- a/expander_compiler/src/layering/ir_split.rs
+++ b/expander_compiler/src/layering/ir_split.rs
@@ -479,6 +479,8 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     ctx.compute_output_layers(0, vec![0; root.circuits[&0].num_inputs]);
     ctx.split_circuit(0, vec![0; root.circuits[&0].num_inputs], &[0]);
     let new_circuit0 = ctx.new_circuit0.take().unwrap();
+    // The combined constraint, if there is any, comes before the original outputs
+    let num_combined_constraints = new_circuit0.outputs.len() - root.circuits[&0].outputs.len();
     let mut new_circuits = HashMap::new();
     new_circuits.insert(0, new_circuit0);
     for (id, cir) in ctx.new_circuits.vec().iter().enumerate().skip(1) {
@@ -487,8 +489,7 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     IrRootCircuit {
         circuits: new_circuits,
         num_public_inputs: root.num_public_inputs,
-        expected_num_output_zeroes: root.expected_num_output_zeroes
-            + C::ENABLE_RANDOM_COMBINATION as usize,
+        expected_num_output_zeroes: root.expected_num_output_zeroes + num_combined_constraints,
     }
 }
 
-- 
2.43.0


From 325682fab9c97afc67dd77a53ca1eed6b171ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 07/36] fix: transpose refuses axes that are no permutation

---
 expander_compiler/src/zkcuda/shape.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 1fa3d65..644e900 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -440,6 +440,13 @@ impl Transpose for ShapeHistory {
                 axes.len()
             );
         }
+        let mut axis_used = vec![false; axes.len()];
+        for &a in axes {
+            if a >= axes.len() || axis_used[a] {
+                panic!("Transpose axes must be a permutation, got {axes:?}");
+            }
+            axis_used[a] = true;
+        }
         let mut res = self.clone();
         match &res.entries.last().unwrap().axes {
             None => {
-- 
2.43.0


From 5546f50b71c13a9bdff259fe181c5efeccfe0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 08/36] fix: a flat upload that does not fill its rows is
 refused

---
 expander_compiler/src/zkcuda/context.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 56c6819..f9164cf 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -263,8 +263,13 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         flat: Vec<SIMDField<C>>,
         cols: usize,
     ) -> DeviceMemoryHandle {
-        let groups = if cols > 0 { flat.len() / cols } else { flat.len() };
-        let shape = vec![groups, cols];
+        if flat.is_empty() || cols == 0 || flat.len() % cols != 0 {
+            panic!(
+                "Flat data of length {} cannot be split into rows of length {cols}",
+                flat.len()
+            );
+        }
+        let shape = vec![flat.len() / cols, cols];
         make_device_mem(&mut self.device_memories, flat, shape)
     }
 
-- 
2.43.0


From 905e1beb88288dae53b4528bc10978f854063fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 09/36] fix: a loaded graph finds the kernel of each call by
 its template

---
 expander_compiler/src/zkcuda/context.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index f9164cf..11af759 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -662,7 +662,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             })
         };
         let mut dm_max = self.device_memories.len();
-        for kernel_call in self.kernel_calls.iter() {
+        for (call_id, kernel_call) in self.kernel_calls.iter().enumerate() {
             let pad_shapes_input = kernel_call
                 .input_handles
                 .iter()
@@ -674,9 +674,13 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .map(get_pad_shape)
                 .collect::<Vec<_>>();
             let kernel_primitive = self.kernel_primitives.get(kernel_call.kernel_id);
-            let kernel = if cg_kernels.is_some() {
-                // Get kernel from loaded kernels by kernel_id
-                self.kernels.get(kernel_call.kernel_id).clone()
+            let kernel = if let Some(cg_proof_templates) = &cg_proof_templates {
+                // Calls of one primitive may have compiled to different kernels, so the loaded
+                // kernel is found by the template of this call.
+                assert!(call_id < cg_proof_templates.len());
+                let kernel_id = cg_proof_templates[call_id].kernel_id;
+                assert!(kernel_id < self.kernels.len());
+                self.kernels.get(kernel_id).clone()
             } else {
                 let mut psi = Vec::new();
                 for (s, &ib) in pad_shapes_input.iter().zip(kernel_call.is_broadcast.iter()) {
-- 
2.43.0


From 3ddebaaf1dc48f7b8c7265be2af40781e59bd0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 10/36] fix: a kernel call whose arguments are all broadcast
 can be compiled and solved

---
 expander_compiler/src/zkcuda/context.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 11af759..7e58b73 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -747,8 +747,11 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 }
             }
 
-            let any_shape = any_shape.unwrap();
-            let any_shape = keep_shape_until(&any_shape, kernel_call.num_parallel);
+            // if everything is broadcast, nothing splits the parallel dimension
+            let any_shape = match any_shape {
+                Some(shape) => keep_shape_until(&shape, kernel_call.num_parallel),
+                None => vec![kernel_call.num_parallel],
+            };
             let dim0_len = shape_vec_padded_len(&any_shape);
 
             if kernel.hint_solver().is_some() {
@@ -927,11 +930,15 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .id;
             // we need to assign correct shape to it: the parallel dimension must be split
             // exactly as in the other (non-broadcast) inputs and outputs of the kernel
-            let any_handle = any_handle.unwrap();
-            let (any_shape, _) = any_handle
-                .shape_history
-                .get_transposed_shape_and_bit_order(&dm_shapes[any_handle.id]);
-            let any_shape = keep_shape_until(&any_shape, kernel_call.num_parallel);
+            let any_shape = match any_handle {
+                Some(handle) => {
+                    let (shape, _) = handle
+                        .shape_history
+                        .get_transposed_shape_and_bit_order(&dm_shapes[handle.id]);
+                    keep_shape_until(&shape, kernel_call.num_parallel)
+                }
+                None => vec![kernel_call.num_parallel],
+            };
             let mut any_shape_products = prefix_products(&any_shape);
             if kernel_call.num_parallel != hints_len {
                 any_shape_products.push(hints_len);
-- 
2.43.0


From 48aeb972d1fd7580bbf0ae1e49ffc7b93b10a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 11/36] fix: a polynomial opening uses the state its commitment
 left behind

---
 .../proving_system/expander/api_single_thread.rs      |  3 ++-
 .../src/zkcuda/proving_system/expander/prove_impl.rs  | 11 ++++++++---
 .../expander_parallelized/prove_impl.rs               |  7 ++++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs b/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
index 836201a..86a33cb 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
@@ -58,7 +58,7 @@ where
         prover_setup: &Self::ProverSetup,
         kernel: &Kernel<ECCConfig>,
         _commitments: &[&Self::Commitment],
-        _commitments_state: &[&Self::CommitmentState],
+        commitments_state: &[&Self::CommitmentState],
         commitments_values: &[&[SIMDField<C>]],
         parallel_count: usize,
         is_broadcast: &[bool],
@@ -93,6 +93,7 @@ where
             partition_gkr_claims_and_open_pcs_no_mpi::<C>(
                 &challenge,
                 commitments_values,
+                commitments_state,
                 prover_setup,
                 is_broadcast,
                 parallel_index,
diff --git a/expander_compiler/src/zkcuda/proving_system/expander/prove_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander/prove_impl.rs
index 4cafc0c..6d9a8aa 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander/prove_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander/prove_impl.rs
@@ -13,7 +13,7 @@ use crate::{
     frontend::Config,
     zkcuda::{
         kernel::{Kernel, LayeredCircuitInputVec},
-        proving_system::expander::structs::ExpanderProverSetup,
+        proving_system::expander::structs::{ExpanderCommitmentState, ExpanderProverSetup},
     },
 };
 
@@ -214,13 +214,15 @@ pub fn pcs_local_open_with_scratch<C: GKREngine>(
 pub fn partition_gkr_claims_and_open_pcs_no_mpi_impl<C: GKREngine>(
     gkr_claim: &ExpanderSingleVarChallenge<C::FieldConfig>,
     global_vals: &[impl AsRef<[<C::FieldConfig as FieldEngine>::SimdCircuitField]>],
+    commitments_state: &[&ExpanderCommitmentState<C::FieldConfig, C::PCSConfig>],
     p_keys: &ExpanderProverSetup<C::FieldConfig, C::PCSConfig>,
     is_broadcast: &[bool],
     parallel_index: usize,
     parallel_num: usize,
     transcript: &mut C::TranscriptConfig,
 ) {
-    for (commitment_val, ib) in global_vals.iter().zip(is_broadcast) {
+    for ((commitment_val, state), ib) in global_vals.iter().zip(commitments_state).zip(is_broadcast)
+    {
         let val_len = commitment_val.as_ref().len();
         let (challenge_for_pcs, _) = partition_challenge_and_location_for_pcs_no_mpi::<
             C::FieldConfig,
@@ -228,11 +230,12 @@ pub fn partition_gkr_claims_and_open_pcs_no_mpi_impl<C: GKREngine>(
             gkr_claim, val_len, parallel_index, parallel_num, *ib
         );
 
-        pcs_local_open_impl::<C>(
+        pcs_local_open_with_scratch::<C>(
             commitment_val.as_ref(),
             &challenge_for_pcs,
             p_keys,
             transcript,
+            Some(&state.scratch),
         );
     }
 }
@@ -243,6 +246,7 @@ pub fn partition_gkr_claims_and_open_pcs_no_mpi_impl<C: GKREngine>(
 pub fn partition_gkr_claims_and_open_pcs_no_mpi<C: GKREngine>(
     gkr_claim: &ExpanderDualVarChallenge<C::FieldConfig>,
     global_vals: &[impl AsRef<[<C::FieldConfig as FieldEngine>::SimdCircuitField]>],
+    commitments_state: &[&ExpanderCommitmentState<C::FieldConfig, C::PCSConfig>],
     p_keys: &ExpanderProverSetup<C::FieldConfig, C::PCSConfig>,
     is_broadcast: &[bool],
     parallel_index: usize,
@@ -259,6 +263,7 @@ pub fn partition_gkr_claims_and_open_pcs_no_mpi<C: GKREngine>(
         partition_gkr_claims_and_open_pcs_no_mpi_impl::<C>(
             &challenge,
             global_vals,
+            commitments_state,
             p_keys,
             is_broadcast,
             parallel_index,
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/prove_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/prove_impl.rs
index 5605daf..abf9a76 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/prove_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/prove_impl.rs
@@ -15,7 +15,7 @@ use crate::{
             expander::{
                 commit_impl::local_commit_impl,
                 prove_impl::{
-                    get_local_vals, pcs_local_open_impl, prepare_expander_circuit,
+                    get_local_vals, pcs_local_open_with_scratch, prepare_expander_circuit,
                     prove_gkr_with_local_vals,
                 },
                 structs::{ExpanderCommitmentState, ExpanderProof, ExpanderProverSetup},
@@ -200,7 +200,7 @@ pub fn partition_single_gkr_claim_and_open_pcs_mpi<C: GKREngine>(
     transcript: &mut C::TranscriptConfig,
 ) {
     let parallel_count = 1 << gkr_challenge.r_mpi.len();
-    for ((commitment_val, _state), ib) in commitments_values
+    for ((commitment_val, state), ib) in commitments_values
         .iter()
         .zip(commitments_state)
         .zip(is_broadcast)
@@ -213,11 +213,12 @@ pub fn partition_single_gkr_claim_and_open_pcs_mpi<C: GKREngine>(
             *ib,
         );
 
-        pcs_local_open_impl::<C>(
+        pcs_local_open_with_scratch::<C>(
             commitment_val.as_ref(),
             &challenge_for_pcs,
             p_keys,
             transcript,
+            Some(&state.scratch),
         );
     }
 }
-- 
2.43.0


From abd24cdb42a181d985182763dfe45da73d72a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 12/36] fix: batched local proofs open broadcast vectors and
 their openings are verified

---
 .../expander_local_deferred/api.rs            | 37 +++++--------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
index 3ba0c40..2d36974 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
@@ -3,7 +3,7 @@ use std::io::Cursor;
 use std::sync::Mutex;
 use arith::Field;
 use gkr::{gkr_prove_batch, gkr_verify};
-use gkr_engine::{ExpanderPCS, FieldEngine, GKREngine, MPIConfig, Transcript};
+use gkr_engine::{FieldEngine, GKREngine, MPIConfig, Transcript};
 use crate::{frontend::{Config, SIMDField}, utils::misc::next_power_of_two,
     zkcuda::{context::ComputationGraph, proving_system::{common::check_inputs,
         expander::{prove_impl::{get_local_vals, prepare_expander_circuit, prepare_inputs_with_local_vals},
@@ -73,6 +73,7 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
 
     fn verify(vs: &Self::VerifierSetup, cg: &ComputationGraph<ECCConfig>, proof: &Self::Proof) -> bool {
         use crate::zkcuda::proving_system::expander::verify_impl::verify_pcs_opening_and_aggregation_no_mpi;
+        use crate::zkcuda::proving_system::expander_parallelized::verify_impl::verify_pcs_opening_and_aggregation_mpi;
         // Parallel template verification — each template is independent
         let vs_ptr = vs as *const _ as usize;
         use rayon::prelude::*;
@@ -88,30 +89,9 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
                 let mut t = C::TranscriptConfig::new();
                 ec.fill_rnd_coefs(&mut t);
                 let mut cur = Cursor::new(&lp.data[0].bytes);
-                let (ok, ch, _v0, _v1) = gkr_verify(pc, &ec, &[], &<C::FieldConfig as FieldEngine>::ChallengeField::ZERO, &mut t, &mut cur);
+                let (ok, ch, v0, v1) = gkr_verify(pc, &ec, &[], &<C::FieldConfig as FieldEngine>::ChallengeField::ZERO, &mut t, &mut cur);
                 if !ok { return false; }
-                let chs = if let Some(cy) = ch.challenge_y() { vec![ch.challenge_x(), cy] } else { vec![ch.challenge_x()] };
-                for sc in &chs {
-                    for (&ref comm, &_ib) in comms.iter().zip(tmpl.is_broadcast().iter()) {
-                        let commitment_len = comm.vals_len;
-                        let local_size = commitment_len >> sc.r_mpi.len();
-                        let n_local = if local_size > 0 { local_size.ilog2() as usize } else { 0 };
-                        let mut eval_ch = sc.clone();
-                        eval_ch.rz.truncate(n_local);
-                        let _v: <C::FieldConfig as FieldEngine>::ChallengeField = t.generate_field_element();
-                        let max_len = *vs.v_keys.keys().max().unwrap();
-                        let params = <C::PCSConfig as ExpanderPCS<C::FieldConfig>>::gen_params(max_len.ilog2() as usize, 1);
-                        let v_key = vs.v_keys.get(&max_len).unwrap();
-                        let mut pcs_ch = sc.clone();
-                        pcs_ch.rz.extend_from_slice(&pcs_ch.r_mpi);
-                        pcs_ch.r_mpi = vec![];
-                        let target_rz = max_len.ilog2() as usize;
-                        while pcs_ch.rz.len() < target_rz { pcs_ch.rz.push(<C::FieldConfig as FieldEngine>::ChallengeField::ZERO); }
-                        // TODO: actually verify PCS opening against commitment
-                        let _ = (v_key, &params, &pcs_ch, comm, &mut cur);
-                    }
-                }
-                true
+                verify_pcs_opening_and_aggregation_mpi::<C, ECCConfig>(&mut cur, kernel, vs, &ch, v0, v1, &comms, tmpl.is_broadcast(), pc, &mut t)
             } else {
                 let mut t = C::TranscriptConfig::new();
                 ec.fill_rnd_coefs(&mut t);
@@ -193,12 +173,13 @@ fn prove_one<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>>(
         let t2 = std::time::Instant::now();
         let chs = if let Some(cy) = ch.challenge_y() { vec![ch.challenge_x(), cy] } else { vec![ch.challenge_x()] };
         for sc in &chs {
-            for (ci, (&ref v, &_ib)) in cvs.iter().zip(tmpl.is_broadcast().iter()).enumerate() {
-                let pc2 = sc.clone();
+            for (ci, (v, &ib)) in cvs.iter().zip(tmpl.is_broadcast().iter()).enumerate() {
                 let comm_idx = tmpl.commitment_indices()[ci];
+                let (challenge_for_pcs, _) = crate::zkcuda::proving_system::expander_parallelized::prove_impl::partition_challenge_and_location_for_pcs_mpi::<C::FieldConfig>(
+                    sc, v.len(), pc, ib);
                 let scratch = &commit_states[comm_idx].scratch;
-                crate::zkcuda::proving_system::expander::prove_impl::pcs_batch_open_with_scratch::<C>(
-                    v, &pc2, ps, &mut tr, Some(scratch));
+                crate::zkcuda::proving_system::expander::prove_impl::pcs_local_open_with_scratch::<C>(
+                    v, &challenge_for_pcs, ps, &mut tr, Some(scratch));
             }
         }
         let t3 = std::time::Instant::now();
-- 
2.43.0


From abccc81d60f4429879844418c75d0d61217e9a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 13/36] fix: verifiers refuse missing or surplus template
 proofs and stated failures

---
 expander_compiler/src/zkcuda/proving_system/dummy.rs     | 9 ++++++++-
 .../zkcuda/proving_system/expander/api_single_thread.rs  | 9 +++++++++
 .../zkcuda/proving_system/expander_local_deferred/api.rs | 1 +
 .../proving_system/expander_parallelized/api_parallel.rs | 4 ++++
 .../proving_system/expander_pcs_defered/verify_impl.rs   | 4 ++++
 5 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index b18beb6..8de1c4b 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -108,6 +108,9 @@ impl<C: Config> KernelWiseProvingSystem<C> for DummyProvingSystem<C> {
     ) -> bool {
         let values = commitments.iter().map(|c| &c.vals[..]).collect::<Vec<_>>();
         check_inputs(kernel, &values, parallel_count, is_broadcast);
+        if proof.cond.len() != parallel_count {
+            return false;
+        }
         for i in 0..parallel_count {
             let lc_input = prepare_inputs(
                 kernel.layered_circuit(),
@@ -119,7 +122,7 @@ impl<C: Config> KernelWiseProvingSystem<C> for DummyProvingSystem<C> {
             let (_, cond) = kernel
                 .layered_circuit()
                 .eval_with_public_inputs_simd(lc_input, &[]);
-            if cond != proof.cond[i] {
+            if cond != proof.cond[i] || cond.iter().any(|x| !*x) {
                 return false;
             }
         }
@@ -190,6 +193,10 @@ impl<C: Config> ProvingSystem<C> for DummyProvingSystem<C> {
         computation_graph: &ComputationGraph<C>,
         proof: &Self::Proof,
     ) -> bool {
+        if proof.proofs.len() != computation_graph.proof_templates().len() {
+            return false;
+        }
+
         let verified = proof
             .proofs
             .par_iter()
diff --git a/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs b/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
index 86a33cb..04f5c85 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander/api_single_thread.rs
@@ -119,6 +119,11 @@ where
         let timer = Timer::new("verify", true);
         let mut expander_circuit = kernel.layered_circuit().export_to_expander_flatten();
 
+        if proof.data.len() != parallel_count {
+            println!("Wrong number of proofs for parallel instances");
+            return false;
+        }
+
         for i in 0..parallel_count {
             let mut transcript = C::TranscriptConfig::new();
             expander_circuit.fill_rnd_coefs(&mut transcript);
@@ -232,6 +237,10 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
         computation_graph: &ComputationGraph<ECCConfig>,
         proof: &Self::Proof,
     ) -> bool {
+        if proof.proofs.len() != computation_graph.proof_templates().len() {
+            return false;
+        }
+
         let verified = proof
             .proofs
             .iter()
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
index 2d36974..f78898b 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_local_deferred/api.rs
@@ -74,6 +74,7 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
     fn verify(vs: &Self::VerifierSetup, cg: &ComputationGraph<ECCConfig>, proof: &Self::Proof) -> bool {
         use crate::zkcuda::proving_system::expander::verify_impl::verify_pcs_opening_and_aggregation_no_mpi;
         use crate::zkcuda::proving_system::expander_parallelized::verify_impl::verify_pcs_opening_and_aggregation_mpi;
+        if proof.proofs.len() != cg.proof_templates().len() { return false; }
         // Parallel template verification — each template is independent
         let vs_ptr = vs as *const _ as usize;
         use rayon::prelude::*;
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
index 8100531..597a404 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/api_parallel.rs
@@ -55,6 +55,10 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> ProvingSyste
         proof: &Self::Proof,
     ) -> bool {
         let verification_timer = Timer::new("Verify all kernels", true);
+        if proof.proofs.len() != computation_graph.proof_templates().len() {
+            return false;
+        }
+
         let verified = proof
             .proofs
             .iter()
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
index b06be3d..a6dd29c 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
@@ -150,6 +150,10 @@ where
 {
     let verification_timer = Timer::new("Total Verification", true);
     let pcs_batch_opening = proof.proofs.pop().unwrap();
+    if proof.proofs.len() != computation_graph.proof_templates().len() {
+        println!("Wrong number of GKR proofs");
+        return false;
+    }
 
     let gkr_verification_timer = Timer::new("GKR Verification", true);
     let verified_with_pcs_claims = proof
-- 
2.43.0


From 0797d19f1ffa8115a82daba6ed66c7cf1cef347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 14/36] fix: deferred verifier compares the opened values with
 the claims of the GKR proofs

---
 .../expander_pcs_defered/verify_impl.rs       | 85 ++++++++++++++-----
 1 file changed, 63 insertions(+), 22 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
index a6dd29c..d7891a2 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_pcs_defered/verify_impl.rs
@@ -7,6 +7,7 @@ use gkr_engine::{
     ExpanderDualVarChallenge, ExpanderPCS, ExpanderSingleVarChallenge, FieldEngine, GKREngine,
     Proof as BytesProof, Transcript,
 };
+use polynomials::EqPolynomial;
 use serdes::ExpSerde;
 
 use crate::{
@@ -23,7 +24,9 @@ use crate::{
     },
 };
 
+/// Also returns the weight that the value of each opening has in the claim of the GKR proof.
 fn verifier_extract_pcs_claims<'a, C, ECCConfig>(
+    kernel: &Kernel<ECCConfig>,
     commitments: &[&'a ExpanderCommitment<C::FieldConfig, C::PCSConfig>],
     gkr_challenge: &ExpanderSingleVarChallenge<C::FieldConfig>,
     is_broadcast: &[bool],
@@ -31,6 +34,7 @@ fn verifier_extract_pcs_claims<'a, C, ECCConfig>(
 ) -> (
     Vec<&'a ExpanderCommitment<C::FieldConfig, C::PCSConfig>>,
     Vec<ExpanderSingleVarChallenge<C::FieldConfig>>,
+    Vec<<C::FieldConfig as FieldEngine>::ChallengeField>,
 )
 where
     C: GKREngine,
@@ -38,13 +42,19 @@ where
 {
     let mut commitments_rt = vec![];
     let mut challenges = vec![];
+    let mut weights = vec![];
 
-    for (&commitment, ib) in commitments.iter().zip(is_broadcast) {
+    for ((input, &commitment), ib) in kernel
+        .layered_circuit_input()
+        .iter()
+        .zip(commitments)
+        .zip(is_broadcast)
+    {
         let val_len =
             <ExpanderCommitment<C::FieldConfig, C::PCSConfig> as Commitment<ECCConfig>>::vals_len(
                 commitment,
             );
-        let (challenge_for_pcs, _) = partition_challenge_and_location_for_pcs_mpi(
+        let (challenge_for_pcs, component_idx_vars) = partition_challenge_and_location_for_pcs_mpi(
             gkr_challenge,
             val_len,
             parallel_count,
@@ -53,16 +63,24 @@ where
 
         commitments_rt.push(commitment);
         challenges.push(challenge_for_pcs);
+        weights.push(EqPolynomial::ith_eq_vec_elem(
+            &component_idx_vars,
+            input.offset / input.len,
+        ));
     }
 
-    (commitments_rt, challenges)
+    (commitments_rt, challenges, weights)
 }
 
 pub fn verify_gkr<C, ECCConfig>(
     kernel: &Kernel<ECCConfig>,
     proof: &ExpanderProof,
     parallel_count: usize,
-) -> (bool, ExpanderDualVarChallenge<C::FieldConfig>)
+) -> (
+    bool,
+    ExpanderDualVarChallenge<C::FieldConfig>,
+    <C::FieldConfig as FieldEngine>::ChallengeField,
+)
 where
     C: GKREngine,
     ECCConfig: Config<FieldConfig = C::FieldConfig>,
@@ -73,7 +91,7 @@ where
     expander_circuit.fill_rnd_coefs(&mut transcript);
 
     let mut cursor = Cursor::new(&proof.data[0].bytes);
-    let (verified, challenge, _claimed_v0, _claimed_v1) = gkr_verify(
+    let (verified, challenge, claimed_v0, _claimed_v1) = gkr_verify(
         parallel_count,
         &expander_circuit,
         &[],
@@ -84,18 +102,19 @@ where
 
     if !verified {
         println!("Failed to verify GKR proof");
-        return (false, challenge);
+        return (false, challenge, claimed_v0);
     }
 
-    (true, challenge)
+    (true, challenge, claimed_v0)
 }
 
+/// Returns the opened values if the opening is valid.
 pub fn verify_defered_pcs_opening<C, ECCConfig>(
     proof: &BytesProof,
     verifier_setup: &ExpanderVerifierSetup<C::FieldConfig, C::PCSConfig>,
     commitments: &[&ExpanderCommitment<C::FieldConfig, C::PCSConfig>],
     challenges: &[ExpanderSingleVarChallenge<C::FieldConfig>],
-) -> bool
+) -> Option<Vec<<C::FieldConfig as FieldEngine>::ChallengeField>>
 where
     C: GKREngine,
     ECCConfig: Config<FieldConfig = C::FieldConfig>,
@@ -133,7 +152,7 @@ where
     );
     transcript.unlock_proof();
 
-    pcs_verified
+    pcs_verified.then_some(vals)
 }
 
 pub fn verify<C, ECCConfig>(
@@ -167,8 +186,9 @@ where
                 .map(|idx| &proof.commitments[*idx])
                 .collect::<Vec<_>>();
 
-            let (verified, challenge) = verify_gkr::<C, ECCConfig>(
-                &computation_graph.kernels()[template.kernel_id()],
+            let kernel = &computation_graph.kernels()[template.kernel_id()];
+            let (verified, challenge, claim) = verify_gkr::<C, ECCConfig>(
+                kernel,
                 local_proof,
                 next_power_of_two(template.parallel_count()),
             );
@@ -176,18 +196,20 @@ where
             assert!(challenge.challenge_y().is_none());
             let challenge = challenge.challenge_x();
 
-            let (local_commitments, challenges) = verifier_extract_pcs_claims::<C, ECCConfig>(
-                &local_commitments,
-                &challenge,
-                template.is_broadcast(),
-                next_power_of_two(template.parallel_count()),
-            );
+            let (local_commitments, challenges, weights) =
+                verifier_extract_pcs_claims::<C, ECCConfig>(
+                    kernel,
+                    &local_commitments,
+                    &challenge,
+                    template.is_broadcast(),
+                    next_power_of_two(template.parallel_count()),
+                );
 
-            (verified, local_commitments, challenges)
+            (verified, local_commitments, challenges, weights, claim)
         })
         .collect::<Vec<_>>();
 
-    let gkr_verified = verified_with_pcs_claims.iter().all(|(v, _, _)| *v);
+    let gkr_verified = verified_with_pcs_claims.iter().all(|(v, ..)| *v);
     if !gkr_verified {
         println!("Failed to verify GKR proofs");
         return false;
@@ -197,16 +219,16 @@ where
     let pcs_verification_timer = Timer::new("PCS Verification", true);
     let commitments_ref = verified_with_pcs_claims
         .iter()
-        .flat_map(|(_, c, _)| c)
+        .flat_map(|(_, c, ..)| c)
         .copied()
         .collect::<Vec<_>>();
 
     let challenges = verified_with_pcs_claims
         .iter()
-        .flat_map(|(_, _, c)| c.clone())
+        .flat_map(|(_, _, c, ..)| c.clone())
         .collect::<Vec<_>>();
 
-    let pcs_verified = verify_defered_pcs_opening::<C, ECCConfig>(
+    let opened = verify_defered_pcs_opening::<C, ECCConfig>(
         &pcs_batch_opening.data[0],
         verifier_setup,
         &commitments_ref,
@@ -214,6 +236,25 @@ where
     );
     pcs_verification_timer.stop();
 
+    // the opened values must be those that the GKR proofs end in
+    let pcs_verified = opened.is_some_and(|vals| {
+        let n_claims: usize = verified_with_pcs_claims.iter().map(|x| x.3.len()).sum();
+        let mut vals = vals.into_iter();
+        vals.len() == n_claims
+            && verified_with_pcs_claims
+                .iter()
+                .all(|(_, _, _, weights, claim)| {
+                    let mut target = <C::FieldConfig as FieldEngine>::ChallengeField::ZERO;
+                    for weight in weights {
+                        target += *weight * vals.next().unwrap();
+                    }
+                    target == *claim
+                })
+    });
+    if !pcs_verified {
+        println!("Failed to verify PCS openings");
+    }
+
     verification_timer.stop();
     gkr_verified && pcs_verified
 }
-- 
2.43.0


From 3faab26ad10afbdf8c760d7df00da99c6b8e2007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 15/36] fix: a witness confirmation names the prove request it
 confirms

---
 .../expander_parallelized/client_utils.rs     | 14 +++++------
 .../expander_parallelized/server_ctrl.rs      |  6 ++---
 .../shared_memory_utils.rs                    | 25 +++++++++++--------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs
index 64b39c0..855b17e 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs
@@ -30,8 +30,8 @@ impl ClientHttpHelper {
         Self::post_request(RequestType::Setup(setup_file.to_string())).await;
     }
 
-    pub async fn request_prove() {
-        Self::post_request(RequestType::Prove).await;
+    pub async fn request_prove(request_id: u64) {
+        Self::post_request(RequestType::Prove(request_id)).await;
     }
 
     pub async fn request_exit() {
@@ -157,7 +157,7 @@ where
     let timer = Timer::new("prove", true);
 
     // Reset ack signal, then write witness
-    SharedMemoryEngine::reset_witness_ack();
+    let request_id = SharedMemoryEngine::reset_witness_ack();
     SharedMemoryEngine::write_witness_to_shared_memory::<C::FieldConfig>(device_memories);
 
     #[cfg(all(target_os = "linux", target_env = "gnu"))]
@@ -173,13 +173,13 @@ where
     // Async: send prove request + poll for witness ack to release shared memory early
     let rt = tokio::runtime::Runtime::new().unwrap();
     rt.block_on(async {
-        let prove_handle = tokio::spawn(async {
-            ClientHttpHelper::request_prove().await;
+        let prove_handle = tokio::spawn(async move {
+            ClientHttpHelper::request_prove(request_id).await;
         });
 
         // Poll witness_ack; once server confirms read, release witness shared memory
-        tokio::task::spawn_blocking(|| {
-            SharedMemoryEngine::wait_for_witness_read_complete();
+        tokio::task::spawn_blocking(move || {
+            SharedMemoryEngine::wait_for_witness_read_complete(request_id);
             unsafe {
                 super::shared_memory_utils::SHARED_MEMORY.witness = None;
             }
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
index f51dd50..ba64050 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
@@ -42,7 +42,7 @@ pub fn parse_port_number() -> u16 {
 #[derive(Serialize, Deserialize)]
 pub enum RequestType {
     Setup(String), // The path to the computation graph setup file
-    Prove,
+    Prove(u64), // An id for the confirmation that the witness has been read
     Exit,
 }
 
@@ -139,7 +139,7 @@ where
 
             setup_timer.stop();
         }
-        RequestType::Prove => {
+        RequestType::Prove(request_id) => {
             println!("Received prove request");
             // Handle proving logic here
             let prove_timer = Timer::new("server prove", true);
@@ -150,7 +150,7 @@ where
             S::setup_shared_witness(&state.global_mpi_config, &mut witness, &mut witness_win);
 
             // Signal client: witness has been read, shared memory can be released
-            SharedMemoryEngine::signal_witness_read_complete();
+            SharedMemoryEngine::signal_witness_read_complete(request_id);
 
             let prover_setup_guard = state.prover_setup.lock().await;
             let computation_graph = state.computation_graph.lock().await;
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs
index b03aa63..320788e 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs
@@ -18,7 +18,7 @@ pub struct SharedMemory {
     pub pcs_setup: Option<Shmem>,
     pub witness: Option<Shmem>,
     pub proof: Option<Shmem>,
-    /// 1-byte signal: 0 = witness not read, 1 = server finished reading witness
+    /// 8-byte signal: the id of the last prove request whose witness the server finished reading
     pub witness_ack: Option<Shmem>,
 }
 
@@ -110,32 +110,35 @@ impl SharedMemoryEngine {
     }
 
     /// Client: reset witness_ack to 0 (call before writing witness)
-    pub fn reset_witness_ack() {
+    /// Returns the id of the prove request to come. An earlier request of this or another client that
+    /// was given up may still be confirmed later, so that a confirmation must say what it confirms.
+    pub fn reset_witness_ack() -> u64 {
         unsafe {
             Self::allocate_shared_memory_if_necessary(
                 &mut SHARED_MEMORY.witness_ack,
                 "witness_ack",
-                1,
+                std::mem::size_of::<u64>(),
             );
             let ptr = SHARED_MEMORY.witness_ack.as_mut().unwrap().as_ptr();
-            std::ptr::write_volatile(ptr, 0u8);
+            std::ptr::write_volatile(ptr as *mut u64, 0);
         }
+        rand::random::<u64>().max(1)
     }
 
-    /// Server: set witness_ack to 1 (call after reading witness)
-    pub fn signal_witness_read_complete() {
+    /// Server: set witness_ack to the id of the request (call after reading witness)
+    pub fn signal_witness_read_complete(request_id: u64) {
         let shmem = ShmemConf::new()
             .flink("witness_ack")
             .open()
             .expect("Failed to open witness_ack shared memory");
         unsafe {
-            std::ptr::write_volatile(shmem.as_ptr(), 1u8);
+            std::ptr::write_volatile(shmem.as_ptr() as *mut u64, request_id);
         }
     }
 
-    /// Client: poll until witness_ack becomes 1, with a timeout to avoid hanging
+    /// Client: poll until witness_ack becomes the id of the request, with a timeout to avoid hanging
     /// if the server crashes.
-    pub fn wait_for_witness_read_complete() {
+    pub fn wait_for_witness_read_complete(request_id: u64) {
         const TIMEOUT: std::time::Duration = std::time::Duration::from_secs(300);
         let start = std::time::Instant::now();
         unsafe {
@@ -143,9 +146,9 @@ impl SharedMemoryEngine {
                 .witness_ack
                 .as_ref()
                 .expect("witness_ack not initialized, call reset_witness_ack first")
-                .as_ptr() as *const u8;
+                .as_ptr() as *const u64;
             loop {
-                if std::ptr::read_volatile(ptr) != 0 {
+                if std::ptr::read_volatile(ptr) == request_id {
                     break;
                 }
                 if start.elapsed() > TIMEOUT {
-- 
2.43.0


From 93db2bcace7ec61b7ede95962e16fc1650fa99ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 16/36] fix: a request still waiting when the exit request is
 served is refused

The workers leave their loop on the exit request, so a setup or prove
request that was waiting for the lock met them in the collectives of the
clean-up and left the server half shut down for ever.
---
 .../expander_parallelized/server_ctrl.rs               | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
index ba64050..ea272f4 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
@@ -18,7 +18,7 @@ use mpi::traits::Communicator;
 
 use crate::frontend::{Config, SIMDField};
 
-use axum::{extract::State, Json};
+use axum::{extract::State, http::StatusCode, Json};
 use gkr_engine::{GKREngine, MPIConfig, MPIEngine};
 use once_cell::sync::Lazy;
 use serde::{Deserialize, Serialize};
@@ -105,7 +105,7 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> Clone
 pub async fn root_main<C, ECCConfig, S>(
     State(state): State<ServerState<C, ECCConfig>>,
     Json(request_type): Json<RequestType>,
-) -> Json<bool>
+) -> Result<Json<bool>, StatusCode>
 where
     C: GKREngine,
     ECCConfig: Config<FieldConfig = C::FieldConfig>,
@@ -113,6 +113,10 @@ where
     S: ServerFns<C, ECCConfig>,
 {
     let _lock = state.lock.lock().await; // Ensure only one request is processed at a time
+    if state.shutdown_tx.lock().await.is_none() {
+        // An exit request has been served while this one was waiting: the workers are gone
+        return Err(StatusCode::SERVICE_UNAVAILABLE);
+    }
     match request_type {
         RequestType::Setup(setup_file) => {
             println!("Received setup request with file: {setup_file}");
@@ -178,7 +182,7 @@ where
         }
     }
 
-    axum::Json(true)
+    Ok(axum::Json(true))
 }
 
 pub async fn worker_main<C, ECCConfig, S>(
-- 
2.43.0


From bc6dc176ffbb4691eebd58cc8861d7b1f51174f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 17/36] fix: a request that fails half-way ends the server job

A setup file that cannot be read, a missing witness or a panic in the
prover made the root leave the request while the workers stayed inside its
collective calls; every later request then met them there and hung.
---
 .../expander_parallelized/server_ctrl.rs      | 50 ++++++++++++-------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
index ea272f4..9a549bc 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
@@ -102,6 +102,16 @@ impl<C: GKREngine, ECCConfig: Config<FieldConfig = C::FieldConfig>> Clone
     }
 }
 
+/// Runs the root's part of a request. If it fails half-way, the workers are left waiting inside its
+/// collective calls and the next request would meet them there: ending the root process ends the
+/// whole MPI job instead.
+fn run_or_end_job<T>(f: impl FnOnce() -> T) -> T {
+    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| {
+        eprintln!("Request failed, ending the server");
+        std::process::exit(1)
+    })
+}
+
 pub async fn root_main<C, ECCConfig, S>(
     State(state): State<ServerState<C, ECCConfig>>,
     Json(request_type): Json<RequestType>,
@@ -127,14 +137,16 @@ where
             let mut prover_setup_guard = state.prover_setup.lock().await;
             let mut verifier_setup_guard = state.verifier_setup.lock().await;
             let mut cg_shared_memory_win = state.cg_shared_memory_win.lock().await;
-            S::setup_request_handler(
-                &state.global_mpi_config,
-                Some(setup_file),
-                &mut computation_graph,
-                &mut prover_setup_guard,
-                &mut verifier_setup_guard,
-                &mut cg_shared_memory_win,
-            );
+            run_or_end_job(|| {
+                S::setup_request_handler(
+                    &state.global_mpi_config,
+                    Some(setup_file),
+                    &mut computation_graph,
+                    &mut prover_setup_guard,
+                    &mut verifier_setup_guard,
+                    &mut cg_shared_memory_win,
+                )
+            });
 
             SharedMemoryEngine::write_pcs_setup_to_shared_memory(&(
                 prover_setup_guard.clone(),
@@ -151,20 +163,24 @@ where
 
             let mut witness = state.witness.lock().await;
             let mut witness_win = state.wt_shared_memory_win.lock().await;
-            S::setup_shared_witness(&state.global_mpi_config, &mut witness, &mut witness_win);
+            run_or_end_job(|| {
+                S::setup_shared_witness(&state.global_mpi_config, &mut witness, &mut witness_win);
 
-            // Signal client: witness has been read, shared memory can be released
-            SharedMemoryEngine::signal_witness_read_complete(request_id);
+                // Signal client: witness has been read, shared memory can be released
+                SharedMemoryEngine::signal_witness_read_complete(request_id);
+            });
 
             let prover_setup_guard = state.prover_setup.lock().await;
             let computation_graph = state.computation_graph.lock().await;
 
-            let proof = S::prove_request_handler(
-                &state.global_mpi_config,
-                &*prover_setup_guard,
-                &*computation_graph,
-                &witness,
-            );
+            let proof = run_or_end_job(|| {
+                S::prove_request_handler(
+                    &state.global_mpi_config,
+                    &*prover_setup_guard,
+                    &*computation_graph,
+                    &witness,
+                )
+            });
 
             SharedMemoryEngine::write_proof_to_shared_memory(proof.as_ref().unwrap());
             prove_timer.stop();
-- 
2.43.0


From 6178b2be9b8f635ff43d8caa534aa70cc65d4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 18/36] fix: a second setup releases the computation graph of
 the first

---
 .../proving_system/expander_parallelized/server_fns.rs      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
index d3e326d..a21d833 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
@@ -148,6 +148,12 @@ pub fn read_circuit<C, ECCConfig>(
     C: GKREngine,
     ECCConfig: Config<FieldConfig = C::FieldConfig>,
 {
+    // dispose of the previous computation graph if it is in shared memory
+    if let Some(mut win_wrapper) = mpi_win.take() {
+        std::mem::take(computation_graph).discard_control_of_shared_mem();
+        global_mpi_config.free_shared_mem(&mut win_wrapper.win);
+    }
+
     let (cg, win) = if global_mpi_config.is_root() {
         let computation_graph_bytes =
             std::fs::read(setup_file).expect("Failed to read computation graph from file");
-- 
2.43.0


From 4da38251861efeca95081bb30ec6a2df114afd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 19/36] fix: a refused request fails at the client

---
 .../expander_parallelized/client_utils.rs            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs
index 855b17e..7cb2e84 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs
@@ -54,11 +54,13 @@ impl ClientHttpHelper {
             .await
             .expect("Failed to send request");
 
-        if res.status().is_success() {
-            println!("Request successful");
-        } else {
-            eprintln!("Request failed: {}", res.status());
-        }
+        // A failed request must not look like a completed one to the caller
+        assert!(
+            res.status().is_success(),
+            "Request failed: {}",
+            res.status()
+        );
+        println!("Request successful");
     }
 }
 
-- 
2.43.0


From c26a0f75e4aa7814487bc356e77e83bf60772c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 20/36] fix: a setup that the running server has too few
 processes for is refused

---
 .../expander_no_oversubscribe/server_fn.rs            |  5 +++++
 .../expander_parallelized/server_ctrl.rs              |  6 ++++++
 .../expander_parallelized/server_fns.rs               | 11 +++++++++++
 3 files changed, 22 insertions(+)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_no_oversubscribe/server_fn.rs b/expander_compiler/src/zkcuda/proving_system/expander_no_oversubscribe/server_fn.rs
index 85c5955..9e9c39b 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_no_oversubscribe/server_fn.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_no_oversubscribe/server_fn.rs
@@ -52,6 +52,11 @@ where
         }
     }
 
+    fn required_parties(_computation_graph: &ComputationGraph<ZC::ECCConfig>) -> usize {
+        // A process proves as many instances as it has to
+        1
+    }
+
     fn prove_request_handler(
         global_mpi_config: &MPIConfig<'static>,
         prover_setup: &ExpanderProverSetup<GetFieldConfig<ZC>, GetPCS<ZC>>,
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
index 9a549bc..c1fe55a 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_ctrl.rs
@@ -148,6 +148,12 @@ where
                 )
             });
 
+            if S::required_parties(&computation_graph) > state.global_mpi_config.world_size() {
+                // This server has been launched for a smaller computation graph
+                eprintln!("Not enough processes for this computation graph");
+                return Err(StatusCode::BAD_REQUEST);
+            }
+
             SharedMemoryEngine::write_pcs_setup_to_shared_memory(&(
                 prover_setup_guard.clone(),
                 verifier_setup_guard.clone(),
diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
index a21d833..ae585c0 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/server_fns.rs
@@ -3,6 +3,7 @@ use serdes::ExpSerde;
 
 use crate::{
     frontend::{Config, SIMDField},
+    utils::misc::next_power_of_two,
     zkcuda::{
         context::ComputationGraph,
         proving_system::{
@@ -40,6 +41,16 @@ where
         values: &[impl AsRef<[SIMDField<C>]>],
     ) -> Option<CombinedProof<ECCConfig, Expander<C>>>;
 
+    /// The number of processes that proving with this computation graph takes.
+    fn required_parties(computation_graph: &ComputationGraph<ECCConfig>) -> usize {
+        computation_graph
+            .proof_templates()
+            .iter()
+            .map(|t| next_power_of_two(t.parallel_count()))
+            .max()
+            .unwrap_or(1)
+    }
+
     fn setup_shared_witness(
         global_mpi_config: &MPIConfig<'static>,
         witness_target: &mut Vec<Vec<SIMDField<C>>>,
-- 
2.43.0


From d8e8fbcc4955cc951e9cf28f0816e68c8b81c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 21/36] fix: prove and cleanup programs reach the server on the
 port they were given

---
 .../proving_system/expander_parallelized/client_utils.rs   | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs
index 7cb2e84..c3fe3c3 100644
--- a/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs
+++ b/expander_compiler/src/zkcuda/proving_system/expander_parallelized/client_utils.rs
@@ -16,7 +16,7 @@ use crate::{
     },
 };
 
-use super::server_ctrl::{RequestType, SERVER_IP, SERVER_PORT};
+use super::server_ctrl::{RequestType, SERVER_IP};
 
 use expander_utils::timer::Timer;
 use gkr_engine::GKREngine;
@@ -40,10 +40,7 @@ impl ClientHttpHelper {
 
     pub async fn post_request(request: RequestType) {
         let client = Client::new();
-        let port = {
-            let port = SERVER_PORT.lock().unwrap();
-            *port
-        };
+        let port = parse_port_number();
         let server_url = format!("{SERVER_IP}:{port}");
         let server_url = format!("http://{server_url}/");
 
-- 
2.43.0


From 1725a16ead3cc7a498610407380b44751da4a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 22/36] fix: an asserted constraint stays asserted when it is
 later marked as known

---
 expander_compiler/src/builder/basic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/builder/basic.rs b/expander_compiler/src/builder/basic.rs
index 2d5a2bc..c289c26 100644
--- a/expander_compiler/src/builder/basic.rs
+++ b/expander_compiler/src/builder/basic.rs
@@ -241,7 +241,8 @@ impl<'a, C: Config, IrcIn: IrConfig<Config = C>, IrcOut: IrConfig<Config = C>>
         self.constraints
             .entry(constraint_type)
             .or_default()
-            .insert(expr, ConstraintStatus::Marked);
+            .entry(expr)
+            .or_insert(ConstraintStatus::Marked);
     }
 
     fn add_input(&mut self) {
-- 
2.43.0


From 91dc6f6456c35eb67e6023144d69ef5de0a8072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 23/36] fix: at optimisation level 1 the witness solver does
 not evaluate what it does not need

---
 expander_compiler/src/compile/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expander_compiler/src/compile/mod.rs b/expander_compiler/src/compile/mod.rs
index 90debc9..4e44a12 100644
--- a/expander_compiler/src/compile/mod.rs
+++ b/expander_compiler/src/compile/mod.rs
@@ -298,6 +298,10 @@ pub fn compile_step_4<C: Config>(
             let (r, im) = r.remove_unreachable();
             (r, im)
         })
+    } else if options.opt_level >= 1 {
+        let (r, im) = r_hint_exported.remove_unreachable();
+        src_im.compose_in_place(&im);
+        r
     } else {
         r_hint_exported
     };
-- 
2.43.0


From 8b11a752150aab1db9c57fdce640b32653a08bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 24/36] fix: a bit decomposition hint that does not fit is an
 error, not a panic

---
 expander_compiler/src/hints/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expander_compiler/src/hints/mod.rs b/expander_compiler/src/hints/mod.rs
index 5b56752..57fa19d 100644
--- a/expander_compiler/src/hints/mod.rs
+++ b/expander_compiler/src/hints/mod.rs
@@ -14,6 +14,7 @@ pub fn safe_impl<F: Field>(
     num_outputs: usize,
 ) -> Result<Vec<F>, Error> {
     match BuiltinHintIds::from_usize(hint_id) {
+        Some(BuiltinHintIds::ToBinary) => to_binary(inputs[0], num_outputs),
         Some(hint_id) => Ok(impl_builtin_hint(hint_id, inputs, num_outputs)),
         None => hint_caller.call(hint_id, inputs, num_outputs),
     }
-- 
2.43.0


From d76d76d515bb3af05c056a17c07f2f78791281b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:22 +0000
Subject: [PATCH 25/36] fix: memorized functions with the same arguments no
 longer share one sub-circuit

---
 expander_compiler/macros/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index ba48d23..edc7ed8 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -251,6 +251,14 @@ pub fn memorized(_attr: TokenStream, item: TokenStream) -> TokenStream {
 
             let mut hasher = tiny_keccak::Keccak::v256();
             hasher.update(b"memorized");
+            // Different functions (or instantiations) must not share a sub-circuit: the type name
+            // of a local closure contains the path and the generic arguments of this function.
+            fn type_name_of<T>(_: &T) -> &'static str {
+                std::any::type_name::<T>()
+            }
+            hasher.update(concat!(line!(), ":", column!(), ":").as_bytes());
+            hasher.update(type_name_of(&|| {}).as_bytes());
+            hasher.update(b";");
 
             #(#hash_primitive_calls)*
 
-- 
2.43.0


From 11c9339e85f79ee7ef5d49b35de525e8ee39c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:22 +0000
Subject: [PATCH 26/36] fix: the debug builder accepts repeated calls of a
 memorized function

---
 expander_compiler/src/frontend/debug.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/expander_compiler/src/frontend/debug.rs b/expander_compiler/src/frontend/debug.rs
index 79bafb5..315734a 100644
--- a/expander_compiler/src/frontend/debug.rs
+++ b/expander_compiler/src/frontend/debug.rs
@@ -478,13 +478,9 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> RootAPI<C> for DebugBuilder<C, H
     }
 
     fn register_sub_circuit_output_structure(&mut self, circuit_id: usize, structure: Vec<usize>) {
-        if self
-            .sub_circuit_output_structure
-            .insert(circuit_id, structure)
-            .is_some()
-        {
-            panic!("subcircuit output structure already registered");
-        }
+        // sub-circuits are executed (and registered) anew at every call
+        self.sub_circuit_output_structure
+            .insert(circuit_id, structure);
     }
 
     fn get_sub_circuit_output_structure(&self, circuit_id: usize) -> Vec<usize> {
-- 
2.43.0


From 59f8e929b7ae18677b76eb59e5d8fd4455e12ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:56 +0000
Subject: [PATCH 27/36] fix: a hint-less variable does not become a constraint
 of the witness solver

---
 expander_compiler/src/circuit/ir/hint_normalized/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
index 012a3dd..2d1e92f 100644
--- a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
+++ b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
@@ -412,7 +412,12 @@ impl<C: Config> Circuit<C> {
         Circuit {
             num_inputs: self.num_inputs,
             instructions,
-            constraints: if is_root { vec![1] } else { vec![] },
+            // a root circuit needs constraints or outputs
+            constraints: if is_root && outputs.is_empty() {
+                vec![1]
+            } else {
+                vec![]
+            },
             outputs,
         }
     }
-- 
2.43.0


From 1dc2e36178c19f1b68d3021a8d61f17cb48aa424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:47 +0000
Subject: [PATCH 28/36] fix: the fan-out limit no longer replaces a random
 value by several

---
 expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
index fce6b72..835959a 100644
--- a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
+++ b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
@@ -56,9 +56,13 @@ impl<C: Config> CircuitRelaxed<C> {
 
         for (i, insn) in self.instructions.iter().enumerate() {
             match insn {
-                Instruction::ConstantLike { .. } => {
+                Instruction::ConstantLike { value } => {
                     mul_ref_cnt.push(0);
-                    max_copy_cnt.push(compute_max_copy_cnt(1));
+                    // a copy of a random value would be another random value
+                    max_copy_cnt.push(match value {
+                        Coef::Random => 0,
+                        _ => compute_max_copy_cnt(1),
+                    });
                     internal_var_insn_id.push(None);
                 }
                 Instruction::SubCircuitCall { num_outputs, .. } => {
-- 
2.43.0


From 3348fcca7359889fba1055c137df144c6002f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:58 +0000
Subject: [PATCH 29/36] fix: a damaged witness file is refused instead of
 exhausting memory or panicking

---
 .../src/circuit/layered/witness.rs              | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/witness.rs b/expander_compiler/src/circuit/layered/witness.rs
index c8313af..4bd5f97 100644
--- a/expander_compiler/src/circuit/layered/witness.rs
+++ b/expander_compiler/src/circuit/layered/witness.rs
@@ -293,6 +293,9 @@ impl<C: Config> Witness<C> {
     }
 }
 
+/// The number of values for which memory is taken before they have been read.
+const MAX_PREALLOCATION: usize = 1 << 16;
+
 impl<C: Config> ExpSerde for Witness<C> {
     fn deserialize_from<R: std::io::Read>(mut reader: R) -> SerdeResult<Self> {
         let num_witnesses = usize::deserialize_from(&mut reader)?;
@@ -305,10 +308,16 @@ impl<C: Config> ExpSerde for Witness<C> {
                 "invalid modulus",
             ))?;
         }
-        let mut values = Vec::with_capacity(
-            num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness),
-        );
-        for _ in 0..num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness) {
+        let num_values = num_inputs_per_witness
+            .checked_add(num_public_inputs_per_witness)
+            .filter(|&n| n > 0 || num_witnesses <= 1)
+            .and_then(|n| n.checked_mul(num_witnesses))
+            .ok_or_else(|| {
+                std::io::Error::new(std::io::ErrorKind::InvalidData, "invalid witness size")
+            })?;
+        // A damaged file may announce any size, so memory is only taken for values that are there
+        let mut values = Vec::with_capacity(num_values.min(MAX_PREALLOCATION));
+        for _ in 0..num_values {
             values.push(CircuitField::<C>::deserialize_from(&mut reader)?);
         }
         let mut res = Self {
-- 
2.43.0


From 6e926cabb5b7ed800285e7c408b40e949fca3fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:58 +0000
Subject: [PATCH 30/36] fix: a damaged length of a linear combination no longer
 exhausts memory

---
 expander_compiler/src/circuit/ir/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/expr.rs b/expander_compiler/src/circuit/ir/expr.rs
index 7ca0fbe..96f51c5 100644
--- a/expander_compiler/src/circuit/ir/expr.rs
+++ b/expander_compiler/src/circuit/ir/expr.rs
@@ -482,7 +482,8 @@ impl<C: Config> ExpSerde for LinComb<C> {
 
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let len = usize::deserialize_from(&mut reader)?;
-        let mut terms = Vec::with_capacity(len);
+        // A damaged file may announce any length, so memory is only taken for terms that are there
+        let mut terms = Vec::with_capacity(len.min(1 << 16));
         for _ in 0..len {
             let var = usize::deserialize_from(&mut reader)?;
             terms.push(LinCombTerm {
-- 
2.43.0


From 8b4468a772290e17b0cec373504f936014b10e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:24 +0000
Subject: [PATCH 31/36] fix: a 2048-bit product is compared in all its limbs

---
 circuit-std-rs/src/non_native/u2048.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/non_native/u2048.rs b/circuit-std-rs/src/non_native/u2048.rs
index 1b94548..5a2cb06 100644
--- a/circuit-std-rs/src/non_native/u2048.rs
+++ b/circuit-std-rs/src/non_native/u2048.rs
@@ -235,7 +235,7 @@ impl U2048Variable {
             );
         }
 
-        for i in 0..4 {
+        for i in 0..2 * N_LIMBS {
             builder.assert_is_equal(left[i], right[i]);
         }
     }
-- 
2.43.0


From a945bdfabeab450dda9d20c24a8acd9cf1aa1a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:24 +0000
Subject: [PATCH 32/36] fix: SHA-256 over bits pads messages whose last block
 has no room for the length

---
 circuit-std-rs/src/sha256/gf2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/sha256/gf2.rs b/circuit-std-rs/src/sha256/gf2.rs
index 6f78382..5ac1974 100644
--- a/circuit-std-rs/src/sha256/gf2.rs
+++ b/circuit-std-rs/src/sha256/gf2.rs
@@ -43,7 +43,7 @@ impl SHA256GF2 {
         // append a bit '1' first
         self.data.push(api.constant(1));
         // append '0' bits to make the length of data congruent to 448 mod 512
-        let zero_padding_len = 448 - ((data_len + 1) % 512);
+        let zero_padding_len = (448 + 512 - (data_len + 1) % 512) % 512;
         self.data
             .extend((0..zero_padding_len).map(|_| api.constant(0)));
         // append the length of the data in 64 bits
-- 
2.43.0


From 5a33553874b7fe66d72923ca8dc3496cec55ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:24 +0000
Subject: [PATCH 33/36] fix: the matrix product check starts its powers with
 the constant one

---
 circuit-std-rs/src/matmul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/matmul.rs b/circuit-std-rs/src/matmul.rs
index 5112332..ba3e942 100644
--- a/circuit-std-rs/src/matmul.rs
+++ b/circuit-std-rs/src/matmul.rs
@@ -56,7 +56,7 @@ impl<C: Config> Define<C> for MatMulCircuit {
             let mut challenge = randomness;
 
             // construct the aux matrix = [1, randomness, randomness^2, ..., randomness^（n-1）]
-            aux_mat.push(Variable::from(1));
+            aux_mat.push(builder.constant(1));
             for _ in 0..n2 - 1 {
                 challenge = builder.mul(challenge, randomness);
                 aux_mat.push(challenge);
-- 
2.43.0


From 3f019fb0c308253c8e0882c966de60761be0587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:13 +0000
Subject: [PATCH 34/36] fix: a range proof refuses negative values

---
 circuit-std-rs/src/logup.rs | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index d99b8b7..83e17d0 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -397,33 +397,14 @@ impl LogUpRangeProofTable {
             self.rangeproof_onechunk(builder, a, n);
             return;
         }
-        //add a shift value
-        let mut n = n;
-        let mut new_a = a;
         let rem = n % self.rangeproof_bits;
-        if rem != 0 {
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
-            n += shift;
-        }
+        let nb_chunks = n.div_ceil(self.rangeproof_bits);
         let hint_input = vec![
-            builder.constant(n as u32),
+            builder.constant((nb_chunks * self.rangeproof_bits) as u32),
             builder.constant(self.rangeproof_bits as u32),
-            new_a,
+            a,
         ];
-        let witnesses = builder.new_hint(
-            "myhint.rangeproofhint",
-            &hint_input,
-            n / self.rangeproof_bits,
-        );
+        let witnesses = builder.new_hint("myhint.rangeproofhint", &hint_input, nb_chunks);
         let mut sum = witnesses[0];
         for (i, witness) in witnesses.iter().enumerate().skip(1) {
             let constant = 1u128 << (self.rangeproof_bits * i);
@@ -433,10 +414,14 @@ impl LogUpRangeProofTable {
             let mul = builder.mul(witness, constant);
             sum = builder.add(sum, mul);
         }
-        builder.assert_is_equal(sum, new_a);
+        builder.assert_is_equal(sum, a);
         for witness in witnesses.iter().take(n / self.rangeproof_bits) {
             self.query_range(*witness);
         }
+        if rem != 0 {
+            //the last chunk has fewer bits
+            self.rangeproof_onechunk(builder, witnesses[nb_chunks - 1], rem);
+        }
     }
 
     pub fn rangeproof_onechunk<C: Config, B: RootAPI<C>>(
@@ -459,6 +444,8 @@ impl LogUpRangeProofTable {
             mul_factor <<= n;
             let a_shift = builder.mul(constant, mul_factor);
             new_a = builder.add(a, a_shift);
+            //the shifted value alone would let negative values through
+            self.query_range(a);
         }
         self.query_range(new_a);
     }
-- 
2.43.0


From fa95bf81538d3d7d09e3541b1b760cce9aab0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:15 +0000
Subject: [PATCH 35/36] fix: the check of the first group compares with the
 point itself

---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
index fd43b44..1354a23 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
@@ -472,7 +472,7 @@ impl Pairing {
         let phi_p = self.g1.phi(native, p);
         let p_squared = self.g1.scalar_mul_by_seed_square(native, &phi_p);
         let neg_p_squared = self.curve.neg(native, &p_squared);
-        self.g1.assert_is_equal(native, &neg_p_squared, &p_squared); // Neg returns an inverse of p. It doesn't modify p.);
+        self.g1.assert_is_equal(native, &neg_p_squared, p);
     }
 
     // use p: G2Affine ?
-- 
2.43.0


From 0fae1e874fec3e30e3d75b4b6a295ca22e6adc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:47 +0000
Subject: [PATCH 36/36] fix: the check of the final exponentiation refuses a
 witness of zero

---
 circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs b/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs
index 6b6f2c4..7067192 100644
--- a/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs
+++ b/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs
@@ -538,6 +538,8 @@ impl Ext12 {
             },
             c1: self.zero().c1,
         };
+        // with a witness of zero the equation below would hold for every x
+        self.inverse(native, &residue_witness);
         let t0 = self.frobenius(native, &residue_witness);
         let t1 = self.expt(native, &residue_witness);
         let t0 = self.mul(native, &t0, &t1);
-- 
2.43.0

