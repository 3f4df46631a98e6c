From 56a5c17dade4602b8488d0d78be2fbdaef660d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 01/19] fix: keep unused divisions, boolean operations and bit
 decompositions, which also constrain their inputs

---
 expander_compiler/src/circuit/ir/common/mod.rs |  4 ++++
 expander_compiler/src/circuit/ir/common/opt.rs | 14 +++++++++++++-
 expander_compiler/src/circuit/ir/source/mod.rs |  6 ++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/common/mod.rs b/expander_compiler/src/circuit/ir/common/mod.rs
index 18b7f27..f6c15b4 100644
--- a/expander_compiler/src/circuit/ir/common/mod.rs
+++ b/expander_compiler/src/circuit/ir/common/mod.rs
@@ -40,6 +40,10 @@ pub trait Instruction<C: Config>: Debug + Clone + Hash + PartialEq + Eq {
     fn from_kx_plus_b(x: usize, k: CircuitField<C>, b: CircuitField<C>) -> Self;
     fn validate(&self, num_public_inputs: usize) -> Result<(), Error>;
     fn eval_unsafe(&self, values: &[CircuitField<C>]) -> EvalResult<'_, C>;
+    // whether the instruction restricts its inputs even if its outputs are never used
+    fn is_constraining(&self) -> bool {
+        false
+    }
 }
 
 pub enum EvalResult<'a, C: Config> {
diff --git a/expander_compiler/src/circuit/ir/common/opt.rs b/expander_compiler/src/circuit/ir/common/opt.rs
index 362a738..a636960 100644
--- a/expander_compiler/src/circuit/ir/common/opt.rs
+++ b/expander_compiler/src/circuit/ir/common/opt.rs
@@ -220,7 +220,19 @@ impl<Irc: IrConfig> RootCircuit<Irc> {
                     typ: Var,
                 }));
             }
-            if !circuit.constraints.is_empty() {
+            // some instructions restrict their inputs, so they are constraints as well
+            let mut is_constrained = !circuit.constraints.is_empty();
+            for (i, insn) in circuit.instructions.iter().enumerate() {
+                if insn.is_constraining() {
+                    is_constrained = true;
+                    queue.push(vertice_id(&Element {
+                        circuit_id: *circuit_id,
+                        id: i,
+                        typ: Insn,
+                    }));
+                }
+            }
+            if is_constrained {
                 queue.push(vertice_id(&Element {
                     circuit_id: *circuit_id,
                     id: 0,
diff --git a/expander_compiler/src/circuit/ir/source/mod.rs b/expander_compiler/src/circuit/ir/source/mod.rs
index aacc693..5025e70 100644
--- a/expander_compiler/src/circuit/ir/source/mod.rs
+++ b/expander_compiler/src/circuit/ir/source/mod.rs
@@ -316,6 +316,12 @@ impl<C: Config> common::Instruction<C> for Instruction<C> {
             _ => Ok(()),
         }
     }
+    fn is_constraining(&self) -> bool {
+        matches!(
+            self,
+            Instruction::Div { .. } | Instruction::BoolBinOp { .. } | Instruction::ToBinary { .. }
+        )
+    }
     fn eval_unsafe(&self, values: &[CircuitField<C>]) -> EvalResult<C> {
         match self {
             Instruction::LinComb(lc) => EvalResult::Value(lc.eval(values)),
-- 
2.43.0


From 939d6a7bb9d931c2c37528f95fbb787366a61932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 02/19] fix: do not require the first output of a circuit
 without constraints to be zero

---
 expander_compiler/src/layering/ir_split.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/layering/ir_split.rs b/expander_compiler/src/layering/ir_split.rs
index 240f6d8..fe1e82f 100644
--- a/expander_compiler/src/layering/ir_split.rs
+++ b/expander_compiler/src/layering/ir_split.rs
@@ -479,6 +479,8 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     ctx.compute_output_layers(0, vec![0; root.circuits[&0].num_inputs]);
     ctx.split_circuit(0, vec![0; root.circuits[&0].num_inputs], &[0]);
     let new_circuit0 = ctx.new_circuit0.take().unwrap();
+    // the combined constraint (if there is any) becomes the first output
+    let num_add_outputs = new_circuit0.outputs.len() - root.circuits[&0].outputs.len();
     let mut new_circuits = HashMap::new();
     new_circuits.insert(0, new_circuit0);
     for (id, cir) in ctx.new_circuits.vec().iter().enumerate().skip(1) {
@@ -487,8 +489,7 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
     IrRootCircuit {
         circuits: new_circuits,
         num_public_inputs: root.num_public_inputs,
-        expected_num_output_zeroes: root.expected_num_output_zeroes
-            + C::ENABLE_RANDOM_COMBINATION as usize,
+        expected_num_output_zeroes: root.expected_num_output_zeroes + num_add_outputs,
     }
 }
 
-- 
2.43.0


From 9f603ed4b5ab4f8997b94b27777803f1e5f5be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 03/19] fix: marking a value as boolean must not drop the
 assertion that it is

---
 expander_compiler/src/builder/basic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/builder/basic.rs b/expander_compiler/src/builder/basic.rs
index 2d5a2bc..c289c26 100644
--- a/expander_compiler/src/builder/basic.rs
+++ b/expander_compiler/src/builder/basic.rs
@@ -241,7 +241,8 @@ impl<'a, C: Config, IrcIn: IrConfig<Config = C>, IrcOut: IrConfig<Config = C>>
         self.constraints
             .entry(constraint_type)
             .or_default()
-            .insert(expr, ConstraintStatus::Marked);
+            .entry(expr)
+            .or_insert(ConstraintStatus::Marked);
     }
 
     fn add_input(&mut self) {
-- 
2.43.0


From adee3338f0bda3c8b4e98ce555731690e7d4499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 04/19] fix: find_common_parts must keep every copy of a gate
 that occurs more than once

---
 expander_compiler/src/circuit/layered/opt.rs | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/opt.rs b/expander_compiler/src/circuit/layered/opt.rs
index 21c50c1..65bf6cd 100644
--- a/expander_compiler/src/circuit/layered/opt.rs
+++ b/expander_compiler/src/circuit/layered/opt.rs
@@ -275,20 +275,20 @@ impl<C: Config, I: InputType> Segment<C, I> {
         gates
     }
 
+    // Gates that occur exactly once: the other ones can't be replaced by a set of common gates
     fn all_gates(&self) -> HashSet<UniGate<C, I>> {
         let mut gates = HashSet::new();
-        for gate in self.gate_muls.iter() {
-            gates.insert(UniGate::Mul(gate.clone()));
-        }
-        for gate in self.gate_adds.iter() {
-            gates.insert(UniGate::Add(gate.clone()));
-        }
-        for gate in self.gate_consts.iter() {
-            gates.insert(UniGate::Const(gate.clone()));
-        }
-        for gate in self.gate_customs.iter() {
-            gates.insert(UniGate::Custom(gate.clone()));
+        let mut repeated = HashSet::new();
+        let muls = self.gate_muls.iter().cloned().map(UniGate::Mul);
+        let adds = self.gate_adds.iter().cloned().map(UniGate::Add);
+        let consts = self.gate_consts.iter().cloned().map(UniGate::Const);
+        let customs = self.gate_customs.iter().cloned().map(UniGate::Custom);
+        for gate in muls.chain(adds).chain(consts).chain(customs) {
+            if !gates.insert(gate.clone()) {
+                repeated.insert(gate);
+            }
         }
+        gates.retain(|gate| !repeated.contains(gate));
         gates
     }
 
-- 
2.43.0


From 6c573f3655c52162fec1388fea116c02c1d1b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 05/19] fix: bit decompositions as wide as the field must be
 the canonical one

---
 .../src/builder/hint_normalize.rs             | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/expander_compiler/src/builder/hint_normalize.rs b/expander_compiler/src/builder/hint_normalize.rs
index 9bc2f73..b1b5c4e 100644
--- a/expander_compiler/src/builder/hint_normalize.rs
+++ b/expander_compiler/src/builder/hint_normalize.rs
@@ -84,6 +84,33 @@ impl<'a, C: Config> Builder<'a, C> {
         let t = self.bool_cond(a);
         self.mark((), t);
     }
+    // The bits sum up to x modulo p. If they can also sum up to x + p, it must be asserted that they don't,
+    // or the prover can choose one of several decompositions.
+    fn assert_bits_below_modulus(&mut self, bits: &[usize]) {
+        let max = CircuitField::<C>::MODULUS - 1;
+        let max_bit = |i: usize| i < 256 && (max >> (i as u32)) & 1 == 1;
+        let max_len = (256 - max.leading_zeros()) as usize;
+        if bits.len() < max_len {
+            return;
+        }
+        // the bits so far, if they are all equal to the ones of p - 1
+        let mut equal: Vec<usize> = vec![];
+        for i in (0..bits.len()).rev() {
+            if max_bit(i) {
+                equal.push(bits[i]);
+                continue;
+            }
+            if equal.len() > 1 {
+                let product = self.push_insn(InsnOut::Mul(equal)).unwrap();
+                equal = vec![product];
+            }
+            let above = match equal.first() {
+                Some(&x) => self.push_mul(x, bits[i]),
+                None => bits[i],
+            };
+            self.assert((), above);
+        }
+    }
 }
 
 impl<'a, C: Config> InsnTransformAndExecute<'a, C, IrcIn<C>, IrcOut<C>> for Builder<'a, C> {
@@ -299,6 +326,7 @@ impl<'a, C: Config> InsnTransformAndExecute<'a, C, IrcIn<C>, IrcOut<C>> for Buil
                     }))
                     .unwrap();
                 self.assert((), sum);
+                self.assert_bits_below_modulus(&bits);
                 return self.copys(&bits);
             }
         })
-- 
2.43.0


From 34a1dd9756bf34a678fe852a28e8090703fd229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:21 +0000
Subject: [PATCH 06/19] fix: DebugBuilder must accept repeated calls of a
 memorized function

---
 expander_compiler/src/frontend/debug.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/expander_compiler/src/frontend/debug.rs b/expander_compiler/src/frontend/debug.rs
index 79bafb5..01abaf0 100644
--- a/expander_compiler/src/frontend/debug.rs
+++ b/expander_compiler/src/frontend/debug.rs
@@ -478,13 +478,9 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> RootAPI<C> for DebugBuilder<C, H
     }
 
     fn register_sub_circuit_output_structure(&mut self, circuit_id: usize, structure: Vec<usize>) {
-        if self
-            .sub_circuit_output_structure
-            .insert(circuit_id, structure)
-            .is_some()
-        {
-            panic!("subcircuit output structure already registered");
-        }
+        // every call evaluates the sub-circuit again
+        self.sub_circuit_output_structure
+            .insert(circuit_id, structure);
     }
 
     fn get_sub_circuit_output_structure(&self, circuit_id: usize) -> Vec<usize> {
-- 
2.43.0


From 5a1e0abf0555551933ac24caf0bdb4a1aa726ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:21 +0000
Subject: [PATCH 07/19] fix: different memorized functions must not share a
 sub-circuit

---
 expander_compiler/macros/src/lib.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index ba48d23..aa7fd9c 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -4,7 +4,7 @@ use syn::{
     parse::{Parse, ParseStream},
     parse_macro_input,
     punctuated::Punctuated,
-    Expr, FnArg, Ident, ItemFn, PatType, Result, ReturnType, Token, Type,
+    Expr, FnArg, GenericParam, Ident, ItemFn, PatType, Result, ReturnType, Token, Type,
 };
 
 #[derive(Debug)]
@@ -161,6 +161,24 @@ pub fn memorized(_attr: TokenStream, item: TokenStream) -> TokenStream {
         }
     });
 
+    // the same function with other generic arguments is another sub-circuit
+    let hash_generic_calls = generics.params.iter().filter_map(|param| match param {
+        GenericParam::Type(t) => {
+            let ident = &t.ident;
+            Some(quote! {
+                hasher.update(std::any::type_name::<#ident>().as_bytes());
+                hasher.update(b"\0");
+            })
+        }
+        GenericParam::Const(c) => {
+            let ident = &c.ident;
+            Some(quote! {
+                hasher.update(format!("{}\0", #ident).as_bytes());
+            })
+        }
+        GenericParam::Lifetime(_) => None,
+    });
+
     let rebuild_vars = param_infos.iter().map(|param_info| {
         let param_name = format_ident!("{}", param_info.name);
 
@@ -251,6 +269,8 @@ pub fn memorized(_attr: TokenStream, item: TokenStream) -> TokenStream {
 
             let mut hasher = tiny_keccak::Keccak::v256();
             hasher.update(b"memorized");
+            hasher.update(concat!(module_path!(), "::", stringify!(#user_fn_name), ":", line!(), ":", column!(), "\0").as_bytes());
+            #(#hash_generic_calls)*
 
             #(#hash_primitive_calls)*
 
-- 
2.43.0


From edb738c7af56f11883fd0c405f77f3ca1de39045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 08/19] fix: call_kernel panics when an output-only argument
 still has a handle

---
 expander_compiler/src/zkcuda/context.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 2040731..198e5b6 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -404,6 +404,13 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             id
         };
 
+        // A handle passed for an output-only argument is not an input, it is only going to be replaced
+        let input_handles: Vec<DeviceMemoryHandle> = ios
+            .iter()
+            .zip(kernel.io_specs().iter())
+            .map(|(io, spec)| if spec.is_input { io.clone() } else { None })
+            .collect();
+
         let has_outputs = kernel.io_specs().iter().any(|s| s.is_output);
         let mut outputs_tmp = vec![Vec::new(); kernel.io_specs().len()];
 
@@ -415,7 +422,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         let mut ir_inputs_owned: Vec<Vec<SIMDField<C>>> = vec![Vec::new(); kernel.io_specs().len()];
         let mut ir_inputs_refs: Vec<Option<usize>> = vec![None; kernel.io_specs().len()]; // device_memory id if using ref
         let mut chunk_sizes: Vec<Option<usize>> = vec![None; kernel.io_specs().len()];
-        for (i, ((input, &ib), chunk_size)) in ios
+        for (i, ((input, &ib), chunk_size)) in input_handles
             .iter()
             .zip(is_broadcast.iter())
             .zip(chunk_sizes.iter_mut())
@@ -451,7 +458,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         let mut ir_inputs_per_parallel = Vec::new();
         for parallel_i in 0..num_parallel {
             let mut ir_inputs = vec![SIMDField::<C>::zero(); kernel.ir_for_calling().input_size()];
-            for (i, ((input, input_start), input_end)) in ios
+            for (i, ((input, input_start), input_end)) in input_handles
                 .iter()
                 .zip(kernel.ir_input_offsets().iter())
                 .zip(kernel.ir_input_offsets().iter().skip(1))
@@ -494,7 +501,6 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             }
         }
         } // end if has_outputs
-        let input_handles = ios.to_vec();
         let mut output_handles = vec![None; kernel.io_specs().len()];
 
         for ((((output, out2), spec), ov), shape) in ios
-- 
2.43.0


From f9aef7880d4345afd4d02a4c2d0154182b8afc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 09/19] fix: a kernel at the address of an earlier one is taken
 for it

---
 expander_compiler/src/zkcuda/context.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 198e5b6..f840eb3 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -396,7 +396,14 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         // because it recursively hashes nested generic structs.
         // Fast kernel registration: pointer-identity cache + skip clone on second call.
         let ptr = kernel as *const _ as usize;
-        let kernel_id = if let Some(&cached_id) = self.kernel_ptr_cache.get(&ptr) {
+        // The address may have been reused for another kernel since it was cached, so the cached
+        // kernel is compared (which is still much cheaper than hashing).
+        let cached_id = self
+            .kernel_ptr_cache
+            .get(&ptr)
+            .copied()
+            .filter(|&id| self.kernel_primitives.get(id) == kernel);
+        let kernel_id = if let Some(cached_id) = cached_id {
             cached_id
         } else {
             let id = self.kernel_primitives.add(kernel);
-- 
2.43.0


From 77e32eb8c71381e5760b0c974571d385fc0b432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 10/19] fix: transposing dimensions of length 1 breaks the
 splitting of vectors

---
 expander_compiler/src/zkcuda/shape.rs | 31 ++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 46ffd1c..3e6d90e 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -30,6 +30,24 @@ struct Entry {
     axes: Option<Axes>,
 }
 
+// Dimensions of length 1 don't affect the order of elements
+fn remove_unit_dims(shape: &[usize], axes: &[usize]) -> (Shape, Axes) {
+    let mut new_id = Vec::with_capacity(shape.len());
+    let mut new_shape = Vec::with_capacity(shape.len());
+    for &s in shape {
+        new_id.push(new_shape.len());
+        if s != 1 {
+            new_shape.push(s);
+        }
+    }
+    let new_axes = axes
+        .iter()
+        .filter(|&&a| shape[a] != 1)
+        .map(|&a| new_id[a])
+        .collect();
+    (new_shape, new_axes)
+}
+
 impl Entry {
     fn minimize(&self, keep_first_dim: bool) -> Self {
         let axes = match &self.axes {
@@ -46,15 +64,18 @@ impl Entry {
             }
             Some(axes) => axes,
         };
-        let mut merge_shape = vec![false; self.shape.len()];
+        // There is nothing to keep apart if the first dimension is 1
+        let keep_first_dim = keep_first_dim && axes.first().is_some_and(|&a| self.shape[a] != 1);
+        let (shape, axes) = remove_unit_dims(&self.shape, axes);
+        let mut merge_shape = vec![false; shape.len()];
         for (i, (&a, &b)) in axes.iter().zip(axes.iter().skip(1)).enumerate() {
             if a + 1 == b && (!keep_first_dim || i > 0) {
                 merge_shape[b] = true;
             }
         }
-        let mut new_shape_id = vec![0; self.shape.len()];
-        let mut new_shape = Vec::with_capacity(self.shape.len());
-        for (i, &s) in self.shape.iter().enumerate() {
+        let mut new_shape_id = vec![0; shape.len()];
+        let mut new_shape = Vec::with_capacity(shape.len());
+        for (i, &s) in shape.iter().enumerate() {
             if !merge_shape[i] {
                 new_shape_id[i] = new_shape.len();
                 new_shape.push(s);
@@ -63,7 +84,7 @@ impl Entry {
             }
         }
         let mut new_axes = Vec::with_capacity(axes.len());
-        for &a in axes {
+        for &a in axes.iter() {
             if !merge_shape[a] {
                 new_axes.push(new_shape_id[a]);
             }
-- 
2.43.0


From 9e9176516c29a34d70fe8cc5787258019a4016f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 11/19] fix: a transposition that keeps the order of elements
 breaks the bit order

---
 expander_compiler/src/zkcuda/shape.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 3e6d90e..38d1321 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -348,6 +348,8 @@ impl ShapeHistory {
                 .collect::<Vec<_>>()
         };
         for e in self.entries.iter() {
+            // The vector is only guaranteed to be split at the boundaries of the minimized shape
+            let e = e.minimize(false);
             cur = if e.axes.as_ref().is_none() {
                 cur
             } else if cur.is_none() {
-- 
2.43.0


From c928e85c5f9649b628effc363cc9a276b0bd84c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 12/19] fix: a kernel with broadcasted inputs only breaks the
 computation graph

---
 expander_compiler/src/zkcuda/context.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index f840eb3..5c57de3 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -748,9 +748,13 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 }
             }
 
-            let any_shape = any_shape.unwrap();
-            let any_shape = keep_shape_until(&any_shape, kernel_call.num_parallel);
-            let dim0_len = shape_vec_padded_len(&any_shape);
+            // If all the inputs are broadcasted and there are no outputs, no vector decides how to
+            // split the parallel dimension
+            let parallel_shape = match any_shape {
+                Some(any_shape) => keep_shape_until(&any_shape, kernel_call.num_parallel),
+                None => vec![kernel_call.num_parallel],
+            };
+            let dim0_len = shape_vec_padded_len(&parallel_shape);
 
             if kernel.hint_solver().is_some() {
                 // if the kernel has a hint solver, we need to add another input
-- 
2.43.0


From f549779da781e8fd4f877acea853fbfe6f451cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 13/19] fix: hints of a parallel call are padded differently
 than in the graph

---
 expander_compiler/src/zkcuda/context.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 5c57de3..efb61a0 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -813,6 +813,13 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         }
         self.state = ContextState::WitnessDone;
 
+        let dm_shapes = self.get_current_device_memory_shapes();
+        let get_pad_shape = |handle: &DeviceMemoryHandleRaw| {
+            handle
+                .shape_history
+                .get_transposed_shape_and_bit_order(&dm_shapes[handle.id])
+                .0
+        };
         for (kernel_call, proof_template) in
             self.kernel_calls.iter().zip(self.proof_templates.iter())
         {
@@ -841,8 +848,8 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(input.clone());
-                if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
+                if any_shape.is_none() && !ib {
+                    any_shape = Some(get_pad_shape(&handle));
                 }
                 let values = handle
                     .shape_history
@@ -864,7 +871,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 }
                 let handle = ensure_handle(output.clone());
                 if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
+                    any_shape = Some(get_pad_shape(&handle));
                 }
                 let values = handle
                     .shape_history
@@ -934,7 +941,8 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .unwrap()
                 .id;
             // we need to assign correct shape to it
-            let any_shape = any_shape.unwrap();
+            // (split the parallel dimension in the same way as in the computation graph)
+            let any_shape = any_shape.unwrap_or_else(|| vec![kernel_call.num_parallel]);
             let mut any_shape_products =
                 keep_shape_products_until(&prefix_products(&any_shape), kernel_call.num_parallel);
             if kernel_call.num_parallel != hints_len {
-- 
2.43.0


From 7d18726562d419b5bc93de3e2040b3b0c6825ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:09 +0000
Subject: [PATCH 14/19] fix: loading a graph takes the primitive id for the
 kernel id

---
 expander_compiler/src/zkcuda/context.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index efb61a0..6e19bf4 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -679,9 +679,12 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .map(get_pad_shape)
                 .collect::<Vec<_>>();
             let kernel_primitive = self.kernel_primitives.get(kernel_call.kernel_id);
-            let kernel = if cg_kernels.is_some() {
-                // Get kernel from loaded kernels by kernel_id
-                self.kernels.get(kernel_call.kernel_id).clone()
+            let kernel = if let Some(templates) = &cg_proof_templates {
+                // Get kernel from loaded kernels by the kernel_id in the loaded graph.
+                // (kernel_call.kernel_id is the id of the primitive, which may be compiled
+                // to several kernels for different shapes)
+                let template = &templates[self.proof_templates.len()];
+                self.kernels.get(template.kernel_id).clone()
             } else {
                 let mut psi = Vec::new();
                 for (s, &ib) in pad_shapes_input.iter().zip(kernel_call.is_broadcast.iter()) {
-- 
2.43.0


From 8d16289bc2c437b5263538ab8d26a93e37a27fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:46 +0000
Subject: [PATCH 15/19] fix: SHA256GF2::finalize pads messages whose length
 leaves less than 65 bits in the last block

---
 circuit-std-rs/src/sha256/gf2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/sha256/gf2.rs b/circuit-std-rs/src/sha256/gf2.rs
index 6f78382..5ac1974 100644
--- a/circuit-std-rs/src/sha256/gf2.rs
+++ b/circuit-std-rs/src/sha256/gf2.rs
@@ -43,7 +43,7 @@ impl SHA256GF2 {
         // append a bit '1' first
         self.data.push(api.constant(1));
         // append '0' bits to make the length of data congruent to 448 mod 512
-        let zero_padding_len = 448 - ((data_len + 1) % 512);
+        let zero_padding_len = (448 + 512 - (data_len + 1) % 512) % 512;
         self.data
             .extend((0..zero_padding_len).map(|_| api.constant(0)));
         // append the length of the data in 64 bits
-- 
2.43.0


From c5714cc65ecfe06fc41819ca9a56fe3d8ba55ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 16/19] fix: MatMulCircuit takes its first input for the
 constant 1 and for dimensions

---
 circuit-std-rs/src/matmul.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuit-std-rs/src/matmul.rs b/circuit-std-rs/src/matmul.rs
index 5112332..13eef57 100644
--- a/circuit-std-rs/src/matmul.rs
+++ b/circuit-std-rs/src/matmul.rs
@@ -40,9 +40,9 @@ impl<C: Config> Define<C> for MatMulCircuit {
         let r2 = self.result_mat[0].len();
         let zero = builder.constant(0);
 
-        builder.assert_is_equal(Variable::from(n1), Variable::from(m2));
-        builder.assert_is_equal(Variable::from(r1), Variable::from(m1));
-        builder.assert_is_equal(Variable::from(r2), Variable::from(n2));
+        assert_eq!(n1, m2);
+        assert_eq!(r1, m1);
+        assert_eq!(r2, n2);
 
         let loop_count = if CircuitField::<C>::SIZE == M31::SIZE {
             3
@@ -56,7 +56,7 @@ impl<C: Config> Define<C> for MatMulCircuit {
             let mut challenge = randomness;
 
             // construct the aux matrix = [1, randomness, randomness^2, ..., randomness^（n-1）]
-            aux_mat.push(Variable::from(1));
+            aux_mat.push(builder.constant(1));
             for _ in 0..n2 - 1 {
                 challenge = builder.mul(challenge, randomness);
                 aux_mat.push(challenge);
-- 
2.43.0


From 22f302f9205eb5b491e7305fe8128e42dbe09a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 17/19] fix: range proofs over a number of bits the table does
 not divide accept negative values

---
 circuit-std-rs/src/logup.rs | 55 ++++++++++++-------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index d99b8b7..9ceaa1f 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -397,33 +397,15 @@ impl LogUpRangeProofTable {
             self.rangeproof_onechunk(builder, a, n);
             return;
         }
-        //add a shift value
-        let mut n = n;
-        let mut new_a = a;
+        // the highest chunk only covers the remaining bits
+        let n_chunks = n.div_ceil(self.rangeproof_bits);
         let rem = n % self.rangeproof_bits;
-        if rem != 0 {
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
-            n += shift;
-        }
         let hint_input = vec![
-            builder.constant(n as u32),
+            builder.constant((n_chunks * self.rangeproof_bits) as u32),
             builder.constant(self.rangeproof_bits as u32),
-            new_a,
+            a,
         ];
-        let witnesses = builder.new_hint(
-            "myhint.rangeproofhint",
-            &hint_input,
-            n / self.rangeproof_bits,
-        );
+        let witnesses = builder.new_hint("myhint.rangeproofhint", &hint_input, n_chunks);
         let mut sum = witnesses[0];
         for (i, witness) in witnesses.iter().enumerate().skip(1) {
             let constant = 1u128 << (self.rangeproof_bits * i);
@@ -433,9 +415,13 @@ impl LogUpRangeProofTable {
             let mul = builder.mul(witness, constant);
             sum = builder.add(sum, mul);
         }
-        builder.assert_is_equal(sum, new_a);
-        for witness in witnesses.iter().take(n / self.rangeproof_bits) {
-            self.query_range(*witness);
+        builder.assert_is_equal(sum, a);
+        for (i, witness) in witnesses.iter().enumerate() {
+            if rem != 0 && i + 1 == n_chunks {
+                self.rangeproof_onechunk(builder, *witness, rem);
+            } else {
+                self.query_range(*witness);
+            }
         }
     }
 
@@ -449,18 +435,13 @@ impl LogUpRangeProofTable {
         if n > self.rangeproof_bits {
             panic!("n must be less than self.rangeproof_bits");
         }
-        //add a shift value
-        let mut new_a = a;
-        if n % self.rangeproof_bits != 0 {
-            let rem = n % self.rangeproof_bits;
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-            let mut mul_factor = 1;
-            mul_factor <<= n;
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
+        self.query_range(a);
+        if n != self.rangeproof_bits {
+            //both a and the shifted value must be in the table
+            let shift = (1u32 << self.rangeproof_bits) - (1u32 << n);
+            let new_a = builder.add(a, shift);
+            self.query_range(new_a);
         }
-        self.query_range(new_a);
     }
 
     pub fn query_range(&mut self, key: Variable) {
-- 
2.43.0


From ab6f41d564af201c17c65f9310a0033f016f1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 18/19] fix: query_count_by_key_hint counts keys modulo 2^32

---
 circuit-std-rs/src/logup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index 9ceaa1f..27aea7e 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -505,14 +505,14 @@ pub fn query_count_by_key_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Res
     let table = &inputs[1..=table_size];
     let query_keys = &inputs[(table_size + 1)..];
 
-    let mut table_map: HashMap<u32, usize> = HashMap::new();
+    let mut table_map: HashMap<U256, usize> = HashMap::new();
     for key in query_keys {
-        let key_value = key.to_u256().as_u32();
+        let key_value = key.to_u256();
         *table_map.entry(key_value).or_insert(0) += 1;
     }
 
     for (i, value) in table.iter().enumerate() {
-        let key_value = value.to_u256().as_u32();
+        let key_value = value.to_u256();
         let count = table_map.get(&key_value).copied().unwrap_or(0);
         outputs_u32[i] = count as u32;
     }
-- 
2.43.0


From cd4c43071a48119238105fe14a494c42c4778f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:46 +0000
Subject: [PATCH 19/19] fix: U2048Variable::assert_mul compares all limbs of
 the products, not the first four

---
 circuit-std-rs/src/non_native/u2048.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/non_native/u2048.rs b/circuit-std-rs/src/non_native/u2048.rs
index 1b94548..5a2cb06 100644
--- a/circuit-std-rs/src/non_native/u2048.rs
+++ b/circuit-std-rs/src/non_native/u2048.rs
@@ -235,7 +235,7 @@ impl U2048Variable {
             );
         }
 
-        for i in 0..4 {
+        for i in 0..2 * N_LIMBS {
             builder.assert_is_equal(left[i], right[i]);
         }
     }
-- 
2.43.0

