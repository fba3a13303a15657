From 698679945472b32825802496ac68fab0a10f53ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 01/30] fix: link the checkpoint consolidated hash across
 batches and blocks

The two children of a batch aggregation and consecutive blocks could carry
any checkpoint consolidated hash: only the first block of a chain checks it
against its block hashes, so the value exposed by a longer chain, or by a
block proved in several batches, was up to the prover.
---
 .../src/fixed_recursive_verifier.rs           | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index 54b47a8..ae9049c 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1653,6 +1653,22 @@ where
             builder.connect(limb0, limb1);
         }
 
+        // Connect checkpoint consolidated hash values.
+        for (&limb0, &limb1) in pvs
+            .checkpoint_consolidated_hash
+            .iter()
+            .zip(&rhs.checkpoint_consolidated_hash)
+        {
+            builder.connect(limb0, limb1);
+        }
+        for (&limb0, &limb1) in pvs
+            .checkpoint_consolidated_hash
+            .iter()
+            .zip(&lhs.checkpoint_consolidated_hash)
+        {
+            builder.connect(limb0, limb1);
+        }
+
         // Connect the transaction number in public values to the lhs and rhs values
         // correctly.
         builder.connect(pvs.txn_number_before, lhs.txn_number_before);
@@ -1939,6 +1955,16 @@ where
             builder.connect(limb0, limb1);
         }
 
+        // Between blocks, the checkpoint consolidated hash remains unchanged.
+        for (&limb0, limb1) in lhs
+            .extra_block_data
+            .checkpoint_consolidated_hash
+            .iter()
+            .zip(rhs.extra_block_data.checkpoint_consolidated_hash)
+        {
+            builder.conditional_assert_eq(has_parent_block.target, limb0, limb1);
+        }
+
         // Connect block numbers.
         let one = builder.one();
         let prev_block_nb = builder.sub(rhs.block_metadata.block_number, one);
-- 
2.43.0


From 564e80ace877ed2bce3ef6d757abd7b2cd87fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 02/30] fix: absorb the registers into the Fiat-Shamir
 transcript

---
 evm_arithmetization/src/get_challenges.rs | 36 +++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/evm_arithmetization/src/get_challenges.rs b/evm_arithmetization/src/get_challenges.rs
index 4bdffd5..94f31b6 100644
--- a/evm_arithmetization/src/get_challenges.rs
+++ b/evm_arithmetization/src/get_challenges.rs
@@ -199,6 +199,38 @@ fn observe_block_hashes_target<
     challenger.observe_elements(&block_hashes.cur_hash);
 }
 
+fn observe_registers<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
+    challenger: &mut Challenger<F, C::Hasher>,
+    registers: &RegistersData,
+) -> Result<(), ProgramError> {
+    challenger.observe_element(u256_to_u32(registers.program_counter)?);
+    challenger.observe_element(u256_to_u32(registers.is_kernel)?);
+    challenger.observe_element(u256_to_u32(registers.stack_len)?);
+    challenger.observe_elements(&u256_limbs::<F>(registers.stack_top));
+    challenger.observe_element(u256_to_u32(registers.context)?);
+    challenger.observe_element(u256_to_u32(registers.gas_used)?);
+
+    Ok(())
+}
+
+fn observe_registers_target<
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F>,
+    const D: usize,
+>(
+    challenger: &mut RecursiveChallenger<F, C::Hasher, D>,
+    registers: &RegistersDataTarget,
+) where
+    C::Hasher: AlgebraicHasher<F>,
+{
+    challenger.observe_element(registers.program_counter);
+    challenger.observe_element(registers.is_kernel);
+    challenger.observe_element(registers.stack_len);
+    challenger.observe_elements(&registers.stack_top);
+    challenger.observe_element(registers.context);
+    challenger.observe_element(registers.gas_used);
+}
+
 pub(crate) fn observe_public_values<
     F: RichField + Extendable<D>,
     C: GenericConfig<D, F = F>,
@@ -212,6 +244,8 @@ pub(crate) fn observe_public_values<
     observe_block_metadata::<F, C, D>(challenger, &public_values.block_metadata)?;
     observe_block_hashes::<F, C, D>(challenger, &public_values.block_hashes);
     observe_extra_block_data::<F, C, D>(challenger, &public_values.extra_block_data)?;
+    observe_registers::<F, C, D>(challenger, &public_values.registers_before)?;
+    observe_registers::<F, C, D>(challenger, &public_values.registers_after)?;
 
     #[cfg(feature = "cdk_erigon")]
     {
@@ -241,6 +275,8 @@ pub(crate) fn observe_public_values_target<
     observe_block_metadata_target::<F, C, D>(challenger, &public_values.block_metadata);
     observe_block_hashes_target::<F, C, D>(challenger, &public_values.block_hashes);
     observe_extra_block_data_target::<F, C, D>(challenger, &public_values.extra_block_data);
+    observe_registers_target::<F, C, D>(challenger, &public_values.registers_before);
+    observe_registers_target::<F, C, D>(challenger, &public_values.registers_after);
     #[cfg(feature = "cdk_erigon")]
     observe_burn_addr_target::<F, C, D>(challenger, public_values.burn_addr.clone());
 }
-- 
2.43.0


From c011695348428c78f7dcee53d527563b6dc8d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 03/30] fix: verify every table that comes with a proof

---
 evm_arithmetization/src/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/evm_arithmetization/src/verifier.rs b/evm_arithmetization/src/verifier.rs
index 1d4fdf3..7fabf6a 100644
--- a/evm_arithmetization/src/verifier.rs
+++ b/evm_arithmetization/src/verifier.rs
@@ -179,6 +179,17 @@ pub mod testing {
         config: &StarkConfig,
         is_initial: bool,
     ) -> Result<()> {
+        // A table that comes with a proof is always verified, and only optional tables
+        // may come without one.
+        for (i, stark_proof) in all_proof.multi_proof.stark_proofs.iter().enumerate() {
+            ensure!(
+                stark_proof.is_some() == all_proof.table_in_use[i]
+                    && (stark_proof.is_some() || OPTIONAL_TABLE_INDICES.contains(&i)),
+                "Table {} does not have a proof exactly when it is in use.",
+                i
+            );
+        }
+
         let AllProofChallenges {
             stark_challenges,
             ctl_challenges,
-- 
2.43.0


From efc3890416b709a1e0e1c1c2b1413aa9f8a54a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 04/30] fix: check the memory commitments in the native
 verifier

---
 evm_arithmetization/src/verifier.rs | 56 +++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/evm_arithmetization/src/verifier.rs b/evm_arithmetization/src/verifier.rs
index 7fabf6a..39219c3 100644
--- a/evm_arithmetization/src/verifier.rs
+++ b/evm_arithmetization/src/verifier.rs
@@ -83,8 +83,8 @@ pub mod testing {
     use hashbrown::HashMap;
     use itertools::Itertools;
     use plonky2::field::extension::Extendable;
-    use plonky2::hash::hash_types::RichField;
-    use plonky2::plonk::config::{GenericConfig, GenericHashOut};
+    use plonky2::hash::hash_types::{RichField, NUM_HASH_OUT_ELTS};
+    use plonky2::plonk::config::GenericConfig;
     use starky::config::StarkConfig;
     use starky::cross_table_lookup::verify_cross_table_lookups;
     use starky::cross_table_lookup::CrossTableLookup;
@@ -150,20 +150,46 @@ pub mod testing {
         public_values: &PublicValues<F>,
         config: &StarkConfig,
     ) -> Result<()> {
-        for (hash1, hash2) in initial_memory_merkle_cap::<F, C, D>(
+        let initial_mem_cap = MemCap::from_merkle_cap(initial_memory_merkle_cap::<F, C, D>(
             config.fri_config.rate_bits,
             config.fri_config.cap_height,
-        )
-        .0
-        .iter()
-        .zip(public_values.mem_before.mem_cap.iter())
-        {
-            for (&limb1, limb2) in hash1.to_vec().iter().zip(hash2) {
-                ensure!(
-                    limb1 == F::from_canonical_u64(limb2.as_u64()),
-                    anyhow::Error::msg("Invalid initial MemBefore Merkle cap.")
-                );
-            }
+        ));
+        ensure!(
+            public_values.mem_before == initial_mem_cap,
+            "Invalid initial MemBefore Merkle cap."
+        );
+
+        Ok(())
+    }
+
+    /// Checks that the memory commitments in the public values are those of the
+    /// `MemBefore` and `MemAfter` tables. An unused table has a zero commitment.
+    fn verify_memory_commitments<
+        F: RichField + Extendable<D>,
+        C: GenericConfig<D, F = F>,
+        const D: usize,
+    >(
+        all_proof: &AllProof<F, C, D>,
+        config: &StarkConfig,
+    ) -> Result<()> {
+        for (table, mem_cap) in [
+            (Table::MemBefore, &all_proof.public_values.mem_before),
+            (Table::MemAfter, &all_proof.public_values.mem_after),
+        ] {
+            let expected_mem_cap = match &all_proof.multi_proof.stark_proofs[*table] {
+                Some(stark_proof) => MemCap::from_merkle_cap(stark_proof.proof.trace_cap.clone()),
+                None => MemCap {
+                    mem_cap: vec![
+                        [U256::zero(); NUM_HASH_OUT_ELTS];
+                        config.fri_config.num_cap_elements()
+                    ],
+                },
+            };
+            ensure!(
+                *mem_cap == expected_mem_cap,
+                "Invalid {:?} Merkle cap in the public values.",
+                table
+            );
         }
 
         Ok(())
@@ -268,6 +294,8 @@ pub mod testing {
         #[cfg(feature = "cdk_erigon")]
         verify_table!(poseidon_stark, Table::Poseidon);
 
+        verify_memory_commitments(&all_proof, config)?;
+
         let public_values = all_proof.public_values;
 
         // Verify shift table and kernel code.
-- 
2.43.0


From 4fc89c15e2de7139faf2e599396fa7f9197ad9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 05/30] fix: check the verifier data exposed by verified cyclic
 proofs

---
 .../src/fixed_recursive_verifier.rs           | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index ae9049c..6f9469c 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1605,6 +1605,12 @@ where
         let agg_verifier_data = builder.constant_verifier_data(&agg.circuit.verifier_only);
         builder.verify_proof::<C>(&agg_root_proof, &agg_verifier_data, &agg.circuit.common);
 
+        // The batch aggregation circuit is cyclic: it only checked its children against
+        // the verifier data in its own public inputs.
+        for (x, y) in Self::cyclic_vk_pairs(&agg_root_proof, &agg_verifier_data) {
+            builder.connect(x, y);
+        }
+
         while log2_ceil(builder.num_gates()) < agg.circuit.common.degree_bits() {
             builder.add_gate(NoopGate, vec![]);
         }
@@ -1759,6 +1765,14 @@ where
                 common,
             )
             .expect("Failed to build cyclic recursion circuit");
+
+        // The segment aggregation circuit is cyclic: it only checked its children
+        // against the verifier data in its own public inputs.
+        let is_base = builder.not(is_agg);
+        for (x, y) in Self::cyclic_vk_pairs(&base_proof, &inner_segment_agg_vk) {
+            builder.conditional_assert_eq(is_base.target, x, y);
+        }
+
         AggregationChildTarget {
             is_agg,
             agg_proof,
@@ -1766,6 +1780,25 @@ where
         }
     }
 
+    /// Pairs the verifier data a cyclic `proof` exposes at the end of its public
+    /// inputs, as laid out by
+    /// [`CircuitBuilder::add_verifier_data_public_inputs`], with `verifier_data`.
+    fn cyclic_vk_pairs(
+        proof: &ProofWithPublicInputsTarget<D>,
+        verifier_data: &VerifierCircuitTarget,
+    ) -> Vec<(Target, Target)> {
+        let mut vk = verifier_data.circuit_digest.elements.to_vec();
+        for hash in &verifier_data.constants_sigmas_cap.0 {
+            vk.extend(hash.elements);
+        }
+        let start = proof.public_inputs.len() - vk.len();
+        proof.public_inputs[start..]
+            .iter()
+            .copied()
+            .zip(vk)
+            .collect()
+    }
+
     fn create_block_wrapper_circuit(
         block: &BlockCircuitData<F, C, D>,
     ) -> BlockWrapperCircuitData<F, C, D> {
@@ -1794,6 +1827,12 @@ where
             &block.circuit.common,
         );
 
+        // The block circuit is cyclic: it only checked its parent against the verifier
+        // data in its own public inputs.
+        for (x, y) in Self::cyclic_vk_pairs(&parent_block_proof, &block_verifier_data) {
+            builder.connect(x, y);
+        }
+
         // Pad to match the (non-existing yet!) 2-to-1 circuit's degree.
         // We use the block circuit's degree as target reference here, as they end up
         // having same degree.
-- 
2.43.0


From 12a4e515f8cc4503ac857a782367406eebb16dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 06/30] fix: compare the blob and beacon fields when
 aggregating segments

BlockMetadataTarget::conditional_assert_eq left out block_blob_gas_used,
block_excess_blob_gas and parent_beacon_block_root, so an aggregation
could combine segments that were proven against different values of
these fields.
---
 evm_arithmetization/src/proof.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/evm_arithmetization/src/proof.rs b/evm_arithmetization/src/proof.rs
index f501a96..fdca306 100644
--- a/evm_arithmetization/src/proof.rs
+++ b/evm_arithmetization/src/proof.rs
@@ -1353,6 +1353,27 @@ impl BlockMetadataTarget {
             )
         }
         builder.conditional_assert_eq(condition.target, bm0.block_gas_used, bm1.block_gas_used);
+        for i in 0..2 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.block_blob_gas_used[i],
+                bm1.block_blob_gas_used[i],
+            )
+        }
+        for i in 0..2 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.block_excess_blob_gas[i],
+                bm1.block_excess_blob_gas[i],
+            )
+        }
+        for i in 0..8 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.parent_beacon_block_root[i],
+                bm1.parent_beacon_block_root[i],
+            )
+        }
         for i in 0..64 {
             builder.conditional_assert_eq(condition.target, bm0.block_bloom[i], bm1.block_bloom[i])
         }
-- 
2.43.0


From 8f04336fbe93d2d357e9058523bb19051bc27ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 07/30] fix: keep every live value in the memory continuation
 filter

mem_after_filter was only tied to maybe_in_mem_after on rows whose value
is non-zero and whose next row is not in a preinitialized segment, so a
prover could drop from the final memory any value followed by a
preinitialized segment, and any zero of a preinitialized segment, which
the next segment then reads as it likes. Tie them for every non-zero
value, and for every value of a preinitialized segment.
---
 evm_arithmetization/src/memory/columns.rs     |  4 ++
 .../src/memory/memory_stark.rs                | 41 +++++++++++++++----
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/evm_arithmetization/src/memory/columns.rs b/evm_arithmetization/src/memory/columns.rs
index 10fb75b..d93ffd6 100644
--- a/evm_arithmetization/src/memory/columns.rs
+++ b/evm_arithmetization/src/memory/columns.rs
@@ -57,6 +57,10 @@ pub(crate) struct MemoryColumnsView<T> {
     /// Segment::StorageLinkedList)`.
     pub preinitialized_segments_aux: T,
 
+    /// Contains the inverse of `preinitialized_segments`, or 0 if it is zero.
+    /// Used to check if the next segment is preinitialized.
+    pub preinitialized_segments_inv: T,
+
     /// Contains `row_index` + 1 if and only if context `row_index` is stale,
     /// and zero if not.
     pub stale_contexts: T,
diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 357e720..bfab6d1 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -194,6 +194,11 @@ pub(crate) fn generate_first_change_flags_and_rc<F: RichField>(
             * (next_segment - F::from_canonical_usize(Segment::TrieData.unscale()))
             * row.preinitialized_segments_aux;
 
+        row.preinitialized_segments_inv = row
+            .preinitialized_segments
+            .try_inverse()
+            .unwrap_or_default();
+
         let address_changed =
             row.context_first_change + row.segment_first_change + row.virtual_first_change;
         row.initialize_aux = row.preinitialized_segments * address_changed * next_is_read;
@@ -498,6 +503,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let initialize_aux = lv.initialize_aux;
         let preinitialized_segments = lv.preinitialized_segments;
         let preinitialized_segments_aux = lv.preinitialized_segments_aux;
+        let preinitialized_segments_inv = lv.preinitialized_segments_inv;
 
         let next_timestamp = nv.timestamp;
         let next_is_read = nv.is_read;
@@ -604,13 +610,20 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         yield_constr.constraint(mem_after_filter * (mem_after_filter - P::ONES));
 
         // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // - segment is preinitialized OR
         // - value is not zero.
+        let mem_after_filter_diff = mem_after_filter - maybe_in_mem_after;
         for i in 0..VALUE_LIMBS {
-            yield_constr.constraint(
-                (mem_after_filter - maybe_in_mem_after) * preinitialized_segments * value_limbs[i],
-            );
+            yield_constr.constraint(mem_after_filter_diff * value_limbs[i]);
         }
+        // `preinitialized_segments` refers to the segment of the next row. The first
+        // row has no predecessor, and is always in the (preinitialized) kernel code.
+        let next_mem_after_filter_diff = nv.mem_after_filter - nv.maybe_in_mem_after;
+        yield_constr.constraint_transition(
+            next_mem_after_filter_diff
+                * (preinitialized_segments * preinitialized_segments_inv - P::ONES),
+        );
+        yield_constr.constraint_first_row(mem_after_filter_diff);
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
         // checked.
@@ -650,6 +663,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let initialize_aux = lv.initialize_aux;
         let preinitialized_segments = lv.preinitialized_segments;
         let preinitialized_segments_aux = lv.preinitialized_segments_aux;
+        let preinitialized_segments_inv = lv.preinitialized_segments_inv;
 
         let next_addr_context = nv.addr_context;
         let next_addr_segment = nv.addr_segment;
@@ -826,14 +840,27 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         }
 
         // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // - segment is preinitialized OR
         // - value is not zero.
         let mem_after_filter_diff = builder.sub_extension(mem_after_filter, maybe_in_mem_after);
         for i in 0..VALUE_LIMBS {
-            let prod = builder.mul_extension(preinitialized_segments, value_limbs[i]);
-            let constr = builder.mul_extension(mem_after_filter_diff, prod);
+            let constr = builder.mul_extension(mem_after_filter_diff, value_limbs[i]);
             yield_constr.constraint(builder, constr);
         }
+        // `preinitialized_segments` refers to the segment of the next row. The first
+        // row has no predecessor, and is always in the (preinitialized) kernel code.
+        {
+            let next_mem_after_filter_diff =
+                builder.sub_extension(nv.mem_after_filter, nv.maybe_in_mem_after);
+            let prod = builder.mul_extension(preinitialized_segments, preinitialized_segments_inv);
+            let constr = builder.mul_sub_extension(
+                next_mem_after_filter_diff,
+                prod,
+                next_mem_after_filter_diff,
+            );
+            yield_constr.constraint_transition(builder, constr);
+            yield_constr.constraint_first_row(builder, mem_after_filter_diff);
+        }
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
         // checked.
-- 
2.43.0


From 07253ff077984495d0993aa0d066f50037d8764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 08/30] fix: do not let dummy reads hide the last value of an
 address

maybe_in_mem_after looked at the last row of an address only, and was
zero if that row was a dummy read, which a prover can append after the
last actual operation on any address: the value was then dropped from
the final memory. Track whether any earlier row of the address was an
actual operation. The last row of the table, which the transition
constraints do not cover, must be padding.
---
 evm_arithmetization/src/memory/columns.rs     |  6 ++-
 .../src/memory/memory_stark.rs                | 43 ++++++++++++++++---
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/evm_arithmetization/src/memory/columns.rs b/evm_arithmetization/src/memory/columns.rs
index d93ffd6..1a26bc4 100644
--- a/evm_arithmetization/src/memory/columns.rs
+++ b/evm_arithmetization/src/memory/columns.rs
@@ -76,8 +76,12 @@ pub(crate) struct MemoryColumnsView<T> {
     /// `addr_context` + 1 is in `state_contexts`.
     pub is_stale: T,
 
+    /// Flag indicating whether this row, or an earlier row with the same
+    /// address, is an actual memory operation.
+    pub is_live: T,
+
     /// Flag indicating that a value can potentially be propagated.
-    /// Contains `filter * address_changed * is_not_stale`.
+    /// Contains `is_live * address_changed * is_not_stale`.
     pub maybe_in_mem_after: T,
 
     /// Filter for the `MemAfter` CTL. Is equal to `MAYBE_IN_MEM_AFTER` if
diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index bfab6d1..eeb329a 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -237,7 +237,7 @@ impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
     /// Generates the `counter`, `range_check` and `frequencies` columns, given
     /// a trace in column-major form.
     /// Also generates the `state_contexts`, `state_contexts_frequencies`,
-    /// `maybe_in_mem_after` and `mem_after_filter` columns.
+    /// `is_live`, `maybe_in_mem_after` and `mem_after_filter` columns.
     fn generate_trace_col_major(trace_col_vecs: &mut [Vec<F>]) {
         let height = trace_col_vecs[0].len();
         trace_col_vecs[MEMORY_COL_MAP.counter] =
@@ -258,17 +258,25 @@ impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
                 }
             }
 
+            let was_live = i > 0
+                && trace_col_vecs[MEMORY_COL_MAP.is_live][i - 1].is_one()
+                && trace_col_vecs[MEMORY_COL_MAP.context_first_change][i - 1].is_zero()
+                && trace_col_vecs[MEMORY_COL_MAP.segment_first_change][i - 1].is_zero()
+                && trace_col_vecs[MEMORY_COL_MAP.virtual_first_change][i - 1].is_zero();
+            trace_col_vecs[MEMORY_COL_MAP.is_live][i] =
+                F::from_bool(was_live || trace_col_vecs[MEMORY_COL_MAP.filter][i].is_one());
+
             let addr_ctx = trace_col_vecs[MEMORY_COL_MAP.addr_context][i];
             let addr_ctx_usize = addr_ctx.to_canonical_u64() as usize;
             if addr_ctx + F::ONE == trace_col_vecs[MEMORY_COL_MAP.stale_contexts][addr_ctx_usize] {
                 trace_col_vecs[MEMORY_COL_MAP.is_stale][i] = F::ONE;
                 trace_col_vecs[MEMORY_COL_MAP.stale_context_frequencies][addr_ctx_usize] += F::ONE;
-            } else if trace_col_vecs[MEMORY_COL_MAP.filter][i].is_one()
+            } else if trace_col_vecs[MEMORY_COL_MAP.is_live][i].is_one()
                 && (trace_col_vecs[MEMORY_COL_MAP.context_first_change][i].is_one()
                     || trace_col_vecs[MEMORY_COL_MAP.segment_first_change][i].is_one()
                     || trace_col_vecs[MEMORY_COL_MAP.virtual_first_change][i].is_one())
             {
-                // `maybe_in_mem_after = filter * address_changed * (1 - is_stale)`
+                // `maybe_in_mem_after = is_live * address_changed * (1 - is_stale)`
                 trace_col_vecs[MEMORY_COL_MAP.maybe_in_mem_after][i] = F::ONE;
 
                 let addr_segment = trace_col_vecs[MEMORY_COL_MAP.addr_segment][i];
@@ -498,6 +506,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let value_limbs = lv.value_limbs;
         let timestamp_inv = lv.timestamp_inv;
         let is_stale = lv.is_stale;
+        let is_live = lv.is_live;
         let maybe_in_mem_after = lv.maybe_in_mem_after;
         let mem_after_filter = lv.mem_after_filter;
         let initialize_aux = lv.initialize_aux;
@@ -601,10 +610,19 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(initialize_aux * next_values_limbs[i]);
         }
 
+        // Validate `is_live`: dummy reads must not hide the operations that precede
+        // them at the same address.
+        yield_constr.constraint_first_row(is_live - filter);
+        yield_constr.constraint_transition(
+            nv.is_live - nv.filter + (nv.filter - P::ONES) * address_unchanged * is_live,
+        );
+
         // Validate `maybe_in_mem_after`.
         yield_constr.constraint_transition(
-            maybe_in_mem_after + filter * not_address_unchanged * (is_stale - P::ONES),
+            maybe_in_mem_after + is_live * not_address_unchanged * (is_stale - P::ONES),
         );
+        // This does not constrain the last row, which must then be a padding row.
+        yield_constr.constraint_last_row(is_live);
 
         // `mem_after_filter` must be binary.
         yield_constr.constraint(mem_after_filter * (mem_after_filter - P::ONES));
@@ -658,6 +676,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let timestamp = lv.timestamp;
         let timestamp_inv = lv.timestamp_inv;
         let is_stale = lv.is_stale;
+        let is_live = lv.is_live;
         let maybe_in_mem_after = lv.maybe_in_mem_after;
         let mem_after_filter = lv.mem_after_filter;
         let initialize_aux = lv.initialize_aux;
@@ -824,12 +843,26 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(builder, zero_init_constraint);
         }
 
+        // Validate `is_live`: dummy reads must not hide the operations that precede
+        // them at the same address.
+        {
+            let constr = builder.sub_extension(is_live, filter);
+            yield_constr.constraint_first_row(builder, constr);
+            let still_live = builder.mul_extension(address_unchanged, is_live);
+            let rhs = builder.mul_sub_extension(nv.filter, still_live, still_live);
+            let diff = builder.sub_extension(nv.is_live, nv.filter);
+            let constr = builder.add_extension(diff, rhs);
+            yield_constr.constraint_transition(builder, constr);
+        }
+
         // Validate `maybe_in_mem_after`.
         {
-            let rhs = builder.mul_extension(filter, not_address_unchanged);
+            let rhs = builder.mul_extension(is_live, not_address_unchanged);
             let rhs = builder.mul_sub_extension(rhs, is_stale, rhs);
             let constr = builder.add_extension(maybe_in_mem_after, rhs);
             yield_constr.constraint_transition(builder, constr);
+            // This does not constrain the last row, which must then be a padding row.
+            yield_constr.constraint_last_row(builder, is_live);
         }
 
         // `mem_after_filter` must be binary.
-- 
2.43.0


From 92036ca47baedc12e79c2451abe882aa620083f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 09/30] fix: advance the transient storage search by whole
 entries

---
 .../src/cpu/kernel/asm/memory/transient_storage.asm             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm b/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
index 8aa32c3..ff14c77 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/memory/transient_storage.asm
@@ -56,7 +56,7 @@ search_transient_storage_loop:
     %jumpi(search_transient_storage_found)
 increment_and_loop:
     // stack: i, len, addr, key, retdest
-    %increment
+    %add_const(3)
     %jump(search_transient_storage_loop)
 
 search_transient_storage_not_found:
-- 
2.43.0


From e4418373aee73095ba7c5d061258f93248ee5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 10/30] fix: judge the first byte of deployed code only if
 there is code

---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index 1c8e57e..57e24cb 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -148,13 +148,15 @@ after_constructor:
     // stack: new_ctx, leftover_gas, success, address, kexit_info
     POP
 
-    // EIP-3541: Reject new contract code starting with the 0xEF byte
+    // EIP-3541: Reject new contract code starting with the 0xEF byte, if code_size > 0
+    %returndatasize ISZERO %jumpi(after_constructor_ef_check)
     PUSH @SEGMENT_RETURNDATA
     GET_CONTEXT
     %build_address_no_offset
     MLOAD_GENERAL
     %eq_const(0xEF) %jumpi(create_first_byte_ef)
 
+after_constructor_ef_check:
     // Charge gas for the code size.
     // stack: leftover_gas, success, address, kexit_info
     %returndatasize // Size of the code.
-- 
2.43.0


From 4f6745e76b178a27e8d71a60ea59cde985bbcb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 11/30] fix: leave no return data when deployed code is
 rejected

---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index 57e24cb..0d7b018 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -227,12 +227,14 @@ create_collision:
 // stack: new_ctx, leftover_gas, success, address, kexit_info
 create_first_byte_ef:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
 // stack: code_size, new_ctx, leftover_gas, success, address, kexit_info
 create_code_too_large:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (code_size, leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
-- 
2.43.0


From 6e3ac526daee6fa05d188e4c3fb5d1852db3aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 12/30] fix: do not count colliding creations as contracts
 created in the transaction

---
 .../src/cpu/kernel/asm/core/create_contract_account.asm         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
index a614f9f..e8a50f4 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
@@ -4,7 +4,6 @@
 %macro create_contract_account
     // stack: address
     DUP1 %insert_touched_addresses
-    DUP1 %append_created_contracts
     DUP1 %mpt_read_state_trie
     // stack: existing_account_ptr, address
     // If the account doesn't exist, there's no need to check its balance or nonce,
@@ -33,6 +32,7 @@
     %journal_add_account_created
 %%do_insert:
     // stack: new_acct_value=existing_balance, address
+    DUP2 %append_created_contracts
     // Write the new account's data to MPT data, and get a pointer to it.
     %get_trie_data_size
     // stack: account_ptr, new_acct_value, address
-- 
2.43.0


From 061a396bffe646e0c05954758c8621c3b34e180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 13/30] fix: journal self-destructions without a transfer

---
 .../src/cpu/kernel/asm/core/terminate.asm        | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm b/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
index 2e3482e..162c1ca 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/terminate.asm
@@ -113,30 +113,32 @@ sys_selfdestruct_journal_add:
     DUP3 ISZERO
 
     // If balance is 0, we didn't perform any transfer. Hence, the recipient
-    // may not exist, and we need to verify this before adding a new journal entry.
+    // may not exist, and we need to verify this before naming it in the journal entry.
 
     // stack: balance=0, address, recipient, balance, kexit_info
-    %jumpi(skip_journal_entry_if_nonexistent)
+    %jumpi(journal_target_if_nonexistent)
 
 sys_selfdestruct_journal_add_after_check:
     // stack: address, recipient, balance, kexit_info
     %journal_add_account_destroyed
     %jump(sys_selfdestruct_exit)
 
-skip_journal_entry_if_nonexistent:
+journal_target_if_nonexistent:
     // stack: address, recipient, balance, kexit_info
     DUP2 %is_non_existent
 
-    // If the account doesn't exist, there is no need to add a journal entry.
+    // If the recipient doesn't exist, nothing was sent to it. The journal entry then names the account
+    // itself as its target, so that a revert still removes it from the selfdestruct list.
     // stack: recipient_is_non_existent, address, recipient, balance, kexit_info
-    %jumpi(skip_journal_entry)
+    %jumpi(journal_own_account)
 
     // stack: address, recipient, balance, kexit_info
     %jump(sys_selfdestruct_journal_add_after_check)
 
-skip_journal_entry:
+journal_own_account:
     // stack: address, recipient, balance, kexit_info
-    %pop3
+    %stack (address, recipient) -> (address, address)
+    %jump(sys_selfdestruct_journal_add_after_check)
 
 sys_selfdestruct_exit:
     // stack: kexit_info
-- 
2.43.0


From 5d768e7d396b927ec9c170ac651141c0fe46d366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 14/30] fix: check that an account reported absent is not in
 the list

---
 .../kernel/asm/mpt/linked_list/linked_list.asm    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 650d69d..42bd0b6 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -301,7 +301,20 @@ account_found:
 
 account_not_found:
     // stack: pred_addr_key, pred_ptr, addr_key, retdest
-    %stack (pred_addr_key, pred_ptr, addr_key, retdest) -> (retdest, 0)
+    POP
+    %add_const(@ACCOUNTS_NEXT_NODE_PTR)
+    MLOAD_GENERAL
+    // stack: next_ptr, addr_key, retdest
+    // Check that the predecessor is not a deleted node
+    DUP1 NOT
+    %assert_nonzero
+    MLOAD_GENERAL
+    // stack: next_addr_key, addr_key, retdest
+    // Here, (addr_key > pred_addr_key) || (pred_ptr == @SEGMENT_ACCOUNTS_LINKED_LIST).
+    // We should have (addr_key < next_addr_key), meaning that the account is not in the list.
+    DUP2
+    %assert_lt
+    %stack (addr_key, retdest) -> (retdest, 0)
     JUMP
 
 %macro remove_account_from_linked_list
-- 
2.43.0


From b61e4c7de28c81a1c68bf5ef560e84dc51704fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 15/30] fix: check that a slot reported absent is not in the
 list

---
 .../asm/mpt/linked_list/linked_list.asm       | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 42bd0b6..4c91572 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -842,10 +842,40 @@ global search_slot:
     %jump_neq_const(@U256_MAX, slot_found_no_write)
     // The storage key is not in the list.
     PANIC
-slot_not_found:    
+slot_not_found:
     // stack: pred_addr_or_pred_key, pred_ptr, addr_key, key, value, retdest
-    %stack (pred_addr_or_pred_key, pred_ptr, addr_key, key, value, retdest)
-        -> (retdest, value)
+    POP
+    %add_const(@STORAGE_NEXT_NODE_PTR)
+    MLOAD_GENERAL
+    // stack: next_ptr, addr_key, key, value, retdest
+    // Check that the predecessor is not a deleted node
+    DUP1 NOT
+    %assert_nonzero
+    DUP1
+    MLOAD_GENERAL
+    // stack: next_addr_key, next_ptr, addr_key, key, value, retdest
+    // The predecessor is strictly smaller than the slot, or is the special node.
+    // We should have (addr_key, key) < (next_addr_key, next_key), meaning that
+    // the slot is not in the list.
+    DUP1 DUP4
+    LT
+    // stack: addr_key < next_addr_key, next_addr_key, next_ptr, addr_key, key, value, retdest
+    SWAP1
+    DUP4
+    EQ
+    // stack: addr_key == next_addr_key, addr_key < next_addr_key, next_ptr, addr_key, key, value, retdest
+    SWAP2
+    %increment
+    MLOAD_GENERAL
+    // stack: next_key, addr_key < next_addr_key, addr_key == next_addr_key, addr_key, key, value, retdest
+    DUP5
+    LT
+    // stack: key < next_key, addr_key < next_addr_key, addr_key == next_addr_key, addr_key, key, value, retdest
+    SWAP1 SWAP2
+    MUL // AND
+    ADD // OR
+    %assert_nonzero
+    %stack (addr_key, key, value, retdest) -> (retdest, value)
     JUMP
 
 slot_found_no_write:
-- 
2.43.0


From 3dfbb7b9942a06729262bb343fada94a342cedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 16/30] fix: bound access list pointers from below

---
 .../src/cpu/kernel/asm/core/access_lists.asm       | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
index 84cc407..89ebc13 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
@@ -74,6 +74,13 @@ global init_access_lists:
 // and abort if ptr/2 >= mem[@GLOBAL_METADATA_ACCESSED_ADDRESSES_LEN]/2
 // In this way 2*ptr/2 must be pointing to the beginning of a node.
 %macro get_valid_addr_ptr
+    // stack: ptr/2
+    // Check that the pointer is not lower than the segment.
+    PUSH @SEGMENT_ACCESSED_ADDRESSES
+    DUP2
+    %mul_const(2)
+    // stack: ptr, @SEGMENT_ACCESSED_ADDRESSES, ptr/2
+    %increment %assert_gt
     // stack: ptr/2
     DUP1
     // stack: ptr/2, ptr/2
@@ -220,6 +227,13 @@ global remove_accessed_addresses:
 // and abort if ptr/4 >= @GLOBAL_METADATA_ACCESSED_STORAGE_KEYS_LEN/4
 // In this way 4*ptr/4 be pointing to the beginning of a node.
 %macro get_valid_storage_ptr
+    // stack: ptr/4
+    // Check that the pointer is not lower than the segment.
+    PUSH @SEGMENT_ACCESSED_STORAGE_KEYS
+    DUP2
+    %mul_const(4)
+    // stack: ptr, @SEGMENT_ACCESSED_STORAGE_KEYS, ptr/4
+    %increment %assert_gt
     // stack: ptr/4
     DUP1
     %mload_global_metadata(@GLOBAL_METADATA_ACCESSED_STORAGE_KEYS_LEN)
-- 
2.43.0


From 15b7540b935da283d51624a9e557027221ccc6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 17/30] fix: fault when the fixed costs of a call cannot be
 paid

---
 .../src/cpu/kernel/asm/core/call_gas.asm         | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/call_gas.asm b/evm_arithmetization/src/cpu/kernel/asm/core/call_gas.asm
index c70de69..cc9d82c 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/call_gas.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/call_gas.asm
@@ -32,17 +32,17 @@ after_new_cost:
     // stack: Cextra, address, gas, kexit_info, value, retdest
     DUP4 %leftover_gas
     // stack: leftover_gas, Cextra, address, gas, kexit_info, value, retdest
+    // If Cextra cannot be paid, then neither can C_call = Cextra + gas. We fault
+    // right away, as this sum could overflow.
     DUP2 DUP2 LT
     // stack: leftover_gas<Cextra, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
-    DUP5 DUP2 MUL
-    // stack: (leftover_gas<Cextra)*gas, leftover_gas<Cextra, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
-    SWAP1 %not_bit
-    // stack: leftover_gas>=Cextra, (leftover_gas<Cextra)*gas, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
-    DUP4 DUP4 SUB
-    // stack: leftover_gas - Cextra, leftover_gas>=Cextra, (leftover_gas<Cextra)*gas, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
+    %jumpi(fault_exception)
+    // stack: leftover_gas, Cextra, address, gas, kexit_info, value, retdest
+    DUP2 DUP2 SUB
+    // stack: leftover_gas - Cextra, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
     %all_but_one_64th
-    // stack: L(leftover_gas - Cextra), leftover_gas>=Cextra, (leftover_gas<Cextra)*gas, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
-    DUP7 %min MUL ADD
+    // stack: L(leftover_gas - Cextra), leftover_gas, Cextra, address, gas, kexit_info, value, retdest
+    DUP5 %min
     // stack: Cgascap, leftover_gas, Cextra, address, gas, kexit_info, value, retdest
 
     // Compute C_call and charge for it.
-- 
2.43.0


From 788b2889351ba9da61eaa950ae2e5999173b5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 18/30] fix: check that all the slots of a deleted account are
 removed

---
 .../asm/mpt/linked_list/linked_list.asm       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 4c91572..2c67a8b 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -948,10 +948,15 @@ global remove_all_account_slots:
     // pred_ptr/5, retdest
     %get_valid_slot_ptr
     // stack: pred_ptr, addr_key, retdest
-    // First, check that the previous address is not `addr`
+    // First, check that the previous address is smaller than `addr`, or that
+    // the previous node is the special node with key @U256_MAX.
     DUP1 MLOAD_GENERAL
     // stack: pred_addr_key, pred_ptr, addr_key, retdest
-    DUP3 EQ %jumpi(panic)
+    DUP3 GT
+    // stack: addr_key > pred_addr_key, pred_ptr, addr_key, retdest
+    DUP2 %eq_const(@SEGMENT_STORAGE_LINKED_LIST)
+    ADD // OR
+    %assert_nonzero
     // stack: pred_ptr, addr_key, retdest
     DUP1
 
@@ -960,13 +965,14 @@ remove_all_slots_loop:
     // stack: pred_ptr, pred_ptr, addr_key, retdest
     %add_const(@STORAGE_NEXT_NODE_PTR) DUP1 MLOAD_GENERAL
     // stack: cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
-    DUP1 %eq_const(@U256_MAX) %jumpi(remove_all_slots_end)
+    // Check that the previous node is not deleted.
+    DUP1 NOT %assert_nonzero
     DUP1 %add_const(@STORAGE_NEXT_NODE_PTR) MLOAD_GENERAL 
     // stack: next_ptr, cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     SWAP1 DUP1
     // stack: cur_ptr, cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     MLOAD_GENERAL
-    DUP6 EQ ISZERO %jumpi(remove_all_slots_pop_and_end)
+    DUP6 EQ ISZERO %jumpi(remove_all_slots_end)
     
     // Remove slot: update the value in cur_ptr_ptr, and set cur_ptr+4 to @U256_MAX.
     // stack: cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
@@ -980,9 +986,14 @@ remove_all_slots_loop:
     DUP1
     %jump(remove_all_slots_loop)
 
-remove_all_slots_pop_and_end:
-    POP
 remove_all_slots_end:
+    // stack: cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
+    // The address of the node following the removed slots must be greater than
+    // `addr`, otherwise the slots of `addr` are further in the list.
+    MLOAD_GENERAL
+    // stack: cur_addr_key, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
+    DUP5
+    %assert_lt
     // stack: next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     %pop4 JUMP
 
-- 
2.43.0


From 5b69e69bdee0a7585fb8f75b29fc37adc4c79081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 19/30] fix: check that the initial account payloads do not
 overlap

---
 .../asm/mpt/linked_list/linked_list.asm       | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 2c67a8b..1998453 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -116,11 +116,40 @@ loop_store_initial_accounts:
     MLOAD_GENERAL
     %assert_gt // next_addr_key > current_addr_key
     // stack: next_node_ptr, cur_len', retdest
+    // Check that the payloads are contiguous, so that two accounts never share
+    // a payload: next_payload_ptr == current_payload_ptr + 4.
+    PUSH 3
+    DUP2
+    SUB
+    // stack: current_payload_ptr_ptr, next_node_ptr, cur_len', retdest
+    MLOAD_GENERAL
+    %add_const(4)
+    DUP2
+    %increment
+    MLOAD_GENERAL
+    // stack: next_payload_ptr, current_payload_ptr + 4, next_node_ptr, cur_len', retdest
+    %assert_eq
+    // stack: next_node_ptr, cur_len', retdest
     %jump(loop_store_initial_accounts)
 
 store_initial_accounts_end_pop_key:
     // stack: next_node_ptr, current_addr_key, cur_len', retdest
     SWAP1 POP
+    // Check that the payloads do not overlap the copies, nor anything appended later.
+    // stack: next_node_ptr, cur_len', retdest
+    PUSH 3
+    DUP3
+    SUB
+    // stack: last_payload_ptr_ptr, next_node_ptr, cur_len', retdest
+    MLOAD_GENERAL
+    %add_const(4)
+    // stack: last_payload_ptr + 4, next_node_ptr, cur_len', retdest
+    PUSH @SEGMENT_ACCOUNTS_LINKED_LIST
+    %next_initial_account
+    %add_const(2)
+    MLOAD_GENERAL
+    // stack: first_cpy_ptr, last_payload_ptr + 4, next_node_ptr, cur_len', retdest
+    %assert_ge
 store_initial_accounts_end:
     // stack: next_node_ptr, cur_len', retdest
     %assert_eq_const(@SEGMENT_ACCOUNTS_LINKED_LIST)
-- 
2.43.0


From dc9467805777d3302e4a875dc619b0ada01ddb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 20/30] fix: check that all the initial slots belong to an
 initial account

---
 .../src/cpu/kernel/asm/mpt/linked_list/initial_tries.asm     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/initial_tries.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/initial_tries.asm
index df4762a..74a8e38 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/initial_tries.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/initial_tries.asm
@@ -76,6 +76,11 @@ after_insert_all_initial_slots:
     %jump(insert_all_initial_accounts)
 
 no_more_accounts:
+    // stack: key, storage_ptr_ptr, root_ptr, account_ptr_ptr, retdest
+    // All the initial slots must belong to one of the initial accounts.
+    DUP2
+    %mload_global_metadata(@GLOBAL_METADATA_INITIAL_STORAGE_LINKED_LIST_LEN)
+    %assert_eq
     // stack: key, storage_ptr_ptr, root_ptr, account_ptr_ptr, retdest
     %stack (key, storage_ptr_ptr, root_ptr, account_ptr_ptr, retdest) ->(retdest, root_ptr)
     JUMP
-- 
2.43.0


From 6c59ae08f022f535c4d7d66a828e4e8cdcd2d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 21/30] fix: encode typed receipts at the RLP length boundary

---
 .../src/cpu/kernel/asm/mpt/hash/hash_trie_specific.asm          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/hash/hash_trie_specific.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/hash/hash_trie_specific.asm
index 31fa192..d57ea89 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/hash/hash_trie_specific.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/hash/hash_trie_specific.asm
@@ -327,7 +327,7 @@ encode_nonzero_receipt_type:
     DUP3 %increment %mload_trie_data
     // stack: payload_len, txn_type, rlp_addr, value_ptr, retdest
     // The transaction type is encoded in 1 byte
-    %increment %rlp_list_len
+    %rlp_list_len %increment
     // stack: rlp_receipt_len, txn_type, rlp_addr, value_ptr, retdest
     DUP3 %encode_rlp_multi_byte_string_prefix
     // stack: rlp_addr, txn_type, old_rlp_addr, value_ptr, retdest
-- 
2.43.0


From 35c88504fd170080e9b72cc330e3ed328b53beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 22/30] fix: compute the blob base fee in the kernel

---
 .../src/cpu/kernel/asm/memory/metadata.asm    | 37 ++++++++++++++++++-
 .../cpu/kernel/asm/transactions/type_3.asm    |  2 +-
 .../src/cpu/kernel/constants/mod.rs           |  4 ++
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm b/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm
index 5ac85f1..0c000fe 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm
@@ -317,10 +317,45 @@ global sys_basefee:
         // stack: kexit_info
         %charge_gas_const(@GAS_BASE)
         // stack: kexit_info
-        PROVER_INPUT(blobbasefee)
+        %blob_base_fee
         // stack: blobbasefee, kexit_info
         SWAP1
         EXIT_KERNEL
+
+    // Computes `fake_exponential(MIN_BASE_FEE_PER_BLOB_GAS, excess_blob_gas, BLOB_BASE_FEE_UPDATE_FRACTION)`.
+    // See EIP-4844: <https://eips.ethereum.org/EIPS/eip-4844#helpers>.
+    // Pre stack: retdest
+    // Post stack: blobbasefee
+    global blob_base_fee:
+        // stack: retdest
+        PUSH 0
+        PUSH 1
+        PUSH @BLOB_BASE_FEE_UPDATE_FRACTION // MIN_BASE_FEE_PER_BLOB_GAS = 1
+    blob_base_fee_loop:
+        // stack: accum, i, output, retdest
+        DUP1 ISZERO %jumpi(blob_base_fee_end)
+        SWAP2 DUP3 ADD SWAP2
+        // stack: accum, i, output + accum, retdest
+        %mload_global_metadata(@GLOBAL_METADATA_BLOCK_EXCESS_BLOB_GAS)
+        MUL
+        DUP2 %mul_const(@BLOB_BASE_FEE_UPDATE_FRACTION)
+        // stack: i * fraction, accum * excess_blob_gas, i, output + accum, retdest
+        SWAP1 DIV
+        // stack: accum', i, output + accum, retdest
+        SWAP1 %increment SWAP1
+        %jump(blob_base_fee_loop)
+    blob_base_fee_end:
+        // stack: 0, i, output, retdest
+        %pop2
+        %div_const(@BLOB_BASE_FEE_UPDATE_FRACTION)
+        SWAP1 JUMP
+
+    %macro blob_base_fee
+        PUSH %%after
+        %jump(blob_base_fee)
+    %%after:
+        // stack: blobbasefee
+    %endmacro
 }
 
 global sys_blockhash:
diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index f84f95c..a34c4ce 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -105,7 +105,7 @@ store_origin:
     PUSH @GAS_PER_BLOB
     %get_blob_versioned_hashes_list_length
     MUL
-    PROVER_INPUT(blobbasefee)
+    %blob_base_fee
     MUL
 %endmacro
 
diff --git a/evm_arithmetization/src/cpu/kernel/constants/mod.rs b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
index 91c2a0a..f4998ec 100644
--- a/evm_arithmetization/src/cpu/kernel/constants/mod.rs
+++ b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
@@ -81,6 +81,10 @@ pub(crate) fn evm_constants() -> HashMap<String, U256> {
         cancun_constants::HISTORY_BUFFER_LENGTH.name.into(),
         cancun_constants::HISTORY_BUFFER_LENGTH.value,
     );
+    c.insert(
+        "BLOB_BASE_FEE_UPDATE_FRACTION".into(),
+        cancun_constants::BLOB_BASE_FEE_UPDATE_FRACTION,
+    );
 
     c.insert(
         global_exit_root::GLOBAL_EXIT_ROOT_MANAGER_L2_STATE_KEY
-- 
2.43.0


From 7f12a902a98404634a388e471d4c7738ac34d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 23/30] fix: check the maximal cost of a transaction without
 overflow

---
 .../src/cpu/kernel/asm/core/process_txn.asm        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index 28252d0..15213b8 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -39,14 +39,22 @@ global process_normalized_txn:
     DUP1 %ext_code_empty %assert_nonzero(invalid_txn_1)
     // stack: sender, retdest
 
-    // Assert sender balance >= gas_limit * gas_price + value.
+    // Assert sender balance >= gas_limit * max_fee_per_gas + value.
     %balance
     // stack: sender_balance, retdest
-    %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS)
+    // The product below cannot overflow if max_fee_per_gas <= sender_balance / gas_limit.
+    %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
+    DUP2 DIV
+    %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_GAS)
+    %assert_le(invalid_txn_1)
+    // stack: sender_balance, retdest
+    %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_GAS)
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
     MUL
+    // stack: max_gas_cost, sender_balance, retdest
+    SWAP1 SUB
+    // stack: sender_balance - max_gas_cost, retdest
     %mload_txn_field(@TXN_FIELD_VALUE)
-    ADD
     %assert_le(invalid_txn)
     // stack: retdest
 
-- 
2.43.0


From a737701c277fff5bef02f862973df0187a7e23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 24/30] fix: burn the blob fee only for valid transactions that
 accept it

---
 .../src/cpu/kernel/asm/core/process_txn.asm   | 27 +++++++++++++++++++
 .../cpu/kernel/asm/transactions/type_3.asm    | 18 ++++++-------
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index 15213b8..0cbbdec 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -54,6 +54,27 @@ global process_normalized_txn:
     // stack: max_gas_cost, sender_balance, retdest
     SWAP1 SUB
     // stack: sender_balance - max_gas_cost, retdest
+    #[cfg(feature = eth_mainnet)]
+    {
+        // EIP-4844: the balance must also cover the blobs at their maximal fee.
+        %blob_gas
+        // stack: blob_gas, balance_left, retdest
+        DUP1 ISZERO %jumpi(no_blob)
+        // Assert max_fee_per_blob_gas >= blob_base_fee.
+        %blob_base_fee
+        %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_BLOB_GAS)
+        %assert_ge(invalid_txn_2)
+        // The product below cannot overflow if max_fee_per_blob_gas <= balance_left / blob_gas.
+        DUP1 DUP3 DIV
+        %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_BLOB_GAS)
+        %assert_le(invalid_txn_2)
+        %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_BLOB_GAS)
+        MUL
+    no_blob:
+        // stack: max_blob_cost, balance_left, retdest
+        SWAP1 SUB
+        // stack: balance_left - max_blob_cost, retdest
+    }
     %mload_txn_field(@TXN_FIELD_VALUE)
     %assert_le(invalid_txn)
     // stack: retdest
@@ -77,6 +98,12 @@ global buy_gas:
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
     MUL
     // stack: gas_cost, retdest
+    #[cfg(feature = eth_mainnet)]
+    {
+        // EIP-4844: Deduct the blob gas fee from the sender and burn it.
+        %compute_blob_gas_fee
+        ADD
+    }
     %mload_txn_field(@TXN_FIELD_ORIGIN)
     // stack: sender_addr, gas_cost, retdest
     %deduct_eth
diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index a34c4ce..75aa2ec 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -87,26 +87,24 @@ store_origin:
     %eq_const(0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff)
     %jumpi(panic)
 
-    // stack: address, retdest
-    // EIP-4844: Deduct blob_gas_fee from the sender and burn it
-    %compute_blob_gas_fee
-    DUP2
-    // stack: address, blob_gas_fee, address, retdest
-    %deduct_eth
-    // stack: deduct_eth_status, address, retdest
-    %jumpi(panic)
-
     // stack: address, retdest
     %mstore_txn_field(@TXN_FIELD_ORIGIN)
     // stack: retdest
     %jump(process_normalized_txn)
 
-%macro compute_blob_gas_fee
+%macro blob_gas
     PUSH @GAS_PER_BLOB
     %get_blob_versioned_hashes_list_length
     MUL
+%endmacro
+
+%macro compute_blob_gas_fee
+    %blob_gas
+    DUP1 ISZERO %jumpi(%%no_blob)
     %blob_base_fee
     MUL
+%%no_blob:
+    // stack: blob_gas_fee
 %endmacro
 
 %macro get_blob_versioned_hashes_list_length
-- 
2.43.0


From 8f9ad951859907e3d05da64ebd22541e44da96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 25/30] fix: give the context pruning view the C layout of the
 other views

---
 evm_arithmetization/src/cpu/columns/general.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evm_arithmetization/src/cpu/columns/general.rs b/evm_arithmetization/src/cpu/columns/general.rs
index 97f8b8f..e6d42fc 100644
--- a/evm_arithmetization/src/cpu/columns/general.rs
+++ b/evm_arithmetization/src/cpu/columns/general.rs
@@ -218,6 +218,7 @@ pub(crate) struct CpuPushView<T: Copy> {
 }
 
 /// View of the first `CpuGeneralColumn` storing a flag for context pruning.
+#[repr(C)]
 #[derive(Copy, Clone)]
 pub(crate) struct CpuContextPruningView<T: Copy> {
     /// The flag is 1 if the OP flag `context_op` is set, the operation is
-- 
2.43.0


From ee6bceeb4a1430c055c68993ae8f2f2efbe2593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 26/30] fix: let no valid opcode be faulted as invalid

BLOBBASEFEE (0x4a) was listed among the opcodes that are invalid in user
mode, so that a prover could have any program executing it fault.
---
 .../src/cpu/kernel/constants/exc_bitfields.rs     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs b/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs
index 5ed5972..ee9c433 100644
--- a/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs
+++ b/evm_arithmetization/src/cpu/kernel/constants/exc_bitfields.rs
@@ -57,11 +57,24 @@ pub(crate) const STACK_LENGTH_INCREASING_OPCODES_USER: U256 = u256_from_set_inde
     0x5f..=0x8f, // PUSH*, DUP*
 ]);
 
+#[cfg(feature = "eth_mainnet")]
+pub(crate) const INVALID_OPCODES_USER: U256 = u256_from_set_index_ranges(&[
+    0x0c..=0x0f,
+    0x1e..=0x1f,
+    0x21..=0x2f,
+    0x4b..=0x4f,
+    0xa5..=0xef,
+    0xf6..=0xf9,
+    0xfb..=0xfc,
+    0xfe..=0xfe,
+]);
+
+#[cfg(not(feature = "eth_mainnet"))]
 pub(crate) const INVALID_OPCODES_USER: U256 = u256_from_set_index_ranges(&[
     0x0c..=0x0f,
     0x1e..=0x1f,
     0x21..=0x2f,
-    0x4a..=0x4f,
+    0x49..=0x4f,
     0xa5..=0xef,
     0xf6..=0xf9,
     0xfb..=0xfc,
-- 
2.43.0


From b22d646a1a1aee3acc2cebd4f6ad22feca919bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 27/30] fix: give a cloned trie its own cached hash

---
 mpt_trie/src/partial_trie.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mpt_trie/src/partial_trie.rs b/mpt_trie/src/partial_trie.rs
index e8f1ebe..b5581d1 100644
--- a/mpt_trie/src/partial_trie.rs
+++ b/mpt_trie/src/partial_trie.rs
@@ -308,7 +308,7 @@ where
 /// A partial trie that lazily caches hashes for each node as needed.
 /// If you are doing frequent hashing of node, you probably want to use this
 /// `Trie` variant.
-#[derive(Clone, Debug, Default, Deserialize, Serialize)]
+#[derive(Debug, Default, Deserialize, Serialize)]
 pub struct HashedPartialTrie {
     pub(crate) node: Node<HashedPartialTrie>,
     pub(crate) hash: Arc<RwLock<Option<H256>>>,
@@ -316,6 +316,18 @@ pub struct HashedPartialTrie {
     pub(crate) strategy: OnOrphanedHashNode,
 }
 
+impl Clone for HashedPartialTrie {
+    fn clone(&self) -> Self {
+        Self {
+            node: self.node.clone(),
+            // The clone may be changed independently of `self`, so it must not share the
+            // cached hash.
+            hash: Arc::new(RwLock::new(*self.hash.read())),
+            strategy: self.strategy,
+        }
+    }
+}
+
 /// How to handle the following subtree on deletion of the indicated node.
 /// ```text
 ///      BranchNode
-- 
2.43.0


From 392563ac32889af203629aeb2e8910636181e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 28/30] fix: drop the cached hash of a trie extended up to an
 error

---
 mpt_trie/src/partial_trie.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpt_trie/src/partial_trie.rs b/mpt_trie/src/partial_trie.rs
index b5581d1..ae78bd9 100644
--- a/mpt_trie/src/partial_trie.rs
+++ b/mpt_trie/src/partial_trie.rs
@@ -394,9 +394,11 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
-        self.node.trie_extend(nodes)?;
+        // Some of the nodes may have been inserted even if there was an error.
+        let res = self.node.trie_extend(nodes);
         self.set_hash(None);
-        Ok(())
+
+        res
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
-- 
2.43.0


From 190f091f5778b78f50aef7c83f50b66ac97031d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 29/30] fix: drop the cached hash of a trie whose node is
 borrowed mutably

---
 mpt_trie/src/partial_trie.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpt_trie/src/partial_trie.rs b/mpt_trie/src/partial_trie.rs
index ae78bd9..c05f303 100644
--- a/mpt_trie/src/partial_trie.rs
+++ b/mpt_trie/src/partial_trie.rs
@@ -469,6 +469,8 @@ impl Deref for HashedPartialTrie {
 
 impl DerefMut for HashedPartialTrie {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The node may be changed through the returned reference.
+        self.set_hash(None);
         &mut self.node
     }
 }
-- 
2.43.0


From 894e2656319eae02a95c16316ef2d67b316b116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:44 +0000
Subject: [PATCH 30/30] fix: reject a witness balance longer than 32 bytes
 instead of panicking

---
 trace_decoder/src/wire.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trace_decoder/src/wire.rs b/trace_decoder/src/wire.rs
index 3590430..b9a8bc2 100644
--- a/trace_decoder/src/wire.rs
+++ b/trace_decoder/src/wire.rs
@@ -164,7 +164,10 @@ fn account_leaf(input: &mut &[u8]) -> PResult<Instruction> {
             true => Some(
                 trace(
                     "balance",
-                    cbor::<Vec<u8>>.map(|bytes| U256::from_big_endian(&bytes)),
+                    cbor::<Vec<u8>>.try_map(|bytes| match bytes.len() {
+                        0..=32 => Ok(U256::from_big_endian(&bytes)),
+                        _ => Err(Error("balance is longer than 32 bytes")),
+                    }),
                 )
                 .parse_next(input)?,
             ),
-- 
2.43.0

