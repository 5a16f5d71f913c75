From 4ab6949613fc1da955d6961b3ac21ead40982e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 01/23] fix: InitCommitmentHash with insertion_can_fail no
 longer drops queued commitments

Errors that occur after the batch has left the queue (e.g. a missing metadata
child account or a missing metadata entry) were swallowed, so the transaction
succeeded and the commitments were lost. Only errors raised before any state is
changed are ignored now.
---
 elusiv/src/processor/commitment.rs | 63 +++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index c1ab6c5..9bb8a0c 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -34,7 +34,9 @@ use ark_ff::BigInteger256;
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_computation::PartialComputation;
 use elusiv_types::UnverifiedAccountInfo;
-use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult};
+use solana_program::{
+    account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
+};
 
 #[derive(BorshDeserialize, BorshSerialize, BorshSerDeSized, PartialEq, Clone, Debug)]
 #[cfg_attr(feature = "serde", derive(serde::Deserialize, serde::Serialize))]
@@ -375,30 +377,35 @@ pub fn init_commitment_hash(
 
     insertion_can_fail: bool,
 ) -> ProgramResult {
-    match init_commitment_hash_inner(
-        commitment_queue,
-        metadata_queue,
-        hashing_account,
-        metadata_account,
-    ) {
-        Ok(()) => Ok(()),
+    // Only errors that occur before any state is changed can be ignored
+    let (batch, batching_rate) = match next_commitment_hash_batch(commitment_queue, hashing_account)
+    {
+        Ok(next_batch) => next_batch,
         Err(e) => {
-            if insertion_can_fail {
+            return if insertion_can_fail {
                 solana_program::msg!("Instruction failed: {:?}", e);
                 Ok(())
             } else {
                 Err(e)
             }
         }
-    }
+    };
+
+    init_commitment_hash_inner(
+        commitment_queue,
+        metadata_queue,
+        hashing_account,
+        metadata_account,
+        &batch,
+        batching_rate,
+    )
 }
 
-fn init_commitment_hash_inner(
+/// Verifies that a commitment hash can be started and returns the next batch (without removing it)
+fn next_commitment_hash_batch(
     commitment_queue: &mut CommitmentQueueAccount,
-    metadata_queue: &mut MetadataQueueAccount,
-    hashing_account: &mut CommitmentHashingAccount,
-    metadata_account: &mut MetadataAccount,
-) -> ProgramResult {
+    hashing_account: &CommitmentHashingAccount,
+) -> Result<(Vec<CommitmentHashRequest>, u32), ProgramError> {
     guard!(
         !hashing_account.get_is_active(),
         ElusivError::ComputationIsNotYetFinished
@@ -408,8 +415,26 @@ fn init_commitment_hash_inner(
         ElusivError::ComputationIsNotYetFinished
     );
 
+    let (batch, batching_rate) = CommitmentQueue::new(commitment_queue).next_batch()?;
+
+    // Check for room for the commitment batch
+    guard!(
+        hashing_account.get_ordering() as usize + batch.len() <= MT_COMMITMENT_COUNT,
+        ElusivError::NoRoomForCommitment
+    );
+
+    Ok((batch, batching_rate))
+}
+
+fn init_commitment_hash_inner(
+    commitment_queue: &mut CommitmentQueueAccount,
+    metadata_queue: &mut MetadataQueueAccount,
+    hashing_account: &mut CommitmentHashingAccount,
+    metadata_account: &mut MetadataAccount,
+    batch: &[CommitmentHashRequest],
+    batching_rate: u32,
+) -> ProgramResult {
     let mut commitment_queue = CommitmentQueue::new(commitment_queue);
-    let (batch, batching_rate) = commitment_queue.next_batch()?;
     commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
 
     let mut metadata_queue = MetadataQueue::new(metadata_queue);
@@ -421,12 +446,6 @@ fn init_commitment_hash_inner(
     // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
     let fee_version = batch.first().unwrap().fee_version;
 
-    // Check for room for the commitment batch
-    guard!(
-        hashing_account.get_ordering() as usize + batch.len() <= MT_COMMITMENT_COUNT,
-        ElusivError::NoRoomForCommitment
-    );
-
     let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
     for i in 0..batch.len() {
         commitments[i] = batch[i].commitment;
-- 
2.43.0


From 27315c6333993e71b1483834b6616884cc4cc03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 02/23] fix: a batch that fills the tree up is not started, the
 tree is closed instead

With the last leaf still free a queued batch could be started (guard: <=) and
the tree be closed at the same time (is_mt_full: >=). Finalizing the batch
afterwards wrote the old tree's path into the new tree: its old root and leaves
became valid again under the new tree's empty nullifier set.
---
 elusiv/src/processor/commitment.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index 9bb8a0c..8da0f4f 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -417,9 +417,10 @@ fn next_commitment_hash_batch(
 
     let (batch, batching_rate) = CommitmentQueue::new(commitment_queue).next_batch()?;
 
-    // Check for room for the commitment batch
+    // Check for room for the commitment batch (a MT that the batch would fill up is closed instead,
+    // as `reset_active_merkle_tree` is not aware of batches that are being hashed)
     guard!(
-        hashing_account.get_ordering() as usize + batch.len() <= MT_COMMITMENT_COUNT,
+        hashing_account.get_ordering() as usize + batch.len() < MT_COMMITMENT_COUNT,
         ElusivError::NoRoomForCommitment
     );
 
-- 
2.43.0


From a5bd8432967eeddd6b867bc0bdd835133dce90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 03/23] fix: consecutive roots are recorded in consecutive
 slots of the root history

For batching rates above zero the slot was derived from the leaf index, while
is_root_valid only looks at the first mt_roots_count slots.
---
 elusiv/src/state/commitment.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/state/commitment.rs b/elusiv/src/state/commitment.rs
index dac3b7c..d8b0115 100644
--- a/elusiv/src/state/commitment.rs
+++ b/elusiv/src/state/commitment.rs
@@ -259,11 +259,12 @@ impl<'a> CommitmentHashingAccount<'a> {
             );
 
             // This inserts the new root into the `active_mt_root_history`
+            let mt_roots_count = storage_account.get_mt_roots_count();
             storage_account.set_active_mt_root_history(
-                ordering as usize % HISTORY_ARRAY_SIZE,
+                mt_roots_count as usize % HISTORY_ARRAY_SIZE,
                 &storage_account.get_root().unwrap(),
             );
-            storage_account.set_mt_roots_count(&(storage_account.get_mt_roots_count() + 1));
+            storage_account.set_mt_roots_count(&(mt_roots_count + 1));
         }
     }
 }
-- 
2.43.0


From 630dd0a61b1f343604ddfc5299a369a2b69ff209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 04/23] fix: an entry that replaces the maximum of a full map
 stays reachable

---
 elusiv/src/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 6faaa11..256e5b3 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -221,6 +221,11 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
 
         self.set(&new_ptr, key, value);
 
+        if is_full && index == self.len.get() - 1 {
+            // The new entry directly replaces the maximum entry (no links change)
+            return Ok(Some((max_key.unwrap(), max_value.unwrap())));
+        }
+
         if index == 0 {
             // Prepend
             let ptr = self.min_ptr.get();
-- 
2.43.0


From 9343e22457d379f1e89674684df39db35ac26375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 05/23] fix: an invalid token spend returns the token account
 rent only if it was paid

---
 elusiv/src/processor/proof.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 5cca361..d93d197 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -884,11 +884,19 @@ pub fn finalize_verification_transfer_token<'a>(
             None,
         )?;
 
-        // `pool` transfers `commitment_hash_fee` and `associated_token_account_rent` to `fee_collector` (lamports)
+        // `pool` transfers `commitment_hash_fee` and (only if it has been reserved) `associated_token_account_rent` to `fee_collector` (lamports)
+        let associated_token_account_rent = match &request {
+            ProofRequest::Send(public_inputs)
+                if public_inputs.recipient_is_associated_token_account =>
+            {
+                spl_token_account_rent()?
+            }
+            _ => Lamports(0),
+        };
         transfer_lamports_from_pda_checked(
             pool,
             fee_collector,
-            (data.commitment_hash_fee + spl_token_account_rent()?)?.0,
+            (data.commitment_hash_fee + associated_token_account_rent)?.0,
         )?;
 
         return Ok(());
-- 
2.43.0


From 0d35b6c2ee1f0f5cfd206e7016c0699ce933e5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 06/23] fix: a spend whose amount and fee overflow is refused

---
 elusiv/src/processor/proof.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index d93d197..d49193a 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -1141,6 +1141,15 @@ fn check_join_split_public_inputs(
         ElusivError::InvalidRecentCommitmentIndex
     );
 
+    // The total amount (as used for the public signals) is not allowed to overflow
+    guard!(
+        public_inputs
+            .amount
+            .checked_add(public_inputs.fee)
+            .is_some(),
+        ElusivError::InvalidAmount
+    );
+
     // Verify the optional fee
     guard!(
         public_inputs.amount >= public_inputs.optional_fee.amount,
-- 
2.43.0


From 6ba523f769e91dc7a500845472fe362ed609f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 07/23] fix: a Solana-Pay spend does not pay the optional fee
 twice

---
 elusiv/src/processor/proof.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index d49193a..92d92b8 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -736,11 +736,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
 
             if public_inputs.solana_pay_transfer {
                 // `pool` transfers `amount` to `original_fee_payer` (lamports)
-                transfer_lamports_from_pda_checked(
-                    pool,
-                    original_fee_payer,
-                    public_inputs.join_split.amount,
-                )?;
+                transfer_lamports_from_pda_checked(pool, original_fee_payer, amount)?;
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-- 
2.43.0


From fc2dcf47b4cd0883892ee40fd444f34cb36bda71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:08 +0000
Subject: [PATCH 08/23] fix: fee schedules are validated for the highest
 batching rate as well

---
 elusiv/src/state/fee.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index 7695ae0..bcd1241 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -76,7 +76,7 @@ impl ProgramFee {
 
     /// Verifies that possible subventions are not too high
     pub fn is_valid(&self) -> bool {
-        for min_batching_rate in 0..MAX_COMMITMENT_BATCHING_RATE as u32 {
+        for min_batching_rate in 0..=MAX_COMMITMENT_BATCHING_RATE as u32 {
             let commitment_fee = self.commitment_hash_computation_fee(min_batching_rate).0;
             if self.base_commitment_subvention.0 > commitment_fee {
                 return false;
-- 
2.43.0


From 285e3c837af22b131d96e7e651b7ebe453273323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:08 +0000
Subject: [PATCH 09/23] fix: fees fail instead of wrapping

---
 elusiv/src/processor/proof.rs |  7 +++---
 elusiv/src/state/fee.rs       | 47 ++++++++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 92d92b8..4eb01cb 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -296,10 +296,11 @@ pub fn init_verification_transfer_fee<'a>(
                 .into_token(&price, token_id)?
                 .amount();
 
+            let minimum_amount = associated_token_account_rent_token
+                .checked_add(public_inputs.join_split.optional_fee.amount)
+                .ok_or(ElusivError::InvalidAmount)?;
             guard!(
-                public_inputs.join_split.amount
-                    >= associated_token_account_rent_token
-                        + public_inputs.join_split.optional_fee.amount,
+                public_inputs.join_split.amount >= minimum_amount,
                 ElusivError::InvalidAmount
             );
         }
diff --git a/elusiv/src/state/fee.rs b/elusiv/src/state/fee.rs
index bcd1241..51154c1 100644
--- a/elusiv/src/state/fee.rs
+++ b/elusiv/src/state/fee.rs
@@ -11,13 +11,23 @@ use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_computation::PartialComputation;
 use elusiv_derive::BorshSerDeSized;
 
+// Fees never wrap, a fee that cannot be represented aborts the instruction
+fn checked_sum(a: u64, b: u64) -> u64 {
+    a.checked_add(b).unwrap()
+}
+
+fn checked_product(a: u64, b: u64) -> u64 {
+    a.checked_mul(b).unwrap()
+}
+
 #[derive(BorshDeserialize, BorshSerialize, BorshSerDeSized, PartialEq, Clone)]
 #[cfg_attr(any(test, feature = "elusiv-client"), derive(Debug))]
 pub struct BasisPointFee(pub u64);
 
 impl BasisPointFee {
     pub fn calc(&self, amount: u64) -> u64 {
-        self.0 * amount / 10_000
+        let fee = self.0 as u128 * amount as u128 / 10_000;
+        fee.try_into().unwrap()
     }
 }
 
@@ -83,8 +93,10 @@ impl ProgramFee {
             }
 
             // For proof verification we assume the cheapest scenario to be proof_base_tx_count (and network fee to be zero)
-            let proof_fee = self.proof_base_tx_count * self.lamports_per_tx.0
-                + self.commitment_hash_computation_fee(min_batching_rate).0;
+            let proof_fee = checked_sum(
+                checked_product(self.proof_base_tx_count, self.lamports_per_tx.0),
+                self.commitment_hash_computation_fee(min_batching_rate).0,
+            );
             if self.proof_subvention.0 > proof_fee {
                 return false;
             }
@@ -113,23 +125,29 @@ pub struct FeeAccount {
 
 impl ProgramFee {
     pub fn hash_tx_compensation(&self) -> Lamports {
-        Lamports(self.lamports_per_tx.0 + self.warden_hash_tx_reward.0)
+        Lamports(checked_sum(
+            self.lamports_per_tx.0,
+            self.warden_hash_tx_reward.0,
+        ))
     }
 
     pub fn base_commitment_hash_computation_fee(&self) -> Lamports {
         // extra `lamports_per_tx` for the second signature, paid for by the fee-payer
 
-        Lamports(
-            BaseCommitmentHashComputation::TX_COUNT as u64 * self.hash_tx_compensation().0
-                + self.lamports_per_tx.0,
-        )
+        Lamports(checked_sum(
+            checked_product(
+                BaseCommitmentHashComputation::TX_COUNT as u64,
+                self.hash_tx_compensation().0,
+            ),
+            self.lamports_per_tx.0,
+        ))
     }
 
     pub fn commitment_hash_computation_fee(&self, min_batching_rate: u32) -> Lamports {
         let tx_count_total = commitment_hash_computation_instructions(min_batching_rate).len();
         let commitments_per_batch = commitments_per_batch(min_batching_rate);
         Lamports(div_ceiling_u64(
-            tx_count_total as u64 * self.hash_tx_compensation().0,
+            checked_product(tx_count_total as u64, self.hash_tx_compensation().0),
             commitments_per_batch as u64,
         ))
     }
@@ -138,11 +156,12 @@ impl ProgramFee {
         &self,
         input_preparation_tx_count: usize,
     ) -> Lamports {
-        let amount = (input_preparation_tx_count + u64_as_usize_safe(self.proof_base_tx_count))
-            as u64
-            * self.lamports_per_tx.0
-            + self.warden_proof_reward.0;
-        Lamports(amount)
+        let tx_count =
+            (input_preparation_tx_count + u64_as_usize_safe(self.proof_base_tx_count)) as u64;
+        Lamports(checked_sum(
+            checked_product(tx_count, self.lamports_per_tx.0),
+            self.warden_proof_reward.0,
+        ))
     }
 
     pub fn proof_verification_fee(
-- 
2.43.0


From 87ffd50d2fa4a0d77114229936756b847e2f4e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 10/23] fix: div_ceiling does not wrap for large dividends

---
 elusiv/src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/bytes.rs b/elusiv/src/bytes.rs
index b922c8e..15f6392 100644
--- a/elusiv/src/bytes.rs
+++ b/elusiv/src/bytes.rs
@@ -12,7 +12,7 @@ macro_rules! div_ceiling {
             if divisor == 0 {
                 panic!()
             }
-            (divident + divisor - 1) / divisor
+            divident / divisor + (divident % divisor != 0) as $ty
         }
     };
 }
-- 
2.43.0


From 282b15d7f0f427bf09d4aef371d00a28927584e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 11/23] fix: Solana-Pay spends of one transaction do not share
 a single payment

---
 elusiv/src/processor/proof.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 4eb01cb..42598a7 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -741,6 +741,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
+                enforce_single_transfer_instruction(&instructions_sysvar)?;
                 enforce_instruction(
                     &instructions_sysvar,
                     instructions_sysvar.find_instruction_count()? - 1,
@@ -978,6 +979,7 @@ pub fn finalize_verification_transfer_token<'a>(
 
                 // Last instruction: `original_fee_payer_account` transfers `amount` to `recipient` (token)
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
+                enforce_single_transfer_instruction(&instructions_sysvar)?;
                 enforce_instruction(
                     &instructions_sysvar,
                     instructions_sysvar.find_instruction_count()? - 1,
@@ -1323,6 +1325,36 @@ fn enforce_finalize_send_instructions_inner<I: InstructionsSysvar>(
     Ok(())
 }
 
+fn is_transfer_instruction(instruction: &Instruction) -> bool {
+    instruction.program_id == crate::id()
+        && matches!(
+            instruction.data.first(),
+            Some(&ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX)
+                | Some(&ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_TOKEN_INDEX)
+        )
+}
+
+/// Enforces that no other transfer of the current transaction can rely on the same last (Solana-Pay) instruction
+fn enforce_single_transfer_instruction<I: InstructionsSysvar>(
+    instruction_sysvar: &I,
+) -> ProgramResult {
+    // The current instruction needs to be part of the transaction itself (no CPI)
+    let current_index = instruction_sysvar.current_index()? as usize;
+    guard!(
+        is_transfer_instruction(&instruction_sysvar.instruction_at_index(current_index)?),
+        ElusivError::InvalidOtherInstruction
+    );
+
+    for index in current_index + 1..instruction_sysvar.find_instruction_count()? {
+        guard!(
+            !is_transfer_instruction(&instruction_sysvar.instruction_at_index(index)?),
+            ElusivError::InvalidOtherInstruction
+        );
+    }
+
+    Ok(())
+}
+
 fn enforce_instruction<I: InstructionsSysvar>(
     instruction_sysvar: &I,
     index: usize,
-- 
2.43.0


From 5638a0a82264e3fadc8728d9ac168435f6dac86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 12/23] fix: apply the last two line evaluations also when the
 prepared inputs are the point at infinity

---
 elusiv/src/proof/verifier.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/elusiv/src/proof/verifier.rs b/elusiv/src/proof/verifier.rs
index 172ba97..5c29d35 100644
--- a/elusiv/src/proof/verifier.rs
+++ b/elusiv/src/proof/verifier.rs
@@ -600,10 +600,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
             partial v = mul_by_characteristics(storage, alt_b.get()) {
                 _ = alt_b.set(G2Affine::new(v.x, v.y.neg(), v.infinity));
@@ -613,10 +611,8 @@ elusiv_computations!(
             partial v = addition_step(storage, r, alt_b.get()) { c0=v.0; c1=v.1; c2=v.2; };
 
             partial v = combined_ell(storage, vkey, a, prepared_inputs, c, &c0, &c1, &c2, *j, f) {
-                if (!(prepared_inputs.is_zero())) {
-                    f = v;
-                    _ = j.add_assign(1);
-                }
+                f = v;
+                _ = j.add_assign(1);
             };
         }
         {   /// 500
-- 
2.43.0


From dc4b63a385cd66f06e8d55ac87a8afee2f2ba26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 13/23] fix: close the replaced verifying key account directly,
 the program owns it

---
 elusiv/src/processor/vkey.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/elusiv/src/processor/vkey.rs b/elusiv/src/processor/vkey.rs
index f73c754..6b9b212 100644
--- a/elusiv/src/processor/vkey.rs
+++ b/elusiv/src/processor/vkey.rs
@@ -4,9 +4,7 @@ use crate::{
 };
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_types::{BorshSerDeSized, ChildAccountConfig, ElusivOption, ParentAccount};
-use elusiv_utils::{
-    guard, open_pda_account_with_offset, pda_account, transfer_with_system_program,
-};
+use elusiv_utils::{close_account, guard, open_pda_account_with_offset, pda_account};
 use solana_program::{
     account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
     pubkey::Pubkey,
@@ -106,7 +104,7 @@ pub fn update_vkey_version<'a>(
     signer: &AccountInfo<'a>,
     vkey_account: &mut VKeyAccount,
     old_vkey_binary_data_account: &AccountInfo<'a>,
-    system_program: &AccountInfo<'a>,
+    _system_program: &AccountInfo<'a>,
 
     _vkey_id: u32,
 ) -> ProgramResult {
@@ -124,12 +122,7 @@ pub fn update_vkey_version<'a>(
             ElusivError::InvalidAccount
         );
 
-        transfer_with_system_program(
-            old_vkey_binary_data_account,
-            signer,
-            system_program,
-            old_vkey_binary_data_account.lamports(),
-        )?;
+        close_account(signer, old_vkey_binary_data_account)?;
     }
 
     // Swap child accounts
-- 
2.43.0


From 6c236cc56590f57b24cf8f2033db2d5437edfee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 14/23] fix: reset all pointers of a map when its account is
 bound

---
 elusiv/src/map.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 256e5b3..0d4283b 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -429,8 +429,14 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
 
     pub fn reset(&mut self) {
         self.len.set(0);
+        self.min_ptr.set(ElusivMapPtr(0));
         self.max_ptr.set(ElusivMapPtr(0));
 
+        // The mid-ptrs are only ever adjusted relative to their previous value
+        for i in 0..MID_PTR_COUNT {
+            self.mid_ptr.set(i, ElusivMapPtr(0));
+        }
+
         // The first ptr points to itself
         self.next.set(0, &ElusivMapPtr(0));
         self.prev.set(0, &ElusivMapPtr(0));
-- 
2.43.0


From 6046a1ad869a6e4bb42409444211f9f76012e755 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 15/23] fix: complete the quote at the applicant's own place of
 the network

---
 elusiv-warden-network/src/network.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index c95075c..e867ebb 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -162,10 +162,9 @@ impl<'a> ApaWardenNetworkAccount<'a> {
         );
 
         let member_index = (0..self.get_members_count() as usize)
-            .map(|i| self.get_members(i))
-            .find(|member| member == &warden_id)
+            .find(|&i| self.get_members(i) == warden_id)
             .ok_or(ElusivWardenNetworkError::WardenRegistrationError)?;
-        self.set_quote_ends(member_index as usize, &Some(quote_end).into());
+        self.set_quote_ends(member_index, &Some(quote_end).into());
 
         Ok(())
     }
-- 
2.43.0


From 77cf2d8e745e00c8e16775d30009074287156b95 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 16/23] fix: count the tracked activity of wardens, on its day
 and in its category

---
 .../src/processor/basic_warden.rs             | 19 ++++++++++++++++++-
 elusiv-warden-network/src/warden.rs           | 16 +++++++++++-----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 442a714..c9662a6 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -268,9 +268,16 @@ pub fn open_basic_warden_stats_account<'b>(
 
 const ELUSIV_PROGRAM_ID: Pubkey = crate::macros::program_id!(elusiv);
 
+#[derive(Clone, Copy)]
+pub enum TrackableActivity {
+    Store,
+    Send,
+}
+
 pub struct TrackableElusivInstruction {
     pub instruction_id: u8,
     pub warden_index: u8,
+    pub activity: TrackableActivity,
 }
 
 pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
@@ -278,16 +285,19 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     TrackableElusivInstruction {
         instruction_id: 2,
         warden_index: 0,
+        activity: TrackableActivity::Store,
     },
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
         warden_index: 1,
+        activity: TrackableActivity::Send,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
         warden_index: 3,
+        activity: TrackableActivity::Send,
     },
 ];
 
@@ -353,7 +363,14 @@ fn track_basic_warden_stats_inner(
             ProgramError::IncorrectProgramId
         );
 
-        stats_account.set_store(stats_account.get_store().inc(day)?);
+        match ix.activity {
+            TrackableActivity::Store => {
+                stats_account.set_store(stats_account.get_store().inc(day)?);
+            }
+            TrackableActivity::Send => {
+                stats_account.set_send(stats_account.get_send().inc(day)?);
+            }
+        }
     } else {
         return Err(ElusivWardenNetworkError::StatsError.into());
     }
diff --git a/elusiv-warden-network/src/warden.rs b/elusiv-warden-network/src/warden.rs
index e0ed547..03ae7c2 100644
--- a/elusiv-warden-network/src/warden.rs
+++ b/elusiv-warden-network/src/warden.rs
@@ -197,14 +197,20 @@ pub struct WardenStatistics {
 }
 
 impl WardenStatistics {
-    pub fn inc(&self, day: u32) -> Result<&Self, ProgramError> {
-        guard!(day < 366, ElusivWardenNetworkError::StatsError);
-
-        self.total
+    /// Counts one activity on the `day` of the year (with the first day being `1`)
+    pub fn inc(&mut self, day: u32) -> Result<&Self, ProgramError> {
+        guard!(
+            (1..=self.activity.len() as u32).contains(&day),
+            ElusivWardenNetworkError::StatsError
+        );
+        let day_index = day as usize - 1;
+
+        self.total = self
+            .total
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-        self.activity[day as usize]
+        self.activity[day_index] = self.activity[day_index]
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-- 
2.43.0


From b523c6db5935a5f862466bb67af5e8394ee8d361 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 17/23] fix: track the warden that finalizes a transfer, not
 its recipient

---
 elusiv-warden-network/src/processor/basic_warden.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index c9662a6..09857de 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -290,13 +290,13 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
-        warden_index: 1,
+        warden_index: 0,
         activity: TrackableActivity::Send,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
-        warden_index: 3,
+        warden_index: 0,
         activity: TrackableActivity::Send,
     },
 ];
-- 
2.43.0


From 494305d4d731765408fadb34d6321628e7c78332 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 18/23] fix: no abort of infallible tracking behind a short
 instruction

---
 elusiv-warden-network/src/processor/basic_warden.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 09857de..1fee33f 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -349,13 +349,20 @@ fn track_basic_warden_stats_inner(
         instructions_account,
     )?;
 
-    let ix_byte = previous_ix.data[0];
+    let ix_byte = *previous_ix
+        .data
+        .first()
+        .ok_or(ElusivWardenNetworkError::StatsError)?;
     if let Some(ix) = TRACKABLE_ELUSIV_INSTRUCTIONS
         .iter()
         .find(|i| i.instruction_id == ix_byte)
     {
+        let tracked_account = previous_ix
+            .accounts
+            .get(ix.warden_index as usize)
+            .ok_or(ElusivWardenNetworkError::StatsError)?;
         guard!(
-            previous_ix.accounts[ix.warden_index as usize].pubkey == *warden.key,
+            tracked_account.pubkey == *warden.key,
             ElusivWardenNetworkError::StatsError
         );
         guard!(
-- 
2.43.0


From 011d495efac7ec4a4d1d969915b6644547a9b677 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 19/23] fix: store the attested metadata of a warden

---
 elusiv-warden-network/src/processor/basic_warden.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 1fee33f..3f30d6c 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -234,6 +234,7 @@ pub fn attest_basic_warden_metadata(
     warden.config.uses_proxy = uses_proxy;
     warden.config.region = region;
     warden.is_metadata_valid = Some(!warden_supplied_invalid_data).into();
+    warden_account.set_warden(&warden);
 
     basic_network_account.update_region(warden_id, member_index as usize, &region)?;
 
-- 
2.43.0


From 10db027437845bf9d652b68eaeed0d0148259cce Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 20/23] fix: attest only places of the network that have a
 member

---
 elusiv-warden-network/src/network.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index e867ebb..fc59697 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -79,6 +79,10 @@ impl<'a> BasicWardenNetworkAccount<'a> {
         member_index: usize,
         region: &WardenRegion,
     ) -> ProgramResult {
+        guard!(
+            member_index < self.get_members_count() as usize,
+            ElusivWardenNetworkError::InvalidInstructionData
+        );
         guard!(
             self.get_members(member_index) == warden_id,
             ElusivWardenNetworkError::InvalidInstructionData
-- 
2.43.0


From 42cfe5b9c35a457c91872bc00e7668456da59e09 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 21/23] fix: wardens cannot register themselves as metadata
 attesters

---
 elusiv-warden-network/src/processor/basic_warden.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 3f30d6c..47c5b29 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -31,6 +31,12 @@ pub fn register_basic_warden<'a, 'b>(
 ) -> ProgramResult {
     guard!(config.key == *warden.key, ProgramError::InvalidArgument);
 
+    // Attesters are appointed by the `METADATA_ATTESTER_AUTHORITY` only
+    guard!(
+        !config.warden_features.attestation,
+        ProgramError::InvalidArgument
+    );
+
     basic_network_account.try_add_member(
         warden_id,
         &config.basic_warden_features,
-- 
2.43.0


From a0184b8c46630e7c72fa62de61775919fda2edbb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 22/23] fix: a freezing authority needs a token it has
 authority over

---
 elusiv-warden-network/src/processor/apa.rs | 40 ++++++++++++----------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/elusiv-warden-network/src/processor/apa.rs b/elusiv-warden-network/src/processor/apa.rs
index ebcb17b..236bf6d 100644
--- a/elusiv-warden-network/src/processor/apa.rs
+++ b/elusiv-warden-network/src/processor/apa.rs
@@ -34,32 +34,34 @@ pub fn propose_apa_proposal<'b>(
     proposal.timestamp = current_timestamp()?;
     proposal.proponent = *proponent.key;
 
-    if let Some(token_id) = proposal.token_constraint.option() {
+    let token_constraint = proposal.token_constraint.option();
+    if let Some(token_id) = token_constraint {
         guard!(
             token_id as usize <= SPL_TOKEN_COUNT,
             ElusivWardenNetworkError::ProposalError
         );
+    }
 
-        match proposal.proponent_role {
-            ApaProponentRole::Default => {}
-            ApaProponentRole::TokenFreezingAuthority => {
-                guard!(
-                    *token_mint.key == elusiv_token(token_id)?.mint,
-                    ElusivWardenNetworkError::ProposalError
-                );
-                guard!(token_id > 0, ElusivWardenNetworkError::ProposalError);
+    match proposal.proponent_role {
+        ApaProponentRole::Default => {}
+        ApaProponentRole::TokenFreezingAuthority => {
+            let token_id = token_constraint.ok_or(ElusivWardenNetworkError::ProposalError)?;
+            guard!(
+                *token_mint.key == elusiv_token(token_id)?.mint,
+                ElusivWardenNetworkError::ProposalError
+            );
+            guard!(token_id > 0, ElusivWardenNetworkError::ProposalError);
 
-                let data = &token_mint.data.borrow()[..];
-                let token_account = spl_token::state::Mint::unpack(data)?;
-                match token_account.freeze_authority {
-                    COption::Some(freeze_authority) => {
-                        guard!(
-                            freeze_authority == *proponent.key,
-                            ElusivWardenNetworkError::ProposalError
-                        );
-                    }
-                    COption::None => return Err(ElusivWardenNetworkError::ProposalError.into()),
+            let data = &token_mint.data.borrow()[..];
+            let token_account = spl_token::state::Mint::unpack(data)?;
+            match token_account.freeze_authority {
+                COption::Some(freeze_authority) => {
+                    guard!(
+                        freeze_authority == *proponent.key,
+                        ElusivWardenNetworkError::ProposalError
+                    );
                 }
+                COption::None => return Err(ElusivWardenNetworkError::ProposalError.into()),
             }
         }
     }
-- 
2.43.0


From 3f7c4aa562b9d2174b744f67f708704c4b84e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 23/23] fix: record the key of a registered operator

---
 elusiv-warden-network/src/processor/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/operator.rs b/elusiv-warden-network/src/processor/operator.rs
index d0e4e3e..ba07ede 100644
--- a/elusiv-warden-network/src/processor/operator.rs
+++ b/elusiv-warden-network/src/processor/operator.rs
@@ -29,6 +29,7 @@ pub fn register_warden_operator<'b>(
         WardenOperatorAccount,
         operator_account.get_safe()?
     );
+    operator_account.set_key(operator.key);
     operator_account.set_ident(&ident);
     operator_account.set_url(&url);
     operator_account.set_jurisdiction(&jurisdiction.into());
-- 
2.43.0

