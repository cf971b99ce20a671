From ba8741c9ec36b4632ccdb8254ce85f6c5108473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 01/60] fix: reject SLIP-32 keys whose private key prefix is
 not zero

from_slip32 only had a debug_assert for the 0x00 byte that precedes the
private key, so a malformed string panicked in debug builds and was
accepted as a key in release builds.
---
 crypto/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 9ee256b..10fd879 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -193,7 +193,11 @@ impl ExtendedSK {
         cursor.read_exact(chain_code.as_mut())?;
 
         let secret_prefix = cursor.read_u8()?;
-        debug_assert!(secret_prefix == 0);
+        if secret_prefix != 0 {
+            return Err(KeyError::Deserialization(format!(
+                "invalid private key prefix, expected: 0, got: {secret_prefix}",
+            )));
+        }
 
         let mut secret = Protected::new(vec![0; 32]);
         cursor.read_exact(secret.as_mut())?;
-- 
2.43.0


From b6cdc765a89e55941e2f9dd17acf64877cfcd48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 02/60] fix: export SLIP-32 keys with paths deeper than 47
 levels

The buffer size was computed in u8, so 4 * depth + 66 overflowed although
depths of up to 255 are allowed.
---
 crypto/src/key.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 10fd879..f6392d9 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -217,12 +217,12 @@ impl ExtendedSK {
             KeyError::Serialization(format!("path depth '{depth}' is greater than 255"))
         })?;
 
-        let capacity = 1     // 1 byte for depth
-            + 4 * depth      // 4 * depth bytes for path
-            + 32             // 32 bytes for chain code
-            + 33             // 33 bytes for 0x00 || private key
+        let capacity = 1                // 1 byte for depth
+            + 4 * usize::from(depth)    // 4 * depth bytes for path
+            + 32                        // 32 bytes for chain code
+            + 33                        // 33 bytes for 0x00 || private key
             ;
-        let mut bytes = Protected::new(vec![0; usize::from(capacity)]);
+        let mut bytes = Protected::new(vec![0; capacity]);
         let mut slice = bytes.as_mut();
 
         slice.write_all(&[depth])?;
-- 
2.43.0


From 7c10c2e847cf0fb511e86d24c9dd0682a95627f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 03/60] fix: serialize ProtectedString as a string

It was serialized as bytes but deserialized as a string, so it could not be
read back from self-describing formats such as JSON.
---
 protected/src/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protected/src/serde.rs b/protected/src/serde.rs
index 358b7ef..84c4b3b 100644
--- a/protected/src/serde.rs
+++ b/protected/src/serde.rs
@@ -34,6 +34,6 @@ impl Serialize for ProtectedString {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(self.as_ref())
+        serializer.serialize_str(self.as_ref())
     }
 }
-- 
2.43.0


From b0f9155e6916df5d15fa160acb7d924cda3405d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 04/60] fix: do not leave a copy of the secret key in the heap
 in ExtendedSK::concat

---
 crypto/src/key.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index f6392d9..e9d0f19 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -241,7 +241,10 @@ impl ExtendedSK {
 
     /// Get the secret and chain code concatenated
     pub fn concat(&self) -> Protected {
-        let mut bytes = Vec::from(&self.secret_key[..]);
+        // Reserve the final size upfront: growing the vector would leave a copy of the secret key
+        // behind in the old allocation
+        let mut bytes = Vec::with_capacity(self.secret_key[..].len() + self.chain_code.len());
+        bytes.extend_from_slice(&self.secret_key[..]);
         bytes.extend_from_slice(&self.chain_code);
 
         Protected::from(bytes)
-- 
2.43.0


From 9d778daa4141734924161af65ad71277ec87945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 05/60] fix: keep TotalReputationSet consistent when
 penalize_many fails or repeats an identity

The identity cache was decremented while the amounts were still being
calculated: an error left the cache and the packet queue out of sync, and so
did penalizing the same identity twice in one call. Later operations then
panicked or returned wrong totals.
---
 reputation/src/trs.rs | 61 +++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/reputation/src/trs.rs b/reputation/src/trs.rs
index 81ec8d5..fa096ac 100644
--- a/reputation/src/trs.rs
+++ b/reputation/src/trs.rs
@@ -205,35 +205,40 @@ where
         K: 'a,
     {
         let mut total_subtracted = V::default();
-        let mut to_subtract = ids_fs
-            .into_iter()
-            .filter_map(|(id, mut next_v)| {
-                let mut old_v = self.get(id);
-                // next_v returns the new value of v
-                let new_v = next_v(self.get(id));
-                match new_v.cmp(&old_v) {
-                    Ordering::Greater => {
-                        // Overflow: return error
-                        Some(Err(RepError {
-                            old_rep: old_v,
-                            new_rep: new_v,
-                        }))
-                    }
-                    Ordering::Equal => {
-                        // When there is no reputation to subtract, we can skip this identity
-                        None
-                    }
-                    Ordering::Less => {
-                        old_v -= new_v;
-                        let ts = old_v;
-                        total_subtracted += ts.clone();
-                        // Update cache. Cannot fail because we just checked for overflow
-                        decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
-                        Some(Ok((id.clone(), ts)))
-                    }
+        let mut to_subtract: HashMap<K, V, S> = HashMap::default();
+        // First pass: only calculate the amounts, so that nothing has changed if there is an error
+        for (id, mut next_v) in ids_fs {
+            let mut old_v = self.get(id);
+            if let Some(ts) = to_subtract.get(id) {
+                // This identity has already been penalized in this call
+                old_v -= ts.clone();
+            }
+            // next_v returns the new value of v
+            let new_v = next_v(old_v.clone());
+            match new_v.cmp(&old_v) {
+                Ordering::Greater => {
+                    // Overflow: return error
+                    return Err(RepError {
+                        old_rep: old_v,
+                        new_rep: new_v,
+                    });
                 }
-            })
-            .collect::<Result<HashMap<K, V, S>, _>>()?;
+                Ordering::Equal => {
+                    // When there is no reputation to subtract, we can skip this identity
+                }
+                Ordering::Less => {
+                    old_v -= new_v;
+                    let ts = old_v;
+                    total_subtracted += ts.clone();
+                    increment_cache(&mut to_subtract, id.clone(), ts);
+                }
+            }
+        }
+
+        for (id, ts) in &to_subtract {
+            // Update cache. Cannot fail because we just checked for overflow
+            decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
+        }
 
         // Iterate back to front
         for (_, rep_diff) in self.queue.iter_mut().rev() {
-- 
2.43.0


From 4b2a32b977887f8ba80945ef526f071bad1d19a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 06/60] fix: report malformed legacy messages as errors instead
 of panicking

---
 data_structures/src/proto/versioning.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/proto/versioning.rs b/data_structures/src/proto/versioning.rs
index 62c9462..c7a538b 100644
--- a/data_structures/src/proto/versioning.rs
+++ b/data_structures/src/proto/versioning.rs
@@ -307,7 +307,7 @@ pub trait Versioned: ProtobufConvert {
             let mut legacy = Self::LegacyType::new();
             legacy.merge_from_bytes(bytes)?;
 
-            Ok(Self::from(legacy))
+            Self::from_versioned_pb(legacy)
         }
     }
 }
@@ -392,6 +392,11 @@ impl Versioned for Message {
 
         Ok(versioned)
     }
+
+    /// The legacy form may come straight from the network, so it may not be a valid message.
+    fn from_versioned_pb(legacy: Self::LegacyType) -> Result<Self, Error> {
+        Message::from_pb(legacy.into())
+    }
 }
 
 impl Versioned for crate::transaction::Transaction {
-- 
2.43.0


From da50a1d0e0f4906b09ca2115c5962cbb8f04e628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 07/60] fix: report an empty recoverable signature as an error
 instead of panicking

---
 data_structures/src/chain/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 883f4a6..9c5b126 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -1817,9 +1817,15 @@ impl KeyedSignature {
         compact: &[u8],
         message: &[u8],
     ) -> Result<Self, Secp256k1ConversionError> {
-        let recid = RecoveryId::from_i32(i32::from(compact[0]))
+        let (recid, signature) =
+            compact
+                .split_first()
+                .ok_or(Secp256k1ConversionError::Secp256k1 {
+                    inner: secp256k1::Error::InvalidSignature,
+                })?;
+        let recid = RecoveryId::from_i32(i32::from(*recid))
             .map_err(|e| Secp256k1ConversionError::Secp256k1 { inner: e })?;
-        let recoverable = RecoverableSignature::from_compact(&compact[1..], recid)
+        let recoverable = RecoverableSignature::from_compact(signature, recid)
             .map_err(|e| Secp256k1ConversionError::Secp256k1 { inner: e })?;
 
         Self::from_recoverable(&recoverable, message)
-- 
2.43.0


From 9a0f7fcbb51a1c0c9f3eae3c13cb66d55e54f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 08/60] fix: compare the epochs and nonces of two stake entries
 with each other

---
 data_structures/src/staking/helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/helpers.rs b/data_structures/src/staking/helpers.rs
index 673290a..9b662e7 100644
--- a/data_structures/src/staking/helpers.rs
+++ b/data_structures/src/staking/helpers.rs
@@ -164,8 +164,8 @@ where
         let other_stake = other.value.read().unwrap();
 
         self_stake.coins.eq(&other_stake.coins)
-            && other_stake.epochs.eq(&other_stake.epochs)
-            && other_stake.nonce.eq(&other_stake.nonce)
+            && self_stake.epochs.eq(&other_stake.epochs)
+            && self_stake.nonce.eq(&other_stake.nonce)
     }
 }
 
-- 
2.43.0


From 66e2209f475a7228c2526e90765615a7dfb90bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 09/60] fix: check the reward to collateral ratio of the data
 request entering the pool

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 9c5b126..6a462ca 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3374,8 +3374,8 @@ impl TransactionsPool {
             }
             Transaction::DataRequest(dr_tx) => {
                 let dr_tx_reward_collateral_ratio = calculate_reward_collateral_ratio(
-                    self.collateral_minimum,
                     dr_tx.body.dr_output.collateral,
+                    self.collateral_minimum,
                     dr_tx.body.dr_output.witness_reward,
                 );
                 if dr_tx_reward_collateral_ratio > self.required_reward_collateral_ratio {
-- 
2.43.0


From 19bee495cdd48487126ff45b233c0a4e743af4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 10/60] fix: keep the pool's weight in step when clearing stake
 and unstake transactions

---
 data_structures/src/chain/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 6a462ca..95b12cd 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -2731,14 +2731,17 @@ impl TransactionsPool {
 
     /// Clear stake transactions in TransactionsPool
     pub fn clear_stake_transactions(&mut self) {
-        self.st_transactions.clear();
-        self.sorted_st_index.clear();
+        let hashes: Vec<Hash> = self.st_transactions.keys().copied().collect();
+        for hash in hashes {
+            self.st_remove_inner(&hash, false);
+        }
     }
 
     /// Clear unstake transactions in TransactionsPool
     pub fn clear_unstake_transactions(&mut self) {
         self.ut_transactions.clear();
         self.sorted_ut_index.clear();
+        self.total_ut_weight = 0;
     }
 
     /// Returns `Ok(true)` if the pool already contains this transaction.
-- 
2.43.0


From c30cce264a1d4dbdc251653a981cc9d6aa108729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 11/60] fix: evict stake transactions when the pool exceeds its
 weight limit

---
 data_structures/src/chain/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 95b12cd..40a4a85 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3303,7 +3303,17 @@ impl TransactionsPool {
             #[allow(clippy::cast_precision_loss)]
             let more_vtts_than_drs =
                 self.total_vt_weight as f64 >= self.total_dr_weight as f64 * self.vt_to_dr_factor;
-            if more_vtts_than_drs {
+            if self.vt_transactions.is_empty() && self.dr_transactions.is_empty() {
+                // The limit can also be exceeded by stake transactions alone: remove the one with
+                // the lowest fee/weight
+                let Some((_fee_weight, tx_hash)) = self.sorted_st_index.first().copied() else {
+                    break;
+                };
+                let tx = self.st_remove_inner(&tx_hash, false).unwrap();
+                removed_transactions.push(Transaction::Stake(tx));
+            } else if self.dr_transactions.is_empty()
+                || (more_vtts_than_drs && !self.vt_transactions.is_empty())
+            {
                 // Remove the value transfer transaction with the lowest fee/weight
                 let tx_hash = self
                     .sorted_vt_index
-- 
2.43.0


From 0b7a074a821100898fe5966a04dac9fd0ee920bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 12/60] fix: keep the data request when a tally does not belong
 to its current stage

---
 data_structures/src/data_request.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/data_structures/src/data_request.rs b/data_structures/src/data_request.rs
index f2cf5bb..3d00e4f 100644
--- a/data_structures/src/data_request.rs
+++ b/data_structures/src/data_request.rs
@@ -248,6 +248,13 @@ impl DataRequestPool {
     ) -> Result<DataRequestInfo, anyhow::Error> {
         let dr_pointer = tally_tx.dr_pointer;
 
+        // A tally that does not belong to the current stage of the data request must not remove it
+        if let Some(dr_state) = data_request_pool.get(&dr_pointer)
+            && dr_state.stage != DataRequestStage::TALLY
+        {
+            return Err(DataRequestError::NotTallyStage.into());
+        }
+
         let dr_state: Result<DataRequestState, anyhow::Error> =
             data_request_pool.remove(&dr_pointer).ok_or_else(|| {
                 DataRequestError::AddTallyFail {
-- 
2.43.0


From 0c5274d0abcf96a6c6cdbf6e8af59df02ae8b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 13/60] fix: leave no empty entry behind when adding a new
 stake fails

---
 data_structures/src/staking/stakes.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index cf7a301..15b06dc 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -249,10 +249,18 @@ where
         };
 
         // Actually increase the number of coins
-        stake
+        let result = stake
             .value
             .write()?
-            .add_stake(coins, epoch, nonce_policy, minimum_stakeable)?;
+            .add_stake(coins, epoch, nonce_policy, minimum_stakeable);
+        if let Err(error) = result {
+            // Do not leave behind an empty entry if the operation failed
+            if !stake_found {
+                self.by_key.remove(&key);
+            }
+
+            return Err(error);
+        }
 
         // Update all indexes if needed (only when the stake entry didn't exist before)
         if !stake_found {
-- 
2.43.0


From 4e36a050c834b36a6af2310cc21293b88fbcd5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 14/60] fix: remove the right entry from the indexes when a
 stake goes to zero

---
 data_structures/src/staking/stakes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index 15b06dc..2b8a633 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -417,7 +417,7 @@ where
                     stakes.remove(
                         stakes
                             .iter()
-                            .position(|stake| stake.read_value().coins == 0.into())
+                            .position(|stake| stake.read_key() == key)
                             .unwrap(),
                     );
                     if stakes.is_empty() {
@@ -428,7 +428,7 @@ where
                     stakes.remove(
                         stakes
                             .iter()
-                            .position(|stake| stake.read_value().coins == 0.into())
+                            .position(|stake| stake.read_key() == key)
                             .unwrap(),
                     );
                     if stakes.is_empty() {
-- 
2.43.0


From 346739b1b26a84e77671a20dc403b3e0fa95d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 15/60] fix: refuse to remove more stake than there is

---
 data_structures/src/staking/stake.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/data_structures/src/staking/stake.rs b/data_structures/src/staking/stake.rs
index ab5b96a..0daa079 100644
--- a/data_structures/src/staking/stake.rs
+++ b/data_structures/src/staking/stake.rs
@@ -155,6 +155,14 @@ where
         nonce_policy: NoncePolicy<Epoch>,
         minimum_stakeable: Coins,
     ) -> StakesResult<Coins, Address, Coins, Epoch> {
+        // There is no way to remove more coins than those that are staked
+        if coins > self.coins {
+            Err(StakesError::AmountIsBelowMinimum {
+                amount: Coins::zero(),
+                minimum: minimum_stakeable,
+            })?;
+        }
+
         let coins_after = self.coins.sub(coins);
 
         if coins_after > Coins::zero() && coins_after < minimum_stakeable {
-- 
2.43.0


From 7417ed154cdea7008ddd58167fd9d0756c0195c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 16/60] fix: do not divide by zero when a stake entry holds
 less than one unit

---
 data_structures/src/staking/stake.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/data_structures/src/staking/stake.rs b/data_structures/src/staking/stake.rs
index 0daa079..181e41f 100644
--- a/data_structures/src/staking/stake.rs
+++ b/data_structures/src/staking/stake.rs
@@ -110,11 +110,16 @@ where
             let product_before = coins_before.lose_precision(UNIT) * epoch_before;
             let product_added = coins.lose_precision(UNIT) * epoch;
 
+            // Entries that are too small to have any weight just take the epoch of the addition
+            let weight = u64::from(coins_after.lose_precision(UNIT));
+            if weight == 0 {
+                self.epochs.update(capability, epoch);
+                continue;
+            }
+
             #[allow(clippy::cast_possible_truncation)]
-            let epoch_after = Epoch::from(
-                (u64::from(product_before + product_added)
-                    / u64::from(coins_after.lose_precision(UNIT))) as u32,
-            );
+            let epoch_after =
+                Epoch::from((u64::from(product_before + product_added) / weight) as u32);
             self.epochs.update(capability, epoch_after);
         }
 
-- 
2.43.0


From 76336f56978a9170a0d83721cba5d8a4e6598464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 17/60] fix: do not panic when an identity signs the same
 superblock vote twice and then another one

---
 data_structures/src/superblock.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 59cb0bf..827eaed 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{HashMap, HashSet, hash_map::Entry},
     convert::{TryFrom, TryInto},
 };
 
@@ -168,12 +168,9 @@ impl SuperBlockVotesMempool {
 
     fn insert_vote(&mut self, sbv: SuperBlockVote) {
         let pkh = sbv.secp256k1_signature.public_key.pkh();
-        if self
-            .votes_of_each_identity
-            .insert(pkh, sbv.clone())
-            .is_none()
-        {
-            // Only insert votes from a PublicKeyHash the first time
+        // Only insert votes from a PublicKeyHash the first time
+        if let Entry::Vacant(entry) = self.votes_of_each_identity.entry(pkh) {
+            entry.insert(sbv.clone());
             self.votes_on_each_superblock
                 .entry(sbv.superblock_hash)
                 .or_default()
-- 
2.43.0


From 82d0e354705aa21e7f56f35e8a208bb105bdcecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 18/60] fix: reject stake and unstake transactions whose
 amounts overflow

---
 validations/src/validations.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index d52a01a..2b526cc 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -116,16 +116,21 @@ pub fn st_transaction_fee(
     epoch_constants: EpochConstants,
 ) -> Result<u64, anyhow::Error> {
     let in_value = transaction_inputs_sum(&st_tx.body.inputs, utxo_diff, epoch, epoch_constants)?;
-    let out_value = st_tx.body.output.value;
     let change_value = match &st_tx.body.change {
         Some(change) => change.value,
         None => 0,
     };
+    let out_value = st_tx
+        .body
+        .output
+        .value
+        .checked_add(change_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
-    if out_value + change_value > in_value {
+    if out_value > in_value {
         Err(TransactionError::NegativeFee.into())
     } else {
-        Ok(in_value - out_value - change_value)
+        Ok(in_value - out_value)
     }
 }
 
@@ -138,10 +143,14 @@ pub fn ut_transaction_fee(
     ut_tx: &UnstakeTransaction,
     staked_amount: u64,
 ) -> Result<u64, anyhow::Error> {
-    let out_value = ut_tx.body.value();
     let fee_value = ut_tx.body.fee;
+    let out_value = ut_tx
+        .body
+        .value()
+        .checked_add(fee_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
-    if out_value + fee_value > staked_amount {
+    if out_value > staked_amount {
         Err(TransactionError::NegativeFee.into())
     } else {
         Ok(fee_value)
@@ -1413,10 +1422,11 @@ pub fn validate_stake_transaction<'a>(
                 .map(|stake| stake.value.coins)
                 .unwrap()
                 .into();
-            if staked_amount + st_tx.body.output.value > max_stake_nanowits {
+            let total_stake = staked_amount.saturating_add(st_tx.body.output.value);
+            if total_stake > max_stake_nanowits {
                 Err(TransactionError::StakeAboveMaximum {
                     max_stake: max_stake_nanowits,
-                    stake: staked_amount + st_tx.body.output.value,
+                    stake: total_stake,
                 })?;
             }
         }
@@ -1472,7 +1482,11 @@ pub fn validate_unstake_transaction<'a>(
     }
 
     // Check if is unstaking more than the total stake
-    let mut amount_to_unstake = ut_tx.body.value() + ut_tx.body.fee;
+    let mut amount_to_unstake = ut_tx
+        .body
+        .value()
+        .checked_add(ut_tx.body.fee)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
     let validator = ut_tx.body.operator;
     let withdrawer = ut_tx.signature.public_key.pkh();
-- 
2.43.0


From c93809b38d707ca2cdfefb14a3701a84ad01075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 19/60] fix: do not panic on superblock votes with a malformed
 key or signature

---
 validations/src/validations.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 2b526cc..22f897d 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2966,17 +2966,9 @@ pub fn verify_signatures(
                 let secp_message = superblock_vote.secp256k1_signature_message();
                 let secp_message_hash = calculate_sha256(&secp_message);
                 verify(
-                    &superblock_vote
-                        .secp256k1_signature
-                        .public_key
-                        .try_into()
-                        .unwrap(),
+                    &superblock_vote.secp256k1_signature.public_key.try_into()?,
                     &secp_message_hash.0,
-                    &superblock_vote
-                        .secp256k1_signature
-                        .signature
-                        .try_into()
-                        .unwrap(),
+                    &superblock_vote.secp256k1_signature.signature.try_into()?,
                 )?;
             }
         }
-- 
2.43.0


From 58b69d5f991bc2a48f5ffcb0044138dc581a90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 20/60] fix: do not panic on genesis transactions with more
 than 255 signatures

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 22f897d..1db4019 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -497,7 +497,7 @@ pub fn validate_genesis_vt_transaction(
     // Genesis VTTs should have 0 signatures
     if !vt_tx.signatures.is_empty() {
         return Err(TransactionError::MismatchingSignaturesNumber {
-            signatures_n: u8::try_from(vt_tx.signatures.len()).unwrap(),
+            signatures_n: u8::try_from(vt_tx.signatures.len()).unwrap_or(u8::MAX),
             inputs_n: 0,
         });
     }
-- 
2.43.0


From c9a996f520540abaf6aecfed6e357d20f6f6c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 21/60] fix: do not underflow the witnessing threshold rank for
 a single witness

---
 validations/src/eligibility/current.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/validations/src/eligibility/current.rs b/validations/src/eligibility/current.rs
index e8a0673..278a3da 100644
--- a/validations/src/eligibility/current.rs
+++ b/validations/src/eligibility/current.rs
@@ -232,7 +232,10 @@ where
         //  "the witnessing power of the block proposer is in the `rf / stakers`th quantile among the witnessing powers
         //  of all the stakers"
         let rf = 2usize.pow(u32::from(round)) * witnesses as usize;
-        let (_, threshold_power) = rank.nth(rf - 2).unwrap_or_default();
+        let (_, threshold_power) = rf
+            .checked_sub(2)
+            .and_then(|position| rank.nth(position))
+            .unwrap_or_default();
         if power <= threshold_power {
             return Ok((
                 IneligibilityReason::InsufficientPower.into(),
-- 
2.43.0


From 4c0783914649dadeeb0e34a3c7bbb5ffd23384fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 22/60] fix: do not let a huge collateral wrap around the stake
 that commits require

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 1db4019..92dcb14 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -193,7 +193,7 @@ pub fn validate_commit_collateral(
             .map(|stake| stake.value.coins)
             .unwrap()
             .into();
-        if validator_balance < min_stake + required_collateral {
+        if validator_balance < min_stake.saturating_add(required_collateral) {
             return Err(TransactionError::CollateralBelowMinimumStake {
                 collateral: required_collateral,
                 validator: commit_pkh,
-- 
2.43.0


From e83501c5954e2030d043d4af45f4c769fcd90db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 23/60] fix: since 2.0, only accept tallies that return the
 change to the data request launcher

---
 validations/src/validations.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 92dcb14..d02bc20 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1333,6 +1333,16 @@ pub fn validate_tally_transaction<'a>(
             .into());
         }
     } else {
+        // Starting from 2.0, tallies do not pay the witnesses: the only output that a tally can have
+        // is the change that is returned to the data request launcher
+        if let Some(output) = ta_tx.outputs.iter().find(|o| o.pkh != dr_state.pkh) {
+            return Err(TransactionError::PublicKeyHashMismatch {
+                expected_pkh: dr_state.pkh,
+                signature_pkh: output.pkh,
+            }
+            .into());
+        }
+
         // Validate that the value returned to the data request launcher is correct
         let expected_tally_value = if honests_count == 0 {
             // If there are no honests because the data request fails, all rewards are returned
-- 
2.43.0


From 5be7cc112137dccbf294f0fd11550078c34d46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 24/60] fix: reject blocks with more than one stake transaction
 on the same validator

---
 validations/src/validations.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index d02bc20..f184e93 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2359,15 +2359,12 @@ pub fn validate_block_transactions(
             .txns
             .stake_txns
             .iter()
-            .map(|stake_tx| &stake_tx.body.output.authorization.public_key)
+            .map(|stake_tx| stake_tx.body.output.key.validator)
             .duplicates()
             .next();
 
         if let Some(duplicate) = duplicate {
-            return Err(BlockError::RepeatedStakeOperator {
-                pkh: duplicate.pkh(),
-            }
-            .into());
+            return Err(BlockError::RepeatedStakeOperator { pkh: duplicate }.into());
         }
 
         let min_stake = consensus_constants_wit2.get_validator_min_stake_nanowits(epoch);
-- 
2.43.0


From 5ebcbb98982f83f260b8c328beef80d4187b1ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 25/60] fix: do not panic if the collateral of a commit was
 created in the same block

---
 validations/src/validations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index f184e93..880eda4 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -265,9 +265,10 @@ pub fn validate_commit_collateral(
         // Outputs to be spent in commitment inputs need to be older than `block_number_limit`.
         // All outputs from the genesis block are fulfill this requirement because
         // `block_number_limit` can't go lower than `0`.
+        // Outputs created by a previous transaction of this same block are not in the UTXO set yet.
         let included_in_block_number = utxo_diff
             .included_in_block_number(input.output_pointer())
-            .unwrap();
+            .unwrap_or(block_number);
         if included_in_block_number > block_number_limit {
             return Err(TransactionError::CollateralNotMature {
                 output: *input.output_pointer(),
-- 
2.43.0


From 880986f5ed193ed2f07e6f9910cd809a3e81adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:05 +0000
Subject: [PATCH 26/60] fix: getting a number from an array or a map with an
 empty list of arguments panicked

---
 rad/src/operators/array.rs | 7 +++++--
 rad/src/operators/map.rs   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index 475d5d5..e1d3e84 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -99,8 +99,11 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonArray, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
-    let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
+    // There may be no arguments at all
+    let (item_args, separators_args) = args.split_at(args.len().min(1));
+    let item = get::<RadonString, _>(input, item_args)?.value();
+    let (thousands_separator, decimal_separator) =
+        string::read_separators_from_args(separators_args);
 
     Ok(RadonString::from(string::replace_separators(
         item,
diff --git a/rad/src/operators/map.rs b/rad/src/operators/map.rs
index 6047d14..2d48fa9 100644
--- a/rad/src/operators/map.rs
+++ b/rad/src/operators/map.rs
@@ -57,8 +57,11 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonMap, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
-    let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
+    // There may be no arguments at all
+    let (item_args, separators_args) = args.split_at(args.len().min(1));
+    let item = get::<RadonString, _>(input, item_args)?.value();
+    let (thousands_separator, decimal_separator) =
+        string::read_separators_from_args(separators_args);
 
     Ok(RadonString::from(string::replace_separators(
         item,
-- 
2.43.0


From 3f81e68fe6396b39990edf7d7b41e08f4ad92bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:05 +0000
Subject: [PATCH 27/60] fix: slicing a string in the middle of a multi-byte
 character panicked

---
 rad/src/operators/string.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rad/src/operators/string.rs b/rad/src/operators/string.rs
index 17af7d4..28ac86e 100644
--- a/rad/src/operators/string.rs
+++ b/rad/src/operators/string.rs
@@ -501,12 +501,11 @@ pub fn string_slice(input: &RadonString, args: &[Value]) -> Result<RadonString,
 
     // Only perform real slicing if the sliced range is not empty
     let sliced_string = if output_length > 0 {
+        // The bounds may fall in the middle of a multi-byte character
         input
             .value()
-            .split_at(start as usize)
-            .1
-            .split_at(output_length)
-            .0
+            .get(start as usize..end as usize)
+            .ok_or_else(wrong_args)?
             .to_owned()
     } else {
         String::new()
-- 
2.43.0


From 8dbf81639ce8f028358930ef0365c59f8bc6ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:05 +0000
Subject: [PATCH 28/60] fix: sorting an array by keys of different types
 panicked

---
 rad/src/operators/array.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index e1d3e84..ddb5dc3 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -278,6 +278,12 @@ pub fn sort(
 
     // Distinguish depending the type
     match &mapped_array_value.first() {
+        // Keys of different types cannot be compared
+        _ if !mapped_array.is_homogeneous() => {
+            return Err(RadError::UnsupportedSortOp {
+                array: input.clone(),
+            });
+        }
         Some(RadonTypes::String(_)) => {
             tuple_array.sort_by(|a, b| match (a.1, b.1) {
                 (RadonTypes::String(a), RadonTypes::String(b)) => a.cmp(b),
-- 
2.43.0


From 2dbb02f60a4a3be226aec65068dcad1f06996ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 29/60] fix: the mode of an array with more than 127 equal
 items overflowed its counter

---
 rad/src/reducers/mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad/src/reducers/mode.rs b/rad/src/reducers/mode.rs
index 483b690..9d02923 100644
--- a/rad/src/reducers/mode.rs
+++ b/rad/src/reducers/mode.rs
@@ -7,7 +7,7 @@ use std::{collections::HashMap, convert::TryFrom};
 pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     let value = input.value();
 
-    let mut counter: HashMap<RadonTypes, i8> = HashMap::new();
+    let mut counter: HashMap<RadonTypes, usize> = HashMap::new();
 
     // Count how many times does each different item appear in the input array
     for item in value {
@@ -30,7 +30,7 @@ pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     if mode_vector.len() > 1 {
         Err(RadError::ModeTie {
             values: input.clone(),
-            max_count: u16::try_from(*max_count).unwrap(),
+            max_count: u16::try_from(*max_count).unwrap_or(u16::MAX),
         })
     } else {
         Ok(mode_vector.into_iter().next().unwrap())
-- 
2.43.0


From 2254928ea61f719c7eea032a129bb5f32df82982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 30/60] fix: executing a script while the system clock was set
 back panicked

---
 data_structures/src/radon_report.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data_structures/src/radon_report.rs b/data_structures/src/radon_report.rs
index 828f9a8..7ebf164 100644
--- a/data_structures/src/radon_report.rs
+++ b/data_structures/src/radon_report.rs
@@ -175,9 +175,10 @@ where
     /// Compute difference between start and completion time.
     fn duration(&self) -> Duration {
         match (self.start_time, self.completion_time) {
+            // The system clock may have been set back in between
             (Some(start_time), Some(completion_time)) => completion_time
                 .duration_since(start_time)
-                .expect("Completion time should always be equal or greater than start time"),
+                .unwrap_or_default(),
             _ => Duration::default(),
         }
     }
-- 
2.43.0


From d81c9a5b0cae9cc23b795f02e8fc30b26226def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 31/60] fix: different integers that do not fit in CBOR
 compared as equal

---
 rad/src/types/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 9b4d4b7..268d128 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -234,10 +234,13 @@ impl PartialEq for RadonTypes {
             return false;
         }
 
-        let vec1 = self.encode();
-        let vec2 = other.encode();
-
-        vec1 == vec2
+        match (self, other) {
+            // Integers that do not fit in CBOR have no encoding to be compared by
+            (RadonTypes::Integer(a), RadonTypes::Integer(b)) => a == b,
+            (RadonTypes::Array(a), RadonTypes::Array(b)) => a == b,
+            (RadonTypes::Map(a), RadonTypes::Map(b)) => a == b,
+            _ => self.encode() == other.encode(),
+        }
     }
 }
 
-- 
2.43.0


From 3768759a990fd9cea64715160c6f2070159b1a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 32/60] fix: negative integers below -2^63 lost their sign when
 decoded

---
 rad/src/types/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 268d128..13fc4ef 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -443,8 +443,9 @@ impl TryFrom<CborValue> for RadonTypes {
             CborValue::I16(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I32(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I64(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
+            // The encoding of a negative integer `n` is `-1 - n`
             CborValue::Int(Int::Neg(x)) => {
-                Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
+                Ok(RadonTypes::Integer(RadonInteger::from(-1 - i128::from(x))))
             }
             CborValue::Int(Int::Pos(x)) => {
                 Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
-- 
2.43.0


From bd733507da7d4011bae24914054f16013dc52252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 33/60] fix: reveals with an error inside an array or a map
 panicked when tallied

---
 rad/src/types/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 13fc4ef..b2a7e89 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -461,7 +461,7 @@ impl TryFrom<CborValue> for RadonTypes {
             // Arrays need to be mapped.
             CborValue::Array(x) => x
                 .into_iter()
-                .map(RadonTypes::try_from)
+                .map(try_item_from_cbor_value)
                 .collect::<Result<Vec<RadonTypes>, RadError>>()
                 .map(|rt_vec| RadonTypes::Array(RadonArray::from(rt_vec))),
             // Maps are a little tougher to convert, as we need to map keys and values independently.
@@ -471,7 +471,9 @@ impl TryFrom<CborValue> for RadonTypes {
                     //  rather than ignoring non-string keys and weird values?
                     .filter_map(|(key, val)| match (key, val) {
                         (cbor::value::Key::Text(cbor::value::Text::Text(key)), val) => {
-                            RadonTypes::try_from(val).map(|val| (key.clone(), val)).ok()
+                            try_item_from_cbor_value(val)
+                                .map(|val| (key.clone(), val))
+                                .ok()
                         }
                         _ => None,
                     })
@@ -483,6 +485,14 @@ impl TryFrom<CborValue> for RadonTypes {
     }
 }
 
+/// Decode an item of an array or map. Errors are not values that can be contained in others.
+fn try_item_from_cbor_value(cbor_value: CborValue) -> Result<RadonTypes, RadError> {
+    match RadonTypes::try_from(cbor_value)? {
+        RadonTypes::RadonError(_) => Err(RadError::default()),
+        item => Ok(item),
+    }
+}
+
 /// Allow JSON decoding of any variant of `RadonTypes`.
 impl TryFrom<JsonValue> for RadonTypes {
     type Error = RadError;
-- 
2.43.0


From 85a2667e37ad4e2a389422880a1e736564e1e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 34/60] fix: the first header of a HEAD response had a wrong
 name, and values were cut at a colon

---
 rad/src/lib.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index b0f4701..8656539 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -27,8 +27,8 @@ use crate::{
         execute_radon_script, unpack_radon_script,
     },
     types::{
-        RadonTypes, RadonTypesDiscriminant, array::RadonArray, bytes::RadonBytes, map::RadonMap,
-        string::RadonString,
+        RadonType, RadonTypes, RadonTypesDiscriminant, array::RadonArray, bytes::RadonBytes,
+        map::RadonMap, string::RadonString,
     },
     user_agents::UserAgent,
 };
@@ -235,19 +235,16 @@ fn headers_response_with_data_report(
     settings: RadonScriptExecutionSettings,
 ) -> Result<RadonReport<RadonTypes>> {
     if let RadonTypes::String(response) = response {
-        let response_string: String = response.to_string();
+        let response_string: String = response.value();
         let headers: BTreeMap<String, RadonTypes> = response_string
             .split("\r\n")
             .filter_map(|line| {
-                let parts: Vec<&str> = line.split(':').map(|part| part.trim()).collect();
-                if parts.len() >= 2 {
-                    Some((
-                        String::from(parts[0]),
-                        RadonTypes::from(RadonString::from(parts[1])),
-                    ))
-                } else {
-                    None
-                }
+                line.split_once(':').map(|(name, value)| {
+                    (
+                        String::from(name.trim()),
+                        RadonTypes::from(RadonString::from(value.trim())),
+                    )
+                })
             })
             .collect();
         // todo: turn multiple entries with same key into single entry with array of values
-- 
2.43.0


From cadb2ff278b475a95264dfb4e3d48a9a38a1b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 35/60] fix: https sources were retrieved without the transport
 in use

---
 net/src/client/http/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/src/client/http/mod.rs b/net/src/client/http/mod.rs
index 1069b51..6b7998e 100644
--- a/net/src/client/http/mod.rs
+++ b/net/src/client/http/mod.rs
@@ -103,7 +103,7 @@ impl WitnetHttpClient {
 
         let client = match proxy {
             Some(proxy) => {
-                let proxy = reqwest::Proxy::http(proxy).map_err(|err| {
+                let proxy = reqwest::Proxy::all(proxy).map_err(|err| {
                     WitnetHttpError::ClientBuildError {
                         msg: err.to_string(),
                     }
-- 
2.43.0


From d113b0c9883c0af8a3c36b4ec28a3c99d009f587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 36/60] fix: values from several transports were aggregated
 with no active WIPs

---
 rad/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index 8656539..54de9e0 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -672,7 +672,17 @@ fn evaluate_paranoid_retrieval(
     // In the future, if we think that is an interesting feature (e.g. for
     // debugging data sources through `witnet_toolkit`), we can refactor `AggregateMetaData` and
     // avoid these tricks here.
-    let mut context = ReportContext::from_stage(Stage::Tally(TallyMetaData::default()));
+    let mut context = ReportContext {
+        stage: Stage::Tally(TallyMetaData::default()),
+        // The aggregation must follow the same rules as the retrievals did
+        active_wips: reports
+            .first()
+            .and_then(|report| report.context.active_wips.clone()),
+        protocol_version: reports
+            .first()
+            .and_then(|report| report.context.protocol_version),
+        ..Default::default()
+    };
     let consensus = RADTally::from(aggregate);
     let tally = run_tally_with_context_report(values, &consensus, &mut context, settings)
         // Case 3
-- 
2.43.0


From b58d8af7ae77b3553dce28925fea367ae50761d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 37/60] fix: values from several transports that cannot be
 aggregated resolved to an error

---
 rad/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index 54de9e0..f7446b2 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -660,11 +660,13 @@ fn evaluate_paranoid_retrieval(
         .into_iter()
         .collect::<Result<Vec<_>>>()
         .or(Err(RadError::InconsistentSource))?;
-    let values = reports
+    let values: Vec<RadonTypes> = reports
         .iter()
         .cloned()
         .map(RadonReport::into_inner)
         .collect();
+    let is_error = |value: &RadonTypes| matches!(value, RadonTypes::RadonError(_));
+    let all_errors = values.iter().all(is_error);
 
     // This block is using a Tally context because Aggregate contexts currently do not keep
     // track of outliers.
@@ -688,6 +690,11 @@ fn evaluate_paranoid_retrieval(
         // Case 3
         .or(Err(RadError::InconsistentSource))?;
 
+    // Case 3 as well: errors that are raised while aggregating are intercepted into the result
+    if is_error(&tally.result) && !all_errors {
+        return Err(RadError::InconsistentSource);
+    }
+
     // If the consensus of the data points is below the paranoid threshold of the node, we need
     // to resolve to the `InconsistentSource` error.
     if let Stage::Tally(TallyMetaData { consensus, .. }) = context.stage
-- 
2.43.0


From 39940601d441f2df54be458a331398e1d4156ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 38/60] fix: data requests with injected inputs ran with no
 active WIPs and a shared context

---
 rad/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index f7446b2..2978a21 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -89,6 +89,8 @@ pub fn try_data_request(
     let protocol_version = ProtocolVersion::guess();
     let mut retrieval_context =
         ReportContext::from_stage(Stage::Retrieval(RetrievalMetadata::default()));
+    retrieval_context.set_active_wips(active_wips.clone());
+    retrieval_context.set_protocol_version(protocol_version);
     let retrieval_reports: Vec<RadonReport<RadonTypes>> = if let Some(inputs) = inputs_injection {
         assert_eq!(
             inputs.len(),
@@ -103,6 +105,8 @@ pub fn try_data_request(
             .iter()
             .zip(inputs.iter())
             .map(|(retrieve, input)| {
+                // Every source starts over with its own context
+                let mut retrieval_context = retrieval_context.clone();
                 run_retrieval_with_data_report(
                     retrieve,
                     &RadonTypes::from(RadonString::from(*input)),
-- 
2.43.0


From 58e28b83169bbe0107ee69b21b5a1323ddbc3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 39/60] fix: sessions that could not be consolidated were lost,
 leaving their network range taken

---
 p2p/src/sessions/bounded_sessions.rs | 14 ++++++++++----
 p2p/src/sessions/mod.rs              |  9 +++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/p2p/src/sessions/bounded_sessions.rs b/p2p/src/sessions/bounded_sessions.rs
index 32ab400..0c85ff7 100644
--- a/p2p/src/sessions/bounded_sessions.rs
+++ b/p2p/src/sessions/bounded_sessions.rs
@@ -40,6 +40,15 @@ impl<T> BoundedSessions<T> {
         address: SocketAddr,
         reference: T,
     ) -> Result<(), SessionsError> {
+        self.check_registrable(&address)?;
+        // Insert session into the right collection
+        self.collection.insert(address, SessionInfo { reference });
+
+        // Return success
+        Ok(())
+    }
+    /// Method to check whether a session could be inserted for an address
+    pub fn check_registrable(&self, address: &SocketAddr) -> Result<(), SessionsError> {
         // Check num peers
         if self
             .limit
@@ -49,13 +58,10 @@ impl<T> BoundedSessions<T> {
             return Err(SessionsError::MaxPeersReached);
         }
         // Check if address is already in sessions collection
-        if self.collection.contains_key(&address) {
+        if self.collection.contains_key(address) {
             return Err(SessionsError::AddressAlreadyRegistered);
         }
-        // Insert session into the right collection
-        self.collection.insert(address, SessionInfo { reference });
 
-        // Return success
         Ok(())
     }
     /// Method to insert a new session
diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index 69448a8..479c498 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -282,6 +282,15 @@ where
         session_type: SessionType,
         address: SocketAddr,
     ) -> Result<(), SessionsError> {
+        // Make sure that the session exists and can be consolidated before touching anything, as
+        // otherwise a rejected session would be lost, and could never be unregistered
+        let uncons_sessions = self.get_sessions(session_type, SessionStatus::Unconsolidated)?;
+        if !uncons_sessions.collection.contains_key(&address) {
+            return Err(SessionsError::AddressNotFound);
+        }
+        self.get_sessions(session_type, SessionStatus::Consolidated)?
+            .check_registrable(&address)?;
+
         // Get map to remove session from
         let uncons_sessions = self.get_sessions(session_type, SessionStatus::Unconsolidated)?;
 
-- 
2.43.0


From d77e4eedf528dc43b73e025a04f61526a153faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 40/60] fix: network ranges were freed while other sessions in
 the same range remained

---
 p2p/src/sessions/mod.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index 479c498..ea10952 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -9,7 +9,7 @@ use rand::Rng;
 
 use super::{error::SessionsError, sessions::bounded_sessions::BoundedSessions};
 use crate::peers::get_range_address;
-use std::collections::HashSet;
+use std::collections::HashMap;
 
 /// Session type
 #[derive(Copy, Clone, Debug, Eq, PartialEq)]
@@ -405,7 +405,8 @@ pub struct GetConsolidatedPeersResult {
 /// machines from monopolizing our inbound peers table.
 #[derive(Default)]
 pub struct NetworkRangesCollection {
-    inner: HashSet<[u8; 4]>,
+    /// Number of sessions in each of the ranges
+    inner: HashMap<[u8; 4], usize>,
     range_limit: u8,
 }
 
@@ -421,7 +422,7 @@ impl NetworkRangesCollection {
 
     /// Checks whether a explicit range is present in the collection.
     pub fn contains_range(&self, range: [u8; 4]) -> Option<&[u8; 4]> {
-        self.inner.get(&range)
+        self.inner.get_key_value(&range).map(|(range, _)| range)
     }
 
     /// Insert a range into the collection as derived from a socket address.
@@ -433,9 +434,12 @@ impl NetworkRangesCollection {
         self.insert_range(range)
     }
 
-    /// Insert a explicit range into the collection.
+    /// Insert a explicit range into the collection. Returns whether the range was not present.
     pub fn insert_range(&mut self, range: [u8; 4]) -> bool {
-        self.inner.insert(range)
+        let sessions = self.inner.entry(range).or_default();
+        *sessions += 1;
+
+        *sessions == 1
     }
 
     /// Remove a range from the collection as derived from a socket address.
@@ -447,9 +451,18 @@ impl NetworkRangesCollection {
         self.remove_range(range)
     }
 
-    /// Remove a explicit range from the collection.
+    /// Remove a explicit range from the collection, which stays there for as long as there are
+    /// other sessions in it. Returns whether the range was present.
     pub fn remove_range(&mut self, range: [u8; 4]) -> bool {
-        self.inner.remove(&range)
+        match self.inner.get_mut(&range) {
+            Some(sessions) if *sessions > 1 => {
+                *sessions -= 1;
+
+                true
+            }
+            Some(_) => self.inner.remove(&range).is_some(),
+            None => false,
+        }
     }
 
     /// Set range limit
-- 
2.43.0


From 38a95051ed440f3e034d7a941fbd4f667c02a75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 41/60] fix: NTP responses before the Unix epoch caused a panic

---
 util/src/timestamp.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/util/src/timestamp.rs b/util/src/timestamp.rs
index c9b94f5..27dfb79 100644
--- a/util/src/timestamp.rs
+++ b/util/src/timestamp.rs
@@ -74,13 +74,21 @@ pub fn update_global_timestamp(addr: &str) {
 
 /// Get NTP timestamp from an addr specified
 pub fn get_timestamp_ntp(addr: &str) -> Result<(i64, u32), std::io::Error> {
-    ntp::request(addr).map(|p| {
+    ntp::request(addr).and_then(|p| {
         let unix_time = ntp::unix_time::Instant::from(p.receive_timestamp);
 
-        (
+        // Servers that do not know the time may respond with a timestamp before the Unix epoch
+        if unix_time.secs() < 0 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "NTP timestamp is before the Unix epoch",
+            ));
+        }
+
+        Ok((
             unix_time.secs(),
             u32::try_from(unix_time.subsec_nanos()).unwrap(),
-        )
+        ))
     })
 }
 
-- 
2.43.0


From b53b20cb4d56d8ba37b6bec41a9ab4f0de0b8bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 42/60] fix: private files could be opened by others between
 their creation and their chmod

---
 util/src/files.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/util/src/files.rs b/util/src/files.rs
index c75750f..da2bdc2 100644
--- a/util/src/files.rs
+++ b/util/src/files.rs
@@ -12,9 +12,17 @@ pub fn create_file<P: AsRef<Path>>(path: P) -> Result<File, std::io::Error> {
 /// This is specially convenient for storing credentials, such as master keys.
 #[cfg(unix)]
 pub fn create_private_file<P: AsRef<Path>>(path: P) -> Result<File, std::io::Error> {
-    use std::os::unix::fs::PermissionsExt;
+    use std::fs::OpenOptions;
+    use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
 
-    let file = create_file(path)?;
+    // Create the file with the right permissions, so there is no time in which others can open it
+    let file = OpenOptions::new()
+        .write(true)
+        .create(true)
+        .truncate(true)
+        .mode(0o600)
+        .open(path)?;
+    // The file could have existed before
     let mut perms = file.metadata()?.permissions();
     // -rw-------
     perms.set_mode(0o600);
-- 
2.43.0


From 05fc77998d1349497b595a3bf4646dca8ae82200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 43/60] fix: configurations with a log section but no log level
 were rejected

---
 config/src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/src/config.rs b/config/src/config.rs
index cde4dde..616c489 100644
--- a/config/src/config.rs
+++ b/config/src/config.rs
@@ -142,6 +142,7 @@ pub struct Config {
 pub struct Log {
     /// Level for the log messages.
     #[partial_struct(serde(
+        default,
         deserialize_with = "as_log_filter",
         serialize_with = "as_log_filter_string"
     ))]
-- 
2.43.0


From 182623d215691e24628676da55c587658c24ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 44/60] fix: transport addresses using the default port of
 their scheme were rejected

---
 validations/src/witnessing.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/validations/src/witnessing.rs b/validations/src/witnessing.rs
index d7424ea..f7d1a48 100644
--- a/validations/src/witnessing.rs
+++ b/validations/src/witnessing.rs
@@ -94,6 +94,18 @@ impl From<url::ParseError> for TransportAddressError {
     }
 }
 
+/// Tells whether the text of a transport address contains a port number.
+fn has_explicit_port(address: &str) -> bool {
+    address
+        .split_once("://")
+        .and_then(|(_, rest)| rest.split(['/', '\\', '?', '#']).next())
+        .and_then(|authority| authority.rsplit('@').next())
+        // Ignore the colons in IPv6 addresses, which are enclosed in square brackets
+        .and_then(|host_and_port| host_and_port.rsplit(']').next())
+        .and_then(|host_and_port| host_and_port.rsplit_once(':'))
+        .is_some_and(|(_, port)| !port.is_empty())
+}
+
 /// Tells whether a transport address is well-formed.
 pub fn validate_transport_address<T, T2>(address: T) -> Result<T2, TransportAddressError>
 where
@@ -117,8 +129,9 @@ where
         Err(TransportAddressError::UnsupportedScheme(scheme))?;
     }
 
-    // Fail if no port is provided
-    if parsed.port().is_none() {
+    // Fail if no port is provided. As `Url::port` also gives `None` if the port is the default one
+    // for the scheme, make sure that it is not there.
+    if parsed.port().is_none() && !has_explicit_port(&address.to_string()) {
         Err(TransportAddressError::MissingPort)?;
     }
 
-- 
2.43.0


From b90f92d3ed8d45fb7a8c2f022997271d2b88c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 45/60] fix: a stake transaction that was too heavy left its
 coins marked as used

---
 data_structures/src/transaction_factory.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index c844212..12d11ea 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -837,13 +837,6 @@ pub fn build_st(
 
     let used_pointers = tx_info.inputs.pointers.iter().cloned().map(Input::new);
 
-    // Mark UTXOs as used so we don't double spend
-    // Save the timestamp after which the transaction will be considered timed out
-    // and the output will become available for spending it again
-    if !dry_run {
-        utxos.set_used_output_pointer(used_pointers.clone(), timestamp + tx_pending_timeout);
-    }
-
     // Only use a change output if there is value inserted by inputs that is not consumed by outputs
     // or fees
     let change_value = tx_info
@@ -861,7 +854,7 @@ pub fn build_st(
         None
     };
 
-    let inputs = used_pointers.collect::<Vec<_>>();
+    let inputs = used_pointers.clone().collect::<Vec<_>>();
     let body = StakeTransactionBody::new(inputs, output, change);
 
     let txn_weight = body.weight();
@@ -872,6 +865,13 @@ pub fn build_st(
         });
     }
 
+    // Mark UTXOs as used so we don't double spend
+    // Save the timestamp after which the transaction will be considered timed out
+    // and the output will become available for spending it again
+    if !dry_run {
+        utxos.set_used_output_pointer(used_pointers, timestamp + tx_pending_timeout);
+    }
+
     Ok(body)
 }
 
-- 
2.43.0


From b000fb9d3c09cc20e5b86652ba448cb2261d30ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 46/60] fix: stakes paid less than the priority asked for and
 panicked when too heavy

---
 data_structures/src/transaction_factory.rs | 86 ++++++++++------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index 12d11ea..c661511 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -255,26 +255,15 @@ pub trait OutputsCollection {
         utxo_strategy: &UtxoSelectionStrategy,
         max_weight: u32,
     ) -> Result<TransactionInfo, TransactionError> {
-        let output_value;
-        let mut current_weight;
-        let inputs = vec![Input::default()];
-
-        // For the first estimation: 1 input and 1 output more for the change address
-        match outputs.clone() {
+        let output_value = match outputs.clone() {
             TransactionOutputs::DataRequest((dr_output, change)) => {
-                let body = DRTransactionBody::new(inputs, dr_output, change.into_iter().collect());
-                output_value = body.value()?;
-                current_weight = body.weight();
+                DRTransactionBody::new(vec![], dr_output, change.into_iter().collect()).value()?
             }
             TransactionOutputs::Stake((stake_output, change)) => {
-                let body = StakeTransactionBody::new(inputs, stake_output, change);
-                output_value = body.value();
-                current_weight = body.weight();
+                StakeTransactionBody::new(vec![], stake_output, change).value()
             }
             TransactionOutputs::ValueTransfer(outputs) => {
-                let body = VTTransactionBody::new(inputs, outputs);
-                output_value = body.value();
-                current_weight = body.weight();
+                VTTransactionBody::new(vec![], outputs).value()
             }
         };
 
@@ -295,53 +284,28 @@ pub trait OutputsCollection {
                 })
             }
             Fee::Relative(priority) => {
-                let absolute_fee = priority.into_absolute(current_weight);
+                // For the first estimation: 1 input and 1 output more for the change address
+                let mut current_weight = estimate_weight(1, &outputs, max_weight)?;
 
                 let max_iterations = 1 + ((max_weight - current_weight) / INPUT_SIZE);
                 for _i in 0..max_iterations {
+                    let absolute_fee = priority.into_absolute(current_weight);
                     let amount = output_value
                         .checked_add(absolute_fee.as_nanowits())
                         .ok_or(TransactionError::FeeOverflow)?;
 
-                    let collected_outputs = self.take_enough_utxos(
+                    let inputs = self.take_enough_utxos(
                         amount,
                         timestamp,
                         block_number_limit,
                         utxo_strategy,
                     )?;
-                    let inputs = collected_outputs
-                        .pointers
-                        .iter()
-                        .cloned()
-                        .map(Input::new)
-                        .collect();
-
-                    let new_weight = match outputs.clone() {
-                        TransactionOutputs::DataRequest((dr_output, change)) => {
-                            let body = DRTransactionBody::new(
-                                inputs,
-                                dr_output,
-                                change.into_iter().collect(),
-                            );
-
-                            body.weight()
-                        }
-                        TransactionOutputs::Stake((stake_output, change)) => {
-                            let body = StakeTransactionBody::new(inputs, stake_output, change);
-
-                            body.weight()
-                        }
-                        TransactionOutputs::ValueTransfer(outputs) => {
-                            let body = VTTransactionBody::new(inputs, outputs);
-
-                            body.weight()
-                        }
-                    };
 
+                    let new_weight = estimate_weight(inputs.pointers.len(), &outputs, max_weight)?;
                     if new_weight == current_weight {
                         return Ok(TransactionInfo {
                             fee: absolute_fee,
-                            inputs: collected_outputs,
+                            inputs,
                             output_value,
                             outputs: outputs.into(),
                         });
@@ -438,6 +402,36 @@ pub trait OutputsCollection {
     }
 }
 
+/// Estimate the weight of a transaction with this many inputs and 1 output more for the change
+/// address
+fn estimate_weight(
+    inputs_count: usize,
+    outputs: &TransactionOutputs,
+    max_weight: u32,
+) -> Result<u32, TransactionError> {
+    match outputs {
+        TransactionOutputs::DataRequest((dr_output, change)) => {
+            let outputs_count = usize::from(change.is_some()) + 1;
+
+            calculate_weight(inputs_count, outputs_count, Some(dr_output), max_weight)
+        }
+        TransactionOutputs::Stake((stake_output, change)) => {
+            let inputs = vec![Input::default(); inputs_count];
+            let change = change.clone().unwrap_or_default();
+            let weight =
+                StakeTransactionBody::new(inputs, stake_output.clone(), Some(change)).weight();
+            if weight > max_weight {
+                return Err(TransactionError::StakeWeightLimitExceeded { weight, max_weight });
+            }
+
+            Ok(weight)
+        }
+        TransactionOutputs::ValueTransfer(outputs) => {
+            calculate_weight(inputs_count, outputs.len() + 1, None, max_weight)
+        }
+    }
+}
+
 /// Calculate weight from inputs and outputs information
 pub fn calculate_weight(
     inputs_count: usize,
-- 
2.43.0


From eb014d74a964ca61f2beee6c8a79f198c20038f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 47/60] fix: timestamps of distant epochs overflowed after the
 2.0 fork

---
 data_structures/src/chain/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 40a4a85..6761c65 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -4787,8 +4787,12 @@ impl EpochConstants {
             )
             .map_err(|_| EpochCalculationError::Overflow)?;
 
-            self.checkpoint_zero_timestamp_wit2
-                + i64::from((epoch - epochs_pre_v2) * Epoch::from(self.checkpoints_period_wit2))
+            epoch
+                .checked_sub(epochs_pre_v2)
+                .and_then(|x| x.checked_mul(Epoch::from(self.checkpoints_period_wit2)))
+                .map(i64::from)
+                .and_then(|x| x.checked_add(self.checkpoint_zero_timestamp_wit2))
+                .ok_or(EpochCalculationError::Overflow)?
         } else {
             epoch_timestamp
         };
-- 
2.43.0


From e50a51af68c92c0ea834db2b094f03eccc54304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 48/60] fix: decode negative integers below -2^63 as released
 nodes do (reverts 3768759)

---
 rad/src/types/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index b2a7e89..30f09c1 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -443,9 +443,8 @@ impl TryFrom<CborValue> for RadonTypes {
             CborValue::I16(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I32(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I64(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
-            // The encoding of a negative integer `n` is `-1 - n`
             CborValue::Int(Int::Neg(x)) => {
-                Ok(RadonTypes::Integer(RadonInteger::from(-1 - i128::from(x))))
+                Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
             }
             CborValue::Int(Int::Pos(x)) => {
                 Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
-- 
2.43.0


From d3decfed7fd384a9431532aee4b2e35f7993237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:49 +0000
Subject: [PATCH 49/60] fix: store a synchronized batch of blocks before
 building superblocks from it

persist_blocks_batch used ctx.wait from within a future that the actor was
already waiting for, so nothing made the construction of the superblock wait
until the blocks were stored. When the storage was not done by the time the
headers were read back, the missing headers were dropped and the node built
(and voted for) a superblock different from everyone else's.
---
 node/src/actors/chain_manager/handlers.rs | 20 ++++++++++----------
 node/src/actors/chain_manager/mod.rs      |  4 ++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index 63f31e1..dedd6f9 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -525,7 +525,7 @@ impl Handler<AddBlocks> for ChainManager {
                             }
 
                             // Persist blocks batch when target not reached
-                            act.persist_blocks_batch(ctx, blocks);
+                            ctx.wait(act.persist_blocks_batch(blocks));
                             let to_be_stored =
                                 act.chain_state.data_request_pool.finished_data_requests();
                             act.persist_data_requests(ctx, to_be_stored);
@@ -559,16 +559,16 @@ impl Handler<AddBlocks> for ChainManager {
                             if let Some(consolidate_epoch) = act.superblock_consolidation_is_needed(&sync_target, superblock_period) {
                                 // We need to persist blocks in order to be able to construct the
                                 // superblock
-                                act.persist_blocks_batch(ctx, consolidate_blocks);
+                                let persist_blocks = act.persist_blocks_batch(consolidate_blocks);
                                 let to_be_stored =
                                     act.chain_state.data_request_pool.finished_data_requests();
                                 act.persist_data_requests(ctx, to_be_stored);
                                 // Create superblocks while synchronizing but do not broadcast them
                                 // This is needed to ensure that we can validate the received superblocks later on
                                 log::debug!("Will construct superblock during synchronization. Superblock index: {} Epoch {}", sync_target.superblock.checkpoint, consolidate_epoch);
-                                Either::Left(
+                                Either::Left(persist_blocks.then(move |(), act, _ctx| {
                                     act.try_consolidate_superblock(consolidate_epoch, sync_target, sync_superblock)
-                                )
+                                }))
                             } else {
                                 // No need to construct a superblock again,
                                 Either::Right(actix::fut::ok(()))
@@ -616,16 +616,16 @@ impl Handler<AddBlocks> for ChainManager {
                             if let Some(consolidate_superblock_epoch) = act.superblock_consolidation_is_needed(&sync_target, superblock_period) {
                                 // We need to persist blocks in order to be able to construct the
                                 // superblock
-                                act.persist_blocks_batch(ctx, consolidate_blocks);
+                                let persist_blocks = act.persist_blocks_batch(consolidate_blocks);
                                 let to_be_stored =
                                     act.chain_state.data_request_pool.finished_data_requests();
                                 act.persist_data_requests(ctx, to_be_stored);
                                 // Create superblocks while synchronizing but do not broadcast them
                                 // This is needed to ensure that we can validate the received superblocks later on
                                 log::debug!("Will construct superblock during synchronization. Superblock index: {} Epoch {}", sync_target.superblock.checkpoint, consolidate_superblock_epoch);
-                                Either::Left(
+                                Either::Left(persist_blocks.then(move |(), act, _ctx| {
                                     act.try_consolidate_superblock(consolidate_superblock_epoch, sync_target, sync_superblock)
-                                )
+                                }))
                             } else {
                                 // No need to construct a superblock again,
                                 Either::Right(actix::fut::ok(()))
@@ -639,7 +639,7 @@ impl Handler<AddBlocks> for ChainManager {
 
                                             act.update_state_machine(StateMachine::WaitingConsensus, ctx);
 
-                                            return actix::fut::err(());
+                                            return Box::pin(actix::fut::err(())) as ResponseActFuture<Self, Result<u32, ()>>;
                                         }
                                         log_sync_progress(&sync_target, &candidate_blocks, num_processed_blocks, "SyncWithCandidate(candidate)");
 
@@ -649,7 +649,7 @@ impl Handler<AddBlocks> for ChainManager {
 
                                         // We need to persist blocks in order to be able to construct the
                                         // superblock
-                                        act.persist_blocks_batch(ctx, candidate_blocks);
+                                        let persist_blocks = act.persist_blocks_batch(candidate_blocks);
                                         let to_be_stored =
                                             act.chain_state.data_request_pool.finished_data_requests();
                                         act.persist_data_requests(ctx, to_be_stored);
@@ -662,7 +662,7 @@ impl Handler<AddBlocks> for ChainManager {
                                         // to validate the votes for this superblock later
                                         log::debug!("Will construct the second superblock during synchronization. Superblock index: {} Epoch {}", sync_target.superblock.checkpoint + 1, candidate_superblock_checkpoint * superblock_period);
 
-                                        actix::fut::ok(candidate_superblock_checkpoint)
+                                        Box::pin(persist_blocks.map(move |(), _act, _ctx| Ok(candidate_superblock_checkpoint)))
                                     }
                                 })
                                 .and_then(move |candidate_superblock_checkpoint, act, _ctx| {
diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 0f18bc5..8216562 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -910,13 +910,13 @@ impl ChainManager {
         }
     }
 
-    fn persist_blocks_batch(&self, ctx: &mut Context<Self>, blocks: Vec<Block>) {
+    fn persist_blocks_batch(&self, blocks: Vec<Block>) -> ResponseActFuture<Self, ()> {
         let mut to_persist = Vec::with_capacity(blocks.len());
         for block in blocks {
             to_persist.push(StoreInventoryItem::Block(Box::new(block)));
         }
 
-        ctx.wait(self.persist_items(to_persist).map(|_, _, _| ()));
+        Box::pin(self.persist_items(to_persist).map(|_, _, _| ()))
     }
 
     fn consolidate_block(
-- 
2.43.0


From cab21e7d331c1d037f2bc413fc328abd2e91a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 50/60] fix: recognize the genesis block under later protocol
 versions

The hash of the genesis block was compared as hashed under the protocol
version in force at the moment. A node which had to start its chain over
after V1_8 or V2_0 were activated, because it had not persisted any chain
state yet, rejected its own genesis block and could not synchronize again
until restarted.
---
 data_structures/src/chain/mod.rs          | 6 +++++-
 node/src/actors/chain_manager/handlers.rs | 3 ++-
 validations/src/validations.rs            | 7 +++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 6761c65..dff8a5e 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -676,7 +676,11 @@ impl Block {
     }
 
     pub fn is_genesis(&self, genesis: &Hash) -> bool {
-        self.hash().eq(genesis)
+        // The hash to compare is the one of the protocol version in force at the epoch of the
+        // block, because the genesis block may well be processed when a later version is in force
+        let version = get_protocol_version(Some(self.block_header.beacon.checkpoint));
+
+        self.versioned_hash(version).eq(genesis)
     }
 }
 
diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index dedd6f9..9552fa1 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -412,7 +412,8 @@ impl Handler<AddBlocks> for ChainManager {
                 StateMachine::WaitingConsensus | StateMachine::AlmostSynced => {
                     // In WaitingConsensus state, only allow AddBlocks when the argument is
                     // the genesis block
-                    if msg.blocks.len() == 1 && msg.blocks[0].hash() == consensus_constants.genesis_hash
+                    if msg.blocks.len() == 1
+                        && msg.blocks[0].is_genesis(&consensus_constants.genesis_hash)
                     {
                         let block = msg.blocks.into_iter().next().unwrap();
                         match act.process_requested_block(ctx, block, false) {
diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 880eda4..c461765 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2626,9 +2626,12 @@ pub fn validate_genesis_block(
     expected_genesis_hash: Hash,
 ) -> Result<(), BlockError> {
     // Compare the hash first
-    if genesis_block.hash() != expected_genesis_hash {
+    let block_hash = genesis_block.versioned_hash(get_protocol_version(Some(
+        genesis_block.block_header.beacon.checkpoint,
+    )));
+    if block_hash != expected_genesis_hash {
         return Err(BlockError::GenesisBlockHashMismatch {
-            block_hash: genesis_block.hash(),
+            block_hash,
             expected_hash: expected_genesis_hash,
         });
     }
-- 
2.43.0


From a98d6019b023689b2f486f288d8b9ef90ac2bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 51/60] fix: keep the transactions of blocks dropped when
 recovering from a fork

Transactions in blocks that are rewound because the node found itself on a
fork went back to the mempool only when a superblock vote failed. When the
fork was noticed from the beacons of the peers, from the blocks received while
synchronizing, or from a different superblock consensus, they were lost, even if no other node had
ever heard of them.
---
 node/src/actors/chain_manager/actor.rs    | 18 ++++++++++++++++++
 node/src/actors/chain_manager/handlers.rs |  6 +++---
 node/src/actors/chain_manager/mod.rs      |  2 +-
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/node/src/actors/chain_manager/actor.rs b/node/src/actors/chain_manager/actor.rs
index 047eb61..a3ce634 100644
--- a/node/src/actors/chain_manager/actor.rs
+++ b/node/src/actors/chain_manager/actor.rs
@@ -95,6 +95,24 @@ impl ChainManager {
         ctx.wait(fut);
     }
 
+    /// Drop the blocks that are not part of the chain state persisted in the storage, because they
+    /// belong to a fork, and load that chain state.
+    /// The transactions from the dropped blocks will be added again into the mempool once synced.
+    pub fn rewind_to_storage(&mut self, ctx: &mut Context<ChainManager>) {
+        if let Some(chain_info) = self.chain_state.chain_info.as_ref() {
+            let superblock_period = u32::from(chain_info.consensus_constants.superblock_period);
+            let first_epoch = self
+                .chain_state_snapshot
+                .highest_persisted_superblock
+                .saturating_mul(superblock_period);
+            self.reinsert_transactions_from_unconfirmed_blocks(first_epoch)
+                .map(|_res, _act, _ctx| ())
+                .wait(ctx);
+        }
+
+        self.initialize_from_storage(ctx);
+    }
+
     /// Get configuration from ConfigManager and try to initialize ChainManager state from Storage
     /// (initialize to Default values if empty)
     pub fn initialize_from_storage_fut(
diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index 9552fa1..4ffaab2 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -459,7 +459,7 @@ impl Handler<AddBlocks> for ChainManager {
                             act.drop_all_outbounds();
 
                             act.update_state_machine(StateMachine::WaitingConsensus, ctx);
-                            act.initialize_from_storage(ctx);
+                            act.rewind_to_storage(ctx);
                             log::info!("Restored chain state from storage");
 
                             return Box::pin(actix::fut::err(()));
@@ -1112,7 +1112,7 @@ impl Handler<PeersBeacons> for ChainManager {
                                 The node will automatically try to recover from this forked situation by restoring the chain state from the storage."
                             );
 
-                            self.initialize_from_storage(ctx);
+                            self.rewind_to_storage(ctx);
                             log::info!(
                                 "The chain state has been restored from storage.\n\
                             Now the node will try to resynchronize."
@@ -1198,7 +1198,7 @@ impl Handler<PeersBeacons> for ChainManager {
                                 "[CONSENSUS]: We are on {our_beacon:?} but the network is on {consensus_beacon:?}"
                             );
 
-                            self.initialize_from_storage(ctx);
+                            self.rewind_to_storage(ctx);
                             log::info!("Restored chain state from storage");
 
                             StateMachine::WaitingConsensus
diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 8216562..beb5a6d 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -1928,7 +1928,7 @@ impl ChainManager {
                     // Update last superblock consensus in ChainManager
                     act.last_superblock_consensus = Some(consensus_superblock);
 
-                    act.initialize_from_storage(ctx);
+                    act.rewind_to_storage(ctx);
                     act.update_state_machine(StateMachine::WaitingConsensus, ctx);
 
                     Box::pin(actix::fut::err(()))
-- 
2.43.0


From 147697065550d239e4a07ab55ccb4540cfc4832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 52/60] fix: store synchronized blocks of an already
 consolidated superblock

When a batch reached the last checkpoint of a superblock that did not need to
be consolidated, the blocks before that checkpoint were added to the chain but
never written to the storage: the node could neither serve them nor find their
transactions.
---
 node/src/actors/chain_manager/handlers.rs | 28 +++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index 4ffaab2..a539d80 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -557,13 +557,13 @@ impl Handler<AddBlocks> for ChainManager {
                                 "SyncWithoutCandidate(consolidation)",
                             );
 
+                            // We need to persist blocks in order to be able to construct the
+                            // superblock, and to serve them even if there is no superblock to construct
+                            let persist_blocks = act.persist_blocks_batch(consolidate_blocks);
+                            let to_be_stored =
+                                act.chain_state.data_request_pool.finished_data_requests();
+                            act.persist_data_requests(ctx, to_be_stored);
                             if let Some(consolidate_epoch) = act.superblock_consolidation_is_needed(&sync_target, superblock_period) {
-                                // We need to persist blocks in order to be able to construct the
-                                // superblock
-                                let persist_blocks = act.persist_blocks_batch(consolidate_blocks);
-                                let to_be_stored =
-                                    act.chain_state.data_request_pool.finished_data_requests();
-                                act.persist_data_requests(ctx, to_be_stored);
                                 // Create superblocks while synchronizing but do not broadcast them
                                 // This is needed to ensure that we can validate the received superblocks later on
                                 log::debug!("Will construct superblock during synchronization. Superblock index: {} Epoch {}", sync_target.superblock.checkpoint, consolidate_epoch);
@@ -572,7 +572,7 @@ impl Handler<AddBlocks> for ChainManager {
                                 }))
                             } else {
                                 // No need to construct a superblock again,
-                                Either::Right(actix::fut::ok(()))
+                                Either::Right(persist_blocks.map(|(), _act, _ctx| Ok(())))
                             }
                                 .and_then(move |(), act, ctx| {
                                     act.update_state_machine(StateMachine::WaitingConsensus, ctx);
@@ -614,13 +614,13 @@ impl Handler<AddBlocks> for ChainManager {
                                 "SyncWithCandidate(consolidation)",
                             );
 
+                            // We need to persist blocks in order to be able to construct the
+                            // superblock, and to serve them even if there is no superblock to construct
+                            let persist_blocks = act.persist_blocks_batch(consolidate_blocks);
+                            let to_be_stored =
+                                act.chain_state.data_request_pool.finished_data_requests();
+                            act.persist_data_requests(ctx, to_be_stored);
                             if let Some(consolidate_superblock_epoch) = act.superblock_consolidation_is_needed(&sync_target, superblock_period) {
-                                // We need to persist blocks in order to be able to construct the
-                                // superblock
-                                let persist_blocks = act.persist_blocks_batch(consolidate_blocks);
-                                let to_be_stored =
-                                    act.chain_state.data_request_pool.finished_data_requests();
-                                act.persist_data_requests(ctx, to_be_stored);
                                 // Create superblocks while synchronizing but do not broadcast them
                                 // This is needed to ensure that we can validate the received superblocks later on
                                 log::debug!("Will construct superblock during synchronization. Superblock index: {} Epoch {}", sync_target.superblock.checkpoint, consolidate_superblock_epoch);
@@ -629,7 +629,7 @@ impl Handler<AddBlocks> for ChainManager {
                                 }))
                             } else {
                                 // No need to construct a superblock again,
-                                Either::Right(actix::fut::ok(()))
+                                Either::Right(persist_blocks.map(|(), _act, _ctx| Ok(())))
                             }
                                 .and_then({
                                     move |(), act, ctx| {
-- 
2.43.0


From c72fd12494e9526989d8d140394c2fa4a3646c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 53/60] fix: do not panic when rewarding a witness that
 withdrew its stake

A witness that committed to a data request and withdrew all of its stake before
the request was resolved made every node panic at the block with the tally.
---
 node/src/actors/chain_manager/mod.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index beb5a6d..e1454c7 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -3126,9 +3126,12 @@ fn process_wit2_stakes_changes(
                     collateral + reward,
                     ta_tx.dr_pointer
                 );
-                stakes
-                    .add_reward(honest_pkh, Wit::from(collateral + reward), block_epoch)
-                    .unwrap();
+                // The validator may have withdrawn all of its stake in the meantime
+                if let Err(e) =
+                    stakes.add_reward(honest_pkh, Wit::from(collateral + reward), block_epoch)
+                {
+                    log::warn!("Failed to reward {honest_pkh}: {e}");
+                }
             }
 
             // Refund errored validators
@@ -3139,9 +3142,10 @@ fn process_wit2_stakes_changes(
                     collateral,
                     ta_tx.dr_pointer
                 );
-                stakes
-                    .add_reward(*error_pkh, Wit::from(collateral), block_epoch)
-                    .unwrap();
+                // The validator may have withdrawn all of its stake in the meantime
+                if let Err(e) = stakes.add_reward(*error_pkh, Wit::from(collateral), block_epoch) {
+                    log::warn!("Failed to refund {error_pkh}: {e}");
+                }
             }
         }
 
@@ -3226,9 +3230,12 @@ fn process_wit2_stakes_changes(
                     liar_pkh,
                     ta_tx.dr_pointer,
                 );
-                stakes
-                    .reset_age(*liar_pkh, Capability::Witnessing, block_epoch + 10, 1)
-                    .unwrap();
+                // The validator may have withdrawn all of its stake in the meantime
+                if let Err(e) =
+                    stakes.reset_age(*liar_pkh, Capability::Witnessing, block_epoch + 10, 1)
+                {
+                    log::warn!("Failed to reset the witnessing age of {liar_pkh}: {e}");
+                }
             }
         }
     }
-- 
2.43.0


From ec1c954cffd48296efb115792f04a43883ac9f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:03 +0000
Subject: [PATCH 54/60] fix: do not leave data requests of validated blocks in
 the data request pool

Requests with too many witnesses were added to the pool while validating any block
candidate, and stayed there when the candidate was not consolidated. The node would
then expect tallies for them and reject every valid block.
---
 node/src/actors/chain_manager/mining.rs | 12 -------
 node/src/actors/chain_manager/mod.rs    | 29 +++++++++++++++
 validations/src/validations.rs          | 48 +++++++++----------------
 3 files changed, 46 insertions(+), 43 deletions(-)

diff --git a/node/src/actors/chain_manager/mining.rs b/node/src/actors/chain_manager/mining.rs
index 48d0b3f..fb9ad53 100644
--- a/node/src/actors/chain_manager/mining.rs
+++ b/node/src/actors/chain_manager/mining.rs
@@ -1114,18 +1114,6 @@ pub fn build_block(
             ) {
                 log::debug!("Data request {} has too many witnesses", dr_tx.hash());
 
-                // Temporarily insert the data request into the dr_pool
-                if let Err(e) = dr_pool.process_data_request(dr_tx, epoch, None) {
-                    log::error!("Error adding data request to the data request pool: {e}");
-                    continue;
-                }
-                if let Some(dr_state) = dr_pool.data_request_state_mutable(&dr_tx.hash()) {
-                    dr_state.update_stage(0, true);
-                } else {
-                    log::error!("Could not find data request state");
-                    continue;
-                }
-
                 // The result of `RunTally` will be published as tally
                 let tally_script = RADTally {
                     filters: vec![],
diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index e1454c7..28493d9 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -1035,6 +1035,11 @@ impl ChainManager {
                     }
                 }
 
+                add_data_requests_resolved_on_inclusion(
+                    &block,
+                    &mut self.chain_state.data_request_pool,
+                );
+
                 process_wit2_stakes_changes(
                     &block,
                     &self.consensus_constants_wit2,
@@ -3241,6 +3246,30 @@ fn process_wit2_stakes_changes(
     }
 }
 
+/// Data requests that are resolved by the same block that includes them (because they have too many
+/// witnesses) need to be in the data request pool for their tallies to be processed.
+fn add_data_requests_resolved_on_inclusion(block: &Block, data_request_pool: &mut DataRequestPool) {
+    let epoch = block.block_header.beacon.checkpoint;
+    let protocol = ProtocolVersion::from_epoch(epoch);
+    let tallied: HashSet<Hash> = block
+        .txns
+        .tally_txns
+        .iter()
+        .map(|ta_tx| ta_tx.dr_pointer)
+        .collect();
+    for dr_tx in &block.txns.data_request_txns {
+        if tallied.contains(&dr_tx.versioned_hash(protocol))
+            && let Err(e) = data_request_pool.process_data_request(
+                dr_tx,
+                epoch,
+                Some(block.versioned_hash(protocol)),
+            )
+        {
+            log::error!("Error processing data request transaction:\n{e}");
+        }
+    }
+}
+
 // Helper methods
 #[allow(clippy::too_many_arguments)]
 fn update_pools(
diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index c461765..0175cb7 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2237,8 +2237,22 @@ pub fn validate_block_transactions(
     // First loop over all data requests to make sure they are valid
     // If they are definitely valid, we can start processing the requests with too many witnesses
     let validators_count = stakes.validator_count();
-    let mut data_requests_to_reset = HashSet::<Hash>::new();
     let mut data_requests_with_too_many_witnesses = HashSet::<Hash>::new();
+    // Those data requests are added to a copy of the data request pool, because this block may never
+    // become part of the chain
+    let mut extended_dr_pool;
+    let dr_pool = if block.txns.data_request_txns.iter().any(|transaction| {
+        data_request_has_too_many_witnesses(
+            &transaction.body.dr_output,
+            validators_count,
+            Some(epoch),
+        )
+    }) {
+        extended_dr_pool = dr_pool.clone();
+        &mut extended_dr_pool
+    } else {
+        dr_pool
+    };
     for transaction in &block.txns.data_request_txns {
         if data_request_has_too_many_witnesses(
             &transaction.body.dr_output,
@@ -2258,8 +2272,6 @@ pub fn validate_block_transactions(
             if let Some(dr_state) = dr_pool.data_request_state_mutable(&dr_tx_hash) {
                 if dr_state.stage != DataRequestStage::TALLY {
                     dr_state.update_stage(0, true);
-                    data_requests_to_reset
-                        .insert(transaction.versioned_hash(block_protocol_version));
                 }
             } else {
                 // This should never happen
@@ -2281,7 +2293,7 @@ pub fn validate_block_transactions(
                 ProtocolVersion::default()
             };
 
-        let (outputs, fee) = match validate_tally_transaction(
+        let (outputs, fee) = validate_tally_transaction(
             transaction,
             dr_pool,
             consensus_constants,
@@ -2289,18 +2301,7 @@ pub fn validate_block_transactions(
             &data_requests_with_too_many_witnesses,
             Some(stakes.validator_count()),
             data_request_protocol_version,
-        ) {
-            Ok((outputs, fee)) => {
-                reset_data_request_stage(&data_requests_to_reset, transaction.dr_pointer, dr_pool);
-
-                (outputs, fee)
-            }
-            Err(e) => {
-                reset_data_request_stage(&data_requests_to_reset, transaction.dr_pointer, dr_pool);
-
-                return Err(e);
-            }
-        };
+        )?;
 
         if !active_wips.wips_0009_0011_0012() && transaction.tally == tally_bytes_on_encode_error()
         {
@@ -2605,21 +2606,6 @@ pub fn validate_block(
     }
 }
 
-/// Reset data request stage after changing it to validate transactions
-pub fn reset_data_request_stage(
-    data_requests_to_reset: &HashSet<Hash>,
-    dr_pointer: Hash,
-    dr_pool: &mut DataRequestPool,
-) {
-    // Reset newly added data requests
-    if data_requests_to_reset.contains(&dr_pointer) {
-        log::debug!("Reset temporarily added data request {dr_pointer}");
-        if let Some(dr_state) = dr_pool.data_request_state_mutable(&dr_pointer) {
-            dr_state.set_stage(DataRequestStage::COMMIT);
-        }
-    }
-}
-
 /// Validate a genesis block: a block with hash_prev_block = bootstrap_hash
 pub fn validate_genesis_block(
     genesis_block: &Block,
-- 
2.43.0


From 123d305ad2188e4a8eabac8bf939aea3fe26ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:39 +0000
Subject: [PATCH 55/60] fix: keep resolving data requests in flight when
 validators leave

Whether a data request has too many witnesses depends on the number of validators. If that
number decreased after the data request was included, it would move to the tally stage
with no tally being acceptable for it: no valid block could follow.
---
 data_structures/src/data_request.rs     | 61 ++++++++++++-------------
 node/src/actors/chain_manager/mining.rs | 16 +++----
 validations/src/validations.rs          | 36 +++++----------
 3 files changed, 46 insertions(+), 67 deletions(-)

diff --git a/data_structures/src/data_request.rs b/data_structures/src/data_request.rs
index 3d00e4f..03f175f 100644
--- a/data_structures/src/data_request.rs
+++ b/data_structures/src/data_request.rs
@@ -91,41 +91,24 @@ impl DataRequestPool {
     pub fn get_all_reveals(
         &self,
         active_wips: &ActiveWips,
-        validator_count: Option<usize>,
-        epoch: Option<u32>,
     ) -> HashMap<Hash, Vec<RevealTransaction>> {
-        let validator_count = validator_count.unwrap_or(crate::DEFAULT_VALIDATOR_COUNT_FOR_TESTS);
         self.data_request_pool
             .iter()
             .filter_map(|(dr_pointer, dr_state)| {
                 if let DataRequestStage::TALLY = dr_state.stage {
-                    // Do not resolve data requests requiring too many witnesses using the normal
-                    // tally creation path, but resolve them when building a block.
-                    let wit2_activation_epoch =
-                        get_protocol_version_activation_epoch(ProtocolVersion::V2_0);
-                    if dr_state.epoch >= wit2_activation_epoch
-                        && data_request_has_too_many_witnesses(
-                            &dr_state.data_request,
-                            validator_count,
-                            epoch,
-                        )
-                    {
-                        None
+                    let mut reveals: Vec<RevealTransaction> =
+                        dr_state.info.reveals.values().cloned().collect();
+
+                    if active_wips.wip0019() {
+                        // As specified in (7) in WIP-0019
+                        reveals.sort_unstable_by_key(|reveal| {
+                            concatenate_and_hash(&reveal.body.pkh.hash, dr_pointer.as_ref())
+                        });
                     } else {
-                        let mut reveals: Vec<RevealTransaction> =
-                            dr_state.info.reveals.values().cloned().collect();
-
-                        if active_wips.wip0019() {
-                            // As specified in (7) in WIP-0019
-                            reveals.sort_unstable_by_key(|reveal| {
-                                concatenate_and_hash(&reveal.body.pkh.hash, dr_pointer.as_ref())
-                            });
-                        } else {
-                            reveals.sort_unstable_by_key(|reveal| reveal.body.pkh);
-                        }
-
-                        Some((*dr_pointer, reveals))
+                        reveals.sort_unstable_by_key(|reveal| reveal.body.pkh);
                     }
+
+                    Some((*dr_pointer, reveals))
                 } else {
                     None
                 }
@@ -288,11 +271,8 @@ impl DataRequestPool {
             .filter_map(|(dr_pointer, dr_state)| {
                 // We can notify the user that a data request from "my_claims" is available
                 // for reveal.
-                let too_many_witnesses = data_request_has_too_many_witnesses(
-                    &dr_state.data_request,
-                    validator_count,
-                    epoch,
-                );
+                let too_many_witnesses =
+                    included_data_request_has_too_many_witnesses(dr_state, validator_count, epoch);
                 dr_state.update_stage(extra_rounds, too_many_witnesses);
                 match dr_state.stage {
                     DataRequestStage::REVEAL => {
@@ -595,6 +575,21 @@ pub fn data_request_has_too_many_witnesses(
     }
 }
 
+/// Returns boolean indicating whether a data request that is already part of the chain has too many
+/// witnesses.
+///
+/// Since wit/2 that is settled by the block that includes the data request, which resolves it right
+/// away. A data request that was included without being resolved is to be solved as usual, even if
+/// the number of validators decreases while it is in flight.
+pub fn included_data_request_has_too_many_witnesses(
+    dr_state: &DataRequestState,
+    validator_count: usize,
+    epoch: Option<Epoch>,
+) -> bool {
+    dr_state.epoch <= get_protocol_version_activation_epoch(ProtocolVersion::V2_0)
+        && data_request_has_too_many_witnesses(&dr_state.data_request, validator_count, epoch)
+}
+
 /// Saturating version of `u64::div_ceil`.
 ///
 /// Calculates the quotient of `lhs` and `rhs`, rounding the result towards positive infinity.
diff --git a/node/src/actors/chain_manager/mining.rs b/node/src/actors/chain_manager/mining.rs
index fb9ad53..9513546 100644
--- a/node/src/actors/chain_manager/mining.rs
+++ b/node/src/actors/chain_manager/mining.rs
@@ -27,7 +27,7 @@ use witnet_data_structures::{
     data_request::{
         DataRequestPool, calculate_witness_reward,
         calculate_witness_reward_before_second_hard_fork, create_tally,
-        data_request_has_too_many_witnesses,
+        data_request_has_too_many_witnesses, included_data_request_has_too_many_witnesses,
     },
     error::TransactionError,
     get_environment, get_protocol_version,
@@ -358,12 +358,10 @@ impl ChainManager {
             // based on the epoch of the block in which the data request was included.
             let protocol_version = get_protocol_version(Some(dr_state.epoch));
 
-            // It's possible a data request requesting too many witnesses are in our local data
-            // request pool (e.g., when we failed to validate a proposed block). Do not attempt
-            // to solve this data request.
+            // Do not attempt to solve data requests requesting too many witnesses.
             let validator_count = self.chain_state.stakes.validator_count();
-            if data_request_has_too_many_witnesses(
-                &dr_state.data_request,
+            if included_data_request_has_too_many_witnesses(
+                &dr_state,
                 validator_count,
                 Some(dr_state.epoch),
             ) {
@@ -789,7 +787,7 @@ impl ChainManager {
         let validator_count = self.chain_state.stakes.validator_count();
 
         let dr_reveals = data_request_pool
-            .get_all_reveals(&active_wips, Some(validator_count), Some(block_epoch))
+            .get_all_reveals(&active_wips)
             .into_iter()
             .map(|(dr_pointer, reveals)| {
                 (
@@ -843,8 +841,8 @@ impl ChainManager {
 
                         let rad_manager_addr = RadManager::from_registry();
 
-                        let too_many_witnesses = data_request_has_too_many_witnesses(
-                            &dr_state.data_request,
+                        let too_many_witnesses = included_data_request_has_too_many_witnesses(
+                            &dr_state,
                             validator_count,
                             Some(dr_state.epoch),
                         );
diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 0175cb7..937d2f7 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -24,10 +24,10 @@ use witnet_data_structures::{
     data_request::{
         DataRequestPool, calculate_reward_collateral_ratio, calculate_tally_change,
         calculate_witness_reward, calculate_witness_reward_before_second_hard_fork, create_tally,
-        data_request_has_too_many_witnesses,
+        data_request_has_too_many_witnesses, included_data_request_has_too_many_witnesses,
     },
     error::{BlockError, DataRequestError, TransactionError},
-    get_protocol_version, get_protocol_version_activation_epoch,
+    get_protocol_version,
     proto::versioning::{ProtocolVersion, VersionedHashable},
     radon_report::{RadonReport, ReportContext},
     staking::prelude::{Power, QueryStakesKey, StakeKey, StakesTracker},
@@ -1059,34 +1059,20 @@ pub fn validate_tally_transaction<'a>(
 ) -> Result<(Vec<&'a ValueTransferOutput>, u64), anyhow::Error> {
     let validator_count =
         validator_count.unwrap_or(witnet_data_structures::DEFAULT_VALIDATOR_COUNT_FOR_TESTS);
-    let too_many_witnesses;
-    if let Some(dr_state) = dr_pool.data_request_state_mutable(&ta_tx.dr_pointer) {
-        too_many_witnesses = data_request_has_too_many_witnesses(
-            &dr_state.data_request,
-            validator_count,
-            Some(dr_state.epoch),
-        );
-
-        if too_many_witnesses {
-            let wit2_activation_epoch =
-                get_protocol_version_activation_epoch(ProtocolVersion::V2_0);
-
-            // Check that for a TooManyWitnesses tally, the data request was also included in the block
-            if dr_state.epoch > wit2_activation_epoch
-                && !data_requests_with_too_many_witnesses.contains(&ta_tx.dr_pointer)
-            {
-                return Err(TransactionError::TooManyWitnessesDataRequestNotFound {
-                    hash: ta_tx.dr_pointer,
-                }
-                .into());
-            }
-        }
+    let too_many_witnesses = if let Some(dr_state) = dr_pool.data_request_state(&ta_tx.dr_pointer) {
+        // For a TooManyWitnesses tally, the data request must also be included in the block
+        data_requests_with_too_many_witnesses.contains(&ta_tx.dr_pointer)
+            || included_data_request_has_too_many_witnesses(
+                dr_state,
+                validator_count,
+                Some(dr_state.epoch),
+            )
     } else {
         return Err(TransactionError::DataRequestNotFound {
             hash: ta_tx.dr_pointer,
         }
         .into());
-    }
+    };
     let (expected_ta_tx, dr_state) = create_expected_tally_transaction(
         ta_tx,
         dr_pool,
-- 
2.43.0


From 2ff5ef9a2e51180b3204fde76d1344f319bf511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 56/60] fix: store the reports of finished data requests before
 the state without them

While synchronizing, the reports were written in the background, so a node
that stopped right after its chain state had been persisted lost the reports
of the data requests that this state considers finished.
---
 node/src/actors/chain_manager/handlers.rs | 16 +++++++++---
 node/src/actors/chain_manager/mod.rs      | 31 +++++++++++++----------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index a539d80..b2a34f2 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -559,10 +559,14 @@ impl Handler<AddBlocks> for ChainManager {
 
                             // We need to persist blocks in order to be able to construct the
                             // superblock, and to serve them even if there is no superblock to construct
-                            let persist_blocks = act.persist_blocks_batch(consolidate_blocks);
+                            // The reports of the finished data requests must be in storage before the chain
+                            // state that no longer has those data requests
                             let to_be_stored =
                                 act.chain_state.data_request_pool.finished_data_requests();
-                            act.persist_data_requests(ctx, to_be_stored);
+                            let persist_reports = act.store_data_requests(to_be_stored);
+                            let persist_blocks = act
+                                .persist_blocks_batch(consolidate_blocks)
+                                .then(|(), _act, _ctx| persist_reports);
                             if let Some(consolidate_epoch) = act.superblock_consolidation_is_needed(&sync_target, superblock_period) {
                                 // Create superblocks while synchronizing but do not broadcast them
                                 // This is needed to ensure that we can validate the received superblocks later on
@@ -616,10 +620,14 @@ impl Handler<AddBlocks> for ChainManager {
 
                             // We need to persist blocks in order to be able to construct the
                             // superblock, and to serve them even if there is no superblock to construct
-                            let persist_blocks = act.persist_blocks_batch(consolidate_blocks);
+                            // The reports of the finished data requests must be in storage before the chain
+                            // state that no longer has those data requests
                             let to_be_stored =
                                 act.chain_state.data_request_pool.finished_data_requests();
-                            act.persist_data_requests(ctx, to_be_stored);
+                            let persist_reports = act.store_data_requests(to_be_stored);
+                            let persist_blocks = act
+                                .persist_blocks_batch(consolidate_blocks)
+                                .then(|(), _act, _ctx| persist_reports);
                             if let Some(consolidate_superblock_epoch) = act.superblock_consolidation_is_needed(&sync_target, superblock_period) {
                                 // Create superblocks while synchronizing but do not broadcast them
                                 // This is needed to ensure that we can validate the received superblocks later on
diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 28493d9..6bc6e44 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -629,6 +629,11 @@ impl ChainManager {
 
     /// Method to persist a Data Request into the Storage
     fn persist_data_requests(&self, ctx: &mut Context<Self>, dr_infos: Vec<DataRequestInfo>) {
+        self.store_data_requests(dr_infos).wait(ctx);
+    }
+
+    /// Store the reports of a number of data requests, resolving once they have been written
+    fn store_data_requests(&self, dr_infos: Vec<DataRequestInfo>) -> ResponseActFuture<Self, ()> {
         let kvs: Vec<_> = dr_infos
             .into_iter()
             .map(|dr_info| {
@@ -639,19 +644,19 @@ impl ChainManager {
             })
             .collect();
         let kvs_len = kvs.len();
-        storage_mngr::put_batch(&kvs)
-            .into_actor(self)
-            .map_err(|e, _, _| {
-                log::error!("Failed to persist data request report into storage: {e}")
-            })
-            .and_then(move |_, _, _| {
-                log::trace!(
-                    "Successfully persisted reports for {kvs_len} data requests into storage"
-                );
-                fut::ok(())
-            })
-            .map(|_res: Result<(), ()>, _act, _ctx| ())
-            .wait(ctx);
+
+        Box::pin(
+            storage_mngr::put_batch(&kvs)
+                .into_actor(self)
+                .map(move |res, _, _| match res {
+                    Ok(()) => log::trace!(
+                        "Successfully persisted reports for {kvs_len} data requests into storage"
+                    ),
+                    Err(e) => {
+                        log::error!("Failed to persist data request report into storage: {e}")
+                    }
+                }),
+        )
     }
 
     fn broadcast_item(&self, item: InventoryItem) {
-- 
2.43.0


From c8af2cdcc28433c683ac33b3d40dc1d0989592dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:14 +0000
Subject: [PATCH 57/60] fix: do not count blocks of future epochs for the
 supply info

With wit/2 scheduled for a distant epoch (or not at all), the node went on
counting the blocks of epochs that are yet to come.
---
 node/src/actors/chain_manager/handlers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index b2a34f2..e371e83 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -2009,7 +2009,9 @@ impl Handler<GetSupplyInfo> for ChainManager {
         let current_staked_supply = self.chain_state.stakes.total_staked().nanowits();
 
         let wit1_block_reward = chain_info.consensus_constants.initial_block_reward;
-        let wit2_activation_epoch = get_protocol_version_activation_epoch(ProtocolVersion::V2_0);
+        // No block can have been minted in epochs that are yet to come
+        let wit2_activation_epoch =
+            get_protocol_version_activation_epoch(ProtocolVersion::V2_0).min(current_epoch);
         let wit2_block_reward =
             ConsensusConstantsWit2::default().get_validator_block_reward(current_epoch);
 
@@ -2073,7 +2075,9 @@ impl Handler<GetSupplyInfo2> for ChainManager {
         let current_staked_supply = self.chain_state.stakes.total_staked().nanowits();
 
         let wit1_block_reward = chain_info.consensus_constants.initial_block_reward;
-        let wit2_activation_epoch = get_protocol_version_activation_epoch(ProtocolVersion::V2_0);
+        // No block can have been minted in epochs that are yet to come
+        let wit2_activation_epoch =
+            get_protocol_version_activation_epoch(ProtocolVersion::V2_0).min(current_epoch);
         let wit2_block_reward =
             ConsensusConstantsWit2::default().get_validator_block_reward(current_epoch);
 
-- 
2.43.0


From 47bcfeeb02da0ead559f9f0fbb19c4ddbee61c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 58/60] fix: do not panic when asked for a value transfer
 without signatures

Value transfers in the genesis block are not signed, so asking for them with
getValueTransfer in the ethereal or simple mode made the JSON-RPC server panic.
---
 node/src/actors/json_rpc/api.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/node/src/actors/json_rpc/api.rs b/node/src/actors/json_rpc/api.rs
index 89e2630..bc6378a 100644
--- a/node/src/actors/json_rpc/api.rs
+++ b/node/src/actors/json_rpc/api.rs
@@ -2647,7 +2647,12 @@ pub async fn get_value_transfer(params: Result<GetValueTransferParams, Error>) -
                 .first()
                 .map(|output| output.pkh.to_string())
                 .unwrap_or_default();
-            let sender = vtt.signatures[0].public_key.pkh().to_string();
+            // Value transfers in the genesis block have no signatures
+            let sender = vtt
+                .signatures
+                .first()
+                .map(|signature| signature.public_key.pkh().to_string())
+                .unwrap_or_default();
             let metadata = vtt
                 .body
                 .metadata()
-- 
2.43.0


From 25e3dcf6696e288237433e1e2352aa8576de92a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 59/60] fix: take the 'since' of searchDataRequests as
 documented

It was always added to the current epoch, although non-negative values are
absolute epochs, and in the first 4320 epochs the default was an error.
---
 node/src/actors/chain_manager/handlers.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index e371e83..735caca 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -1546,16 +1546,12 @@ impl Handler<SearchDataRequests> for ChainManager {
             let offset = msg.offset.unwrap_or_default();
             let reverse = msg.reverse.unwrap_or_default();
             let mut since_epoch = msg.since.unwrap_or(-4_320);
-            if let Some(current) = self.current_epoch {
-                since_epoch = i64::from(current).saturating_add(since_epoch);
+            if let (Some(current), true) = (self.current_epoch, since_epoch < 0) {
+                since_epoch = i64::from(current).saturating_add(since_epoch).max(0);
             }
-            let since_epoch = u32::try_from(since_epoch).inspect_err(|&e| {
-                log::warn!("Invalid 'since' limit on SearchDataRequests: {e}");
-            })?;
-
             Ok(result
                 .iter()
-                .filter(|(epoch, _)| epoch >= &since_epoch)
+                .filter(|(epoch, _)| i64::from(*epoch) >= since_epoch)
                 .sorted_by(|(epoch_a, _), (epoch_b, _)| {
                     if reverse {
                         epoch_b.cmp(epoch_a)
-- 
2.43.0


From 2bfd4a8060756ce47080bea930f1970e4e41c05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:51 +0000
Subject: [PATCH 60/60] fix: count the outputs of commits, tallies and mints
 for the fee of a value transfer

The simple mode of getValueTransfer took inputs that spend them as worthless,
so it reported a fee that was too low.
---
 node/src/actors/json_rpc/api.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/node/src/actors/json_rpc/api.rs b/node/src/actors/json_rpc/api.rs
index bc6378a..3455b5e 100644
--- a/node/src/actors/json_rpc/api.rs
+++ b/node/src/actors/json_rpc/api.rs
@@ -2769,8 +2769,26 @@ fn get_transaction_output_value(transaction: &Transaction, output_index: usize)
             }
         }
 
-        // Commits, reveals, tallies and mints don't have inputs nor outputs anymore
-        _ => 0u64,
+        // Commits may return change, tallies and mints pay rewards
+        Transaction::Commit(co) => co
+            .body
+            .outputs
+            .get(output_index)
+            .map(ValueTransferOutput::value)
+            .unwrap_or_default(),
+        Transaction::Tally(ta) => ta
+            .outputs
+            .get(output_index)
+            .map(ValueTransferOutput::value)
+            .unwrap_or_default(),
+        Transaction::Mint(mint) => mint
+            .outputs
+            .get(output_index)
+            .map(ValueTransferOutput::value)
+            .unwrap_or_default(),
+
+        // Reveals don't have outputs
+        Transaction::Reveal(_) => 0u64,
     }
 }
 
-- 
2.43.0

