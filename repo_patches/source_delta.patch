From 455b1d55b9c54f4c8430bb0ff47e6d970daaf890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 01/32] fix: verify prekey operations and contact cards before
 using them

receive_prekey_op registered an Individual built from an unverified op, and
replaced a group's or document's individual with an unverified one;
receive_contact_card registered and announced unverified cards.
---
 keyhive_core/src/keyhive.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bf5ad8d..15b7840 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -343,6 +343,8 @@ impl<
         &self,
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
+        contact_card.op().try_verify()?;
+
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
             indie
                 .lock()
@@ -1541,6 +1543,11 @@ impl<
         if id == Public.id() {
             return Ok(());
         }
+
+        // Nothing below (including registering a new individual) may happen for
+        // an op that its claimed issuer didn't sign.
+        key_op.try_verify()?;
+
         let agent = if let Some(agent) = self.get_agent(id).await {
             agent
         } else {
-- 
2.43.0


From e1765517ddcaf70b375675fe116520e423221c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:00 +0000
Subject: [PATCH 02/32] fix: do not share prekeys between an Active agent and
 its fork

Active::fork cloned the Arcs around its prekey pairs and individual, so
changes to a fork showed through the original before any merge.
---
 keyhive_core/src/principal/active.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/active.rs b/keyhive_core/src/principal/active.rs
index 4eeda14..318b53d 100644
--- a/keyhive_core/src/principal/active.rs
+++ b/keyhive_core/src/principal/active.rs
@@ -24,7 +24,7 @@ use crate::{
         membered::Membered,
     },
     transact::{
-        fork::Fork,
+        fork::ForkAsync,
         merge::{Merge, MergeAsync},
     },
 };
@@ -357,19 +357,22 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: PrekeyListener<F>> Veri
     }
 }
 
-impl<F: FutureForm, S: AsyncSigner<F> + Clone, T: ContentRef, L: PrekeyListener<F>> Fork
+impl<F: FutureForm, S: AsyncSigner<F> + Clone, T: ContentRef, L: PrekeyListener<F>> ForkAsync
     for Active<F, S, T, L>
 where
     Log<F, S, T>: MembershipListener<F, S, T>,
 {
-    type Forked = Active<F, S, T, Log<F, S, T>>;
+    type AsyncForked = Active<F, S, T, Log<F, S, T>>;
 
-    fn fork(&self) -> Self::Forked {
+    async fn fork_async(&self) -> Self::AsyncForked {
+        // NOTE: cloning the `Arc`s would share the state with the fork
+        let prekey_pairs = self.prekey_pairs.lock().await.clone();
+        let individual = self.individual.lock().await.clone();
         Active {
             id: self.id,
             signer: self.signer.clone(),
-            prekey_pairs: self.prekey_pairs.clone(),
-            individual: self.individual.clone(),
+            prekey_pairs: Arc::new(Mutex::new(prekey_pairs)),
+            individual: Arc::new(Mutex::new(individual)),
             listener: Log::new(),
             _phantom: PhantomData,
         }
-- 
2.43.0


From 546db3e511959be5635b08212a153129a74551e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 03/32] fix: ignore contact cards for the public principal

Anyone can sign for Public, so a contact card could add or rotate its
prekeys; receive_prekey_op already drops such operations.
---
 keyhive_core/src/keyhive.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 15b7840..f0399ba 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -345,6 +345,17 @@ impl<
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
         contact_card.op().try_verify()?;
 
+        // Public always keeps its well-known prekey, so its cards are never applied.
+        if contact_card.id() == IndividualId(Public.id()) {
+            return Ok(self
+                .individuals
+                .lock()
+                .await
+                .entry(contact_card.id())
+                .or_insert_with(|| Arc::new(Mutex::new(Public.individual())))
+                .dupe());
+        }
+
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
             indie
                 .lock()
-- 
2.43.0


From a446392973f1c12b31e0fbc253f50ed18c1967a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 04/32] fix: choose and hash prekeys independently of hash
 order and platform

pick_prekey indexed into a HashSet in iteration order, so replicas with the
same prekeys (even the same replica, after a clone) picked different ones;
Hash for Individual fed keys in iteration order; clamp depended on the word
size and byte order; and an index equal to the length could be drawn.
---
 keyhive_core/src/principal/individual.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index da4572c..17a2f6d 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -123,7 +123,10 @@ impl Individual {
         let prekeys_len = self.prekeys.len();
         let idx = pseudorandom_in_range(bytes.as_slice(), prekeys_len);
 
-        self.prekeys.iter().nth(idx).expect("index to be in range")
+        // Sorted so that every replica with the same prekeys picks the same one
+        let mut sorted: Vec<&ShareKey> = self.prekeys.iter().collect();
+        sorted.sort();
+        sorted.get(idx).expect("index to be in range")
     }
 
     pub fn prekey_ops(&self) -> &CaMap<KeyOp> {
@@ -140,9 +143,9 @@ impl std::hash::Hash for Individual {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.id.hash(state);
         self.prekey_state.hash(state);
-        for pk in self.prekeys.iter() {
-            pk.hash(state);
-        }
+        let mut prekeys: Vec<&ShareKey> = self.prekeys.iter().collect();
+        prekeys.sort();
+        prekeys.hash(state);
     }
 }
 
@@ -193,7 +196,8 @@ fn clamp(bytes: [u8; 8], offset_bits: u8) -> usize {
         .checked_shl(offset_bits as u32)
         .unwrap_or(0);
 
-    usize::from_be(bound as usize)
+    // NOTE: independent of the platform's byte order and word size
+    bound.swap_bytes() as usize
 }
 
 fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
@@ -222,7 +226,7 @@ fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
     while idx.is_none() {
         hash_stream.fill(&mut buf);
         let raw_idx: usize = clamp(buf, shiftsize);
-        if raw_idx <= max {
+        if raw_idx < max.max(1) {
             idx = Some(raw_idx)
         }
     }
-- 
2.43.0


From 277c92455ac41dc6d2e1ee0377b755d583393b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 05/32] fix: order content-addressed maps by their sorted keys

PartialOrd and Ord compared the keys in HashMap iteration order.
---
 beekem/src/content_addressed_map.rs            | 11 +++++------
 keyhive_core/src/util/content_addressed_map.rs | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/beekem/src/content_addressed_map.rs b/beekem/src/content_addressed_map.rs
index ec642fb..0d92a28 100644
--- a/beekem/src/content_addressed_map.rs
+++ b/beekem/src/content_addressed_map.rs
@@ -152,12 +152,11 @@ impl<T: Serialize> FromIterator<T> for CaMap<T> {
 
 impl<T: Serialize + PartialEq> PartialOrd for CaMap<T> {
     fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
-        Some(
-            self.0
-                .keys()
-                .collect::<Vec<_>>()
-                .cmp(&other.0.keys().collect::<Vec<_>>()),
-        )
+        let mut keys: Vec<_> = self.0.keys().collect();
+        let mut other_keys: Vec<_> = other.0.keys().collect();
+        keys.sort();
+        other_keys.sort();
+        Some(keys.cmp(&other_keys))
     }
 }
 
diff --git a/keyhive_core/src/util/content_addressed_map.rs b/keyhive_core/src/util/content_addressed_map.rs
index f4ee990..a9e8158 100644
--- a/keyhive_core/src/util/content_addressed_map.rs
+++ b/keyhive_core/src/util/content_addressed_map.rs
@@ -152,12 +152,11 @@ impl<T: Serialize> FromIterator<T> for CaMap<T> {
 
 impl<T: Serialize + PartialEq> PartialOrd for CaMap<T> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        Some(
-            self.0
-                .keys()
-                .collect::<Vec<_>>()
-                .cmp(&other.0.keys().collect::<Vec<_>>()),
-        )
+        let mut keys: Vec<_> = self.0.keys().collect();
+        let mut other_keys: Vec<_> = other.0.keys().collect();
+        keys.sort();
+        other_keys.sort();
+        Some(keys.cmp(&other_keys))
     }
 }
 
-- 
2.43.0


From f251b637e5f43ce119854c90f89d7336d9be523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 06/32] fix: keep plaintext out of the tracing spans of
 SymmetricKey

The spans of try_encrypt, try_decrypt, try_seal and try_open recorded the
buffers they work on, which hold the plaintext.
---
 keyhive_crypto/src/symmetric_key.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/keyhive_crypto/src/symmetric_key.rs b/keyhive_crypto/src/symmetric_key.rs
index e109b33..12041d3 100644
--- a/keyhive_crypto/src/symmetric_key.rs
+++ b/keyhive_crypto/src/symmetric_key.rs
@@ -49,7 +49,7 @@ impl SymmetricKey {
     }
 
     /// Encrypt data with the [`SymmetricKey`].
-    #[instrument(skip(self))]
+    #[instrument(skip_all)]
     pub fn try_encrypt(
         &self,
         nonce: Siv,
@@ -60,7 +60,7 @@ impl SymmetricKey {
     }
 
     /// Decrypt data with the [`SymmetricKey`].
-    #[instrument(skip(self))]
+    #[instrument(skip_all)]
     pub fn try_decrypt(
         &self,
         nonce: Siv,
@@ -71,7 +71,7 @@ impl SymmetricKey {
     }
 
     /// AEAD-seal `plaintext`, returning a self-contained `nonce(24) || ciphertext`.
-    #[instrument(skip(self))]
+    #[instrument(skip_all)]
     pub fn try_seal(
         &self,
         plaintext: &[u8],
@@ -87,7 +87,7 @@ impl SymmetricKey {
     }
 
     /// Inverse of [`Self::try_seal`]. Reads a `nonce(24) || ciphertext` blob.
-    #[instrument(skip(self))]
+    #[instrument(skip_all)]
     pub fn try_open(&self, blob: &[u8]) -> Result<Vec<u8>, chacha20poly1305::Error> {
         let Some((nonce_bytes, ciphertext)) = blob.split_first_chunk::<24>() else {
             return Err(chacha20poly1305::Error);
-- 
2.43.0


From d4e1ba7ce0c6138d6ec2937343f401524e32035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 07/32] fix: do not print the secret in ShareSecretKey's
 Display

Debug already redacts it; Display wrote the raw key in hex.
---
 keyhive_crypto/src/share_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keyhive_crypto/src/share_key.rs b/keyhive_crypto/src/share_key.rs
index d92f8b2..7b4bc8d 100644
--- a/keyhive_crypto/src/share_key.rs
+++ b/keyhive_crypto/src/share_key.rs
@@ -178,7 +178,7 @@ impl fmt::LowerHex for ShareSecretKey {
 
 impl fmt::Display for ShareSecretKey {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{:#x}", self)
+        write!(f, "ShareSecretKey(SECRET)")
     }
 }
 
-- 
2.43.0


From 7a8b64daeb8b5de6838d3c3399ae653ff73cf24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 08/32] fix: leave the key tree alone when signing its
 operation fails

Cgka::add, remove and update changed the tree (and update the owner's keys)
before signing; a signing error, or dropping the future while it was being
signed, left a tree no operation in the history accounts for.
---
 beekem/src/cgka.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 56ef512..6579c66 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -248,7 +248,9 @@ impl Cgka {
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
-        let leaf_index = self.tree.push_leaf(id, pk.into());
+        // The tree is only replaced once the operation is signed
+        let mut tree = self.tree.clone();
+        let leaf_index = tree.push_leaf(id, pk.into());
         let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
         let add_predecessors = Vec::from_iter(self.ops_graph.add_heads.iter().cloned());
         let op = CgkaOperation::Add {
@@ -261,6 +263,7 @@ impl Cgka {
         };
 
         let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;
+        self.tree = tree;
         self.ops_graph.add_local_op(&signed_op);
         Ok(Some(signed_op))
     }
@@ -294,7 +297,8 @@ impl Cgka {
         if self.group_size() == 1 {
             return Err(CgkaError::RemoveLastMember);
         }
-        let (leaf_idx, removed_keys) = self.tree.remove_id(id)?;
+        let mut tree = self.tree.clone();
+        let (leaf_idx, removed_keys) = tree.remove_id(id)?;
         let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
         let op = CgkaOperation::Remove {
             id,
@@ -304,6 +308,7 @@ impl Cgka {
             doc_id: self.doc_id,
         };
         let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;
+        self.tree = tree;
         self.ops_graph.add_local_op(&signed_op);
         Ok(Some(signed_op))
     }
@@ -337,10 +342,11 @@ impl Cgka {
             let sk = *self.owner_sks.get(&pk).ok_or(CgkaError::ShareKeyNotFound)?;
             (public_id, pk, sk)
         };
-        self.owner_sks.insert(update_pk, update_sk);
+        let mut tree = self.tree.clone();
+        let mut owner_sks = self.owner_sks.clone();
+        owner_sks.insert(update_pk, update_sk);
         let maybe_key_and_path =
-            self.tree
-                .encrypt_path(update_id, update_pk, &mut self.owner_sks, csprng)?;
+            tree.encrypt_path(update_id, update_pk, &mut owner_sks, csprng)?;
         if let Some((pcs_key, new_path)) = maybe_key_and_path {
             let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
             let op = CgkaOperation::Update {
@@ -351,6 +357,8 @@ impl Cgka {
             };
 
             let signed_op = async_signer::try_sign_async::<F, _, _>(signer, op).await?;
+            self.tree = tree;
+            self.owner_sks = owner_sks;
             self.ops_graph.add_local_op(&signed_op);
             self.insert_pcs_key(&pcs_key, Digest::hash(&signed_op));
             Ok((pcs_key, signed_op))
-- 
2.43.0


From 55a7e6e27f7a925020496595121a8d9ebe835611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 09/32] fix: check the revoker's authority over the proof of a
 revocation

A revocation whose proof is the revoked delegation or one of its ancestors
was accepted whoever signed it, and a proof of another group was accepted too.
---
 keyhive_core/src/principal/group/state.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index bcd15cb..61bd16b 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -212,10 +212,17 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         if let Some(proof) = &revocation.payload.proof {
-            if revocation.payload.revoke != *proof
-                && !revocation.payload.revoke.payload.is_descendant_of(proof)
-            {
-                // The revoked delegation is not a descendant of the proof.
+            if proof.subject_id() != Identifier::from(self.id) {
+                return Err(AddError::InvalidSubject(Box::new(proof.subject_id())));
+            }
+
+            let is_proof_or_descendant = revocation.payload.revoke == *proof
+                || revocation.payload.revoke.payload.is_descendant_of(proof);
+            let is_party_to_proof = revocation.issuer == proof.issuer
+                || revocation.issuer == proof.payload.delegate.verifying_key();
+            if !(is_proof_or_descendant && is_party_to_proof) {
+                // Either the revoked delegation is not a descendant of the proof,
+                // or the revoker is neither the proof's issuer nor its delegate.
                 // Check if the revoker has transitive access through the
                 // proof's delegate (a group/doc intermediary).
                 let revoker_id = Identifier::from(revocation.issuer);
-- 
2.43.0


From 2a00a64761f9ec072ebc40104c876ff40d199ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 10/32] fix: do not admit operations whose proof has been
 revoked

rebuild looked for a replacement of a revoked proof among the delegations of
the proof's issuer rather than of the author who cited it, and let root proofs
and unknown issuers through. So a revoked member could keep adding members on
the strength of the revoked delegation.
---
 keyhive_core/src/principal/group.rs | 34 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 069d18c..483589e 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -781,14 +781,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if revoked_dlgs.contains(&found_proof.signature.to_bytes())
                             || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
                         {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if alt_proofs.iter().filter(|d| *d != found_proof).all(
-                                    |alt_proof| alt_proof.payload.can < found_proof.payload.can,
-                                ) {
-                                    // No suitable proofs
-                                    continue;
-                                }
-                            } else if found_proof.issuer != self.verifying_key() {
+                            // No suitable proofs
+                            if !self.has_alternative_proof(d.issuer.into(), found_proof) {
                                 continue;
                             }
                         }
@@ -815,13 +809,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if revoked_dlgs.contains(&found_proof.signature.to_bytes())
                             || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
                         {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if !alt_proofs
-                                    .iter()
-                                    .any(|p| p.payload.can >= found_proof.payload.can)
-                                {
-                                    continue;
-                                }
+                            if !self.has_alternative_proof(r.issuer.into(), found_proof) {
+                                continue;
                             }
                         }
                     } else if r.issuer != self.verifying_key() {
@@ -877,6 +866,21 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
     }
 
+    /// Whether the author of an operation, or the delegate of the proof it cites,
+    /// currently holds another delegation that is at least as powerful as that proof.
+    fn has_alternative_proof(
+        &self,
+        author: Identifier,
+        proof: &Arc<Signed<Delegation<F, S, T, L>>>,
+    ) -> bool {
+        [author, proof.payload.delegate.id()].iter().any(|id| {
+            self.members.get(id).is_some_and(|dlgs| {
+                dlgs.iter()
+                    .any(|dlg| dlg != proof && dlg.payload.can >= proof.payload.can)
+            })
+        })
+    }
+
     pub(crate) fn dummy_from_archive(
         archive: GroupArchive<T>,
         delegations: Arc<Mutex<DelegationStore<F, S, T, L>>>,
-- 
2.43.0


From 920325d79ffab1b047b8188a8b6d960b850844f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 11/32] fix: drop everything that depends on a revoked
 delegation

---
 keyhive_core/src/principal/group.rs | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 483589e..abd9ae6 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -700,20 +700,24 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     continue;
                 }
 
-                if let Some(proof) = &dlg.payload.proof {
-                    if proof.payload.delegate.id() == member_to_remove {
-                        let update = self
-                            .add_member_with_manual_content(
-                                dlg.payload.delegate.dupe(),
-                                dlg.payload.can,
-                                signer,
-                                after_content.clone(),
-                            )
-                            .await?;
-
-                        cgka_ops.extend(update.cgka_ops);
-                        redelegations.push(update.delegation);
-                    }
+                // The revocation drops everything that (transitively) depends on it
+                if dlg
+                    .payload
+                    .proof_lineage()
+                    .iter()
+                    .any(|proof| proof.payload.delegate.id() == member_to_remove)
+                {
+                    let update = self
+                        .add_member_with_manual_content(
+                            dlg.payload.delegate.dupe(),
+                            dlg.payload.can,
+                            signer,
+                            after_content.clone(),
+                        )
+                        .await?;
+
+                    cgka_ops.extend(update.cgka_ops);
+                    redelegations.push(update.delegation);
                 }
             }
         }
@@ -836,8 +840,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             for dlg_sig in dlg_sigs_to_revoke.iter() {
                                 revoked_dlgs.insert(*dlg_sig);
 
-                                if let Some(dep_dlg) = dlgs_in_play.remove(dlg_sig) {
-                                    next_to_revoke.push(dep_dlg.signature.to_bytes());
+                                // NOTE: taken out of play (and dropped) when it is popped
+                                if dlgs_in_play.contains_key(dlg_sig) {
+                                    next_to_revoke.push(*dlg_sig);
                                 }
                             }
                         }
-- 
2.43.0


From 07b6bf83ca8a8fa685488cd01744628bbf0e993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 12/32] fix: keep events that become pending during another
 ingestion

---
 keyhive_core/src/keyhive.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index f0399ba..6aba2c5 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -76,7 +76,6 @@ use std::{
     collections::{hash_map::Entry, BTreeMap, HashMap, HashSet},
     fmt::{Debug, Formatter},
     marker::PhantomData,
-    mem,
     sync::Arc,
 };
 use thiserror::Error;
@@ -2369,10 +2368,9 @@ impl<
 
                 let new_pending: Vec<Arc<StaticEvent<T>>> =
                     next_epoch.clone().into_iter().map(Arc::new).collect();
-                drop(mem::replace(
-                    &mut *self.pending_events.lock().await,
-                    new_pending.clone(),
-                ));
+                let mut pending = self.pending_events.lock().await;
+                pending.retain(|e| !replayed_pending.contains(&Digest::hash(e.as_ref())));
+                pending.extend(new_pending.iter().cloned());
                 return new_pending;
             }
 
-- 
2.43.0


From ebd212356ce5f169185cefc573dfb4d73bc4dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:46 +0000
Subject: [PATCH 13/32] fix: keep the group that a received delegation promotes
 an individual to

---
 keyhive_core/src/keyhive.rs | 142 ++++++++++++++++++++----------------
 1 file changed, 78 insertions(+), 64 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 6aba2c5..da32530 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -465,11 +465,9 @@ impl<
         ));
 
         {
-            let locked = group.lock().await;
-            self.groups
-                .lock()
-                .await
-                .insert(locked.group_id(), group.dupe());
+            let group_id = group.lock().await.group_id();
+            let mut locked_groups = self.groups.lock().await;
+            locked_groups.insert(group_id, group.dupe());
         }
         true
     }
@@ -1637,26 +1635,28 @@ impl<
         let subject_id = delegation.subject_id();
         let delegation = Arc::new(delegation);
         let mut found = false;
-        {
-            if let Some(group) = self.groups.lock().await.get(&GroupId(subject_id)) {
-                found = true;
-                group
-                    .lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(subject_id)) {
-                found = true;
-                doc.lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(indie) = self
-                .individuals
+        // NOTE each of these locks must be released before the next one is taken
+        let group = { self.groups.lock().await.get(&GroupId(subject_id)).cloned() };
+        let doc = { self.docs.lock().await.get(&DocumentId(subject_id)).cloned() };
+        if let Some(group) = group {
+            found = true;
+            group
                 .lock()
                 .await
-                .remove(&IndividualId(subject_id))
-            {
+                .receive_delegation(delegation.clone())
+                .await?;
+        } else if let Some(doc) = doc {
+            found = true;
+            doc.lock()
+                .await
+                .receive_delegation(delegation.clone())
+                .await?;
+        } else {
+            let individual = {
+                let mut locked_individuals = self.individuals.lock().await;
+                locked_individuals.remove(&IndividualId(subject_id))
+            };
+            if let Some(indie) = individual {
                 found = true;
                 self.promote_individual_to_group(indie, delegation.clone())
                     .await;
@@ -1718,43 +1718,55 @@ impl<
 
         let id = revocation.subject_id();
         let revocation = Arc::new(revocation);
-        if let Some(group) = self.groups.lock().await.get(&GroupId(id)) {
+        // NOTE each of these locks must be released before the next one is taken
+        let group = { self.groups.lock().await.get(&GroupId(id)).cloned() };
+        let doc = { self.docs.lock().await.get(&DocumentId(id)).cloned() };
+        if let Some(group) = group {
             group
                 .lock()
                 .await
                 .receive_revocation(revocation.clone())
                 .await?;
-        } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(id)) {
+        } else if let Some(doc) = doc {
             doc.lock()
                 .await
                 .receive_revocation(revocation.clone())
                 .await?;
-        } else if let Some(indie) = self.individuals.lock().await.remove(&IndividualId(id)) {
-            let group = self
-                .promote_individual_to_group(indie, revocation.payload.revoke.dupe())
-                .await;
-            group
-                .lock()
-                .await
-                .receive_revocation(revocation.clone())
-                .await?;
         } else {
-            let group = Arc::new(Mutex::new(
-                Group::new(
-                    GroupId(static_rev.issuer.into()),
-                    revocation.payload.revoke.dupe(),
-                    self.delegations.dupe(),
-                    self.revocations.dupe(),
-                    self.event_listener.clone(),
-                )
-                .await,
-            ));
+            let individual = {
+                let mut locked_individuals = self.individuals.lock().await;
+                locked_individuals.remove(&IndividualId(id))
+            };
+            if let Some(indie) = individual {
+                let group = self
+                    .promote_individual_to_group(indie, revocation.payload.revoke.dupe())
+                    .await;
+                group
+                    .lock()
+                    .await
+                    .receive_revocation(revocation.clone())
+                    .await?;
+            } else {
+                let group = Arc::new(Mutex::new(
+                    Group::new(
+                        GroupId(id),
+                        revocation.payload.revoke.dupe(),
+                        self.delegations.dupe(),
+                        self.revocations.dupe(),
+                        self.event_listener.clone(),
+                    )
+                    .await,
+                ));
 
-            {
-                let group2 = group.dupe();
-                let mut locked = group.lock().await;
-                self.groups.lock().await.insert(locked.group_id(), group2);
-                locked.receive_revocation(revocation.clone()).await?;
+                {
+                    let mut locked_groups = self.groups.lock().await;
+                    locked_groups.insert(GroupId(id), group.dupe());
+                }
+                group
+                    .lock()
+                    .await
+                    .receive_revocation(revocation.clone())
+                    .await?;
             }
         }
 
@@ -1866,12 +1878,18 @@ impl<
             .await,
         ));
 
-        let agent = Agent::Group(group.lock().await.group_id(), group.dupe());
+        let group_id = group.lock().await.group_id();
+        {
+            let mut locked_groups = self.groups.lock().await;
+            locked_groups.insert(group_id, group.dupe());
+        }
+
+        let agent = Agent::Group(group_id, group.dupe());
 
         {
             let mut locked_delegations = self.delegations.lock().await;
             for (_digest, dlg) in locked_delegations.clone().iter() {
-                if dlg.payload.delegate == agent {
+                if dlg.payload.delegate.id() == group_id.into() {
                     locked_delegations.insert(Arc::new(Signed::new(
                         Delegation {
                             delegate: agent.dupe(),
@@ -1888,24 +1906,20 @@ impl<
         }
 
         {
-            let group_id = group.lock().await.id();
+            let locked_delegations = self.delegations.lock().await;
             let mut locked_revocations = self.revocations.lock().await;
             for (_digest, rev) in locked_revocations.clone().iter() {
-                if rev.payload.subject_id() == group_id {
+                if rev.payload.subject_id() == group_id.into() {
                     locked_revocations.insert(Arc::new(Signed::new(
                         Revocation {
-                            revoke: self
-                                .delegations
-                                .lock()
-                                .await
+                            revoke: locked_delegations
                                 .get(&Digest::hash(&rev.payload.revoke))
-                                .expect("revoked delegation to be available")
-                                .dupe(),
-                            proof: if let Some(proof) = rev.payload.proof.dupe() {
-                                self.delegations.lock().await.get(&Digest::hash(&proof))
-                            } else {
-                                panic!("revoked delegation to be available");
-                            },
+                                .unwrap_or_else(|| rev.payload.revoke.dupe()),
+                            proof: rev.payload.proof.dupe().map(|proof| {
+                                locked_delegations
+                                    .get(&Digest::hash(&proof))
+                                    .unwrap_or(proof)
+                            }),
                             after_content: rev.payload.after_content.clone(),
                         },
                         rev.issuer,
-- 
2.43.0


From f8fe0ace3a645ce0ec038e4cf5546dbc6248d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 14/32] fix: announce a received revocation once, after it was
 accepted

---
 keyhive_core/src/principal/group.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index abd9ae6..54c6c69 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -431,9 +431,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         revocation: Arc<Signed<Revocation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Revocation<F, S, T, L>>>, error::AddError> {
-        self.listener.on_revocation(&revocation).await;
-        let digest = self.state.add_revocation(revocation).await?;
+        let digest = self.state.add_revocation(revocation.dupe()).await?;
         self.rebuild().await;
+        self.listener.on_revocation(&revocation).await;
         Ok(digest)
     }
 
@@ -686,10 +686,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        for r in revocations.iter() {
-            self.listener.on_revocation(r).await
-        }
-
         let mut cgka_ops = Vec::new();
 
         let mut redelegations = vec![];
-- 
2.43.0


From 848a73f9fcb7a1de1a925662b7b571307a25870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 15/32] fix: attenuate transitive access along the whole
 membership path

---
 keyhive_core/src/principal/group.rs | 35 ++++++++++-------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 54c6c69..cb984a2 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -281,15 +281,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         let mut explore: Vec<GroupAccess<F, S, T, L>> = vec![];
-        let mut seen: HashSet<([u8; 64], Access)> = HashSet::new();
 
         for member in self.members.keys() {
             let dlg = self
                 .get_capability(member)
                 .expect("members have capabilities by defintion");
 
-            seen.insert((dlg.signature.to_bytes(), Access::Admin));
-
             explore.push(GroupAccess {
                 agent: dlg.payload.delegate.clone(),
                 agent_access: dlg.payload.can,
@@ -310,36 +307,28 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 continue;
             }
 
-            let best_access = *caps
-                .get(&id)
-                .map(|(_, existing_access)| existing_access.max(&access))
-                .unwrap_or(&access);
-
+            // A path grants no more than its weakest link
             let current_path_access = access.min(parent_access);
-            caps.insert(member.id(), (member.dupe(), current_path_access));
+            if let Some((_, existing_access)) = caps.get(&id) {
+                if *existing_access >= current_path_access {
+                    // Already explored along a path that is at least as powerful
+                    continue;
+                }
+            }
+
+            caps.insert(id, (member.dupe(), current_path_access));
 
             if let Some(membered) = match member {
                 Agent::Group(id, inner_group) => Some(Membered::Group(id, inner_group.dupe())),
                 Agent::Document(id, doc) => Some(Membered::Document(id, doc.dupe())),
                 _ => None,
             } {
-                for (mem_id, dlgs) in membered.members().await.iter() {
-                    let dlg = membered
-                        .get_capability(mem_id)
-                        .await
-                        .expect("members have capabilities by defintion");
-
-                    caps.insert(*mem_id, (dlg.payload.delegate.dupe(), best_access));
-
-                    'inner: for sub_dlg in dlgs.iter() {
-                        if !seen.insert((sub_dlg.signature.to_bytes(), dlg.payload.can)) {
-                            continue 'inner;
-                        }
-
+                for dlgs in membered.members().await.values() {
+                    for sub_dlg in dlgs.iter() {
                         explore.push(GroupAccess {
                             agent: sub_dlg.payload.delegate.dupe(),
                             agent_access: sub_dlg.payload.can,
-                            parent_access: best_access,
+                            parent_access: current_path_access,
                         });
                     }
                 }
-- 
2.43.0


From debc411389742d7aefa66769be241ea9a4cc4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 16/32] fix: replay pending key-tree operations before looking
 up the member to add or remove

---
 beekem/src/cgka.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 6579c66..869f481 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -242,12 +242,12 @@ impl Cgka {
         pk: ShareKey,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         // The tree is only replaced once the operation is signed
         let mut tree = self.tree.clone();
         let leaf_index = tree.push_leaf(id, pk.into());
@@ -288,12 +288,12 @@ impl Cgka {
         id: MemberId,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if !self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if !self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         if self.group_size() == 1 {
             return Err(CgkaError::RemoveLastMember);
         }
-- 
2.43.0


From 30ed92f8a405b90de448c0c174095470566ec0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 17/32] fix: hand the keys of a document only to members that
 may read it

---
 keyhive_core/src/principal/agent.rs | 13 +++++++++++--
 keyhive_core/src/principal/group.rs |  6 +++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/keyhive_core/src/principal/agent.rs b/keyhive_core/src/principal/agent.rs
index e2e71d9..9dd37c4 100644
--- a/keyhive_core/src/principal/agent.rs
+++ b/keyhive_core/src/principal/agent.rs
@@ -119,6 +119,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         ids
     }
 
+    /// Pick a prekey for each individual that this agent stands for.
+    ///
+    /// Members that may not read are skipped: these keys end up in the [`Cgka`].
+    ///
+    /// [`Cgka`]: beekem::cgka::Cgka
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
@@ -152,7 +157,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     let locked_group = g.lock().await;
                     for ms in locked_group.members().values() {
                         for m in ms {
-                            stack.push(m.payload.delegate.dupe());
+                            if m.payload.can.is_reader() {
+                                stack.push(m.payload.delegate.dupe());
+                            }
                         }
                     }
                 }
@@ -160,7 +167,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     let locked_doc = d.lock().await;
                     for ms in locked_doc.members().values() {
                         for m in ms {
-                            stack.push(m.payload.delegate.dupe());
+                            if m.payload.can.is_reader() {
+                                stack.push(m.payload.delegate.dupe());
+                            }
                         }
                     }
                 }
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index cb984a2..1a4e2b2 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -248,7 +248,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     ) -> HashMap<IndividualId, ShareKey> {
         let mut prekeys = HashMap::new();
         let public_id = crate::principal::public::Public.id();
-        for (id, (agent, _access)) in self.transitive_members().await.iter() {
+        for (id, (agent, access)) in self.transitive_members().await.iter() {
+            if !access.is_reader() {
+                continue;
+            }
+
             // Public must always be added with its single well-known key.
             if *id == public_id {
                 prekeys.insert(
-- 
2.43.0


From 328cc488ca617d5b93f9aa99298879f89a1813c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 18/32] fix: extend the key tree of a document only through
 groups that may read it

---
 keyhive_core/src/keyhive.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index da32530..31526f9 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -512,17 +512,18 @@ impl<
                     let group_identifier: Identifier = (*group_id).into();
                     let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
                     for doc in &docs {
-                        let (contains_group, doc_id) = {
+                        let (group_can_read, doc_id) = {
                             let locked = doc.lock().await;
                             (
                                 locked
                                     .transitive_members()
                                     .await
-                                    .contains_key(&group_identifier),
+                                    .get(&group_identifier)
+                                    .is_some_and(|(_, access)| access.is_reader()),
                                 locked.doc_id(),
                             )
                         };
-                        if !contains_group {
+                        if !group_can_read {
                             continue;
                         }
                         // Document lock is intentionally dropped before `pick_individual_prekeys`,
-- 
2.43.0


From 23946ca2e663ff7bb1402101a4fbbab3d8a9a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 19/32] fix: take keys away from everyone who loses read access
 through a revocation

---
 keyhive_core/src/keyhive.rs            | 165 +++++++++++--------------
 keyhive_core/src/principal/document.rs |  30 +++--
 2 files changed, 91 insertions(+), 104 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 31526f9..1e78398 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -497,53 +497,13 @@ impl<
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>], // TODO make this automatic
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let update = match resource {
-            Membered::Group(group_id, group) => {
-                let mut update = group
+        let mut update = match resource {
+            Membered::Group(_, group) => {
+                group
                     .lock()
                     .await
                     .add_member(to_add, can, &signer, other_relevant_docs)
-                    .await?;
-
-                // Propagate CGKA adds to docs that contain this group.
-                // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-                // (possibly with a reverse index lookup).
-                if can.is_reader() {
-                    let group_identifier: Identifier = (*group_id).into();
-                    let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                    for doc in &docs {
-                        let (group_can_read, doc_id) = {
-                            let locked = doc.lock().await;
-                            (
-                                locked
-                                    .transitive_members()
-                                    .await
-                                    .get(&group_identifier)
-                                    .is_some_and(|(_, access)| access.is_reader()),
-                                locked.doc_id(),
-                            )
-                        };
-                        if !group_can_read {
-                            continue;
-                        }
-                        // Document lock is intentionally dropped before `pick_individual_prekeys`,
-                        // which may lock groups (walking group members to find
-                        // individuals).
-                        let prekeys = update
-                            .delegation
-                            .payload
-                            .delegate
-                            .pick_individual_prekeys(doc_id)
-                            .await;
-                        let mut locked_doc = doc.lock().await;
-                        let ops = locked_doc
-                            .add_cgka_members_from_prekeys(&prekeys, &signer)
-                            .await?;
-                        update.cgka_ops.extend(ops);
-                    }
-                }
-
-                update
+                    .await?
             }
             Membered::Document(_, doc) => {
                 let mut locked = doc.lock().await;
@@ -553,6 +513,44 @@ impl<
             }
         };
 
+        // Propagate CGKA adds to (other) docs that contain this group or document.
+        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
+        // (possibly with a reverse index lookup).
+        if can.is_reader() {
+            let resource_id: Identifier = resource.agent_id().into();
+            let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+            for doc in &docs {
+                let (resource_can_read, doc_id) = {
+                    let locked = doc.lock().await;
+                    (
+                        locked
+                            .transitive_members()
+                            .await
+                            .get(&resource_id)
+                            .is_some_and(|(_, access)| access.is_reader()),
+                        locked.doc_id(),
+                    )
+                };
+                if !resource_can_read {
+                    continue;
+                }
+                // Document lock is intentionally dropped before `pick_individual_prekeys`,
+                // which may lock groups (walking group members to find
+                // individuals).
+                let prekeys = update
+                    .delegation
+                    .payload
+                    .delegate
+                    .pick_individual_prekeys(doc_id)
+                    .await;
+                let mut locked_doc = doc.lock().await;
+                let ops = locked_doc
+                    .add_cgka_members_from_prekeys(&prekeys, &signer)
+                    .await?;
+                update.cgka_ops.extend(ops);
+            }
+        }
+
         for cgka_op in &update.cgka_ops {
             self.event_listener
                 .on_cgka_op(&Arc::new(cgka_op.clone()))
@@ -578,27 +576,21 @@ impl<
 
         let signer = { self.active.lock().await.signer.clone() };
 
-        // When revoking from a group, collect the revoked member's individual
-        // IDs before the revocation removes them from the members map.
-        let revoked_individual_ids: HashSet<IndividualId> = match resource {
-            Membered::Group(_, group) => {
-                let delegates: Vec<Agent<F, S, T, L>> = {
-                    let locked = group.lock().await;
-                    locked
-                        .members()
-                        .get(&to_revoke)
-                        .into_iter()
-                        .flat_map(|ds| ds.iter().map(|d| d.payload().delegate.dupe()))
-                        .collect()
-                };
-                let mut ids = HashSet::new();
-                for d in &delegates {
-                    ids.extend(d.individual_ids().await);
+        // Collect who can read the (other) docs that contain this group or document
+        // before the revocation removes members from it.
+        let resource_id: Identifier = resource.agent_id().into();
+        let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+        let mut containing_docs = vec![];
+        for doc in docs {
+            let readers = {
+                let locked = doc.lock().await;
+                if !locked.transitive_members().await.contains_key(&resource_id) {
+                    continue;
                 }
-                ids
-            }
-            _ => HashSet::new(),
-        };
+                locked.reader_ids().await
+            };
+            containing_docs.push((doc, readers));
+        }
 
         let mut update = resource
             .revoke_member(
@@ -609,37 +601,20 @@ impl<
             )
             .await?;
 
-        // Propagate CGKA removals to docs that contain this group.
+        // Propagate CGKA removals to docs that contain this group or document: everyone who
+        // could read them up to now, but no longer can.
         // TODO: O(# of docs x `transitive_members()`). We should replace this approach
         // (possibly with a reverse index lookup).
-        if let Membered::Group(group_id, _) = resource {
-            if !revoked_individual_ids.is_empty() {
-                let group_identifier: Identifier = (*group_id).into();
-                let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                for doc in &docs {
-                    let transitive = {
-                        let locked = doc.lock().await;
-                        locked.transitive_members().await
-                    };
-                    if !transitive.contains_key(&group_identifier) {
-                        continue;
-                    }
-                    let still_reachable: HashSet<IndividualId> = transitive
-                        .into_iter()
-                        .filter_map(|(_, (agent, _))| match agent {
-                            Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
-                            _ => None,
-                        })
-                        .collect();
-                    let mut locked_doc = doc.lock().await;
-                    for &id in &revoked_individual_ids {
-                        if still_reachable.contains(&id) {
-                            continue;
-                        }
-                        if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
-                            update.cgka_ops.push(op);
-                        }
-                    }
+        let mut failure = None;
+        for (doc, previous_readers) in containing_docs {
+            let mut locked_doc = doc.lock().await;
+            let readers = locked_doc.reader_ids().await;
+            for &id in previous_readers.difference(&readers) {
+                match locked_doc.remove_cgka_member(id, &signer).await {
+                    Ok(Some(op)) => update.cgka_ops.push(op),
+                    Ok(None) => {}
+                    Err(CgkaError::NotInitialized) => {} // No keys to take away
+                    Err(e) => failure = Some(e),
                 }
             }
         }
@@ -650,6 +625,10 @@ impl<
                 .await;
         }
 
+        if let Some(e) = failure {
+            return Err(e.into());
+        }
+
         Ok(update)
     }
 
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 9c02e05..ebcc2e5 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -133,6 +133,18 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.group.transitive_members().await
     }
 
+    /// The individuals that can currently read this document, directly or transitively.
+    pub(crate) async fn reader_ids(&self) -> HashSet<IndividualId> {
+        self.transitive_members()
+            .await
+            .into_values()
+            .filter_map(|(agent, access)| match agent {
+                Agent::Individual(id, _) | Agent::Active(id, _) if access.is_reader() => Some(id),
+                _ => None,
+            })
+            .collect()
+    }
+
     pub fn revoked_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         self.group.revoked_members()
     }
@@ -298,12 +310,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_other_doc_content: &mut BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
-        // Collect individual IDs from the member being revoked before the
-        // group revocation removes them from the members map.
-        let mut ids_to_remove = HashSet::new();
-        for d in self.group.members.get(&member_id).into_iter().flatten() {
-            ids_to_remove.extend(d.payload().delegate.individual_ids().await);
-        }
+        // Collect who can read before the group revocation removes the member, and
+        // everyone whose access depends on it, from the members map.
+        let previous_readers = self.reader_ids().await;
 
         let RevokeMemberUpdate {
             revocations,
@@ -319,14 +328,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             )
             .await?;
 
-        // After revocation, check which individuals are still reachable via
-        // remaining members. Only remove those that are no longer reachable.
-        let still_reachable = self.group.individual_ids().await;
-        ids_to_remove.retain(|id| !still_reachable.contains(id));
+        // After revocation, check which individuals can still read via
+        // remaining members. Only remove those that no longer can.
+        let readers = self.reader_ids().await;
 
         // FIXME: We need to check if this has revoked the last member in our group.
         let mut ops = cgka_ops;
-        for id in ids_to_remove {
+        for &id in previous_readers.difference(&readers) {
             if let Some(op) = self.cgka_mut()?.remove(id, signer).await? {
                 ops.push(op);
             }
-- 
2.43.0


From 4773ea004e37aab9d2232ded8780f5074634daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 20/32] fix: ingest the pending events and key-tree operations
 of an archive

---
 keyhive_core/src/keyhive.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 1e78398..00655dd 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2290,7 +2290,7 @@ impl<
                 locked_indies.insert(id, Arc::new(Mutex::new(indie)));
             }
         }
-        let events = archive
+        let mut events = archive
             .topsorted_ops
             .into_iter()
             .map(|(_, op)| match op {
@@ -2298,6 +2298,16 @@ impl<
                 StaticMembershipOperation::Revocation(signed) => StaticEvent::Revoked(signed),
             })
             .collect::<Vec<_>>();
+        for doc in archive.docs.into_values() {
+            if let Some(cgka) = doc.cgka {
+                for epoch in cgka.ops().map_err(ReceiveCgkaOpError::from)? {
+                    for op in epoch.iter() {
+                        events.push(StaticEvent::CgkaOperation(Box::new(op.as_ref().clone())));
+                    }
+                }
+            }
+        }
+        events.extend(archive.pending_events);
         Ok(self.ingest_unsorted_static_events(events).await)
     }
 
-- 
2.43.0


From 7ae131a1643a6c20a8ff0721ff0733ab331b61c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 21/32] fix: do not lock a group again while walking a
 membership cycle through it

---
 keyhive_core/src/principal/agent.rs       |  3 ++-
 keyhive_core/src/principal/group.rs       | 14 +++++++++++---
 keyhive_core/src/principal/group/state.rs |  8 +++++++-
 keyhive_core/src/principal/membered.rs    | 23 +++++++++++++++++++++++
 4 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/principal/agent.rs b/keyhive_core/src/principal/agent.rs
index 9dd37c4..dadf24a 100644
--- a/keyhive_core/src/principal/agent.rs
+++ b/keyhive_core/src/principal/agent.rs
@@ -129,7 +129,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         doc_id: DocumentId,
     ) -> HashMap<IndividualId, ShareKey> {
         let mut result = HashMap::new();
-        let mut seen = HashSet::new();
+        // The document's own members already have its keys (and the caller may have locked it)
+        let mut seen = HashSet::from([Identifier::from(doc_id)]);
         let mut stack: Vec<Self> = vec![self.dupe()];
 
         while let Some(agent) = stack.pop() {
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 1a4e2b2..0389bf1 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -273,6 +273,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        self.transitive_members_except(self.id()).await
+    }
+
+    /// The transitive members of this group, without (locking and) walking through `except`.
+    pub(crate) async fn transitive_members_except(
+        &self,
+        except: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         struct GroupAccess<
             G: FutureForm,
             Z: AsyncSigner<G>,
@@ -307,7 +315,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }) = explore.pop()
         {
             let id = member.id();
-            if id == self.id() {
+            if id == self.id() || id == except {
                 continue;
             }
 
@@ -492,7 +500,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     .expect("members have capabilities by definition");
 
                 if let Some(m) = dlg.payload.delegate.as_membered() {
-                    let sub_members = m.transitive_members().await;
+                    let sub_members = m.transitive_members_except(self.id()).await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                         if *sub_access >= can {
                             best_proof = Some(dlg.dupe());
@@ -652,7 +660,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             .expect("members have capabilities by definition");
 
                         if let Some(m) = dlg.payload.delegate.as_membered() {
-                            let sub_members = m.transitive_members().await;
+                            let sub_members = m.transitive_members_except(self.id()).await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                                 if *sub_access >= to_revoke.payload.can {
                                     let r = self
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 61bd16b..5e07bf3 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -171,6 +171,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 // Check transitive membership through a group/doc intermediary.
                 let head_id = Identifier::from(head.verifying_key());
                 if !is_transitive_member_of(
+                    self.id.into(),
                     &proof.payload.delegate,
                     head_id,
                     delegation.payload.can,
@@ -227,6 +228,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 // proof's delegate (a group/doc intermediary).
                 let revoker_id = Identifier::from(revocation.issuer);
                 if !is_transitive_member_of(
+                    self.id.into(),
                     &proof.payload.delegate,
                     revoker_id,
                     revocation.payload.revoke.payload.can,
@@ -250,6 +252,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 if head.verifying_key() != next_proof.payload.delegate.verifying_key() {
                     let head_id = Identifier::from(head.verifying_key());
                     if !is_transitive_member_of(
+                        self.id.into(),
                         &next_proof.payload.delegate,
                         head_id,
                         proof.payload.can,
@@ -316,12 +319,15 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 }
 
+/// Whether `member_id` is a member of `delegate` other than through `group_id`,
+/// the group that is being changed (and is already locked).
 async fn is_transitive_member_of<
     F: FutureForm,
     S: AsyncSigner<F>,
     T: ContentRef,
     L: MembershipListener<F, S, T>,
 >(
+    group_id: Identifier,
     delegate: &Agent<F, S, T, L>,
     member_id: Identifier,
     min_access: Access,
@@ -329,7 +335,7 @@ async fn is_transitive_member_of<
     let Some(m) = delegate.as_membered() else {
         return false;
     };
-    m.transitive_members()
+    m.transitive_members_except(group_id)
         .await
         .get(&member_id)
         .map(|(_, access)| *access >= min_access)
diff --git a/keyhive_core/src/principal/membered.rs b/keyhive_core/src/principal/membered.rs
index 55bb547..a1d1260 100644
--- a/keyhive_core/src/principal/membered.rs
+++ b/keyhive_core/src/principal/membered.rs
@@ -105,6 +105,29 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
     }
 
+    /// The transitive members, without (locking and) walking through `except`.
+    ///
+    /// For callers that have already locked `except`: membership may be cyclic.
+    pub(crate) async fn transitive_members_except(
+        &self,
+        except: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        if Identifier::from(self.agent_id()) == except {
+            return HashMap::new();
+        }
+
+        match self {
+            Membered::Group(_, group) => {
+                let locked = group.lock().await;
+                locked.transitive_members_except(except).await
+            }
+            Membered::Document(_, doc) => {
+                let locked = doc.lock().await;
+                locked.group.transitive_members_except(except).await
+            }
+        }
+    }
+
     #[allow(clippy::type_complexity)]
     pub async fn add_member(
         &self,
-- 
2.43.0


From 78a5d8fdd8ed46cf92f6fc122f1b0ce0089a4cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 22/32] fix: restore the revocations in force when loading an
 archive

---
 keyhive_core/src/keyhive.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 00655dd..039bd58 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2188,6 +2188,9 @@ impl<
                 );
             }
 
+            // The revocations in force are not archived
+            group.rebuild().await;
+
             Ok(())
         }
 
-- 
2.43.0


From ef1ec71a3a69570fe572b49b85ee6f04883a35d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 23/32] fix: check the hash of each value when reading a
 content-addressed map

CaMap trusted the hashes given to it by deserialised data and by Extend, so
a value could be stored (and later returned) under a foreign hash.
---
 beekem/src/content_addressed_map.rs           | 20 +++++++++++++++++--
 .../src/util/content_addressed_map.rs         | 20 +++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/beekem/src/content_addressed_map.rs b/beekem/src/content_addressed_map.rs
index 0d92a28..a704d34 100644
--- a/beekem/src/content_addressed_map.rs
+++ b/beekem/src/content_addressed_map.rs
@@ -13,7 +13,7 @@ use serde::{Deserialize, Serialize};
 ///
 /// Since all operations are referenced by their hash,
 /// a map that indexes by the same cryptographic hash is convenient.
-#[derive(Debug, PartialEq, Eq, Deserialize)]
+#[derive(Debug, PartialEq, Eq)]
 pub struct CaMap<T: Serialize>(pub Map<Digest<T>, Arc<T>>);
 
 impl<T: Serialize> Clone for CaMap<T> {
@@ -174,12 +174,28 @@ impl<T: Serialize> Serialize for CaMap<T> {
     }
 }
 
+impl<'de, T: Serialize + Deserialize<'de>> Deserialize<'de> for CaMap<T> {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let entries = BTreeMap::<Digest<T>, T>::deserialize(deserializer)?;
+        let mut map = Self::new();
+        for (hash, value) in entries {
+            if map.insert(Arc::new(value)) != hash {
+                return Err(serde::de::Error::custom("value stored under a foreign hash"));
+            }
+        }
+        Ok(map)
+    }
+}
+
 impl<T: Serialize> Extend<(Digest<T>, Arc<T>)> for CaMap<T> {
     fn extend<I>(&mut self, iter: I)
     where
         I: IntoIterator<Item = (Digest<T>, Arc<T>)>,
     {
-        self.0.extend(iter);
+        // Never trust the given hashes
+        for (_, value) in iter {
+            self.insert(value);
+        }
     }
 }
 
diff --git a/keyhive_core/src/util/content_addressed_map.rs b/keyhive_core/src/util/content_addressed_map.rs
index a9e8158..1403693 100644
--- a/keyhive_core/src/util/content_addressed_map.rs
+++ b/keyhive_core/src/util/content_addressed_map.rs
@@ -11,7 +11,7 @@ use std::{
 ///
 /// Since all operations are referenced by their hash,
 /// a map that indexes by the same cryptographic hash is convenient.
-#[derive(Debug, PartialEq, Eq, Deserialize)]
+#[derive(Debug, PartialEq, Eq)]
 #[derive_where(Clone)]
 pub struct CaMap<T: Serialize>(pub(crate) HashMap<Digest<T>, Arc<T>>);
 
@@ -174,6 +174,19 @@ impl<T: Serialize> Serialize for CaMap<T> {
     }
 }
 
+impl<'de, T: Serialize + Deserialize<'de>> Deserialize<'de> for CaMap<T> {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let entries = BTreeMap::<Digest<T>, T>::deserialize(deserializer)?;
+        let mut map = Self::new();
+        for (hash, value) in entries {
+            if map.insert(Arc::new(value)) != hash {
+                return Err(serde::de::Error::custom("value stored under a foreign hash"));
+            }
+        }
+        Ok(map)
+    }
+}
+
 impl<T: Serialize> IntoIterator for CaMap<T> {
     type Item = (Digest<T>, Arc<T>);
     type IntoIter = std::collections::hash_map::IntoIter<Digest<T>, Arc<T>>;
@@ -197,7 +210,10 @@ impl<T: Serialize> Extend<(Digest<T>, Arc<T>)> for CaMap<T> {
     where
         I: IntoIterator<Item = (Digest<T>, Arc<T>)>,
     {
-        self.0.extend(iter);
+        // Never trust the given hashes
+        for (_, value) in iter {
+            self.insert(value);
+        }
     }
 }
 
-- 
2.43.0


From f72cf5f6edbd4e45cf60689b0b7cb0836e3cf9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 24/32] fix: do not let other crates bypass the hashing of
 CaMap

The map inside was public, so any crate could store a value under a foreign
hash.
---
 beekem/src/content_addressed_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beekem/src/content_addressed_map.rs b/beekem/src/content_addressed_map.rs
index a704d34..e7adefe 100644
--- a/beekem/src/content_addressed_map.rs
+++ b/beekem/src/content_addressed_map.rs
@@ -14,7 +14,7 @@ use serde::{Deserialize, Serialize};
 /// Since all operations are referenced by their hash,
 /// a map that indexes by the same cryptographic hash is convenient.
 #[derive(Debug, PartialEq, Eq)]
-pub struct CaMap<T: Serialize>(pub Map<Digest<T>, Arc<T>>);
+pub struct CaMap<T: Serialize>(pub(crate) Map<Digest<T>, Arc<T>>);
 
 impl<T: Serialize> Clone for CaMap<T> {
     fn clone(&self) -> Self {
-- 
2.43.0


From 32db0dea0c23aec32a9966a61747cae7ac46f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 25/32] fix: the public principal is always added with its
 well-known key

---
 keyhive_core/src/principal/individual.rs | 7 ++++++-
 keyhive_core/src/principal/public.rs     | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index 17a2f6d..facd8c8 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -5,7 +5,7 @@ pub mod op;
 pub mod state;
 
 use self::op::KeyOp;
-use super::{agent::id::AgentId, document::id::DocumentId};
+use super::{agent::id::AgentId, document::id::DocumentId, public::Public};
 use crate::{
     contact_card::ContactCard,
     transact::{fork::Fork, merge::Merge},
@@ -117,6 +117,11 @@ impl Individual {
 
     #[instrument(skip(self), fields(indie_id = %self.id))]
     pub fn pick_prekey(&self, doc_id: DocumentId) -> &ShareKey {
+        // Public must always be added with its single well-known key.
+        if self.id == IndividualId(Public.id()) {
+            return Public.share_key_ref();
+        }
+
         let mut bytes: Vec<u8> = self.id.to_bytes().to_vec();
         bytes.extend_from_slice(&doc_id.to_bytes());
 
diff --git a/keyhive_core/src/principal/public.rs b/keyhive_core/src/principal/public.rs
index d32369f..8a60154 100644
--- a/keyhive_core/src/principal/public.rs
+++ b/keyhive_core/src/principal/public.rs
@@ -52,7 +52,11 @@ impl Public {
     }
 
     pub fn share_key(&self) -> ShareKey {
-        *PUBLIC_SHARE_KEY
+        *self.share_key_ref()
+    }
+
+    pub(crate) fn share_key_ref(&self) -> &'static ShareKey {
+        &PUBLIC_SHARE_KEY
     }
 
     pub fn individual(&self) -> Individual {
-- 
2.43.0


From 3a6e0f3edd786645b14ce908f4238bfbe411f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 26/32] fix: an individual stays known until the group it is
 promoted to is

---
 keyhive_core/src/keyhive.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 039bd58..120e304 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1632,10 +1632,7 @@ impl<
                 .receive_delegation(delegation.clone())
                 .await?;
         } else {
-            let individual = {
-                let mut locked_individuals = self.individuals.lock().await;
-                locked_individuals.remove(&IndividualId(subject_id))
-            };
+            let individual = self.get_individual(IndividualId(subject_id)).await;
             if let Some(indie) = individual {
                 found = true;
                 self.promote_individual_to_group(indie, delegation.clone())
@@ -1713,10 +1710,7 @@ impl<
                 .receive_revocation(revocation.clone())
                 .await?;
         } else {
-            let individual = {
-                let mut locked_individuals = self.individuals.lock().await;
-                locked_individuals.remove(&IndividualId(id))
-            };
+            let individual = self.get_individual(IndividualId(id)).await;
             if let Some(indie) = individual {
                 let group = self
                     .promote_individual_to_group(indie, revocation.payload.revoke.dupe())
@@ -1863,6 +1857,11 @@ impl<
             let mut locked_groups = self.groups.lock().await;
             locked_groups.insert(group_id, group.dupe());
         }
+        {
+            // Only once the group is known, so that the identifier is never unknown
+            let mut locked_individuals = self.individuals.lock().await;
+            locked_individuals.remove(&IndividualId(group_id.into()));
+        }
 
         let agent = Agent::Group(group_id, group.dupe());
 
-- 
2.43.0


From d246ae79f8e5568f7e6b6b6b6b01af2bc09319b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 27/32] fix: a received delegation never makes the public
 principal a group

---
 keyhive_core/src/keyhive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 120e304..9cf7cda 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1613,6 +1613,11 @@ impl<
         let delegation = Signed::new(payload, static_dlg.issuer, static_dlg.signature);
 
         let subject_id = delegation.subject_id();
+        // Anyone can sign for Public, which must stay an individual.
+        if subject_id == Public.id() {
+            return Ok(());
+        }
+
         let delegation = Arc::new(delegation);
         let mut found = false;
         // NOTE each of these locks must be released before the next one is taken
-- 
2.43.0


From dc35c4728ce9dd6df591a4794652584ab6e52704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 28/32] fix: a group made from a delegation has the
 delegation's subject as its id

---
 keyhive_core/src/keyhive.rs               | 2 +-
 keyhive_core/src/principal/group/state.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 9cf7cda..db0726a 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -455,7 +455,7 @@ impl<
 
         let group = Arc::new(Mutex::new(
             Group::new(
-                GroupId(root_delegation.issuer.into()),
+                GroupId(root_delegation.subject_id()),
                 Arc::new(root_delegation),
                 self.delegations.dupe(),
                 self.revocations.dupe(),
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 5e07bf3..64e9ac7 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -49,7 +49,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         delegations: Arc<Mutex<DelegationStore<F, S, T, L>>>,
         revocations: Arc<Mutex<RevocationStore<F, S, T, L>>>,
     ) -> Self {
-        let id = GroupId(delegation_head.verifying_key().into());
+        let id = GroupId(delegation_head.subject_id());
         let mut heads = vec![delegation_head.dupe()];
 
         while let Some(head) = heads.pop() {
-- 
2.43.0


From 8d0b55a68ba7b248c28fd68a2108bcf0d3e681c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 29/32] fix: generate_doc no longer holds the random source
 while it waits for the active agent, which deadlocked with expand_prekeys

---
 keyhive_core/src/principal/document.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index ebcc2e5..35cf364 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -176,9 +176,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         csprng: Arc<Mutex<R>>,
     ) -> Result<Self, GenerateDocError> {
-        let mut locked_csprng = csprng.lock().await;
         let (group_result, group_vk) =
-            EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
+            EphemeralSigner::with_signer(&mut *csprng.lock().await, |verifier, signer| {
                 Group::generate_after_content(
                     signer,
                     verifier,
@@ -196,7 +195,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let group = group_result.await?;
         let owner_id = IndividualId(group_vk.into());
         let doc_id = DocumentId(group.id());
-        let owner_share_secret_key = ShareSecretKey::generate(&mut *locked_csprng);
+        let owner_share_secret_key = ShareSecretKey::generate(&mut *csprng.lock().await);
         let owner_share_key = owner_share_secret_key.share_key();
         let group_members = group.pick_individual_prekeys(doc_id).await;
         let other_members: Vec<(IndividualId, ShareKey)> = group_members
@@ -219,7 +218,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 owner_share_key,
                 owner_share_secret_key,
                 signer,
-                &mut *locked_csprng,
+                &mut *csprng.lock().await,
             )
             .await?;
 
-- 
2.43.0


From 913d71bbec7b8ae3b25ec1959ab5c6ee38504f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 30/32] fix: encrypting and key updates lock the document
 before the random source, not after

---
 keyhive_core/src/keyhive.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index db0726a..edbac04 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -659,9 +659,9 @@ impl<
     ) -> Result<(EncryptedContentWithUpdate<T>, SymmetricKey), EncryptContentError> {
         let signer = { self.active.lock().await.signer.clone() };
         let (result, application_secret_key) = {
+            let mut locked_doc = doc.lock().await;
             let mut locked_csprng = self.csprng.lock().await;
-            doc.lock()
-                .await
+            locked_doc
                 .try_encrypt_content_keyed(
                     content_ref,
                     content,
@@ -722,12 +722,11 @@ impl<
         doc: Arc<Mutex<Document<F, S, T, L>>>,
     ) -> Result<(Signed<CgkaOperation>, ShareKey, ShareSecretKey), EncryptError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let mut locked_csprng = self.csprng.lock().await;
-        let (op, new_share_key, new_share_secret_key) = doc
-            .lock()
-            .await
-            .pcs_update(&signer, &mut *locked_csprng)
-            .await?;
+        let (op, new_share_key, new_share_secret_key) = {
+            let mut locked_doc = doc.lock().await;
+            let mut locked_csprng = self.csprng.lock().await;
+            locked_doc.pcs_update(&signer, &mut *locked_csprng).await?
+        };
         self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;
         Ok((op, new_share_key, new_share_secret_key))
     }
-- 
2.43.0


From c8d59c44a31adfc6fa9bafd3ec4a181e9d364844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 31/32] fix: the revocation store is not held while the groups
 of revocations are locked

---
 keyhive_core/src/keyhive.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index edbac04..78f5fab 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1046,8 +1046,14 @@ impl<
         // (i.e., fully revoked agents), so that those revocation events can be
         // synced to the revoked peer.
         {
-            let revocations = self.revocations.lock().await;
-            for (agent_id, agent_revs) in revocations.all_agent_revocations() {
+            let all_agent_revocations: Vec<_> = self
+                .revocations
+                .lock()
+                .await
+                .all_agent_revocations()
+                .map(|(agent_id, revs)| (*agent_id, revs.clone()))
+                .collect();
+            for (agent_id, agent_revs) in &all_agent_revocations {
                 let identifier: Identifier = (*agent_id).into();
                 let agent_ops = ops.entry(identifier).or_default();
                 let mut visited: HashSet<Digest<MembershipOperation<F, S, T, L>>> =
-- 
2.43.0


From 7de5a1e028be165a502172d862fac9299f6940ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 32/32] fix: the active agent is not held while documents are
 locked

---
 keyhive_core/src/keyhive.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 78f5fab..156d387 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -734,8 +734,8 @@ impl<
     #[instrument(skip_all)]
     pub async fn reachable_docs(&self) -> BTreeMap<DocumentId, Ability<F, S, T, L>> {
         let active = self.active.dupe();
-        let locked_active = self.active.lock().await;
-        self.docs_reachable_by_agent(&Agent::Active(locked_active.id(), active))
+        let active_id = { self.active.lock().await.id() };
+        self.docs_reachable_by_agent(&Agent::Active(active_id, active))
             .await
     }
 
@@ -1809,11 +1809,13 @@ impl<
         let signed_op = Arc::new(signed_op);
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
-            let locked_active = self.active.lock().await;
-            let active_id = locked_active.id();
+            let (active_id, prekey_pairs) = {
+                let locked_active = self.active.lock().await;
+                (locked_active.id(), locked_active.prekey_pairs.dupe())
+            };
             if active_id == added_id {
                 let sk = {
-                    let locked_prekeys = locked_active.prekey_pairs.lock().await;
+                    let locked_prekeys = prekey_pairs.lock().await;
                     *locked_prekeys
                         .get(&pk)
                         .ok_or(ReceiveCgkaOpError::UnknownInvitePrekey(pk))?
-- 
2.43.0

