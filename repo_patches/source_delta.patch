From 83105f6858e80b00fce1ff63e066ab9512842cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 01/26] fix: reject certificates whose vote weight is not above
 two thirds

---
 src/state/parallel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/parallel.rs b/src/state/parallel.rs
index 25bac20..4693523 100644
--- a/src/state/parallel.rs
+++ b/src/state/parallel.rs
@@ -5,6 +5,7 @@ use creep::Context;
 use futures::channel::mpsc::UnboundedSender;
 use muta_apm::derive::tracing_span;
 
+use crate::error::ConsensusError;
 use crate::types::{Address, AggregatedVote, OverlordMsg};
 use crate::utils::auth_manage::AuthorityManage;
 use crate::{Codec, ConsensusResult, Crypto};
@@ -98,7 +99,11 @@ fn get_voters(
     addr_bitmap: &Bytes,
     authority_manage: AuthorityManage,
 ) -> ConsensusResult<Vec<Address>> {
-    authority_manage.is_above_threshold(addr_bitmap)?;
+    if !authority_manage.is_above_threshold(addr_bitmap)? {
+        return Err(ConsensusError::AggregatedSignatureErr(
+            "vote weight is not above threshold".to_string(),
+        ));
+    }
     authority_manage.get_voters(addr_bitmap)
 }
 
-- 
2.43.0


From 221f4883f2d81b5872ad532203a6fcddf8f60ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 02/26] fix: verify the certificate carried by a choke before
 following it

---
 src/state/process.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index e4586c4..5f76b27 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1203,6 +1203,7 @@ where
         );
 
         if choke_round > self.round {
+            self.verify_update_from(&choke.from)?;
             match choke.from {
                 UpdateFrom::PrevoteQC(qc) => {
                     return self.handle_aggregated_vote(ctx.clone(), qc).await
@@ -1219,6 +1220,53 @@ where
         Ok(())
     }
 
+    /// Verify the certificate which a choke carries as the reason of its round.
+    fn verify_update_from(&self, from: &UpdateFrom) -> ConsensusResult<()> {
+        let (height, hash, signature, voters) = match from {
+            UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
+                let bitmap = &qc.signature.address_bitmap;
+                if !self.authority.is_above_threshold(bitmap)? {
+                    return Err(ConsensusError::BrakeErr(
+                        "qc of choke is not above threshold".to_string(),
+                    ));
+                }
+                (
+                    qc.height,
+                    self.util.hash(Bytes::from(rlp::encode(&qc.to_vote()))),
+                    qc.signature.signature.clone(),
+                    self.authority.get_voters(bitmap)?,
+                )
+            }
+            UpdateFrom::ChokeQC(qc) => {
+                let mut set = HashSet::new();
+                for voter in qc.voters.iter() {
+                    self.verify_address(voter)?;
+                    if !set.insert(voter) {
+                        return Err(ConsensusError::BrakeErr(
+                            "choke qc with repeated voters".to_string(),
+                        ));
+                    }
+                }
+                (
+                    qc.height,
+                    self.util.hash(Bytes::from(rlp::encode(&qc.to_hash()))),
+                    qc.signature.clone(),
+                    qc.voters.clone(),
+                )
+            }
+        };
+
+        if height != self.height {
+            return Err(ConsensusError::BrakeErr(
+                "qc of choke is of another height".to_string(),
+            ));
+        }
+
+        self.util
+            .verify_aggregated_signature(signature, hash, voters)
+            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))
+    }
+
     fn handle_aggregated_choke(
         &mut self,
         aggregated_choke: AggregatedChoke,
-- 
2.43.0


From 3dfb712098c5e1ca62999ee11ce9c2d2ed32470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 03/26] fix: ignore chokes of addresses outside the authority
 list

---
 src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 5f76b27..7b3d6d6 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1202,6 +1202,8 @@ where
             hex_encode(signed_choke.address.clone())
         );
 
+        self.verify_address(&signed_choke.address)?;
+
         if choke_round > self.round {
             self.verify_update_from(&choke.from)?;
             match choke.from {
-- 
2.43.0


From 559eedfd47e03e855934aba2d40526dc5ad8e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 04/26] fix: never treat an unverified future message as
 verified

---
 src/state/process.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 7b3d6d6..7925a3d 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -137,7 +137,12 @@ where
                     } else {
                         match self.height.cmp(&msg.get_height()) {
                             Ordering::Less => {
-                                let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
+                                // Cache it at once. If the height moved on while it waited in the
+                                // queue of verified messages, it would pass for a verified one.
+                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
+                                    self.report_error(ctx, e.clone());
+                                    log::error!("Overlord: state {:?} error", e);
+                                }
                             }
                             Ordering::Equal => {
                                 parallel_verify(
-- 
2.43.0


From f6bc6b1bccf9cf3f84c6da9e28f9188c5cf504f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 05/26] fix: reject a proposal whose lock votes do not lock
 that proposal

---
 src/state/process.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 7925a3d..d43a111 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -625,6 +625,17 @@ where
         // SMR. Otherwise, touch off SMR directly.
         let lock_round = if let Some(polc) = proposal.lock.clone() {
             log::debug!("Overlord: state receive a signed proposal with a lock");
+            let qc = &polc.lock_votes;
+            if !qc.is_prevote_qc()
+                || qc.height != proposal_height
+                || qc.round != polc.lock_round
+                || qc.round >= proposal_round
+                || qc.block_hash != proposal.block_hash
+            {
+                return Err(ConsensusError::ProposalErr(
+                    "Lock votes do not lock the proposal".to_string(),
+                ));
+            }
             Some(polc.lock_round)
         } else {
             None
-- 
2.43.0


From 548d0694ddf3c7a7a6a8f971120b0a7fa1813199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 06/26] fix: forget the block checks of the last height

---
 src/state/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index d43a111..144c849 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -433,6 +433,7 @@ where
         self.proposals.flush(new_height - 1);
         self.votes.flush(new_height - 1);
         self.hash_with_block.clear();
+        self.is_full_transaction.clear();
         self.chokes.clear();
 
         // Re-check proposals that have been in the proposal collector, of the current height.
-- 
2.43.0


From 0a7a7e8221a6b0c1d0725f31a872c82cf0977992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 07/26] fix: bind a block hash to the content that passed the
 block check

---
 src/state/process.rs | 20 +++++++++++++-------
 src/types.rs         |  4 +++-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 144c849..a7dccfb 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -56,7 +56,7 @@ pub struct State<T: Codec, F: Consensus<T>, C: Crypto, W: Wal> {
     stopped: bool,
 
     verify_sig_tx: UnboundedSender<(Context, OverlordMsg<T>)>,
-    resp_tx: UnboundedSender<VerifyResp>,
+    resp_tx: UnboundedSender<VerifyResp<T>>,
     function: Arc<F>,
     wal: Arc<W>,
     util: Arc<C>,
@@ -80,7 +80,7 @@ where
         consensus: Arc<F>,
         crypto: Arc<C>,
         wal_engine: Arc<W>,
-    ) -> (Self, UnboundedReceiver<VerifyResp>) {
+    ) -> (Self, UnboundedReceiver<VerifyResp<T>>) {
         let (tx, rx) = unbounded();
         let mut auth = AuthorityManage::new();
         auth.update(&mut authority_list);
@@ -119,7 +119,7 @@ where
         &mut self,
         mut raw_rx: UnboundedReceiver<(Context, OverlordMsg<T>)>,
         mut event: Event,
-        mut verify_resp: UnboundedReceiver<VerifyResp>,
+        mut verify_resp: UnboundedReceiver<VerifyResp<T>>,
         mut verify_sig: UnboundedReceiver<(Context, OverlordMsg<T>)>,
     ) {
         log::debug!("Overlord: state start running");
@@ -334,7 +334,7 @@ where
         }
     }
 
-    fn handle_resp(&mut self, msg: Option<VerifyResp>) -> ConsensusResult<()> {
+    fn handle_resp(&mut self, msg: Option<VerifyResp<T>>) -> ConsensusResult<()> {
         let resp = msg.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))?;
         if resp.height != self.height {
             return Ok(());
@@ -348,6 +348,9 @@ where
             hex_encode(block_hash.clone())
         );
 
+        // The block of this hash is the one that has been checked, no matter what other proposals
+        // claimed.
+        self.hash_with_block.insert(block_hash.clone(), resp.block);
         self.is_full_transaction
             .insert(block_hash.clone(), resp.is_pass);
 
@@ -644,7 +647,9 @@ where
 
         let hash = proposal.block_hash.clone();
         let block = proposal.content.clone();
-        self.hash_with_block.insert(hash.clone(), proposal.content);
+        self.hash_with_block
+            .entry(hash.clone())
+            .or_insert(proposal.content);
         self.proposals.insert(
             ctx.clone(),
             self.height,
@@ -1931,10 +1936,10 @@ async fn check_current_block<U: Consensus<T>, T: Codec>(
     round: u64,
     hash: Hash,
     block: T,
-    tx: UnboundedSender<VerifyResp>,
+    tx: UnboundedSender<VerifyResp<T>>,
 ) -> ConsensusResult<()> {
     function
-        .check_block(ctx, height, hash.clone(), block)
+        .check_block(ctx, height, hash.clone(), block.clone())
         .await
         .map_err(|err| ConsensusError::Other(format!("check {} block error {:?}", height, err)))?;
 
@@ -1943,6 +1948,7 @@ async fn check_current_block<U: Consensus<T>, T: Codec>(
         height,
         round,
         block_hash: hash,
+        block,
         is_pass: true,
     })
     .map_err(|e| ConsensusError::ChannelErr(e.to_string()))
diff --git a/src/types.rs b/src/types.rs
index 469eea6..3106711 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -425,13 +425,15 @@ impl Node {
 
 /// A verify response.
 #[derive(Clone, Debug, PartialEq, Eq)]
-pub(crate) struct VerifyResp {
+pub(crate) struct VerifyResp<T: Codec> {
     /// The height of the verified block.
     pub(crate) height: u64,
     /// The round of the verified block.
     pub(crate) round: u64,
     /// Verified proposal hash.
     pub(crate) block_hash: Hash,
+    /// Verified block.
+    pub(crate) block: T,
     /// The block is pass or not.
     pub(crate) is_pass: bool,
 }
-- 
2.43.0


From c2282d56f43cc08218cd853c90aeccecc4cbb1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 08/26] fix: sum up vote weights without overflow

---
 src/state/process.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index a7dccfb..448b34d 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1180,11 +1180,11 @@ where
         );
 
         for (hash, set) in vote_map.iter() {
-            let mut acc = 0u32;
+            let mut acc = 0u64;
             for addr in set.iter() {
-                acc += self.authority.get_vote_weight(addr)?;
+                acc += u64::from(*self.authority.get_vote_weight(addr)?);
             }
-            if u64::from(acc) * 3 > threshold {
+            if acc * 3 > threshold {
                 return Ok(Some(hash.to_owned()));
             }
         }
-- 
2.43.0


From 55c210ae6eccb8110c1ff52be62f4ea75397d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 09/26] fix: sum up propose weights without overflow

---
 src/utils/auth_manage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index 5dd6644..bf217be 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -161,15 +161,15 @@ pub fn extract_voters(
 /// Get the leader address of the height and the round, the authority list MUST be sorted.
 pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Address {
     authority_list.sort();
-    let mut weight_sum = 0;
+    let mut weight_sum = 0u64;
     let mut propose_weights = Vec::new();
     for node in authority_list.iter() {
-        weight_sum += node.propose_weight;
+        weight_sum += u64::from(node.propose_weight);
         propose_weights.push(node.propose_weight as u64);
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum as u64)
+        get_random_proposer_index(height + round, &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
-- 
2.43.0


From acea94ed08e580d91c8cd56bab5caf64ae0538a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 10/26] fix: elect leaders of extreme heights and rounds
 without overflow

---
 src/utils/auth_manage.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index bf217be..3bdf40a 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -64,7 +64,7 @@ impl AuthorityManage {
     pub fn get_proposer(&self, height: u64, round: u64) -> ConsensusResult<Address> {
         let index = if cfg!(feature = "random_leader") {
             get_random_proposer_index(
-                height + round,
+                height.wrapping_add(round),
                 &self.propose_weights,
                 self.propose_weight_sum,
             )
@@ -169,7 +169,7 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum)
+        get_random_proposer_index(height.wrapping_add(round), &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
@@ -179,8 +179,8 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
 
 fn rotation_leader_index(height: u64, round: u64, authority_len: usize) -> usize {
     let len = authority_len as u32;
-    let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u64;
-    let res = (height * prime_num + round) % (len as u64);
+    let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u128;
+    let res = (u128::from(height) * prime_num + u128::from(round)) % u128::from(len);
     res as usize
 }
 
-- 
2.43.0


From cd392d684138bfb893e9abaee2c1639a96016085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 11/26] fix: stop a node when it receives a stop message

---
 src/state/process.rs | 24 ++++++++++++++++++++----
 src/types.rs         |  4 ++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 448b34d..b00deec 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -131,8 +131,16 @@ where
             select! {
                 raw = raw_rx.next() => {
                     let (ctx, msg) = raw.expect("Overlord message handler dropped");
+                    if self.stopped {
+                        continue;
+                    }
 
-                    if msg.is_rich_status() {
+                    if msg.is_stop() {
+                        if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
+                            self.report_error(ctx, e.clone());
+                            log::error!("Overlord: state {:?} error", e);
+                        }
+                    } else if msg.is_rich_status() {
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
@@ -161,7 +169,11 @@ where
 
                 evt = event.next() => {
                     if self.stopped {
-                        break;
+                        // Stay until the SMR has stopped, so that it can stop the timer too.
+                        if matches!(evt, None | Some(SMREvent::Stop)) {
+                            break;
+                        }
+                        continue;
                     }
 
                     if !self.consensus_power {
@@ -174,7 +186,7 @@ where
                 }
 
                 res = verify_resp.next() => {
-                    if !self.consensus_power {
+                    if self.stopped || !self.consensus_power {
                         continue;
                     }
 
@@ -185,6 +197,10 @@ where
 
                 verified_msg = verify_sig.next() => {
                     let (ctx, msg) = verified_msg.expect("Overlord message handler dropped");
+                    if self.stopped {
+                        continue;
+                    }
+
                     if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
                         self.report_error(ctx, e.clone());
                         log::error!("Overlord: state {:?} error", e);
@@ -201,7 +217,7 @@ where
         ctx: Context,
         raw: OverlordMsg<T>,
     ) -> ConsensusResult<()> {
-        if !self.consensus_power && !raw.is_rich_status() {
+        if !self.consensus_power && !raw.is_rich_status() && !raw.is_stop() {
             return Ok(());
         }
 
diff --git a/src/types.rs b/src/types.rs
index 3106711..740735d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -100,6 +100,10 @@ impl<T: Codec> OverlordMsg<T> {
         matches!(self, OverlordMsg::RichStatus(_))
     }
 
+    pub(crate) fn is_stop(&self) -> bool {
+        matches!(self, OverlordMsg::Stop)
+    }
+
     pub(crate) fn get_height(&self) -> u64 {
         match self {
             OverlordMsg::SignedProposal(sp) => sp.proposal.height,
-- 
2.43.0


From 124976d7f3774a31df3603c3586011a46545f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 12/26] fix: return an error for an unknown update from type
 when decoding

---
 src/codec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 1ae3ff1..8143606 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -445,7 +445,7 @@ impl Decodable for UpdateFrom {
                         let qc: AggregatedChoke = r.val_at(1)?;
                         UpdateFrom::ChokeQC(qc)
                     }
-                    _ => unreachable!(),
+                    _ => return Err(DecoderError::Custom("Invalid update from type")),
                 };
                 Ok(res)
             }
-- 
2.43.0


From 6563ecf734ac092c321cd7f680875953872d3d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 13/26] fix: return an error for an unknown step when decoding
 wal info

---
 src/codec.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec.rs b/src/codec.rs
index 8143606..92ef98a 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -502,6 +502,9 @@ impl<T: Codec> Decodable for WalInfo<T> {
                 let height: u64 = r.val_at(0)?;
                 let round: u64 = r.val_at(1)?;
                 let tmp: u8 = r.val_at(2)?;
+                if tmp > Step::Commit.into() {
+                    return Err(DecoderError::Custom("Invalid step"));
+                }
                 let step = Step::from(tmp);
                 let lock = r.val_at(3)?;
                 let from: UpdateFrom = r.val_at(4)?;
-- 
2.43.0


From a8d9b1fdd3c353c0dff93975ad115accf84a81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 14/26] fix: ignore SMR events of an abandoned height

---
 src/state/process.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index b00deec..9d067c6 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -279,7 +279,22 @@ where
 
     /// A function to handle event from the SMR. Public this function in the crate to do unit tests.
     pub(crate) async fn handle_event(&mut self, event: Option<SMREvent>) -> ConsensusResult<()> {
-        match event.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))? {
+        let event =
+            event.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))?;
+
+        // Ignore what the SMR decided at a height that has been left in the meantime.
+        match event {
+            SMREvent::NewRoundInfo { height, .. }
+            | SMREvent::PrevoteVote { height, .. }
+            | SMREvent::PrecommitVote { height, .. }
+                if height != self.height =>
+            {
+                return Ok(());
+            }
+            _ => (),
+        }
+
+        match event {
             SMREvent::NewRoundInfo {
                 round,
                 lock_round,
-- 
2.43.0


From 18f453aca4dcf63565e01fa118ce5bd6648101d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 15/26] fix: back off the timeouts of the round a node resumes
 in

---
 src/timer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/timer.rs b/src/timer.rs
index a2c26ba..8b52478 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -134,6 +134,9 @@ impl Timer {
                     self.config.update(config);
                 }
             }
+            SMREvent::PrevoteVote { round, .. } | SMREvent::PrecommitVote { round, .. } => {
+                self.round = round
+            }
             SMREvent::Brake { .. } => is_brake_timer = true,
             SMREvent::Commit(_) => return Ok(()),
             _ => (),
-- 
2.43.0


From 93f46ced7ad762c484fe529fd99c15e9e6ae1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 16/26] fix: enter a new height even if its first log record
 cannot be saved

---
 src/state/process.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 9d067c6..8dd791b 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -452,7 +452,11 @@ where
 
         log::info!("Overlord: state goto new height {}", self.height);
 
-        self.save_wal(Step::Propose, None).await?;
+        // Everything released at this height is preceded by a record of its own, so a failure here
+        // must not keep the node from entering the height.
+        if let Err(e) = self.save_wal(Step::Propose, None).await {
+            log::error!("Overlord: state save wal of new height error {:?}", e);
+        }
 
         // Update height and authority list.
         self.height_start = Instant::now();
-- 
2.43.0


From fb7bee0ead8b5258dea53a42b1df817b9e90c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 17/26] fix: follow a choke whose round was entered on a
 prevote certificate

A node which had precommitted at the round of that certificate, or had not
checked its block, ignored the certificate and was left behind for good,
while the sender could not go on without it. Follow once the own round has
timed out.
---
 src/smr/smr_types.rs     |  2 +-
 src/smr/state_machine.rs | 19 +++++++++++++++----
 src/state/process.rs     | 23 ++++++++++++++++++++---
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/smr/smr_types.rs b/src/smr/smr_types.rs
index 00e8894..b0320b2 100644
--- a/src/smr/smr_types.rs
+++ b/src/smr/smr_types.rs
@@ -231,7 +231,7 @@ pub enum TriggerType {
     BrakeTimeout,
     /// Continue new round trigger.
     #[display(fmt = "Continue Round")]
-    ContinueRound,
+    ContinueRound(FromWhere),
     /// Stop process.
     #[display(fmt = "Stop Process")]
     Stop,
diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index d2ef0e8..43d8c09 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -65,9 +65,9 @@ impl Stream for StateMachine {
                         assert!(msg.source == TriggerSource::Timer);
                         Some(self.handle_brake_timeout(msg.height, msg.round))
                     }
-                    TriggerType::ContinueRound => {
+                    TriggerType::ContinueRound(from_where) => {
                         assert!(msg.source == TriggerSource::State);
-                        Some(self.handle_continue_round(msg.height, msg.round))
+                        Some(self.handle_continue_round(msg.height, msg.round, from_where))
                     }
                     TriggerType::WalInfo => Some(self.handle_wal(msg.wal_info.unwrap())),
                     TriggerType::Stop => {
@@ -118,11 +118,22 @@ impl StateMachine {
         }
     }
 
-    fn handle_continue_round(&mut self, height: u64, round: u64) -> ConsensusResult<()> {
+    fn handle_continue_round(
+        &mut self,
+        height: u64,
+        round: u64,
+        from_where: FromWhere,
+    ) -> ConsensusResult<()> {
         if height != self.height || round <= self.round {
             return Ok(());
         }
 
+        // A prevote QC does not end a round by itself, so that only give up a round which has
+        // timed out.
+        if matches!(from_where, FromWhere::PrevoteQC(_)) && self.step != Step::Brake {
+            return Ok(());
+        }
+
         log::debug!("Overlord: SMR continue round {}", round);
 
         self.round = round - 1;
@@ -137,7 +148,7 @@ impl StateMachine {
             lock_proposal,
             new_interval: None,
             new_config: None,
-            from_where: FromWhere::ChokeQC(round - 1),
+            from_where,
         })?;
         self.goto_next_round();
         Ok(())
diff --git a/src/state/process.rs b/src/state/process.rs
index 8dd791b..228fb06 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1265,7 +1265,24 @@ where
             self.verify_update_from(&choke.from)?;
             match choke.from {
                 UpdateFrom::PrevoteQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
+                    let qc_round = qc.round;
+                    self.handle_aggregated_vote(ctx.clone(), qc).await?;
+                    if qc_round < self.round {
+                        return Ok(());
+                    }
+
+                    // The sender went on from the round of the QC. If self has passed the prevote
+                    // step of that round, or has not checked its block, the QC alone does not
+                    // take self there.
+                    return self.state_machine.trigger(SMRTrigger {
+                        trigger_type: TriggerType::ContinueRound(FromWhere::PrevoteQC(qc_round)),
+                        source: TriggerSource::State,
+                        hash: Hash::new(),
+                        lock_round: None,
+                        round: qc_round + 1,
+                        height: self.height,
+                        wal_info: None,
+                    });
                 }
                 UpdateFrom::PrecommitQC(qc) => {
                     return self.handle_aggregated_vote(ctx.clone(), qc).await
@@ -1341,7 +1358,7 @@ where
         self.chokes.set_qc(choke.round, aggregated_choke);
 
         self.state_machine.trigger(SMRTrigger {
-            trigger_type: TriggerType::ContinueRound,
+            trigger_type: TriggerType::ContinueRound(FromWhere::ChokeQC(choke.round)),
             source: TriggerSource::State,
             hash: Hash::new(),
             lock_round: None,
@@ -1685,7 +1702,7 @@ where
             );
 
             self.state_machine.trigger(SMRTrigger {
-                trigger_type: TriggerType::ContinueRound,
+                trigger_type: TriggerType::ContinueRound(FromWhere::ChokeQC(round)),
                 source: TriggerSource::State,
                 hash: Hash::new(),
                 round: round + 1,
-- 
2.43.0


From 2694bdeae2a192b9d52e48182c3a2a6c5d289e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 18/26] fix: keep the lock when its own proposal comes with a
 newer PoLC

A proposal of the locked block with a newer PoLC removed the lock. Once that
round failed, the node was free to vote for any other block, although the
locked one may have been committed elsewhere.
---
 src/smr/state_machine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index 43d8c09..b25b682 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -252,7 +252,10 @@ impl StateMachine {
                 log::debug!("Overlord: SMR handle proposal with a lock");
 
                 if lock_round > lock.round {
-                    self.remove_polc();
+                    // A newer PoLC of the locked proposal itself is no reason to give up the lock.
+                    if proposal_hash != lock.hash {
+                        self.remove_polc();
+                    }
                     self.set_proposal(proposal_hash);
                 } else if lock_round == lock.round && proposal_hash != self.block_hash {
                     return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
-- 
2.43.0


From 8b36d287190a88a61b3fb340bc4f06c788a09dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 19/26] fix: do not restart the block interval on repeated or
 outdated proposals

Replaying a proposal of the height, or sending one of another height, put off
the next height of its leader by up to an interval.
---
 src/state/process.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 228fb06..bbfe741 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -646,7 +646,13 @@ where
             &signed_proposal.proposal.proposer,
         )?;
 
-        self.height_start = Instant::now();
+        // Only what may become a proposal of this height counts, and only once.
+        if proposal_height == self.height
+            && proposal_round >= self.round
+            && self.proposals.get(proposal_height, proposal_round).is_err()
+        {
+            self.height_start = Instant::now();
+        }
 
         if self.filter_signed_proposal(
             ctx.clone(),
-- 
2.43.0


From e12284091cbd0990f26bd3c24b5416aee3389f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 20/26] fix: do not restart the block interval on a proposal
 that will be dropped

---
 src/state/process.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index bbfe741..c7824f4 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -646,23 +646,6 @@ where
             &signed_proposal.proposal.proposer,
         )?;
 
-        // Only what may become a proposal of this height counts, and only once.
-        if proposal_height == self.height
-            && proposal_round >= self.round
-            && self.proposals.get(proposal_height, proposal_round).is_err()
-        {
-            self.height_start = Instant::now();
-        }
-
-        if self.filter_signed_proposal(
-            ctx.clone(),
-            proposal_height,
-            proposal_round,
-            &signed_proposal,
-        )? {
-            return Ok(());
-        }
-
         let proposal = signed_proposal.proposal.clone();
         let signature = signed_proposal.signature.clone();
 
@@ -686,6 +669,23 @@ where
             None
         };
 
+        // Only what may become a proposal of this height counts, and only once.
+        if proposal_height == self.height
+            && !self.filter_message(proposal_height, proposal_round)
+            && self.proposals.get(proposal_height, proposal_round).is_err()
+        {
+            self.height_start = Instant::now();
+        }
+
+        if self.filter_signed_proposal(
+            ctx.clone(),
+            proposal_height,
+            proposal_round,
+            &signed_proposal,
+        )? {
+            return Ok(());
+        }
+
         let hash = proposal.block_hash.clone();
         let block = proposal.content.clone();
         self.hash_with_block
-- 
2.43.0


From 3ab8e0ef05fc103ec7d59af83b19cc3e3cf80cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 21/26] fix: know the leader of the round when starting without
 a log

---
 src/state/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index c7824f4..6b9b844 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1795,6 +1795,7 @@ where
     }
 
     fn wal_lost(&mut self) -> ConsensusResult<()> {
+        self.is_leader = self.is_proposer()?;
         let smr_base = SMRBase {
             height: self.height,
             round: self.round,
-- 
2.43.0


From b43ac8e92dde36ba7ba8a2715bdecd42666c2b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 22/26] fix: act on the latest prevote certificate once its
 block passes the check

---
 src/state/collection.rs | 12 +++++++++---
 src/state/process.rs    |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/state/collection.rs b/src/state/collection.rs
index 5ffefa6..2b9c058 100644
--- a/src/state/collection.rs
+++ b/src/state/collection.rs
@@ -266,10 +266,16 @@ impl VoteRoundCollector {
     }
 
     fn set_qc(&mut self, qc: AggregatedVote) {
-        self.qc_by_hash
+        let by_hash = self
+            .qc_by_hash
             .entry(qc.block_hash.clone())
-            .or_insert_with(QuorumCertificate::new)
-            .set_quorum_certificate(qc.clone());
+            .or_insert_with(QuorumCertificate::new);
+        let is_outdated = by_hash
+            .get_quorum_certificate(qc.vote_type.clone())
+            .map_or(false, |old| old.round > qc.round);
+        if !is_outdated {
+            by_hash.set_quorum_certificate(qc.clone());
+        }
 
         self.general
             .entry(qc.get_round())
diff --git a/src/state/process.rs b/src/state/process.rs
index 6b9b844..c4f2be1 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -402,7 +402,7 @@ where
             self.votes
                 .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)
         {
-            if qc.round == self.round {
+            if qc.round >= self.round {
                 self.state_machine.trigger(SMRTrigger {
                     trigger_type: TriggerType::PrevoteQC,
                     source: TriggerSource::State,
-- 
2.43.0


From 9af276b046ddcb06c11e384c68e549d6d4ad5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 23/26] fix: count the own choke only after its record is saved

---
 src/state/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index c4f2be1..2b07f1d 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -797,9 +797,9 @@ where
             self.round
         );
 
-        self.chokes.insert(self.round, signed_choke.clone());
         self.save_wal_with_lock_round(Step::Brake, lock_round)
             .await?;
+        self.chokes.insert(self.round, signed_choke.clone());
         self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))
             .await;
         self.check_choke_above_threshold()?;
-- 
2.43.0


From d99835ccaad6a4fbafd458c965883103d7f2a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 24/26] fix: ignore a brake timeout outside the brake step

---
 src/smr/state_machine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index b25b682..3d40d50 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -102,7 +102,7 @@ impl StateMachine {
     }
 
     fn handle_brake_timeout(&mut self, height: u64, round: u64) -> ConsensusResult<()> {
-        if height != self.height || round != self.round {
+        if height != self.height || round != self.round || self.step != Step::Brake {
             Ok(())
         } else {
             log::debug!(
-- 
2.43.0


From 0866000f14f85ad045b95eab62c4bf5943922d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 25/26] fix: start the SMR before braking when starting from
 the brake step

---
 src/state/process.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 2b07f1d..fba71bd 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1853,11 +1853,8 @@ where
             return self.handle_commit(qc.lock_votes.block_hash.clone()).await;
         }
 
-        if wal_info.step == Step::Brake {
-            let lock_round = wal_info.lock.clone().map(|lock| lock.lock_round);
-            self.handle_brake(self.round, lock_round).await?;
-        }
-
+        let step = wal_info.step.clone();
+        let lock_round = wal_info.lock.clone().map(|lock| lock.lock_round);
         self.state_machine.trigger(SMRTrigger {
             trigger_type: TriggerType::WalInfo,
             source: TriggerSource::State,
@@ -1867,6 +1864,10 @@ where
             height: self.height,
             wal_info: Some(wal_info.into_smr_base()),
         })?;
+
+        if step == Step::Brake {
+            self.handle_brake(self.round, lock_round).await?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 3c03db48ce85a53e74559d20ddd071ef806c0807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:34 +0000
Subject: [PATCH 26/26] fix: settings announced while the node is no validator
 were lost

A status leaves out what is unchanged. A node without consensus power dropped the
interval and timer configuration of a status altogether, so that it ran with outdated
ones when a later status, which does not repeat them, made it a validator again.
---
 src/state/process.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index fba71bd..a5b2b4f 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -25,7 +25,9 @@ use crate::types::{
 };
 use crate::utils::auth_manage::AuthorityManage;
 use crate::wal::{SMRBase, WalInfo, WalLock};
-use crate::{Codec, Consensus, ConsensusResult, Crypto, Wal, INIT_HEIGHT, INIT_ROUND};
+use crate::{
+    Codec, Consensus, ConsensusResult, Crypto, DurationConfig, Wal, INIT_HEIGHT, INIT_ROUND,
+};
 
 const FUTURE_HEIGHT_GAP: u64 = 5;
 const FUTURE_ROUND_GAP: u64 = 10;
@@ -53,6 +55,7 @@ pub struct State<T: Codec, F: Consensus<T>, C: Crypto, W: Wal> {
     height_start: Instant,
     block_interval: u64,
     consensus_power: bool,
+    missed_settings: (Option<u64>, Option<DurationConfig>),
     stopped: bool,
 
     verify_sig_tx: UnboundedSender<(Context, OverlordMsg<T>)>,
@@ -102,6 +105,7 @@ where
             update_from_where: UpdateFrom::PrecommitQC(mock_init_qc()),
             height_start: Instant::now(),
             block_interval: interval,
+            missed_settings: (None, None),
             stopped: false,
 
             verify_sig_tx: verify_tx,
@@ -426,7 +430,7 @@ where
     /// interval. Since it is possible to have received and cached the current height's proposals,
     /// votes and quorum certificates before, these should be re-checked as goto new height.
     /// Finally, trigger SMR to goto new height.
-    async fn goto_new_height(&mut self, _ctx: Context, status: Status) -> ConsensusResult<()> {
+    async fn goto_new_height(&mut self, _ctx: Context, mut status: Status) -> ConsensusResult<()> {
         if status.height <= self.height {
             log::warn!(
                 "Overlord: state receive an outdated status, height {}, self height {}",
@@ -440,9 +444,16 @@ where
         self.height = new_height;
         self.round = INIT_ROUND;
 
+        // What a status leaves out is unchanged since the last one, even if self did not have
+        // consensus power by that one.
+        let (interval, timer_config) = std::mem::take(&mut self.missed_settings);
+        status.interval = status.interval.or(interval);
+        status.timer_config = status.timer_config.or(timer_config);
+
         // Check the consensus power.
         self.consensus_power = status.is_consensus_node(&self.address);
         if !self.consensus_power {
+            self.missed_settings = (status.interval, status.timer_config);
             log::info!(
                 "Overlord: self does not have consensus power height {}",
                 new_height
-- 
2.43.0

