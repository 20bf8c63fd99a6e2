From 90bcb12fd7c9d97a023a5b68252745f8e4524cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 01/34] fix: hash the number of condition updates as u64, so
 that 32-bit and 64-bit nodes agree on the data digest

---
 flmodules/src/flo/flo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flmodules/src/flo/flo.rs b/flmodules/src/flo/flo.rs
index dea1a17..c7bd04a 100644
--- a/flmodules/src/flo/flo.rs
+++ b/flmodules/src/flo/flo.rs
@@ -398,7 +398,7 @@ impl Flo {
                 &self.flo_id().bytes(),
                 &self.data,
                 &self.data_version.to_le_bytes(),
-                &self.cond_update.len().to_le_bytes(),
+                &(self.cond_update.len() as u64).to_le_bytes(),
             ],
         )
     }
-- 
2.43.0


From 2589195cd0bc52da4b843349631c36d7b2e57c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 02/34] fix: Condition::equal_link compares the threshold and
 the elements of an NofT one by one

---
 flcrypto/src/access.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 1f154c8..9b870ce 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -208,8 +208,10 @@ impl Condition {
                 if BadgeLink{ id: badge.id.clone(), version: badge.version, condition: badge.condition.to_link() }
                     .fits_version(version_spec.clone()) && badge.condition.equal_link(cond_link) && version_spec == ver_spec)
             }
-            ConditionLink::NofT(_, condition_links) => {
-                condition_links.iter().all(|cl| self.equal_link(cl))
+            ConditionLink::NofT(threshold, condition_links) => {
+                matches!(self, Condition::NofT(thr, conditions)
+                if thr == threshold && conditions.len() == condition_links.len()
+                    && conditions.iter().zip(condition_links.iter()).all(|(cond, cl)| cond.equal_link(cl)))
             }
             ConditionLink::Pass => matches!(self, Condition::Pass),
             ConditionLink::Fail => matches!(self, Condition::Fail),
-- 
2.43.0


From 32ecf2779ed81723f7874d5e3f69a54087540b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 03/34] fix: Condition::to_link doesn't panic on a condition
 which is not available

---
 flcrypto/src/access.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 9b870ce..ab3fb6a 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -229,7 +229,8 @@ impl Condition {
                     .map(|cond| cond.to_link())
                     .collect::<Vec<_>>(),
             ),
-            Condition::NotAvailable => todo!(),
+            // A condition that isn't available can never be fulfilled.
+            Condition::NotAvailable => ConditionLink::Fail,
             Condition::Pass => ConditionLink::Pass,
             Condition::Fail => ConditionLink::Fail,
         }
-- 
2.43.0


From 97922e0afb861912943faa431735f44efa9503a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 04/34] fix: verifying an ed25519 signature of the wrong length
 returns an error instead of panicking

---
 flcrypto/src/signer_ed25519.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/signer_ed25519.rs b/flcrypto/src/signer_ed25519.rs
index 8354156..005c604 100644
--- a/flcrypto/src/signer_ed25519.rs
+++ b/flcrypto/src/signer_ed25519.rs
@@ -79,8 +79,8 @@ where
 
 impl VerifierTrait for VerifierEd25519 {
     fn verify(&self, msg: &Bytes, sig: &Signature) -> anyhow::Result<()> {
-        let s: ed25519_dalek::Signature =
-            TryInto::<[u8; 64]>::try_into(sig.bytes().as_ref()).unwrap().into();
+        let s = ed25519_dalek::Signature::from_slice(sig.bytes())
+            .map_err(|_| SignerError::SignatureMessageMismatch)?;
         match self.verifier.verify_strict(msg, &s) {
             Ok(_) => Ok(()),
             Err(_) => Err(SignerError::SignatureMessageMismatch.into()),
-- 
2.43.0


From 267c835bd4d1cc64c58dee0250f8af82899df89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 05/34] fix: Flo::update_cond refuses updates with missing or
 wrong signatures

---
 flmodules/src/flo/flo.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/flo/flo.rs b/flmodules/src/flo/flo.rs
index c7bd04a..3e9d33f 100644
--- a/flmodules/src/flo/flo.rs
+++ b/flmodules/src/flo/flo.rs
@@ -285,14 +285,29 @@ impl Flo {
     }
 
     /// Updates the signing condition and returns the new Flo.
-    /// TODO: check that new signature is valid.
+    /// It returns an error if one of the two signatures is not valid.
     pub fn update_cond(&self, update: UpdateCondSign) -> anyhow::Result<Flo> {
+        let digest_cond = Self::digest_cond_update(
+            &self.flo_id(),
+            (self.cond_update.len() + 1) as u32,
+            &update.cond,
+        );
+        if !update.signature_cond.verify_digest(&digest_cond)? {
+            return Err(SignerError::SignatureMessageMismatch.into());
+        }
+
         let mut next_version = self.clone();
         next_version.cond_update.push(CondVersion {
             cond: update.cond,
             signatures: update.signature_cond,
         });
         next_version.data_signature = update.signature_data;
+        if !next_version
+            .data_signature
+            .verify_digest(&next_version.digest_data())?
+        {
+            return Err(SignerError::SignatureMessageMismatch.into());
+        }
         Ok(next_version)
     }
 
-- 
2.43.0


From 4c4792f8eca91ee2dd5dd1d79cc1110e002935e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:19 +0000
Subject: [PATCH 06/34] fix: NodeInfo with a malformed public key does not
 panic in get_id and verify

---
 flmodules/src/nodeconfig.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index ab309b1..f536851 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -79,13 +79,19 @@ impl NodeInfo {
         if let Some(id) = self.id {
             return id;
         }
-        let a: [u8; PublicKey::BYTES] = self.pubkey.clone().try_into().unwrap();
-        U256::from(a)
+        // The public key of a received NodeInfo can have any length.
+        match <[u8; PublicKey::BYTES]>::try_from(self.pubkey.as_slice()) {
+            Ok(a) => U256::from(a),
+            Err(_) => U256::hash_data(&self.pubkey),
+        }
     }
 
     /// Verifies a signature with the public key of this `NodeInfo`
     pub fn verify(&self, msg: &[u8], sig_bytes: &[u8]) -> bool {
-        let pubkey = PublicKey::from_slice(&self.pubkey).unwrap();
+        let pubkey = match PublicKey::from_slice(&self.pubkey) {
+            Ok(pubkey) => pubkey,
+            Err(_) => return false,
+        };
         let sig = match Signature::from_slice(sig_bytes) {
             Ok(sig) => sig,
             Err(_) => return false,
-- 
2.43.0


From f3bb144fba9e5b041cbe938c0d8332a7534300a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 07/34] fix: Debug output of NodeConfig does not show the
 private key

---
 flmodules/src/nodeconfig.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index f536851..bc52395 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -189,7 +189,7 @@ struct NodeInfoV1 {}
 
 /// NodeConfig is stored on the node itself and contains the private key.
 #[serde_as]
-#[derive(VersionedSerde, Debug, PartialEq)]
+#[derive(VersionedSerde, PartialEq)]
 #[versions = "[NodeConfigV1]"]
 pub struct NodeConfig {
     /// info about this node
@@ -199,6 +199,15 @@ pub struct NodeConfig {
     pub keypair: Vec<u8>,
 }
 
+// The keypair is private, so it must not show up in logs.
+impl Debug for NodeConfig {
+    fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), std::fmt::Error> {
+        f.debug_struct("NodeConfig")
+            .field("info", &self.info)
+            .finish_non_exhaustive()
+    }
+}
+
 impl Default for NodeConfig {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 40a628341d17c0f1db891b99485c530d53436cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 08/34] fix: converting a NodeInfoV1 does not panic

---
 flmodules/src/nodeconfig.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index bc52395..3a5a984 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -179,7 +179,15 @@ bitflags! {
 
 impl From<NodeInfoV1> for NodeInfoV2 {
     fn from(_: NodeInfoV1) -> Self {
-        panic!("Old configuration not supported anymore")
+        // There is nothing left in the old configuration, but as it can be sent by
+        // any other node, this must not panic.
+        Self {
+            name: String::new(),
+            client: String::new(),
+            pubkey: vec![],
+            modules: ModulesV2::empty(),
+            _id: None,
+        }
     }
 }
 
-- 
2.43.0


From 26516904c84cabcb1de6359eb013b3df3d60bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 09/34] fix: updating a stored Flo keeps the links to its
 cuckoos

---
 flmodules/src/dht_storage/core.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 8fa0bda..eefaab4 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -273,7 +273,10 @@ impl RealmStorage {
 
     fn put(&mut self, flo: Flo) {
         let id = flo.flo_id();
-        self.remove_entry(&id);
+        // The links to the cuckoos of a Flo survive its updates.
+        let cuckoos = self
+            .remove_entry(&id)
+            .map_or(vec![], |previous| previous.cuckoos);
         let depth = KNode::get_depth(&self.dht_config.our_id, &id);
         // log::info!(
         //     "{} Storing id({id}) / version({}) / flo_type({}) at depth {depth}",
@@ -285,19 +288,20 @@ impl RealmStorage {
             .entry(depth)
             .or_insert_with(Vec::new)
             .push(id.clone());
-        let df: FloStorage = flo.into();
+        let mut df: FloStorage = flo.into();
+        df.cuckoos = cuckoos;
         self.size += df.size() as u64;
         self.flos.insert(id, df);
     }
 
-    fn remove_entry(&mut self, id: &FloID) {
-        if let Some(df) = self.flos.remove(id) {
-            let distance = KNode::get_depth(&self.dht_config.our_id, id);
-            self.distances
-                .entry(distance)
-                .and_modify(|v| v.retain(|i| i != id));
-            self.size -= df.size() as u64;
-        }
+    fn remove_entry(&mut self, id: &FloID) -> Option<FloStorage> {
+        let df = self.flos.remove(id)?;
+        let distance = KNode::get_depth(&self.dht_config.our_id, id);
+        self.distances
+            .entry(distance)
+            .and_modify(|v| v.retain(|i| i != id));
+        self.size -= df.size() as u64;
+        Some(df)
     }
 
     fn remove_furthest(&mut self) {
-- 
2.43.0


From 84ec91dced1583f0d5e1c669dc657c814026e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 10/34] fix: evicting Flos ends if only the realm-Flo is left

---
 flmodules/src/dht_storage/core.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index eefaab4..63d2c55 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -245,9 +245,8 @@ impl RealmStorage {
             }
         }
 
-        while self.size > self.realm_config.max_space {
-            self.remove_furthest();
-        }
+        // The realm-Flo is never removed, so there might be nothing left to remove.
+        while self.size > self.realm_config.max_space && self.remove_furthest() {}
         let size_verify: usize = self.flos.iter().map(|f| f.1.size()).sum();
         if size_verify as u64 > self.realm_config.max_space {
             log::warn!(
@@ -304,7 +303,8 @@ impl RealmStorage {
         Some(df)
     }
 
-    fn remove_furthest(&mut self) {
+    /// Returns false if there is no Flo which can be removed.
+    fn remove_furthest(&mut self) -> bool {
         if let Some(furthest) = self
             .distances
             .iter()
@@ -333,9 +333,10 @@ impl RealmStorage {
                 //     KNode::get_depth(&self.dht_config.our_id, *id.clone())
                 // );
 
-                self.remove_entry(&id);
+                return self.remove_entry(&id).is_some();
             }
         }
+        false
     }
 }
 
-- 
2.43.0


From a5c6ca5464cf5f6e9c5219039ff576774fe03f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:12 +0000
Subject: [PATCH 11/34] fix: upsert_flo only returns true if the Flo is stored

---
 flmodules/src/dht_storage/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 63d2c55..e07ca8f 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -256,7 +256,8 @@ impl RealmStorage {
                 self.realm_config.max_space
             );
         }
-        is_new_flo
+        // There might have been no space for it.
+        is_new_flo && self.flos.contains_key(&flo_id)
     }
 
     fn size_at_depth(&self, distance: usize) -> u64 {
-- 
2.43.0


From 1bec475fbc0eac68433c7ec24b49fc4b13c28b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 12/34] fix: persist new links to cuckoos

---
 flmodules/src/dht_storage/intern.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index f0f3b31..010569e 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -245,6 +245,7 @@ impl Messages {
                 self.realms
                     .get_mut(&gid.realm_id())
                     .map(|realm| realm.store_cuckoo_id(&fid, gid.flo_id().clone()));
+                self.store();
             }
         }
         vec![]
@@ -258,6 +259,7 @@ impl Messages {
                 self.realms
                     .get_mut(&fc.0.realm_id())
                     .map(|realm| realm.store_cuckoo_ids(&fc.0.flo_id(), fc.1.clone()));
+                self.store();
                 Some(DHTStorageOut::FloValue(fc).into())
             }
             MessageDest::UnknownFlo(key) => Some(DHTStorageOut::ValueMissing(key).into()),
@@ -338,6 +340,7 @@ impl Messages {
                             .for_each(|cuckoo| realm.store_cuckoo_id(&flo.flo_id(), cuckoo))
                     });
                 }
+                self.store();
                 vec![]
             }
         }
-- 
2.43.0


From f1416ef6753d4cd45c3159a1862eb2d37e63be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 13/34] fix: a disconnected node is also removed from the root
 bucket

---
 flmodules/src/dht_router/kademlia.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/flmodules/src/dht_router/kademlia.rs b/flmodules/src/dht_router/kademlia.rs
index 2f833d1..1793f93 100644
--- a/flmodules/src/dht_router/kademlia.rs
+++ b/flmodules/src/dht_router/kademlia.rs
@@ -81,15 +81,7 @@ impl Kademlia {
     }
 
     pub fn node_disconnected(&mut self, id: &NodeID) {
-        if let Some(bucket) = self
-            .buckets
-            .get_mut(KNode::get_depth(&self.config.root, id))
-        {
-            bucket.remove_node(id);
-            if self.root_bucket.status() == BucketStatus::Wanting {
-                self.rebalance_wanting();
-            }
-        };
+        self.remove_node(id);
     }
 
     pub fn remove_node(&mut self, id: &NodeID) {
-- 
2.43.0


From e784bb182a6df8616f38942b058b77dff7a4c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 14/34] fix: the list of connected nodes follows every change
 of a connection

---
 flmodules/src/network/intern.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 48d330a..7189f8c 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -126,7 +126,6 @@ impl Intern {
                 let dir = pi.get_direction(&own_id);
                 if self.connected_only(&remote_node, &dir) {
                     out.push(NetworkOut::Disconnected(remote_node.clone()).into());
-                    self.send_connections();
                 }
                 self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
                 out.push(InternOut::WebRTC(WebRTCConnIn::Message(
@@ -284,7 +283,6 @@ impl Intern {
         } else {
             self.connection_state_set(*dst, &Direction::Incoming, ConnectionState::None);
             self.connection_state_set(*dst, &Direction::Outgoing, ConnectionState::None);
-            self.send_connections();
             return vec![
                 NetworkOut::Disconnected(*dst).into(),
                 InternOut::WebRTC(WebRTCConnIn::Message(*dst, NCInput::Disconnect)),
@@ -338,6 +336,7 @@ impl Intern {
             .entry(node)
             .and_modify(|ioc| ioc.set(dir, state.clone()))
             .or_insert(IOConnection::new(dir, state));
+        self.send_connections();
     }
 }
 
-- 
2.43.0


From a1f9fa48487569faef7337699a15ca3fcdd03bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 15/34] fix: messages from the network do not panic the node

---
 flmodules/src/network/intern.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 7189f8c..13e4286 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -1,7 +1,6 @@
 //! Handles all the incoming messages and produces messages for the modules
 //! connected to [Network].
 
-use core::panic;
 use serde::{Deserialize, Serialize};
 use std::{collections::HashMap, fmt::Display};
 use tokio::sync::watch;
@@ -94,9 +93,11 @@ impl Intern {
         match msg_node {
             WSSignalMessageToNode::Challenge(version, challenge) => {
                 if version != SIGNAL_VERSION {
-                    panic!(
+                    let err = format!(
                         "Wrong signal-server version: got {version}, expected {SIGNAL_VERSION}."
                     );
+                    log::error!("{err}");
+                    return vec![InternOut::Network(NetworkOut::Error(err))];
                 }
                 let ma = MessageAnnounce {
                     version,
@@ -185,10 +186,9 @@ impl Intern {
         match serde_yaml::from_str::<NetworkWrapper>(&msg) {
             Ok(nw) => {
                 if let Some(net_msg) = nw.unwrap_yaml::<ModuleMessage>(MODULE_NAME) {
-                    match net_msg {
-                        ModuleMessage::SignalIn(_) => todo!(),
-                        ModuleMessage::SignalOut(_) => todo!(),
-                    }
+                    // TODO: signalling through other nodes is not implemented yet.
+                    log::warn!("Ignoring {net_msg:?} from {id}");
+                    return vec![];
                 }
                 return vec![NetworkOut::MessageFromNode(id, nw).into()];
             }
-- 
2.43.0


From 43c9de42dd29d8c7dead49378e268b7e59512353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 16/34] fix: U256::from_str does not panic on incomplete bytes

---
 flarch/src/nodeids.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index 7911751..937a804 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -12,6 +12,8 @@ use thiserror::Error;
 pub enum ParseError {
     #[error("Give no more than 64 hexadecimal characters")]
     HexTooLong,
+    #[error("Two hexadecimal characters are needed for every byte")]
+    HexIncomplete,
     #[error(transparent)]
     ParseInt(#[from] ParseIntError),
 }
@@ -135,7 +137,10 @@ impl FromStr for U256 {
         }
         let v: Vec<u8> = (0..s.len())
             .step_by(2)
-            .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map_err(|e| e.into()))
+            .map(|i| {
+                let byte = s.get(i..i + 2).ok_or(ParseError::HexIncomplete)?;
+                u8::from_str_radix(byte, 16).map_err(|e| e.into())
+            })
             .collect::<anyhow::Result<Vec<u8>>>()?;
         let mut u = U256 { 0: [0u8; 32] };
         v.iter().enumerate().for_each(|(i, b)| u.0[i] = *b);
-- 
2.43.0


From 02d47fdc3059b346f9f4637241fc9463b37ab8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 17/34] fix: flsignal refuses an unreadable system realm

---
 cli/flsignal/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/flsignal/src/main.rs b/cli/flsignal/src/main.rs
index 1a43acc..0fa2368 100644
--- a/cli/flsignal/src/main.rs
+++ b/cli/flsignal/src/main.rs
@@ -34,7 +34,10 @@ async fn main() -> anyhow::Result<()> {
     logger.try_init().expect("Failed to initialize logger");
 
     let wss = WebSocketServer::new(8765).await?;
-    let system_realm = args.system_realm.and_then(|sr| RealmID::from_str(&sr).ok());
+    let system_realm = args
+        .system_realm
+        .map(|sr| RealmID::from_str(&sr))
+        .transpose()?;
     log::info!("System realm config is: {:?}", system_realm);
     let mut signal_server = SignalServer::start(
         wss,
-- 
2.43.0


From 00e0406c5447c570471f3ee6cf17cf7d48d39b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 18/34] fix: an event which is too old to be kept is not
 announced as new

---
 flmodules/src/gossip_events/core.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index ce04ef2..e903a92 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -144,6 +144,8 @@ impl Events {
 
     // Check if a message from the same node already exists. If it does,
     // keep only the most recent of the stored and incoming message.
+    // If both have been created at the same time, all the nodes need to keep
+    // the same one, else they send the two messages to each other forever.
     fn insert_unique(&mut self, msg: Event) -> bool {
         if let Some((id, ev)) = self
             .events
@@ -151,7 +153,7 @@ impl Events {
             .find(|(_, v)| v.src == msg.src)
             .map(|(id, ev)| (*id, ev.clone()))
         {
-            if ev.created > msg.created {
+            if (ev.created, id) > (msg.created, msg.get_id()) {
                 return false;
             }
             self.events.remove(&id);
@@ -160,10 +162,12 @@ impl Events {
     }
 
     // Insert the message in the events and make sure the limits are kept.
+    // Returns false if the message is too old to be kept.
     fn insert_simple(&mut self, msg: Event) -> bool {
-        self.events.insert(msg.get_id(), msg);
+        let id = msg.get_id();
+        self.events.insert(id, msg);
         self.limit();
-        true
+        self.events.contains_key(&id)
     }
 
     /// Returns all messages that are part of the ids.
@@ -196,7 +200,7 @@ impl Events {
             .events
             .iter()
             .map(|(k, v)| (k, v.created))
-            .sorted_by(|a, b| b.1.partial_cmp(&a.1).unwrap())
+            .sorted_by(|a, b| (b.1, b.0).cmp(&(a.1, a.0)))
             .skip(self.config.max_events)
             .map(|(k, _)| k)
             .cloned()
-- 
2.43.0


From 2c3b4af1af2202135268f62c87b19663e43137ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 19/34] fix: removing the oldest nodes removes the ones it
 returns

---
 flmodules/src/random_connections/nodes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flmodules/src/random_connections/nodes.rs b/flmodules/src/random_connections/nodes.rs
index 4a664d0..963cb17 100644
--- a/flmodules/src/random_connections/nodes.rs
+++ b/flmodules/src/random_connections/nodes.rs
@@ -118,7 +118,7 @@ impl Nodes {
     // Removes nodes that are as old or older than age and returns the removed nodes.
     pub fn remove_oldest_ticks(&mut self, ticks: u32) -> NodeIDs {
         let nodes = self.oldest_ticks(ticks);
-        self.0.splice(..nodes.0.len(), vec![]);
+        self.remove(&nodes);
         nodes
     }
 
-- 
2.43.0


From 7a40aa99657cb4d6c3af07960fcaef4353c1b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 20/34] fix: connections which do not succeed are given up
 after connecting_timeout

---
 flmodules/src/random_connections/intern.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flmodules/src/random_connections/intern.rs b/flmodules/src/random_connections/intern.rs
index 21d2802..012d361 100644
--- a/flmodules/src/random_connections/intern.rs
+++ b/flmodules/src/random_connections/intern.rs
@@ -67,6 +67,9 @@ impl Intern {
 
     fn msg_tick(&mut self) -> Vec<InternOut> {
         self.storage.tick();
+        self.storage
+            .connecting
+            .remove_oldest_ticks(self.cfg.connecting_timeout);
 
         concat([
             self.new_connection(),
-- 
2.43.0


From 7138ae67c5c24f12b5eb815c20434580e853b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 21/34] fix: WebSocket connections are looked up by their id,
 not by their position

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 27e35c9..7bb6f58 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -4,7 +4,7 @@ use futures::{
     stream::{SplitSink, SplitStream},
     SinkExt, StreamExt,
 };
-use std::sync::Arc;
+use std::{collections::HashMap, sync::Arc};
 use tokio::{
     net::{TcpListener, TcpStream},
     select,
@@ -20,14 +20,14 @@ use crate::{
 };
 
 pub struct WebSocketServer {
-    connections: Arc<Mutex<Vec<WSConnection>>>,
+    connections: Arc<Mutex<HashMap<usize, WSConnection>>>,
     conn_thread: JoinHandle<()>,
 }
 
 impl WebSocketServer {
     pub async fn new(port: u16) -> anyhow::Result<BrokerWSServer> {
         let server = TcpListener::bind(format!("0.0.0.0:{}", port)).await?;
-        let connections = Arc::new(Mutex::new(Vec::new()));
+        let connections = Arc::new(Mutex::new(HashMap::new()));
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
         let mut broker_cl = broker.clone();
@@ -40,7 +40,7 @@ impl WebSocketServer {
                         match WSConnection::new(stream, broker_cl2, connection_id).await {
                             Ok(conn) => {
                                 log::trace!("Got new connection");
-                                connections_cl.lock().await.push(conn);
+                                connections_cl.lock().await.insert(connection_id, conn);
                                 broker_cl
                                     .emit_msg_out(WSServerOut::NewConnection(connection_id))
                                     .expect("Error sending connect message");
@@ -72,19 +72,19 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
             match msg {
                 WSServerIn::Message(id, msg) => {
                     let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
+                    if let Some(conn) = connections.get_mut(&id) {
                         if let Err(e) = conn.send(msg).await {
                             log::error!("Error while sending: {e}");
                             conn.close();
-                            connections.remove(id);
+                            connections.remove(&id);
                         }
                     }
                 }
                 WSServerIn::Close(id) => {
                     let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
+                    if let Some(conn) = connections.get_mut(&id) {
                         conn.close();
-                        connections.remove(id);
+                        connections.remove(&id);
                     }
                 }
                 WSServerIn::Stop => {
-- 
2.43.0


From c6c2de2dd11a874a9d40a265adcad3066467f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 22/34] fix: the end of a WebSocket stream ends its reader
 instead of spinning

---
 flarch/src/web_rtc/libc/web_socket_client.rs | 30 ++++++-------
 flarch/src/web_rtc/libc/web_socket_server.rs | 45 ++++++++++----------
 2 files changed, 36 insertions(+), 39 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index 5251aa5..e7b008e 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -32,25 +32,23 @@ impl WebSocketClient {
         let mut broker_cl = self.broker.clone();
         tokio::spawn(async move {
             wait_ms(1000).await;
-            loop {
-                if let Some(msg) = read.next().await {
-                    match msg {
-                        Ok(msg) => {
-                            if msg.is_text() {
-                                broker_cl
-                                    .emit_msg_out(WSClientOut::Message(msg.to_string()))
-                                    .expect("Failed to emit message");
-                            }
-                        }
-                        Err(e) => {
-                            log::warn!("Closing connection because of error: {:?}", e);
-                            log::warn!("Trying to reconnect");
+            while let Some(msg) = read.next().await {
+                match msg {
+                    Ok(msg) => {
+                        if msg.is_text() {
                             broker_cl
-                                .emit_msg_in(WSClientIn::Connect)
-                                .expect("tried to reconnect");
-                            return;
+                                .emit_msg_out(WSClientOut::Message(msg.to_string()))
+                                .expect("Failed to emit message");
                         }
                     }
+                    Err(e) => {
+                        log::warn!("Closing connection because of error: {:?}", e);
+                        log::warn!("Trying to reconnect");
+                        broker_cl
+                            .emit_msg_in(WSClientIn::Connect)
+                            .expect("tried to reconnect");
+                        return;
+                    }
                 }
             }
         });
diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 7bb6f58..34b0e1e 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -139,31 +139,30 @@ impl WSConnection {
                         return;
                     },
                     ws_out = ws.next() =>
-                        if let Some(msg_ws) = ws_out {
-                            if let Some(out) = match msg_ws {
-                                Ok(msg) => match msg {
-                                    Message::Text(s) => {
-                                        Some(WSServerOut::Message(id, s.to_string()))
-                                    }
-                                    Message::Close(_) => {
-                                        Some(WSServerOut::Disconnection(id))
-                                    }
-                                    _ => None,
-                                },
-                                Err(e) => {
-                                    log::warn!("Closing connection because of error: {e:?}");
-                                    Some(WSServerOut::Disconnection(id))
+                        if let Some(out) = match ws_out {
+                            Some(Ok(msg)) => match msg {
+                                Message::Text(s) => {
+                                    Some(WSServerOut::Message(id, s.to_string()))
                                 }
-                            } {
-                                broker
-                                    .emit_msg_out(out.clone())
-                                    .expect("While sending message to broker.");
-                                if matches!(
-                                    out,
-                                    WSServerOut::Disconnection(_)
-                                ) {
-                                    return;
+                                Message::Close(_) => {
+                                    Some(WSServerOut::Disconnection(id))
                                 }
+                                _ => None,
+                            },
+                            Some(Err(e)) => {
+                                log::warn!("Closing connection because of error: {e:?}");
+                                Some(WSServerOut::Disconnection(id))
+                            }
+                            None => Some(WSServerOut::Disconnection(id)),
+                        } {
+                            broker
+                                .emit_msg_out(out.clone())
+                                .expect("While sending message to broker.");
+                            if matches!(
+                                out,
+                                WSServerOut::Disconnection(_)
+                            ) {
+                                return;
                             }
                         }
                 }
-- 
2.43.0


From 738084efd22793d664663eaa3f60b25f58dcbc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 23/34] fix: the WebSocket client survives errors while sending
 and closing

---
 flarch/src/web_rtc/libc/web_socket_client.rs | 28 +++++++++-----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_client.rs b/flarch/src/web_rtc/libc/web_socket_client.rs
index e7b008e..f401676 100644
--- a/flarch/src/web_rtc/libc/web_socket_client.rs
+++ b/flarch/src/web_rtc/libc/web_socket_client.rs
@@ -1,13 +1,12 @@
 use async_trait::async_trait;
 use futures::stream::SplitStream;
-use futures::{stream::SplitSink, Sink, SinkExt, StreamExt};
-use std::pin::Pin;
+use futures::{stream::SplitSink, SinkExt, StreamExt};
 use tokio::net::TcpStream;
 use tokio_tungstenite::{connect_async, tungstenite, MaybeTlsStream, WebSocketStream};
 
 use crate::broker::{Broker, SubsystemHandler};
 use crate::tasks::wait_ms;
-use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut, WSError};
+use crate::web_rtc::websocket::{BrokerWSClient, WSClientIn, WSClientOut};
 
 pub struct WebSocketClient {
     url: String,
@@ -57,7 +56,9 @@ impl WebSocketClient {
     async fn connect_ws(&mut self) -> anyhow::Result<()> {
         if let Some(mut write) = self.write.take() {
             log::debug!("Reconnecting to websocket at {}", self.url);
-            write.close().await?;
+            if let Err(e) = write.close().await {
+                log::warn!("Error closing previous connection: {e}");
+            }
         } else {
             log::trace!("Connecting to websocket at {}", self.url);
         }
@@ -76,16 +77,11 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
         for msg in msgs {
             match msg {
                 WSClientIn::Message(msg) => {
-                    if let Some(mut write) = self.write.as_mut() {
-                        Pin::new(&mut write)
-                            .start_send(tungstenite::Message::text(msg))
-                            .map_err(|e| WSError::Underlying(e.to_string()))
-                            .expect("Error sending message");
-                        Pin::new(&mut write)
-                            .flush()
-                            .await
-                            .map_err(|e| WSError::Underlying(e.to_string()))
-                            .expect("msg flush error");
+                    if let Some(write) = self.write.as_mut() {
+                        if let Err(e) = write.send(tungstenite::Message::text(msg)).await {
+                            log::warn!("Error sending message: {e}");
+                            self.write = None;
+                        }
                     } else {
                         log::warn!("Tried to write a message to a closed connection");
                         if let Err(e) = self.connect_ws().await {
@@ -95,7 +91,9 @@ impl SubsystemHandler<WSClientIn, WSClientOut> for WebSocketClient {
                 }
                 WSClientIn::Disconnect => {
                     if let Some(mut write) = self.write.take() {
-                        write.close().await.unwrap();
+                        if let Err(e) = write.close().await {
+                            log::warn!("Error closing connection: {e}");
+                        }
                     } else {
                         log::warn!("Trying to disconnect a disconnected connection");
                     }
-- 
2.43.0


From 7c0d8a39fb6405a921f3eddb95eaadb819e52b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 24/34] fix: packets are read as JSON, which is what they are
 written in

---
 flarch/src/web_rtc/node_connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index 8fde700..ffdd872 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -367,7 +367,7 @@ impl PacketCollector {
     }
 
     fn new_packet_str(&mut self, s: &str) -> Option<String> {
-        self.new_packet(serde_yaml::from_str(s).ok()?)
+        self.new_packet(serde_json::from_str(s).ok()?)
     }
 
     fn get_params(p: &Packet) -> Option<(U256, usize, usize)> {
-- 
2.43.0


From 80f60ef625cd17eac16cf98602853e4c8e0644bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 25/34] fix: the parts of a message take no more memory than
 what was received

---
 flarch/src/web_rtc/node_connection.rs | 29 ++++++++++++---------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index ffdd872..2441679 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -11,7 +11,7 @@
 //! _If you come here, I hope you're not trying to debug something that doesn't work.
 //! This code is quite obscure, and should be rewritten for the 5th time or so._
 use std::{
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     fmt::{self, Display},
 };
 
@@ -337,7 +337,7 @@ impl Packet {
 
 #[derive(Default)]
 struct PacketCollector {
-    packets: HashMap<U256, Vec<Option<String>>>,
+    packets: HashMap<U256, BTreeMap<usize, String>>,
 }
 
 impl PacketCollector {
@@ -346,22 +346,19 @@ impl PacketCollector {
             None => return Some(p.data),
             Some((id, total, part)) => {
                 // Add the new packet to the list.
-                if let Some(e) = self
-                    .packets
-                    .entry(id)
-                    .or_insert(vec![None; total])
-                    .get_mut(part)
-                {
-                    *e = Some(p.data);
+                if part >= total {
+                    return None;
+                }
+                // The total comes from the other node, so only memory for the parts
+                // actually received is used.
+                let parts = self.packets.entry(id).or_default();
+                parts.insert(part, p.data);
+                if parts.len() < total {
+                    return None;
                 }
-
-                // Check if one of the entires is full, and return it.
                 self.packets
-                    .iter()
-                    .find(|(_, parts)| parts.iter().all(|p| p.is_some()))
-                    .map(|(id, _)| id.clone())
-                    .and_then(|id| self.packets.remove(&id))
-                    .map(|parts| parts.into_iter().flatten().collect())
+                    .remove(&id)
+                    .map(|parts| parts.into_values().collect())
             }
         }
     }
-- 
2.43.0


From d60ba0b569441bc1eb62eb56eec20891c9e0532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 26/34] fix: a crash while writing a file loses the stored
 value

---
 flarch/src/data_storage/libc.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/flarch/src/data_storage/libc.rs b/flarch/src/data_storage/libc.rs
index 5b37897..d922421 100644
--- a/flarch/src/data_storage/libc.rs
+++ b/flarch/src/data_storage/libc.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs::{create_dir_all, remove_file, File},
+    fs::{create_dir_all, remove_file, rename, File},
     path::PathBuf,
 };
 
@@ -63,16 +63,25 @@ impl DataStorage for DataStorageFile {
     }
 
     fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
-        File::create(self.name(key))
+        // Only replace the old value once the new one is completely written. Else a crash
+        // while writing loses both of them.
+        let name = self.name(key);
+        let name_new = name.with_extension("new");
+        File::create(&name_new)
             .map_err(|e| StorageError::Underlying(format!("While creating file: {:?}", e)))?
             .write_all(value.as_bytes())
             .map_err(|e| StorageError::Underlying(format!("While writing file: {:?}", e)))?;
+        rename(&name_new, &name)
+            .map_err(|e| StorageError::Underlying(format!("While renaming file: {:?}", e)))?;
         Ok(())
     }
 
     fn remove(&mut self, key: &str) -> Result<(), StorageError> {
-        remove_file(self.name(key))
-            .map_err(|e| StorageError::Underlying(format!("While removing file: {:?}", e)))?;
+        let name = self.name(key);
+        if name.exists() {
+            remove_file(name)
+                .map_err(|e| StorageError::Underlying(format!("While removing file: {:?}", e)))?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 3e21632299133be8ee7a3fa2c80f9bf4ccec359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 27/34] fix: access to the temporary storage fails if another
 module accesses it

---
 flarch/src/data_storage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flarch/src/data_storage.rs b/flarch/src/data_storage.rs
index dc6cc6f..d479539 100644
--- a/flarch/src/data_storage.rs
+++ b/flarch/src/data_storage.rs
@@ -71,7 +71,7 @@ impl DataStorage for DataStorageTemp {
     fn get(&self, key: &str) -> Result<String, StorageError> {
         let mut kvs = self
             .kvs
-            .try_lock()
+            .lock()
             .map_err(|e| StorageError::Underlying(e.to_string()))?;
         if let Some(kvs_entry) = kvs.get_mut(key) {
             Ok(kvs_entry.clone())
@@ -83,7 +83,7 @@ impl DataStorage for DataStorageTemp {
     fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
         let mut kvs = self
             .kvs
-            .try_lock()
+            .lock()
             .map_err(|e| StorageError::Underlying(e.to_string()))?;
         kvs.insert(key.to_string(), value.to_string());
         Ok(())
@@ -92,7 +92,7 @@ impl DataStorage for DataStorageTemp {
     fn remove(&mut self, key: &str) -> Result<(), StorageError> {
         let mut kvs = self
             .kvs
-            .try_lock()
+            .lock()
             .map_err(|e| StorageError::Underlying(e.to_string()))?;
         kvs.remove(key);
         Ok(())
-- 
2.43.0


From f7d82c4c8f73e669d5984653f760093de8a818fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 28/34] fix: a configuration which cannot be read is not
 replaced by a new one

---
 flmodules/src/nodeconfig.rs | 12 +++++++++++-
 flnode/src/node.rs          | 12 ++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index 3a5a984..b5d9f07 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -249,11 +249,21 @@ impl NodeConfig {
     /// Returns the configuration or an error. Correctly handles
     /// old toml-configurations.
     pub fn decode(data: &str) -> Self {
-        serde_yaml::from_str(data)
+        Self::decode_stored(data)
             .ok()
             .unwrap_or_else(|| Self::new())
     }
 
+    /// Returns the configuration found in the data, or a new one if there is no data.
+    /// If the data cannot be decoded, an error is returned, so that the existing
+    /// keypair doesn't get replaced.
+    pub fn decode_stored(data: &str) -> Result<Self, ConfigError> {
+        if data.is_empty() {
+            return Ok(Self::new());
+        }
+        Ok(serde_yaml::from_str(data)?)
+    }
+
     /// Returns the signature on the given hash with the private
     /// key stored in the config. The hash must be of length 32
     /// bytes.
diff --git a/flnode/src/node.rs b/flnode/src/node.rs
index c3353f1..3991c57 100644
--- a/flnode/src/node.rs
+++ b/flnode/src/node.rs
@@ -276,14 +276,10 @@ impl Node {
 
     /// Fetches the config
     pub fn get_config(storage: Box<dyn DataStorage>) -> anyhow::Result<NodeConfig> {
-        let config_str = match storage.get(STORAGE_CONFIG) {
-            Ok(s) => s,
-            Err(_) => {
-                log::info!("Couldn't load configuration - start with empty");
-                "".to_string()
-            }
-        };
-        let mut config = NodeConfig::decode(&config_str);
+        // A configuration which cannot be read must not be replaced: it holds the
+        // identity of this node.
+        let config_str = storage.get(STORAGE_CONFIG)?;
+        let mut config = NodeConfig::decode_stored(&config_str)?;
         #[cfg(target_family = "wasm")]
         let enable_webproxy_request = false;
         // Only unix based clients can send http GET requests.
-- 
2.43.0


From cf30bc4a133ba903b604c114f5dfd37c1aa064a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 29/34] fix: stored values which cannot be read are kept before
 they are overwritten

---
 flarch/src/data_storage.rs            | 10 ++++++++++
 flmodules/src/dht_storage/intern.rs   |  9 +++++++--
 flmodules/src/flo/storage.rs          | 14 ++++++++++----
 flmodules/src/gossip_events/intern.rs | 12 +++++++++---
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/flarch/src/data_storage.rs b/flarch/src/data_storage.rs
index d479539..55b8bd3 100644
--- a/flarch/src/data_storage.rs
+++ b/flarch/src/data_storage.rs
@@ -34,6 +34,16 @@ pub trait DataStorage {
     fn remove(&mut self, key: &str) -> Result<(), StorageError>;
 
     fn clone_box(&self) -> Box<dyn DataStorage + Send>;
+
+    /// Keeps a copy of a stored value which cannot be read, because the next [`set`](Self::set)
+    /// of this key overwrites it.
+    fn keep_unreadable(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
+        if value.is_empty() {
+            return Ok(());
+        }
+        log::error!("Couldn't read the stored value of {key} - keeping a copy of it");
+        self.set(&format!("{key}_unreadable"), value)
+    }
 }
 
 impl Clone for Box<dyn DataStorage + Send> {
diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index 010569e..61dd1c6 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -103,11 +103,16 @@ pub struct Messages {
 impl Messages {
     /// Returns a new chat module.
     pub fn new(
-        ds: Box<dyn DataStorage + Send>,
+        mut ds: Box<dyn DataStorage + Send>,
         config: DHTConfig,
     ) -> (Self, watch::Receiver<Stats>) {
         let str = ds.get(MODULE_NAME).unwrap_or("".into());
-        let realms = serde_yaml::from_str(&str).unwrap_or(HashMap::new());
+        let realms = serde_yaml::from_str(&str).unwrap_or_else(|_| {
+            if let Err(e) = ds.keep_unreadable(MODULE_NAME, &str) {
+                log::error!("Couldn't keep unreadable realms: {e:?}");
+            }
+            HashMap::new()
+        });
         let (tx, rx) = watch::channel(Stats::default());
         let mut msgs = Self {
             realms,
diff --git a/flmodules/src/flo/storage.rs b/flmodules/src/flo/storage.rs
index 1912c59..44d6cb9 100644
--- a/flmodules/src/flo/storage.rs
+++ b/flmodules/src/flo/storage.rs
@@ -15,11 +15,17 @@ pub struct CryptoStorage {
 const STORAGE_NAME: &str = "CryptoStorage";
 
 impl CryptoStorage {
-    pub fn new(ds: Box<dyn DataStorage + Send>) -> Self {
+    pub fn new(mut ds: Box<dyn DataStorage + Send>) -> Self {
+        let stored = ds.get(STORAGE_NAME).unwrap_or("".to_string());
+        let cs = serde_yaml::from_str(&stored).unwrap_or_else(|_| {
+            if let Err(e) = ds.keep_unreadable(STORAGE_NAME, &stored) {
+                log::error!("Couldn't keep unreadable keys: {e:?}");
+            }
+            CryptoStorage::default()
+        });
         Self {
-            ds: Some(ds.clone()),
-            ..serde_yaml::from_str(&ds.get(STORAGE_NAME).unwrap_or("".to_string()))
-                .unwrap_or(CryptoStorage::default())
+            ds: Some(ds),
+            ..cs
         }
     }
 
diff --git a/flmodules/src/gossip_events/intern.rs b/flmodules/src/gossip_events/intern.rs
index 5c73a1c..e1cbf3b 100644
--- a/flmodules/src/gossip_events/intern.rs
+++ b/flmodules/src/gossip_events/intern.rs
@@ -65,13 +65,19 @@ impl Intern {
     /// Returns a new chat module.
     pub fn new(
         id: NodeID,
-        storage: Box<dyn DataStorage + Send>,
+        mut storage: Box<dyn DataStorage + Send>,
     ) -> (Self, watch::Receiver<EventsStorage>) {
         let mut events = EventsStorage::new();
-        let gossip_msgs_str = storage.get(MODULE_NAME).unwrap();
+        let gossip_msgs_str = storage.get(MODULE_NAME).unwrap_or_else(|e| {
+            log::error!("Couldn't read gossip messages: {e:?}");
+            String::new()
+        });
         if !gossip_msgs_str.is_empty() {
             if let Err(e) = events.set(&gossip_msgs_str) {
                 log::warn!("Couldn't load gossip messages: {}", e);
+                if let Err(e) = storage.keep_unreadable(MODULE_NAME, &gossip_msgs_str) {
+                    log::error!("Couldn't keep unreadable gossip messages: {e:?}");
+                }
             }
         }
         let (storage_tx, storage_rx) = watch::channel(events.clone());
@@ -97,7 +103,7 @@ impl Intern {
         });
         self.events
             .get()
-            .map(|events_str| self.storage.set(MODULE_NAME, &events_str))
+            .and_then(|events_str| Ok(self.storage.set(MODULE_NAME, &events_str)?))
             .err()
             .map(|e| log::warn!("Couldn't store gossip: {e:?}"));
     }
-- 
2.43.0


From f15c234f902d2bfb8ffe3c33dbaf63e4a6e6cb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 30/34] fix: categories missing in the stored events are kept

---
 flmodules/src/gossip_events/core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index e903a92..63e81e1 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -86,7 +86,9 @@ impl EventsStorage {
     }
 
     pub fn set(&mut self, data: &str) -> anyhow::Result<()> {
-        self.storage = EventsStorageSave::from_str(data)?.storage;
+        // Keeps the configuration of the categories which are not in the data.
+        self.storage
+            .extend(EventsStorageSave::from_str(data)?.storage);
         Ok(())
     }
 }
-- 
2.43.0


From 39d18edb8747e2adea8cbf09494b122446cf0d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 31/34] fix: only the asked node answers a proxy request, in
 the order of its parts, and errors end it

---
 flmodules/src/web_proxy/core.rs   | 42 +++++++++++++++++++++++++------
 flmodules/src/web_proxy/intern.rs | 14 +++++++----
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index 26a37ee..ec0a2e5 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use flarch::tasks::spawn_local;
 use serde::{Deserialize, Serialize};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::{unbounded_channel, Sender, UnboundedSender};
 
 use flarch::nodeids::{NodeID, NodeIDs, U256};
 
@@ -27,7 +27,7 @@ pub struct WebProxyCore {
     nodes: NodeIDs,
     our_id: NodeID,
     node_index: usize,
-    requests: HashMap<U256, (NodeID, Sender<Bytes>)>,
+    requests: HashMap<U256, (NodeID, UnboundedSender<Bytes>)>,
 }
 
 impl WebProxyCore {
@@ -68,14 +68,37 @@ impl WebProxyCore {
 
     pub fn request_get(&mut self, rnd: U256, tx: Sender<Bytes>) -> Option<NodeID> {
         if let Some(node) = self.get_node() {
-            self.requests.insert(rnd, (node, tx));
+            // All the parts of a body go through one task, which keeps their order.
+            let (body_tx, mut body_rx) = unbounded_channel();
+            spawn_local(async move {
+                loop {
+                    tokio::select! {
+                        // Nobody is waiting for this response anymore.
+                        _ = tx.closed() => return,
+                        body = body_rx.recv() => match body {
+                            Some(body) => if tx.send(body).await.is_err() {
+                                return;
+                            },
+                            None => return,
+                        }
+                    }
+                }
+            });
+            self.requests.retain(|_, (_, tx)| !tx.is_closed());
+            self.requests.insert(rnd, (node, body_tx));
             return Some(node);
         }
         None
     }
 
-    pub fn handle_response(&mut self, nonce: U256, msg: ResponseMessage) -> Option<ResponseHeader> {
-        if let Some((_, tx)) = self.requests.get(&nonce) {
+    /// Only the node which got the request can answer it.
+    pub fn handle_response(
+        &mut self,
+        src: NodeID,
+        nonce: U256,
+        msg: ResponseMessage,
+    ) -> Option<ResponseHeader> {
+        if let Some((_, tx)) = self.requests.get(&nonce).filter(|(node, _)| *node == src) {
             match msg {
                 ResponseMessage::Header(header) => {
                     self.storage.counters.rx_packets += 1;
@@ -83,14 +106,17 @@ impl WebProxyCore {
                 }
                 ResponseMessage::Body(body) => {
                     self.storage.counters.rx_packets += 1;
-                    let tx = tx.clone();
-                    spawn_local(async move { tx.send(body).await.expect("sending body") })
+                    if tx.send(body).is_err() {
+                        // Nobody is waiting for this response anymore.
+                        self.requests.remove(&nonce);
+                    }
                 }
                 ResponseMessage::Done => {
                     self.requests.remove(&nonce);
                 }
                 ResponseMessage::Error(err) => {
-                    log::warn!("Got error {err} for response of nonce {nonce}")
+                    log::warn!("Got error {err} for response of nonce {nonce}");
+                    self.requests.remove(&nonce);
                 }
             }
         }
diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index a76289d..51ed10b 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -148,15 +148,19 @@ impl Intern {
                     let mut stream = resp.bytes_stream().chunks(1024);
                     while let Some(chunks) = stream.next().await {
                         for chunk in chunks {
+                            let (msg, failed) = match chunk {
+                                Ok(body) => (ResponseMessage::Body(body), false),
+                                Err(e) => (ResponseMessage::Error(e.to_string()), true),
+                            };
                             broker
                                 .emit_msg_out(Self::module_msg(
                                     src,
-                                    &ModuleMessage::Response(
-                                        nonce,
-                                        ResponseMessage::Body(chunk.expect("getting chunk")),
-                                    ),
+                                    &ModuleMessage::Response(nonce, msg),
                                 ))
                                 .expect("sending body");
+                            if failed {
+                                return;
+                            }
                         }
                     }
                     broker
@@ -193,7 +197,7 @@ impl Intern {
         msg: ResponseMessage,
     ) -> Vec<InternOut> {
         self.core
-            .handle_response(nonce, msg)
+            .handle_response(src, nonce, msg)
             .map_or(vec![], |header| {
                 vec![InternOut::WebProxy(WebProxyOut::ResponseGet(
                     src, nonce, header,
-- 
2.43.0


From 8251a5bf2fe7c0aed8540cfd08e241f0abfe4949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 32/34] fix: the web proxy removes its tap after a timeout, and
 accepts all header values

---
 flmodules/src/web_proxy/broker.rs   | 16 +++++++++-------
 flmodules/src/web_proxy/response.rs |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/flmodules/src/web_proxy/broker.rs b/flmodules/src/web_proxy/broker.rs
index 2cf37fe..8c8f755 100644
--- a/flmodules/src/web_proxy/broker.rs
+++ b/flmodules/src/web_proxy/broker.rs
@@ -96,20 +96,22 @@ impl WebProxy {
         self.web_proxy
             .emit_msg_in(WebProxyIn::RequestGet(our_rnd, url.to_string(), tx))?;
         let (mut tap, id) = self.web_proxy.get_tap_out().await?;
-        Ok(timeout(Duration::from_secs(5), async move {
+        let response = timeout(Duration::from_secs(5), async move {
             while let Some(msg) = tap.recv().await {
                 let WebProxyOut::ResponseGet(proxy, rnd, header) = msg;
                 if rnd == our_rnd {
-                    self.web_proxy.remove_subsystem(id).await?;
-                    return Ok(Response::new(proxy, header, rx));
+                    return Some((proxy, header));
                 }
             }
             // TODO: is this really called sometime?
-            self.web_proxy.remove_subsystem(id).await?;
-            return Err(anyhow::anyhow!(WebProxyError::ResponseTimeout));
+            None
         })
-        .await
-        .map_err(|_| WebProxyError::ResponseTimeout)??)
+        .await;
+        self.web_proxy.remove_subsystem(id).await?;
+        match response {
+            Ok(Some((proxy, header))) => Ok(Response::new(proxy, header, rx)),
+            _ => Err(anyhow::anyhow!(WebProxyError::ResponseTimeout)),
+        }
     }
 
     pub fn get_counters(&mut self) -> Counters {
diff --git a/flmodules/src/web_proxy/response.rs b/flmodules/src/web_proxy/response.rs
index 5b943f3..2e167be 100644
--- a/flmodules/src/web_proxy/response.rs
+++ b/flmodules/src/web_proxy/response.rs
@@ -64,7 +64,7 @@ impl From<&reqwest::Response> for ResponseHeader {
         let mut headers = HashMap::new();
         for (k, v) in value.headers() {
             let values = headers.entry(k.to_string()).or_insert(vec![]);
-            values.push(v.to_str().expect("converting header value").into());
+            values.push(String::from_utf8_lossy(v.as_bytes()).into());
         }
         Self {
             status: ResponseStatus {
-- 
2.43.0


From 3799347da6ed44f53783ce00fcb1c3992ab69c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 33/34] fix: keys are not overwritten if they cannot be
 serialized

---
 flmodules/src/flo/storage.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/flo/storage.rs b/flmodules/src/flo/storage.rs
index 44d6cb9..66e81fc 100644
--- a/flmodules/src/flo/storage.rs
+++ b/flmodules/src/flo/storage.rs
@@ -43,7 +43,16 @@ impl CryptoStorage {
     }
 
     pub fn store(&mut self) {
-        let ser = serde_yaml::to_string(&self).unwrap_or("".to_string());
-        self.ds.as_mut().map(|ds| ds.set(STORAGE_NAME, &ser));
+        let res = match serde_yaml::to_string(&self) {
+            Ok(ser) => self
+                .ds
+                .as_mut()
+                .map_or(Ok(()), |ds| ds.set(STORAGE_NAME, &ser))
+                .map_err(|e| e.to_string()),
+            Err(e) => Err(e.to_string()),
+        };
+        if let Err(e) = res {
+            log::error!("Couldn't store keys: {e}");
+        }
     }
 }
-- 
2.43.0


From cd28fdf6d3cee8b15b6bb40f024986118e8773ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:40 +0000
Subject: [PATCH 34/34] fix: session descriptions and messages which cannot be
 read do not panic the node

The session description of the other node was pasted into JSON and unwrapped,
and a message on a data channel which is not valid UTF-8 panicked the task.
---
 flarch/src/web_rtc/libc/web_rtc_setup.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_rtc_setup.rs b/flarch/src/web_rtc/libc/web_rtc_setup.rs
index bfd6cb7..5598847 100644
--- a/flarch/src/web_rtc/libc/web_rtc_setup.rs
+++ b/flarch/src/web_rtc/libc/web_rtc_setup.rs
@@ -21,7 +21,7 @@ use webrtc::{
     peer_connection::{
         configuration::RTCConfiguration,
         peer_connection_state::RTCPeerConnectionState,
-        sdp::{sdp_type::RTCSdpType, session_description::RTCSessionDescription},
+        sdp::session_description::RTCSessionDescription,
         RTCPeerConnection,
     },
 };
@@ -182,13 +182,6 @@ impl WebRTCConnectionSetupLibc {
         Ok(())
     }
 
-    fn get_desc(sdp_type: RTCSdpType, sdp: String) -> RTCSessionDescription {
-        let sdp_conv = sdp.replace("\r\n", "\\r\\n");
-        let rtcsession = &format!("{{ \"type\": \"{sdp_type}\", \"sdp\": \"{sdp_conv}\"}}");
-        let rtcsess = serde_json::from_str(rtcsession).unwrap();
-        rtcsess
-    }
-
     /// Returns the offer string that needs to be sent to the `Follower` node.
     async fn make_offer(&mut self) -> anyhow::Result<String> {
         if self.direction.is_some() {
@@ -224,7 +217,7 @@ impl WebRTCConnectionSetupLibc {
         }
         self.direction = Some(Direction::Incoming);
 
-        let desc = Self::get_desc(RTCSdpType::Offer, offer);
+        let desc = RTCSessionDescription::offer(offer).map_err(to_error)?;
         self.connection
             .set_remote_description(desc)
             .await
@@ -275,8 +268,9 @@ impl WebRTCConnectionSetupLibc {
             None => return Err(SetupError::SetupFail("should be connected".into()).into()),
         }
 
+        let desc = RTCSessionDescription::answer(answer).map_err(to_error)?;
         self.connection
-            .set_remote_description(Self::get_desc(RTCSdpType::Answer, answer))
+            .set_remote_description(desc)
             .await
             .map_err(to_error)?;
         Ok(())
@@ -410,10 +404,12 @@ impl WebRTCConnectionSetupLibc {
                 log::trace!("Got message before channel is opened!");
                 msgs.push(WebRTCOutput::Connected);
             }
-            let msg_str = String::from_utf8(msg.data.to_vec()).unwrap();
+            match String::from_utf8(msg.data.to_vec()) {
+                Ok(msg_str) => msgs.push(WebRTCOutput::Text(msg_str)),
+                Err(e) => log::warn!("Dropping message which is not a text: {e}"),
+            }
             let mut broker = broker.clone();
             Box::pin(async move {
-                msgs.push(WebRTCOutput::Text(msg_str));
                 for msg in msgs {
                     broker
                         .emit_msg_out(msg)
-- 
2.43.0

