From b3fd9d8cdfb1b26bc0177dbd7a1532121cee02ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 01/12] hook: let simulations clone ratchet messages in flight
 (cfg jester_sim)

---
 jester_double_ratchet/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 4f3fa05..1e521f6 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -52,6 +52,7 @@ pub trait ConstantInputKeyRatchet: KeyDerivationFunction {
 /// # Type Parameters
 /// - `K` the diffie-hellman key type
 /// - `C` the cipher text type
+#[cfg_attr(jester_sim, derive(Clone))] // simulated networks duplicate messages in flight
 pub struct DoubleRatchetAlgorithmMessage<K, C> {
     public_key: K,
     message_number: usize,
-- 
2.43.0


From edfacac5cb6411a1d923b4d492ebfc72bd89b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 02/12] hook: scheduling points at the coefficient cache locks
 (cfg jester_sim)

---
 jester_sharing/src/lib.rs                     |  2 +
 .../shared_or_function/joint_unbounded_or.rs  |  3 +
 jester_sharing/src/sim_hooks.rs               | 64 +++++++++++++++++++
 3 files changed, 69 insertions(+)
 create mode 100644 jester_sharing/src/sim_hooks.rs

diff --git a/jester_sharing/src/lib.rs b/jester_sharing/src/lib.rs
index 5a8feaa..e837344 100644
--- a/jester_sharing/src/lib.rs
+++ b/jester_sharing/src/lib.rs
@@ -22,6 +22,8 @@ pub mod multiplication;
 pub mod prefix_or_function;
 pub mod random_number_generation;
 pub mod shared_or_function;
+#[cfg(jester_sim)]
+pub mod sim_hooks;
 pub mod threshold_sharing;
 
 /// Protocol marker for delegated protocol implementations
diff --git a/jester_sharing/src/shared_or_function/joint_unbounded_or.rs b/jester_sharing/src/shared_or_function/joint_unbounded_or.rs
index cb3a193..60cbd80 100644
--- a/jester_sharing/src/shared_or_function/joint_unbounded_or.rs
+++ b/jester_sharing/src/shared_or_function/joint_unbounded_or.rs
@@ -9,6 +9,9 @@ use std::collections::HashMap;
 use std::marker::PhantomData;
 use std::pin::Pin;
 
+#[cfg(jester_sim)]
+use crate::sim_hooks::Mutex;
+#[cfg(not(jester_sim))]
 use futures::lock::Mutex;
 use futures::{future::join_all, join};
 use lazy_static::*;
diff --git a/jester_sharing/src/sim_hooks.rs b/jester_sharing/src/sim_hooks.rs
new file mode 100644
index 0000000..bd28544
--- /dev/null
+++ b/jester_sharing/src/sim_hooks.rs
@@ -0,0 +1,64 @@
+//! Seams for deterministic simulation. This module only exists under `--cfg jester_sim` and is no part of the shipped
+//! library: it puts a scheduling point, decided by the simulator, in front of every acquisition of the locks that
+//! guard process-wide state.
+
+use std::future::Future;
+use std::pin::Pin;
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::task::{Context, Poll};
+
+static YIELD_DECISION: AtomicUsize = AtomicUsize::new(0);
+
+/// Let `decide` choose at every scheduling point whether the running task is suspended there.
+pub fn set_yield_decision(decide: fn() -> bool) {
+    YIELD_DECISION.store(decide as usize, Ordering::SeqCst);
+}
+
+fn decide_yield() -> bool {
+    match YIELD_DECISION.load(Ordering::SeqCst) {
+        0 => false,
+        decide => unsafe { std::mem::transmute::<usize, fn() -> bool>(decide)() },
+    }
+}
+
+/// A future that is pending as long as the simulator decides so.
+pub struct YieldPoint;
+
+impl Future for YieldPoint {
+    type Output = ();
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
+        if decide_yield() {
+            cx.waker().wake_by_ref();
+            Poll::Pending
+        } else {
+            Poll::Ready(())
+        }
+    }
+}
+
+/// `futures::lock::Mutex` with a scheduling point in front of every acquisition.
+pub struct Mutex<T>(futures::lock::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Mutex(futures::lock::Mutex::new(value))
+    }
+
+    pub async fn lock(&self) -> futures::lock::MutexGuard<'_, T> {
+        YieldPoint.await;
+        self.0.lock().await
+    }
+
+    pub fn try_lock(&self) -> Option<futures::lock::MutexGuard<'_, T>> {
+        self.0.try_lock()
+    }
+
+    pub fn get_mut(&mut self) -> &mut T {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> T {
+        self.0.into_inner()
+    }
+}
-- 
2.43.0


From 33d77139f4904e9b9cc0af81901ff47447703068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 03/12] fix: remember the received ratchet key when a new
 receiving chain starts

Without it every further message of the new chain looked like yet another chain and
was refused or corrupted the session.
---
 jester_double_ratchet/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 1e521f6..866a37a 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -544,6 +544,7 @@ where
             // update dh keys
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
+            self.diffie_hellman_received_key = Some(message.public_key.clone());
 
             // update root chain
             self.root_chain_key = Some(updated_root_key);
-- 
2.43.0


From f1acf19c4a461330138d2b57b93497a7d57e3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 04/12] fix: store the keys of skipped messages under the
 number of their message

Message numbers start at zero, but the keys were stored from one on, so that a late
message was not found or decrypted with the key of its predecessor.
---
 jester_double_ratchet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 866a37a..2ae7029 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -485,7 +485,6 @@ where
             let (new_chain_key, output_key) =
                 MessageKdf::derive_key_without_input(self.receiving_chain_key.take().unwrap());
             self.receiving_chain_key = Some(new_chain_key);
-            self.receiving_chain_length += 1;
             self.missed_messages.insert(
                 (
                     self.diffie_hellman_received_key.clone().unwrap(),
@@ -493,6 +492,7 @@ where
                 ),
                 output_key,
             );
+            self.receiving_chain_length += 1;
             current_chain_missed_messages -= 1;
         }
 
@@ -517,7 +517,6 @@ where
 
             // if messages of this new chain were missed:
             while next_chain_missed_messages > 0 {
-                self.receiving_chain_length += 1;
                 let (updated_receiving_chain_key, message_key) =
                     MessageKdf::derive_key_without_input(receiving_chain_key);
                 receiving_chain_key = updated_receiving_chain_key;
@@ -525,6 +524,7 @@ where
                     (message.public_key.clone(), self.receiving_chain_length),
                     message_key,
                 );
+                self.receiving_chain_length += 1;
                 next_chain_missed_messages -= 1;
             }
 
-- 
2.43.0


From 2ff3c2707452aafd00362f33196ed5103306aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 05/12] fix: count the messages skipped at the start of a new
 receiving chain

The length of the new chain was reset to one even if its first messages had been skipped.
---
 jester_double_ratchet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 2ae7029..a254649 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -553,7 +553,7 @@ where
             self.previous_receiving_chain_length = self.receiving_chain_length;
             self.previous_sending_chain_length = self.sending_chain_length;
             self.sending_chain_length = 0;
-            self.receiving_chain_length = 1;
+            self.receiving_chain_length += 1;
 
             message_key
         } else {
-- 
2.43.0


From a306225bda4b3cc26f2cd0b89ddd649956044ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 06/12] fix: recognise skipped messages of earlier receiving
 chains

A late message of a chain that has been replaced was taken for the start of a new chain,
which either refused it or corrupted the session.
---
 jester_double_ratchet/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index a254649..b34af90 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -635,7 +635,16 @@ where
     DHPublicKey: Clone + Eq + Hash,
     State: state::ProtocolState,
 {
-    if protocol.diffie_hellman_received_key.is_none() {
+    if protocol
+        .missed_messages
+        .contains_key(&(message.public_key.clone(), message.message_number))
+    {
+        // this message was skipped earlier, possibly in a chain that has been replaced since
+        Err(ProtocolException::OutOfOrderMessage {
+            public_key: message.public_key.clone(),
+            message_number: message.message_number,
+        })
+    } else if protocol.diffie_hellman_received_key.is_none() {
         // this is the first ever message received
         // the message number tells how many messages came before that were missed
         Ok((0, message.message_number))
-- 
2.43.0


From c3d62db35272988ee04f9ac48baed073c75a26c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 07/12] fix: refuse repeated messages of earlier receiving
 chains

A repeated message of a chain that has been replaced was taken for the start of a new
chain and corrupted the session. Remember the public keys of replaced chains.
---
 jester_double_ratchet/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index b34af90..b269333 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -5,7 +5,7 @@ use rand::{CryptoRng, RngCore};
 use crate::DecryptionException::{OutOfOrderMessage, UnknownMessageHeader};
 use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
 use jester_encryption::SymmetricalEncryptionScheme;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::Hash;
 
 #[cfg(test)]
@@ -163,6 +163,7 @@ pub struct DoubleRatchetProtocol<
     previous_sending_chain_length: usize,
     previous_receiving_chain_length: usize,
     missed_messages: HashMap<(DHPublicKey, usize), MessageKey>,
+    retired_received_keys: HashSet<DHPublicKey>,
 }
 
 impl<
@@ -244,6 +245,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: HashMap::new(),
+                retired_received_keys: HashSet::new(),
             },
             DoubleRatchetAlgorithmMessage {
                 public_key: public_dh_key,
@@ -323,6 +325,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: HashMap::new(),
+                retired_received_keys: HashSet::new(),
             },
             clear_text,
         )
@@ -415,6 +418,7 @@ where
             previous_sending_chain_length: 0,
             previous_receiving_chain_length: 0,
             missed_messages: HashMap::new(),
+            retired_received_keys: HashSet::new(),
         }
     }
 
@@ -544,6 +548,8 @@ where
             // update dh keys
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
+            self.retired_received_keys
+                .extend(self.diffie_hellman_received_key.take());
             self.diffie_hellman_received_key = Some(message.public_key.clone());
 
             // update root chain
@@ -662,6 +668,12 @@ where
                 message_number: message.message_number,
             })
         }
+    } else if protocol.retired_received_keys.contains(&message.public_key) {
+        // this message belongs to an earlier chain, but was not skipped: it has been received before
+        Err(ProtocolException::OutOfOrderMessage {
+            public_key: message.public_key.clone(),
+            message_number: message.message_number,
+        })
     } else {
         if message.previous_chain_length >= protocol.receiving_chain_length {
             // this message starts a new chain
-- 
2.43.0


From 598633ea8b43b3126b37ab7848713a466f372bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 08/12] fix: establish the session from any of the addressee's
 first messages

The first response to arrive was always decrypted as message number zero.
---
 jester_double_ratchet/src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index b269333..bb8ad19 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -290,8 +290,20 @@ where
         );
 
         // update receiving chain
-        let (updated_root_key, receiving_key) =
+        let (updated_root_key, mut receiving_key) =
             RootKdf::derive_key(self.root_chain_key.take().unwrap(), generated_dh_shared_key);
+
+        // if earlier messages of the addressee were missed:
+        for missed_message_number in 0..message.message_number {
+            let (updated_receiving_key, message_key) =
+                MessageKdf::derive_key_without_input(receiving_key);
+            receiving_key = updated_receiving_key;
+            self.missed_messages.insert(
+                (message.public_key.clone(), missed_message_number),
+                message_key,
+            );
+        }
+
         let (receiving_chain_key, message_key) =
             MessageKdf::derive_key_without_input(receiving_key);
 
@@ -321,10 +333,10 @@ where
                 sending_chain_key: Some(sending_key),
                 receiving_chain_key: Some(receiving_chain_key),
                 sending_chain_length: 0,
-                receiving_chain_length: 1,
+                receiving_chain_length: message.message_number + 1,
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
-                missed_messages: HashMap::new(),
+                missed_messages: self.missed_messages,
                 retired_received_keys: HashSet::new(),
             },
             clear_text,
-- 
2.43.0


From 78c3938d3aca9e7110cf89de3b5566bc1c67fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 09/12] fix: pad the shortened form of an HMAC key that is
 longer than a block

---
 jester_hashes/src/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_hashes/src/hmac.rs b/jester_hashes/src/hmac.rs
index b613313..0eca495 100644
--- a/jester_hashes/src/hmac.rs
+++ b/jester_hashes/src/hmac.rs
@@ -21,7 +21,7 @@ pub fn hmac<Hash, Context>(ctx: &Context, key: &[u8], message: &[u8]) -> Vec<u8>
     };
 
     let padded_key = if shortened_key.len() < block_size {
-        pad(key, block_size)
+        pad(&shortened_key, block_size)
     } else {
         shortened_key
     };
-- 
2.43.0


From 8e4c9116ef2acb15bc0e5a1db3782627ec22d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 10/12] fix: truncate HKDF output to the requested length

---
 jester_hashes/src/kdf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_hashes/src/kdf.rs b/jester_hashes/src/kdf.rs
index fb3482c..9637e70 100644
--- a/jester_hashes/src/kdf.rs
+++ b/jester_hashes/src/kdf.rs
@@ -20,7 +20,9 @@ pub fn hkdf_derive_key<Hash, Context>(
                         &vec![parts[i - 1].deref(), info, &[(i & 0xFF) as u8]].concat())
     }
 
-    parts.concat()
+    let mut output_key = parts.concat();
+    output_key.truncate(output_length);
+    output_key
 }
 
 
-- 
2.43.0


From be44aed471524b7d4ad0512dcf086a3bfb5e0fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 11/12] fix: evaluate the sharing polynomial in the field
 instead of in usize

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 49d3a9c..b1178ab 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -1,6 +1,5 @@
 use crate::{CryptoRng, RngCore};
 use num::pow::pow;
-use num::{BigUint, FromPrimitive};
 use num_bigint::RandBigInt;
 
 use crate::PrimeField;
@@ -107,7 +106,7 @@ where
                         .clone()
                         .iter()
                         .fold(secret.clone(), |akk, (index, val)| {
-                            akk + val.clone() * BigUint::from_usize(pow(x, *index)).unwrap().into()
+                            akk + val.clone() * pow(T::from_usize(x).unwrap(), *index)
                         }),
                 )
             })
-- 
2.43.0


From f0795d42dcce8d8f72e23d04c81479c9bf7ea3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 12/12] fix: interpolate over the first threshold shares only

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index b1178ab..9b7606d 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -130,6 +130,7 @@ where
                 share.clone().mul(
                     shares
                         .iter()
+                        .take(threshold)
                         .filter(|(j, _)| *i != *j)
                         .map(|(j, _)| {
                             T::from_isize(-(*j as isize))
-- 
2.43.0

