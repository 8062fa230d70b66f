From 05e51fc923c8b66ace53f25e0a446a720b3ca99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 01/13] fix: pad the hashed key, not the original one, when an
 HMAC key exceeds the block size

---
 jester_hashes/src/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_hashes/src/hmac.rs b/jester_hashes/src/hmac.rs
index b613313..0eca495 100644
--- a/jester_hashes/src/hmac.rs
+++ b/jester_hashes/src/hmac.rs
@@ -21,7 +21,7 @@ pub fn hmac<Hash, Context>(ctx: &Context, key: &[u8], message: &[u8]) -> Vec<u8>
     };
 
     let padded_key = if shortened_key.len() < block_size {
-        pad(key, block_size)
+        pad(&shortened_key, block_size)
     } else {
         shortened_key
     };
-- 
2.43.0


From c4f31baefacd9ad700f5fe4c48a8568dcb278ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 02/13] fix: truncate HKDF output to the requested length

---
 jester_hashes/src/kdf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_hashes/src/kdf.rs b/jester_hashes/src/kdf.rs
index fb3482c..9637e70 100644
--- a/jester_hashes/src/kdf.rs
+++ b/jester_hashes/src/kdf.rs
@@ -20,7 +20,9 @@ pub fn hkdf_derive_key<Hash, Context>(
                         &vec![parts[i - 1].deref(), info, &[(i & 0xFF) as u8]].concat())
     }
 
-    parts.concat()
+    let mut output_key = parts.concat();
+    output_key.truncate(output_length);
+    output_key
 }
 
 
-- 
2.43.0


From 10e7d4d42c5fa2ada88af0871ec2c919f6b73b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 03/13] fix: do not count MD5 and SHA-1 padding blocks towards
 the message length limit

---
 jester_hashes/src/md5.rs  | 10 ++++++++--
 jester_hashes/src/sha1.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/jester_hashes/src/md5.rs b/jester_hashes/src/md5.rs
index 0d7d5f6..9ca08a7 100644
--- a/jester_hashes/src/md5.rs
+++ b/jester_hashes/src/md5.rs
@@ -90,6 +90,12 @@ fn round_function(hash: &mut MD5HashState, input: &[u8; BLOCK_LENGTH_BYTES]) {
     hash.hash.1 = hash.hash.1.wrapping_add(round_state.1);
     hash.hash.2 = hash.hash.2.wrapping_add(round_state.2);
     hash.hash.3 = hash.hash.3.wrapping_add(round_state.3);
+}
+
+/// Digest one block of message data and account for its length. The padding blocks appended when
+/// a hash is finished are not part of the message and must not be counted.
+fn process_message_block(hash: &mut MD5HashState, input: &[u8; BLOCK_LENGTH_BYTES]) {
+    round_function(hash, input);
 
     if hash.message_length as u128 + 64_u128 * 8 > u64::MAX as u128 {
         // todo maybe throw an error here?
@@ -136,7 +142,7 @@ impl HashFunction for MD5Hash {
                     .copy_from_slice(&input[..input_data_offset]);
 
                 // hash first block
-                round_function(hash, &first_block);
+                process_message_block(hash, &first_block);
             } else { // else copy the input data into the vec and wait for more data
                 hash.remaining_data.append(&mut input.to_vec());
                 return;
@@ -148,7 +154,7 @@ impl HashFunction for MD5Hash {
 
         // digest full blocks
         for i in 0..message_blocks_count {
-            round_function(hash, &input[input_data_offset + i * BLOCK_LENGTH_BYTES..
+            process_message_block(hash, &input[input_data_offset + i * BLOCK_LENGTH_BYTES..
                 input_data_offset + (i + 1) * BLOCK_LENGTH_BYTES].try_into().unwrap())
         }
 
diff --git a/jester_hashes/src/sha1.rs b/jester_hashes/src/sha1.rs
index 779e078..0d3d25e 100644
--- a/jester_hashes/src/sha1.rs
+++ b/jester_hashes/src/sha1.rs
@@ -84,6 +84,12 @@ fn round_function(hash: &mut SHA1HashState, block: &[u8; 64]) {
     hash.hash.c = hash.hash.c.wrapping_add(round_state.c);
     hash.hash.d = hash.hash.d.wrapping_add(round_state.d);
     hash.hash.e = hash.hash.e.wrapping_add(round_state.e);
+}
+
+/// Digest one block of message data and account for its length. The padding blocks appended when
+/// a hash is finished are not part of the message and must not be counted.
+fn process_message_block(hash: &mut SHA1HashState, block: &[u8; 64]) {
+    round_function(hash, block);
 
     if hash.message_length as u128 + 64_u128 * 8 > u64::MAX as u128 {
         // todo maybe throw an error here?
@@ -121,7 +127,7 @@ impl HashFunction for SHA1Hash {
                     .copy_from_slice(&input[..input_data_offset]);
 
                 // hash first block
-                round_function(hash, &first_block);
+                process_message_block(hash, &first_block);
             } else { // else copy the input data into the vec and wait for more data
                 hash.remaining_data.append(&mut input.to_vec());
                 return;
@@ -133,7 +139,7 @@ impl HashFunction for SHA1Hash {
 
         // digest full blocks
         for i in 0..message_blocks_count {
-            round_function(hash, &input[input_data_offset + i * BLOCK_LENGTH_BYTES..
+            process_message_block(hash, &input[input_data_offset + i * BLOCK_LENGTH_BYTES..
                 input_data_offset + (i + 1) * BLOCK_LENGTH_BYTES].try_into().unwrap())
         }
 
-- 
2.43.0


From 5d5f7c0e5ec3b5faf7c63405fe7bf31e0c590ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 04/13] fix: convert i64::MIN to a prime field member without
 overflowing

---
 jester_maths/src/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_maths/src/prime.rs b/jester_maths/src/prime.rs
index 1fb8c15..046b7bf 100644
--- a/jester_maths/src/prime.rs
+++ b/jester_maths/src/prime.rs
@@ -193,7 +193,7 @@ macro_rules! prime_fields {
                 impl num::FromPrimitive for $name {
                     fn from_i64(n: i64) -> Option<Self> {
                         if n < 0 {
-                            $crate::prime::num_bigint::BigUint::from_i64(-n).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
+                            $crate::prime::num_bigint::BigUint::from_u64(n.unsigned_abs()).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
                         } else {
                             $crate::prime::num_bigint::BigUint::from_i64(n).map(|o| o.into())
                         }
-- 
2.43.0


From a7eec4f5ceb6d62dd6bcc5125e1b9ce324cc7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:26 +0000
Subject: [PATCH 05/13] fix: file the keys of missed ratchet messages under
 their own message number

---
 jester_double_ratchet/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 4f3fa05..3b18441 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -484,7 +484,6 @@ where
             let (new_chain_key, output_key) =
                 MessageKdf::derive_key_without_input(self.receiving_chain_key.take().unwrap());
             self.receiving_chain_key = Some(new_chain_key);
-            self.receiving_chain_length += 1;
             self.missed_messages.insert(
                 (
                     self.diffie_hellman_received_key.clone().unwrap(),
@@ -492,6 +491,7 @@ where
                 ),
                 output_key,
             );
+            self.receiving_chain_length += 1;
             current_chain_missed_messages -= 1;
         }
 
@@ -516,7 +516,6 @@ where
 
             // if messages of this new chain were missed:
             while next_chain_missed_messages > 0 {
-                self.receiving_chain_length += 1;
                 let (updated_receiving_chain_key, message_key) =
                     MessageKdf::derive_key_without_input(receiving_chain_key);
                 receiving_chain_key = updated_receiving_chain_key;
@@ -524,6 +523,7 @@ where
                     (message.public_key.clone(), self.receiving_chain_length),
                     message_key,
                 );
+                self.receiving_chain_length += 1;
                 next_chain_missed_messages -= 1;
             }
 
@@ -551,7 +551,7 @@ where
             self.previous_receiving_chain_length = self.receiving_chain_length;
             self.previous_sending_chain_length = self.sending_chain_length;
             self.sending_chain_length = 0;
-            self.receiving_chain_length = 1;
+            self.receiving_chain_length += 1;
 
             message_key
         } else {
-- 
2.43.0


From 9cf29b664009c29582365c0b2f355face67f3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:26 +0000
Subject: [PATCH 06/13] fix: decrypt late ratchet messages of chains that are
 no longer active

---
 jester_double_ratchet/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 3b18441..44613e1 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -633,7 +633,16 @@ where
     DHPublicKey: Clone + Eq + Hash,
     State: state::ProtocolState,
 {
-    if protocol.diffie_hellman_received_key.is_none() {
+    if protocol
+        .missed_messages
+        .contains_key(&(message.public_key.clone(), message.message_number))
+    {
+        // this message was missed earlier, possibly in a chain that is no longer active
+        Err(ProtocolException::OutOfOrderMessage {
+            public_key: message.public_key.clone(),
+            message_number: message.message_number,
+        })
+    } else if protocol.diffie_hellman_received_key.is_none() {
         // this is the first ever message received
         // the message number tells how many messages came before that were missed
         Ok((0, message.message_number))
-- 
2.43.0


From 000aa1ddc61ba0dff71ed32cdc81f253efc7d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:27 +0000
Subject: [PATCH 07/13] fix: let the ratchet initiator start from a later
 message than the first of the chain

---
 jester_double_ratchet/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 44613e1..7e30677 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -287,8 +287,18 @@ where
         );
 
         // update receiving chain
-        let (updated_root_key, receiving_key) =
+        let (updated_root_key, mut receiving_key) =
             RootKdf::derive_key(self.root_chain_key.take().unwrap(), generated_dh_shared_key);
+
+        // insert missing message keys into missed_messages dictionary
+        let mut missed_messages = HashMap::new();
+        for message_number in 0..message.message_number {
+            let (updated_receiving_key, message_key) =
+                MessageKdf::derive_key_without_input(receiving_key);
+            receiving_key = updated_receiving_key;
+            missed_messages.insert((message.public_key.clone(), message_number), message_key);
+        }
+
         let (receiving_chain_key, message_key) =
             MessageKdf::derive_key_without_input(receiving_key);
 
@@ -318,10 +328,10 @@ where
                 sending_chain_key: Some(sending_key),
                 receiving_chain_key: Some(receiving_chain_key),
                 sending_chain_length: 0,
-                receiving_chain_length: 1,
+                receiving_chain_length: message.message_number + 1,
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
-                missed_messages: HashMap::new(),
+                missed_messages,
             },
             clear_text,
         )
-- 
2.43.0


From 9d69be1e8995eddda2a03a34dd812fef3af1dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:56 +0000
Subject: [PATCH 08/13] fix: remember the partner's ratchet key when a new
 receiving chain starts

---
 jester_double_ratchet/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 7e30677..3742c47 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -553,6 +553,7 @@ where
             // update dh keys
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
+            self.diffie_hellman_received_key = Some(message.public_key);
 
             // update root chain
             self.root_chain_key = Some(updated_root_key);
-- 
2.43.0


From b314173355621f3f3ec8e5a0dac186427b5427f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:56 +0000
Subject: [PATCH 09/13] fix: refuse replayed ratchet messages of chains that
 are no longer active

---
 jester_double_ratchet/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 3742c47..67003f4 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -5,7 +5,7 @@ use rand::{CryptoRng, RngCore};
 use crate::DecryptionException::{OutOfOrderMessage, UnknownMessageHeader};
 use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
 use jester_encryption::SymmetricalEncryptionScheme;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::Hash;
 
 #[cfg(test)]
@@ -162,6 +162,7 @@ pub struct DoubleRatchetProtocol<
     previous_sending_chain_length: usize,
     previous_receiving_chain_length: usize,
     missed_messages: HashMap<(DHPublicKey, usize), MessageKey>,
+    retired_keys: HashSet<DHPublicKey>,
 }
 
 impl<
@@ -243,6 +244,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: HashMap::new(),
+                retired_keys: HashSet::new(),
             },
             DoubleRatchetAlgorithmMessage {
                 public_key: public_dh_key,
@@ -332,6 +334,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages,
+                retired_keys: HashSet::new(),
             },
             clear_text,
         )
@@ -424,6 +427,7 @@ where
             previous_sending_chain_length: 0,
             previous_receiving_chain_length: 0,
             missed_messages: HashMap::new(),
+            retired_keys: HashSet::new(),
         }
     }
 
@@ -553,7 +557,9 @@ where
             // update dh keys
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
-            self.diffie_hellman_received_key = Some(message.public_key);
+            if let Some(retired_key) = self.diffie_hellman_received_key.replace(message.public_key) {
+                self.retired_keys.insert(retired_key);
+            }
 
             // update root chain
             self.root_chain_key = Some(updated_root_key);
@@ -647,8 +653,9 @@ where
     if protocol
         .missed_messages
         .contains_key(&(message.public_key.clone(), message.message_number))
+        || protocol.retired_keys.contains(&message.public_key)
     {
-        // this message was missed earlier, possibly in a chain that is no longer active
+        // this message was missed earlier, or belongs to a chain that is no longer active
         Err(ProtocolException::OutOfOrderMessage {
             public_key: message.public_key.clone(),
             message_number: message.message_number,
-- 
2.43.0


From 00b90c4cb94dcf21cf0ea8138bc88178478a9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:51 +0000
Subject: [PATCH 10/13] fix: interpolate Shamir secrets from the same shares
 that are summed

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 49d3a9c..1ec2f6b 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -131,6 +131,7 @@ where
                 share.clone().mul(
                     shares
                         .iter()
+                        .take(threshold)
                         .filter(|(j, _)| *i != *j)
                         .map(|(j, _)| {
                             T::from_isize(-(*j as isize))
-- 
2.43.0


From 0f2883b935a5983e05e34a98b018f4c352132f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:51 +0000
Subject: [PATCH 11/13] fix: do not overflow when evaluating Shamir polynomials
 of high degree

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 1ec2f6b..dc628aa 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -107,7 +107,7 @@ where
                         .clone()
                         .iter()
                         .fold(secret.clone(), |akk, (index, val)| {
-                            akk + val.clone() * BigUint::from_usize(pow(x, *index)).unwrap().into()
+                            akk + val.clone() * pow(BigUint::from_usize(x).unwrap(), *index).into()
                         }),
                 )
             })
-- 
2.43.0


From 8f1ee8313adac2567034fac54ac3dfdedc66123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:31 +0000
Subject: [PATCH 12/13] hook: clonable ratchet messages under cfg(jester_verif)

---
 jester_double_ratchet/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 67003f4..6f44526 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -52,6 +52,7 @@ pub trait ConstantInputKeyRatchet: KeyDerivationFunction {
 /// # Type Parameters
 /// - `K` the diffie-hellman key type
 /// - `C` the cipher text type
+#[cfg_attr(jester_verif, derive(Clone))]
 pub struct DoubleRatchetAlgorithmMessage<K, C> {
     public_key: K,
     message_number: usize,
-- 
2.43.0


From 332ec8e58fcfa1b048b1d72dc5446bf5151eb145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 13/13] hook: message header access under cfg(jester_verif)

---
 jester_double_ratchet/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 6f44526..84f6e5a 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -60,6 +60,19 @@ pub struct DoubleRatchetAlgorithmMessage<K, C> {
     message: Option<C>,
 }
 
+#[cfg(jester_verif)]
+impl<K, C> DoubleRatchetAlgorithmMessage<K, C> {
+    /// Header fields and cipher text, for the verification harnesses.
+    pub fn jester_verif_parts(&mut self) -> (&mut K, &mut usize, &mut usize, &mut Option<C>) {
+        (
+            &mut self.public_key,
+            &mut self.message_number,
+            &mut self.previous_chain_length,
+            &mut self.message,
+        )
+    }
+}
+
 /// The two states the double ratchet protocol can be in. The `Initiator` is the party that is trying to establish
 /// a communication. The addressee can establish the protocol instantly, because it does not need an initialized
 /// receiving chain until it gets another message by the `Initiator`, and that will contain any information necessary
-- 
2.43.0

