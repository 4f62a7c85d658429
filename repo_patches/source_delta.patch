From ee08d7bd6ef3eb9b28247b78ff4a1606e8c7aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 01/13] fix: derive the word-copy pointers from whole slices

The pointers were made from a reference to element 0 only and then moved over
the whole slice, which is undefined behaviour (rejected by Miri).
---
 jester_hashes/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jester_hashes/src/lib.rs b/jester_hashes/src/lib.rs
index 61ce12a..7e04407 100644
--- a/jester_hashes/src/lib.rs
+++ b/jester_hashes/src/lib.rs
@@ -15,8 +15,8 @@ pub mod blake;
 pub(crate) unsafe fn align_to_u32a_le(dest: &mut [u32], source: &[u8]) {
     assert!(source.len() >= dest.len() * 4);
 
-    let mut byte_ptr: *const u8 = source.get_unchecked(0);
-    let mut dword_ptr: *mut u32 = dest.get_unchecked_mut(0);
+    let mut byte_ptr: *const u8 = source.as_ptr();
+    let mut dword_ptr: *mut u32 = dest.as_mut_ptr();
 
     for _ in 0..dest.len() {
         let mut current = MaybeUninit::uninit();
@@ -33,8 +33,8 @@ pub(crate) unsafe fn align_to_u32a_le(dest: &mut [u32], source: &[u8]) {
 pub(crate) unsafe fn align_to_u32a_be(dest: &mut [u32], source: &[u8]) {
     assert!(source.len() >= dest.len() * 4);
 
-    let mut byte_ptr: *const u8 = source.get_unchecked(0);
-    let mut dword_ptr: *mut u32 = dest.get_unchecked_mut(0);
+    let mut byte_ptr: *const u8 = source.as_ptr();
+    let mut dword_ptr: *mut u32 = dest.as_mut_ptr();
 
     for _ in 0..dest.len() {
         let mut current = MaybeUninit::uninit();
-- 
2.43.0


From 089d29d78a7172a0cd0215c461d1ca9493d267a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 02/13] fix: pad the hashed key, not the original one, in HMAC

A key longer than the hash block made the padding length underflow.
---
 jester_hashes/src/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_hashes/src/hmac.rs b/jester_hashes/src/hmac.rs
index b613313..0eca495 100644
--- a/jester_hashes/src/hmac.rs
+++ b/jester_hashes/src/hmac.rs
@@ -21,7 +21,7 @@ pub fn hmac<Hash, Context>(ctx: &Context, key: &[u8], message: &[u8]) -> Vec<u8>
     };
 
     let padded_key = if shortened_key.len() < block_size {
-        pad(key, block_size)
+        pad(&shortened_key, block_size)
     } else {
         shortened_key
     };
-- 
2.43.0


From 77bda8b96fd5a72c9d9c4c09ed51d91f434f753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 03/13] fix: return exactly output_length bytes from HKDF

The last block of output was returned completely.
---
 jester_hashes/src/kdf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_hashes/src/kdf.rs b/jester_hashes/src/kdf.rs
index fb3482c..cd7665d 100644
--- a/jester_hashes/src/kdf.rs
+++ b/jester_hashes/src/kdf.rs
@@ -20,7 +20,9 @@ pub fn hkdf_derive_key<Hash, Context>(
                         &vec![parts[i - 1].deref(), info, &[(i & 0xFF) as u8]].concat())
     }
 
-    parts.concat()
+    let mut key = parts.concat();
+    key.truncate(output_length);
+    key
 }
 
 
-- 
2.43.0


From fd059944f0e8fea65e6f67b7cd57ba898e0b88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 04/13] fix: convert i64::MIN into a field element

Negating the most negative i64 overflowed.
---
 jester_maths/src/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_maths/src/prime.rs b/jester_maths/src/prime.rs
index 1fb8c15..2e2e94e 100644
--- a/jester_maths/src/prime.rs
+++ b/jester_maths/src/prime.rs
@@ -193,7 +193,7 @@ macro_rules! prime_fields {
                 impl num::FromPrimitive for $name {
                     fn from_i64(n: i64) -> Option<Self> {
                         if n < 0 {
-                            $crate::prime::num_bigint::BigUint::from_i64(-n).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
+                            $crate::prime::num_bigint::BigUint::from_u64(n.wrapping_neg() as u64).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
                         } else {
                             $crate::prime::num_bigint::BigUint::from_i64(n).map(|o| o.into())
                         }
-- 
2.43.0


From 4dacdbf993e6b928ea2e1355d877896d834ab6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 05/13] fix: number the stored keys of missed messages like the
 messages

Keys of missed messages were stored under the number following theirs, and the
length of a new receiving chain ignored the messages missed at its beginning.
---
 jester_double_ratchet/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 4f3fa05..3b18441 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -484,7 +484,6 @@ where
             let (new_chain_key, output_key) =
                 MessageKdf::derive_key_without_input(self.receiving_chain_key.take().unwrap());
             self.receiving_chain_key = Some(new_chain_key);
-            self.receiving_chain_length += 1;
             self.missed_messages.insert(
                 (
                     self.diffie_hellman_received_key.clone().unwrap(),
@@ -492,6 +491,7 @@ where
                 ),
                 output_key,
             );
+            self.receiving_chain_length += 1;
             current_chain_missed_messages -= 1;
         }
 
@@ -516,7 +516,6 @@ where
 
             // if messages of this new chain were missed:
             while next_chain_missed_messages > 0 {
-                self.receiving_chain_length += 1;
                 let (updated_receiving_chain_key, message_key) =
                     MessageKdf::derive_key_without_input(receiving_chain_key);
                 receiving_chain_key = updated_receiving_chain_key;
@@ -524,6 +523,7 @@ where
                     (message.public_key.clone(), self.receiving_chain_length),
                     message_key,
                 );
+                self.receiving_chain_length += 1;
                 next_chain_missed_messages -= 1;
             }
 
@@ -551,7 +551,7 @@ where
             self.previous_receiving_chain_length = self.receiving_chain_length;
             self.previous_sending_chain_length = self.sending_chain_length;
             self.sending_chain_length = 0;
-            self.receiving_chain_length = 1;
+            self.receiving_chain_length += 1;
 
             message_key
         } else {
-- 
2.43.0


From 4abaddf248acde9d6c5bd5a34a2a911ce988e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 06/13] fix: decrypt late messages of former receiving chains

A missed message that arrived after a key change was taken for the start of a
new chain, because stored keys were only consulted for the current chain.
---
 jester_double_ratchet/src/lib.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 3b18441..1142e8d 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -457,25 +457,22 @@ where
     where
         R: RngCore + CryptoRng,
     {
+        // a message whose key was stored is one that was missed earlier, be it of the current or of a former chain
+        let dictionary_key = (message.public_key.clone(), message.message_number);
+        if let Some(message_key) = self.missed_messages.remove(&dictionary_key) {
+            let decrypted_message =
+                EncryptionScheme::decrypt_message(&message_key, &message.message.unwrap());
+            return Err(OutOfOrderMessage { decrypted_message });
+        }
+
         let (mut current_chain_missed_messages, mut next_chain_missed_messages) =
             match detect_missing_messages(self, &message) {
                 Ok(v) => v,
                 Err(ProtocolException::IllegalMessageHeader { message }) => {
                     return Err(DecryptionException::InvalidMessageHeader {})
                 }
-                Err(ProtocolException::OutOfOrderMessage {
-                    public_key,
-                    message_number,
-                }) => {
-                    let dictionary_key = (public_key, message_number);
-                    if !self.missed_messages.contains_key(&dictionary_key) {
-                        return Err(UnknownMessageHeader {});
-                    }
-
-                    let message_key = self.missed_messages.remove(&dictionary_key).unwrap();
-                    let decrypted_message =
-                        EncryptionScheme::decrypt_message(&message_key, &message.message.unwrap());
-                    return Err(OutOfOrderMessage { decrypted_message });
+                Err(ProtocolException::OutOfOrderMessage { .. }) => {
+                    return Err(UnknownMessageHeader {});
                 }
             };
 
-- 
2.43.0


From b668fc9d2c912da86aa85ae8223d0ebe4356a3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 07/13] fix: let any message of the addressee's first chain
 arrive first

The initiator took whatever message arrived first for number zero of the chain,
decrypting it with the wrong key and losing the ones sent before it.
---
 jester_double_ratchet/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 1142e8d..3de506f 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -289,9 +289,19 @@ where
         // update receiving chain
         let (updated_root_key, receiving_key) =
             RootKdf::derive_key(self.root_chain_key.take().unwrap(), generated_dh_shared_key);
-        let (receiving_chain_key, message_key) =
+        let (mut receiving_chain_key, mut message_key) =
             MessageKdf::derive_key_without_input(receiving_key);
 
+        // store the keys of messages that were sent before this one
+        for missed_number in 0..message.message_number {
+            self.missed_messages
+                .insert((message.public_key.clone(), missed_number), message_key);
+            let (updated_receiving_chain_key, next_message_key) =
+                MessageKdf::derive_key_without_input(receiving_chain_key);
+            receiving_chain_key = updated_receiving_chain_key;
+            message_key = next_message_key;
+        }
+
         // decrypt message
         let clear_text = EncryptionScheme::decrypt_message(&message_key, &message.message.unwrap());
 
@@ -318,10 +328,10 @@ where
                 sending_chain_key: Some(sending_key),
                 receiving_chain_key: Some(receiving_chain_key),
                 sending_chain_length: 0,
-                receiving_chain_length: 1,
+                receiving_chain_length: message.message_number + 1,
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
-                missed_messages: HashMap::new(),
+                missed_messages: self.missed_messages,
             },
             clear_text,
         )
-- 
2.43.0


From b00d3843a227eee8c99c306e099331b82ef13da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 08/13] fix: remember the new public key after a Diffie-Hellman
 ratchet step

---
 jester_double_ratchet/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 3de506f..5856478 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -548,6 +548,7 @@ where
             self.sending_chain_key = Some(sending_chain_key);
 
             // update dh keys
+            self.diffie_hellman_received_key = Some(message.public_key);
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
 
-- 
2.43.0


From a1d852295a37e36b472e57bddda606df59462854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 09/13] fix: refuse replayed messages of former receiving
 chains

---
 jester_double_ratchet/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 5856478..dae3863 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -5,7 +5,7 @@ use rand::{CryptoRng, RngCore};
 use crate::DecryptionException::{OutOfOrderMessage, UnknownMessageHeader};
 use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
 use jester_encryption::SymmetricalEncryptionScheme;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::Hash;
 
 #[cfg(test)]
@@ -162,6 +162,7 @@ pub struct DoubleRatchetProtocol<
     previous_sending_chain_length: usize,
     previous_receiving_chain_length: usize,
     missed_messages: HashMap<(DHPublicKey, usize), MessageKey>,
+    retired_received_keys: HashSet<DHPublicKey>,
 }
 
 impl<
@@ -243,6 +244,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: HashMap::new(),
+                retired_received_keys: HashSet::new(),
             },
             DoubleRatchetAlgorithmMessage {
                 public_key: public_dh_key,
@@ -332,6 +334,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: self.missed_messages,
+                retired_received_keys: HashSet::new(),
             },
             clear_text,
         )
@@ -424,6 +427,7 @@ where
             previous_sending_chain_length: 0,
             previous_receiving_chain_length: 0,
             missed_messages: HashMap::new(),
+            retired_received_keys: HashSet::new(),
         }
     }
 
@@ -475,6 +479,11 @@ where
             return Err(OutOfOrderMessage { decrypted_message });
         }
 
+        // every message of a former receiving chain was either decrypted or has a stored key, so this is a replay
+        if self.retired_received_keys.contains(&message.public_key) {
+            return Err(UnknownMessageHeader {});
+        }
+
         let (mut current_chain_missed_messages, mut next_chain_missed_messages) =
             match detect_missing_messages(self, &message) {
                 Ok(v) => v,
@@ -548,7 +557,9 @@ where
             self.sending_chain_key = Some(sending_chain_key);
 
             // update dh keys
-            self.diffie_hellman_received_key = Some(message.public_key);
+            if let Some(retired_key) = self.diffie_hellman_received_key.replace(message.public_key) {
+                self.retired_received_keys.insert(retired_key);
+            }
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
 
-- 
2.43.0


From 8587b3696475b77e62a886c352cdcdad945ba626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 10/13] hook: let the verification harness copy ratchet
 messages

---
 jester_double_ratchet/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index dae3863..5939438 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use std::marker::PhantomData;
 
 use rand::{CryptoRng, RngCore};
@@ -52,6 +54,7 @@ pub trait ConstantInputKeyRatchet: KeyDerivationFunction {
 /// # Type Parameters
 /// - `K` the diffie-hellman key type
 /// - `C` the cipher text type
+#[cfg_attr(verif_hooks, derive(Clone))]
 pub struct DoubleRatchetAlgorithmMessage<K, C> {
     public_key: K,
     message_number: usize,
-- 
2.43.0


From 447c3afbae30a67698eb6760cb0f083377fb04c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 11/13] fix: evaluate the sharing polynomial without
 overflowing machine integers

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 49d3a9c..721e9b9 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -1,6 +1,6 @@
 use crate::{CryptoRng, RngCore};
 use num::pow::pow;
-use num::{BigUint, FromPrimitive};
+use num::BigUint;
 use num_bigint::RandBigInt;
 
 use crate::PrimeField;
@@ -107,7 +107,7 @@ where
                         .clone()
                         .iter()
                         .fold(secret.clone(), |akk, (index, val)| {
-                            akk + val.clone() * BigUint::from_usize(pow(x, *index)).unwrap().into()
+                            akk + val.clone() * pow(BigUint::from(x), *index).into()
                         }),
                 )
             })
-- 
2.43.0


From 2ecf68e185c63463dbde80cec6396254694c4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:40 +0000
Subject: [PATCH 12/13] fix: interpolate through the same shares that are
 summed

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 721e9b9..7568c16 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -131,6 +131,7 @@ where
                 share.clone().mul(
                     shares
                         .iter()
+                        .take(threshold)
                         .filter(|(j, _)| *i != *j)
                         .map(|(j, _)| {
                             T::from_isize(-(*j as isize))
-- 
2.43.0


From d8424076bd4b6bb14442b8e4fcd970a3562d592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 13/13] fix: delegate overridden default methods as well

---
 jester_sharing/jester_sharing_proc/src/lib.rs | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/jester_sharing/jester_sharing_proc/src/lib.rs b/jester_sharing/jester_sharing_proc/src/lib.rs
index 9486462..01f7231 100644
--- a/jester_sharing/jester_sharing_proc/src/lib.rs
+++ b/jester_sharing/jester_sharing_proc/src/lib.rs
@@ -92,9 +92,25 @@ pub fn delegatable_protocol(_attr: TokenStream, item: TokenStream) -> TokenStrea
     let mut delegate_method_implementations = vec![];
     for item in trait_items {
         if let TraitItem::Method(fn_item) = item {
-            if fn_item.default.is_none() {
-                let fn_sig = &fn_item.sig;
+            let fn_sig = &fn_item.sig;
+
+            // default methods can be overridden, thus they are forwarded as well, unless their parameters have no names
+            let forwardable = fn_sig.inputs.iter().all(|arg| match arg {
+                FnArg::Typed(PatType { pat, .. }) => match **pat {
+                    Pat::Ident(_) => true,
+                    _ => false,
+                },
+                FnArg::Receiver(_) => false,
+            });
+
+            if fn_item.default.is_none() || forwardable {
                 let fn_name = &fn_sig.ident;
+                let fn_types: Vec<_> = fn_sig.generics.type_params().map(|p| &p.ident).collect();
+                let turbofish = if fn_types.is_empty() {
+                    quote! {}
+                } else {
+                    quote! { ::<#(#fn_types),*> }
+                };
                 let mut parameter_names = vec![];
                 let fn_parameters = &fn_sig.inputs;
                 for arg in fn_parameters {
@@ -107,14 +123,14 @@ pub fn delegatable_protocol(_attr: TokenStream, item: TokenStream) -> TokenStrea
 
                 let protocol_impl: proc_macro::TokenStream = quote! {
                     #fn_sig {
-                        P:: #fn_name ( #(#parameter_names),* )
+                        P:: #fn_name #turbofish ( #(#parameter_names),* )
                     }
                 }
                 .into();
 
                 let delegate_impl: proc_macro::TokenStream = quote! {
                     #fn_sig {
-                        P::Delegate:: #fn_name ( #(#parameter_names),* )
+                        P::Delegate:: #fn_name #turbofish ( #(#parameter_names),* )
                     }
                 }
                 .into();
-- 
2.43.0

