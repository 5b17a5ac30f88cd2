From f02b088fdc01219a7ee37bd71b141602ca0513c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 01/13] fix: report a domain longer than 8 bytes as an error in
 DirectHasher::crh

crh passed the domain to Params::personal, which panics on more than 8
bytes, while xof reports DomainTooLarge. hash calls crh first, so it
panicked too.
---
 crates/bls-crypto/src/hashers/direct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bls-crypto/src/hashers/direct.rs b/crates/bls-crypto/src/hashers/direct.rs
index eddfb7f..3e82876 100644
--- a/crates/bls-crypto/src/hashers/direct.rs
+++ b/crates/bls-crypto/src/hashers/direct.rs
@@ -26,6 +26,9 @@ impl Hasher for DirectHasher {
         message: &[u8],
         xof_digest_length: usize,
     ) -> Result<Vec<u8>, Self::Error> {
+        if domain.len() > 8 {
+            return Err(BLSError::DomainTooLarge(domain.len()));
+        }
         let hash_result = Params::new()
             .hash_length(32)
             .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
-- 
2.43.0


From 84d4925cf3643a17c83b39221c361ee9c3e2ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 02/13] fix: reject XOF output lengths that do not fit the
 16-bit length parameter

Longer lengths were silently truncated to 16 bits, so crh and xof used the
parameters of another output length (and xof of usize::MAX overflowed).
---
 crates/bls-crypto/src/hashers/direct.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/bls-crypto/src/hashers/direct.rs b/crates/bls-crypto/src/hashers/direct.rs
index 3e82876..77a71ea 100644
--- a/crates/bls-crypto/src/hashers/direct.rs
+++ b/crates/bls-crypto/src/hashers/direct.rs
@@ -5,6 +5,17 @@ use byteorder::{LittleEndian, WriteBytesExt};
 /// Uses Blake2s as a CRH and Blake2x as the XOF.
 pub struct DirectHasher;
 
+/// The parameter block reserves 16 bits for the XOF's output length.
+fn check_xof_digest_length(xof_digest_length: usize) -> Result<(), BLSError> {
+    if xof_digest_length > u16::MAX as usize {
+        return Err(BLSError::IoError(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            format!("XOF output length is too large: {}", xof_digest_length),
+        )));
+    }
+    Ok(())
+}
+
 fn xof_digest_length_to_node_offset(
     node_offset: u64,
     xof_digest_length: usize,
@@ -29,6 +40,7 @@ impl Hasher for DirectHasher {
         if domain.len() > 8 {
             return Err(BLSError::DomainTooLarge(domain.len()));
         }
+        check_xof_digest_length(xof_digest_length)?;
         let hash_result = Params::new()
             .hash_length(32)
             .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
@@ -50,6 +62,7 @@ impl Hasher for DirectHasher {
         if domain.len() > 8 {
             return Err(BLSError::DomainTooLarge(domain.len()));
         }
+        check_xof_digest_length(xof_digest_length)?;
         let num_hashes = (xof_digest_length + 32 - 1) / 32;
 
         let mut result = vec![];
-- 
2.43.0


From f07259451f90d222576f80ad8860f0457f2e5711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 03/13] fix: build a Buffer from an empty slice without
 panicking

---
 crates/bls-snark-sys/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bls-snark-sys/src/utils.rs b/crates/bls-snark-sys/src/utils.rs
index b52ba8a..265f65f 100644
--- a/crates/bls-snark-sys/src/utils.rs
+++ b/crates/bls-snark-sys/src/utils.rs
@@ -84,7 +84,7 @@ pub struct Buffer {
 impl From<&[u8]> for Buffer {
     fn from(src: &[u8]) -> Self {
         Self {
-            ptr: &src[0] as *const u8,
+            ptr: src.as_ptr(),
             len: src.len(),
         }
     }
-- 
2.43.0


From 5f5e94645b58a252e74d02f1d093998b27d8dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 04/13] fix: report undecodable input of compress_signature and
 compress_pubkey as failure

---
 crates/bls-snark-sys/src/serialization.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index 25410cd..b805863 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -172,8 +172,9 @@ pub extern "C" fn compress_signature(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let signature = unsafe { slice::from_raw_parts(in_signature, in_signature_len as usize) };
-        let x = Fq::read(&signature[0..48]).unwrap();
-        let y = Fq::read(&signature[48..96]).unwrap();
+        let mut reader = signature;
+        let x = Fq::read(&mut reader)?;
+        let y = Fq::read(&mut reader)?;
         let affine = G1Affine::new(x, y, false);
         let sig = Signature::from(affine.into_projective());
         let mut obj_bytes = vec![];
@@ -197,8 +198,9 @@ pub extern "C" fn compress_pubkey(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let pubkey = unsafe { slice::from_raw_parts(in_pubkey, in_pubkey_len as usize) };
-        let x = Fq2::read(&pubkey[0..96]).unwrap();
-        let y = Fq2::read(&pubkey[96..192]).unwrap();
+        let mut reader = pubkey;
+        let x = Fq2::read(&mut reader)?;
+        let y = Fq2::read(&mut reader)?;
         let affine = G2Affine::new(x, y, false);
         let pk = PublicKey::from(affine.into_projective());
 
-- 
2.43.0


From 5f356388fd73c4f4f67850201d12f3e45279855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 05/13] fix: batch_verify_strict fails a batch with unequal
 numbers of keys and signatures

---
 crates/bls-snark-sys/src/signatures.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index 1e3540c..ef21ce6 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -382,12 +382,14 @@ pub extern "C" fn batch_verify_strict(
                     context.add(pk.clone(), sig.clone());
                 });
 
-            let result = match (should_use_composite, should_use_cip22) {
+            let verified = match (should_use_composite, should_use_cip22) {
                 (true, true) => context.verify(&*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
                 (false, true) => false, // bad hash to curve configuration
                 (true, false) => context.verify(&*COMPOSITE_HASH_TO_G1).is_ok(),
                 (false, false) => context.verify(&*DIRECT_HASH_TO_G1).is_ok(),
             };
+            // keys and signatures are paired by position
+            let result = verified && public_keys.len() == signatures.len();
 
             if !result {
                 all_valid = false;
-- 
2.43.0


From ec7e04e4c208e647e3e5806779e9fc4b8dfc8401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 06/13] fix: accept null pointers to empty arrays in the C
 interface

---
 crates/bls-snark-sys/src/serialization.rs     |  3 ++-
 crates/bls-snark-sys/src/signatures.rs        |  4 +--
 crates/bls-snark-sys/src/snark/epoch_block.rs |  2 +-
 crates/bls-snark-sys/src/utils.rs             | 25 ++++++++++++++++++-
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index b805863..d7c14a5 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -1,11 +1,12 @@
 use super::{convert_result_to_bool, PrivateKey, PublicKey, Signature};
 use crate::cache::PUBLIC_KEY_CACHE;
+use crate::utils::c_slice as slice;
 use ark_bls12_377::{Fq, Fq2, G1Affine, G2Affine};
 use ark_ec::AffineCurve;
 use ark_ff::FromBytes;
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use bls_crypto::BLSError;
-use std::{os::raw::c_int, slice};
+use std::os::raw::c_int;
 
 // Serialization & deserialization
 
diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index ef21ce6..c397107 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -1,7 +1,7 @@
 use crate::{
     cache::PUBLIC_KEY_CACHE,
     convert_result_to_bool,
-    utils::{BatchMessageFFI, Message, MessageFFI},
+    utils::{c_slice as slice, BatchMessageFFI, Message, MessageFFI},
     Batch, PrivateKey, PublicKey, Signature, COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1,
 };
 use ark_ec::ProjectiveCurve;
@@ -10,7 +10,7 @@ use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP
 use bls_crypto::hashers::{DirectHasher, COMPOSITE_HASHER};
 use bls_crypto::Hasher;
 use bls_crypto::{BLSError, HashToCurve, POP_DOMAIN, SIG_DOMAIN};
-use std::{os::raw::c_int, slice};
+use std::os::raw::c_int;
 
 /// # Safety
 ///
diff --git a/crates/bls-snark-sys/src/snark/epoch_block.rs b/crates/bls-snark-sys/src/snark/epoch_block.rs
index 3cb5824..9c7440c 100644
--- a/crates/bls-snark-sys/src/snark/epoch_block.rs
+++ b/crates/bls-snark-sys/src/snark/epoch_block.rs
@@ -1,4 +1,5 @@
 use crate::convert_result_to_bool;
+use crate::utils::c_slice as slice;
 use ark_bls12_377::G2Affine;
 use ark_ec::{AffineCurve, ProjectiveCurve};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
@@ -7,7 +8,6 @@ use epoch_snark::{EncodingError, EpochBlock};
 use std::{
     convert::TryFrom,
     os::raw::{c_int, c_uchar, c_uint, c_ushort},
-    slice,
 };
 
 /// Each pubkey is a BLS G2Projective element
diff --git a/crates/bls-snark-sys/src/utils.rs b/crates/bls-snark-sys/src/utils.rs
index 265f65f..f2515d2 100644
--- a/crates/bls-snark-sys/src/utils.rs
+++ b/crates/bls-snark-sys/src/utils.rs
@@ -2,7 +2,30 @@
 ///
 /// Utilities for working with variable length data structures.
 use super::{PublicKey, Signature};
-use std::slice;
+use c_slice as slice;
+
+/// Reading of arrays passed from C, where the pointer to an empty array may be null.
+pub(crate) mod c_slice {
+    /// # Safety
+    ///
+    /// As for `std::slice::from_raw_parts`, unless `len` is 0
+    pub unsafe fn from_raw_parts<'a, T>(ptr: *const T, len: usize) -> &'a [T] {
+        if len == 0 {
+            return &[];
+        }
+        std::slice::from_raw_parts(ptr, len)
+    }
+
+    /// # Safety
+    ///
+    /// As for `std::slice::from_raw_parts_mut`, unless `len` is 0
+    pub unsafe fn from_raw_parts_mut<'a, T>(ptr: *mut T, len: usize) -> &'a mut [T] {
+        if len == 0 {
+            return &mut [];
+        }
+        std::slice::from_raw_parts_mut(ptr, len)
+    }
+}
 
 /// A per-epoch block witness to be used with the batch sig verification
 #[derive(Clone, Debug, PartialEq)]
-- 
2.43.0


From 7b6d05a7c7d1b4df9afdd989c20c42cca14d3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:14 +0000
Subject: [PATCH 07/13] fix: count bitmap occurrences beyond 255

---
 crates/bls-gadgets/src/bitmap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bls-gadgets/src/bitmap.rs b/crates/bls-gadgets/src/bitmap.rs
index c78d3b8..b19c625 100644
--- a/crates/bls-gadgets/src/bitmap.rs
+++ b/crates/bls-gadgets/src/bitmap.rs
@@ -31,7 +31,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
         // will be empty
         let is_setup = self.cs().is_in_setup_mode();
 
-        let mut occurrences = 0;
+        let mut occurrences = 0u64;
         let mut occurrences_lc = LinearCombination::zero();
         // For each bit, increment the number of occurences if the bit matched `value`
         // We calculate both the number of occurrences
@@ -49,7 +49,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
             // Update our count
             if !is_setup {
                 let got_value = bit.value()?;
-                occurrences += (got_value == value) as u8;
+                occurrences += (got_value == value) as u64;
             }
         }
 
-- 
2.43.0


From b3dcfce73e483d522163999ffa3726b19f37c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:14 +0000
Subject: [PATCH 08/13] fix: reject pairing lists of different lengths in the
 BLS equation

---
 crates/bls-gadgets/src/bls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bls-gadgets/src/bls.rs b/crates/bls-gadgets/src/bls.rs
index c38a6b1..7f1bbc8 100644
--- a/crates/bls-gadgets/src/bls.rs
+++ b/crates/bls-gadgets/src/bls.rs
@@ -224,6 +224,9 @@ where
         g2: &[P::G2PreparedVar],
     ) -> Result<(), SynthesisError> {
         trace!("enforcing BLS equation");
+        if g1.len() != g2.len() {
+            return Err(SynthesisError::Unsatisfiable);
+        }
         let bls_equation = P::product_of_pairings(g1, g2)?;
         let gt_one = &P::GTVar::one();
         bls_equation.enforce_equal(gt_one)?;
-- 
2.43.0


From 8680b8abd764cb5946d66956bd5bdf80b1e37fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:14 +0000
Subject: [PATCH 09/13] fix: honour hash_length when hashing to bits without
 constraints

---
 crates/bls-gadgets/src/hash_to_group.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/bls-gadgets/src/hash_to_group.rs b/crates/bls-gadgets/src/hash_to_group.rs
index 7fbc6a9..c1e908f 100644
--- a/crates/bls-gadgets/src/hash_to_group.rs
+++ b/crates/bls-gadgets/src/hash_to_group.rs
@@ -230,15 +230,17 @@ pub fn hash_to_bits<F: PrimeField>(
     } else {
         trace!("generating hash without constraints");
         let bits = if message.cs().is_in_setup_mode() {
-            vec![false; 512]
+            vec![false; hash_length as usize]
         } else {
             let message = message
                 .iter()
                 .map(|m| m.value())
                 .collect::<Result<Vec<_>, _>>()?;
             let message = bits_le_to_bytes_le(&message);
-            let hash_result = DirectHasher.xof(&personalization, &message, 64).unwrap();
-            bytes_le_to_bits_le(&hash_result, 512)
+            let hash_result = DirectHasher
+                .xof(&personalization, &message, hash_length as usize / 8)
+                .unwrap();
+            bytes_le_to_bits_le(&hash_result, hash_length as usize)
         };
 
         bits.iter()
-- 
2.43.0


From fe62b513d47de42b3841a09a966f8b8d5811c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 10/13] fix: prove reports an empty or oversized list of
 transitions as an error

---
 crates/epoch-snark/src/api/prover.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/epoch-snark/src/api/prover.rs b/crates/epoch-snark/src/api/prover.rs
index 2d45e84..b05f833 100644
--- a/crates/epoch-snark/src/api/prover.rs
+++ b/crates/epoch-snark/src/api/prover.rs
@@ -39,6 +39,10 @@ pub fn prove(
     let mut epochs = transitions.iter().map(to_update).collect::<Vec<_>>();
 
     let num_epochs = epochs.len();
+    // There is no circuit for an empty or an oversized list of transitions
+    if num_epochs == 0 || num_epochs > max_transitions {
+        return Err(SynthesisError::Unsatisfiable);
+    }
     if num_epochs < max_transitions {
         epochs = [
             &epochs[..num_epochs - 1],
-- 
2.43.0


From dabfa55ebb3cfdc971161a2580d9614a0cfed4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 11/13] fix: leave padding keys out of the dummy bitmaps in
 prove

---
 crates/epoch-snark/src/api/prover.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/epoch-snark/src/api/prover.rs b/crates/epoch-snark/src/api/prover.rs
index b05f833..47bb996 100644
--- a/crates/epoch-snark/src/api/prover.rs
+++ b/crates/epoch-snark/src/api/prover.rs
@@ -44,10 +44,15 @@ pub fn prove(
         return Err(SynthesisError::Unsatisfiable);
     }
     if num_epochs < max_transitions {
+        // The dummy updates follow the epoch before the last one
+        let previous_epoch = match num_epochs {
+            1 => initial_epoch,
+            n => &transitions[n - 2].block,
+        };
         epochs = [
             &epochs[..num_epochs - 1],
             &(0..max_transitions - num_epochs)
-                .map(|_| to_dummy_update(num_validators))
+                .map(|_| to_dummy_update(num_validators, previous_epoch))
                 .collect::<Vec<_>>(),
             &[epochs[num_epochs - 1].clone()],
         ]
@@ -147,7 +152,9 @@ fn to_update(transition: &EpochTransition) -> SingleUpdate<BLSCurve> {
     }
 }
 
-fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
+/// A dummy update signed by every validator of the previous epoch except for the padding keys,
+/// which are not allowed to sign
+fn to_dummy_update(num_validators: u32, previous_epoch: &EpochBlock) -> SingleUpdate<BLSCurve> {
     SingleUpdate {
         epoch_data: EpochData {
             maximum_non_signers: 0,
@@ -159,6 +166,10 @@ fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
                 .map(|_| Some(BLSCurveG2::prime_subgroup_generator()))
                 .collect::<Vec<_>>(),
         },
-        signed_bitmap: (0..num_validators).map(|_| Some(true)).collect::<Vec<_>>(),
+        signed_bitmap: previous_epoch
+            .new_public_keys
+            .iter()
+            .map(|pubkey| Some(*pubkey.as_ref() != EpochBlock::padding_pk()))
+            .collect::<Vec<_>>(),
     }
 }
-- 
2.43.0


From 4faa841b5b856eba676fc01a73d59b8e1ba4c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 12/13] Expose internals to the verification machinery behind
 the verif-hooks feature

---
 crates/bls-gadgets/src/lib.rs | 6 ++++++
 crates/epoch-snark/src/lib.rs | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/bls-gadgets/src/lib.rs b/crates/bls-gadgets/src/lib.rs
index 4714ae7..7619430 100644
--- a/crates/bls-gadgets/src/lib.rs
+++ b/crates/bls-gadgets/src/lib.rs
@@ -15,5 +15,11 @@ pub use y_to_bit::{FpUtils, YToBitGadget};
 mod hash_to_group;
 pub use hash_to_group::{hash_to_bits, HashToGroupGadget};
 
+/// Internals under verification
+#[cfg(feature = "verif-hooks")]
+pub mod verif {
+    pub use crate::bitmap::Bitmap;
+}
+
 /// Utility functions which do not involve generating constraints
 pub mod utils;
diff --git a/crates/epoch-snark/src/lib.rs b/crates/epoch-snark/src/lib.rs
index 74db489..a1fbf14 100644
--- a/crates/epoch-snark/src/lib.rs
+++ b/crates/epoch-snark/src/lib.rs
@@ -32,3 +32,11 @@ pub use epoch_block::{EpochBlock, EpochTransition};
 
 mod gadgets;
 pub use gadgets::ValidatorSetUpdate;
+
+/// Internals under verification
+#[cfg(feature = "verif-hooks")]
+pub mod verif {
+    pub use crate::gadgets::{
+        pack, EpochBits, EpochData, HashToBits, HashToBitsHelper, MultipackGadget, SingleUpdate,
+    };
+}
-- 
2.43.0


From 7caeb186efe7cb12ea211ee91b90c77aae9b4bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 13/13] fix: include the padding keys in the last epoch's
 aggregated public key

The circuit aggregates the keys of all its slots. The native encoding of a last block with fewer
keys than maximum_validators padded the list of keys but not their sum, so such a block was never
accepted by a verifier while the same block with the padding keys spelled out was.
---
 crates/epoch-snark/src/epoch_block.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/epoch-snark/src/epoch_block.rs b/crates/epoch-snark/src/epoch_block.rs
index f895985..0688330 100644
--- a/crates/epoch-snark/src/epoch_block.rs
+++ b/crates/epoch-snark/src/epoch_block.rs
@@ -175,7 +175,15 @@ impl EpochBlock {
         &self,
     ) -> Result<Vec<bool>, EncodingError> {
         let mut epoch_bits = self.encode_to_bits_cip22(EpochType::Last)?;
-        let aggregated_pk = PublicKey::aggregate(&self.new_public_keys);
+        // The padding keys are part of the aggregated public key, as in the circuit.
+        let mut public_keys = self.new_public_keys.clone();
+        if self.maximum_validators > public_keys.len() {
+            public_keys.resize(
+                self.maximum_validators,
+                PublicKey::from(Self::padding_pk()),
+            );
+        }
+        let aggregated_pk = PublicKey::aggregate(&public_keys);
         epoch_bits.extend_from_slice(encode_public_key(&aggregated_pk)?.as_slice());
         Ok(epoch_bits)
     }
-- 
2.43.0

