From 4c54d5d47f37267149e053aca7c9f57f0f3e6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 1/7] fix: POPRF evaluate frames absent info as empty info

PoprfServer::evaluate(input, None) left the info field out of the hash
input, while PoprfClient::finalize(.., None) frames it as empty info, so the
two sides computed different outputs.
---
 src/poprf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poprf.rs b/src/poprf.rs
index a0fd531..f57ab1f 100644
--- a/src/poprf.rs
+++ b/src/poprf.rs
@@ -418,7 +418,8 @@ where
 
         let issued_element = CS::Group::serialize_elem(evaluated_element);
 
-        server_evaluate_hash_input::<CS>(input, info, issued_element)
+        // None for info is treated the same as empty bytes
+        server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)
     }
 
     /// Retrieves the server's public key
-- 
2.43.0


From 5ccac3dfc7cbf5e03aed63750931f15634ce1297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 2/7] fix: VOPRF batch finalize refuses a mismatched number of
 inputs

---
 src/voprf.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/voprf.rs b/src/voprf.rs
index 9871952..7ac1ef6 100644
--- a/src/voprf.rs
+++ b/src/voprf.rs
@@ -155,8 +155,8 @@ where
     /// and [EvaluationElement] pairs
     ///
     /// # Errors
-    /// - [`Error::Batch`] if the number of `clients` and `messages` don't match
-    ///   or is longer then [`u16::MAX`].
+    /// - [`Error::Batch`] if the number of `inputs`, `clients` and `messages`
+    ///   don't match or is longer then [`u16::MAX`].
     /// - [`Error::ProofVerification`] if the `proof` failed to verify.
     ///
     /// The resulting messages can each fail individually with [`Error::Input`]
@@ -178,8 +178,14 @@ where
         &'a IM: 'a + IntoIterator<Item = &'a EvaluationElement<CS>>,
         <&'a IM as IntoIterator>::IntoIter: ExactSizeIterator,
     {
+        let inputs = inputs.into_iter();
+
+        if inputs.len() != clients.into_iter().len() {
+            return Err(Error::Batch);
+        }
+
         let unblinded_elements = verifiable_unblind(clients, messages, pk, proof)?;
-        let inputs_and_unblinded_elements = inputs.into_iter().zip(unblinded_elements);
+        let inputs_and_unblinded_elements = inputs.zip(unblinded_elements);
         Ok(finalize_after_unblind::<CS, _, _>(
             inputs_and_unblinded_elements,
         ))
-- 
2.43.0


From 6d927f5483535529b62fa19c0a11bee9f4717f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 3/7] fix: POPRF batch evaluate reports oversize batches
 instead of panicking

---
 src/poprf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/poprf.rs b/src/poprf.rs
index f57ab1f..cdba809 100644
--- a/src/poprf.rs
+++ b/src/poprf.rs
@@ -284,6 +284,8 @@ where
     ///
     /// # Errors
     /// - [`Error::Info`] if the `info` is longer than `u16::MAX`.
+    /// - [`Error::Batch`] if the number of `blinded_elements` is longer than
+    ///   [`u16::MAX`].
     /// - [`Error::Protocol`] if the protocol fails and can't be completed.
     #[cfg(feature = "alloc")]
     pub fn batch_blind_evaluate<'a, R: RngCore + CryptoRng, IE>(
@@ -304,15 +306,13 @@ where
 
         let prepared_evaluation_elements: Vec<_> = prepared_evaluation_elements.collect();
 
-        // This can't fail because we know the size of the inputs.
         let PoprfServerBatchEvaluateFinishResult { messages, proof } =
             Self::batch_blind_evaluate_finish::<_, _, Vec<_>>(
                 rng,
                 blinded_elements.into_iter(),
                 &prepared_evaluation_elements,
                 &prepared_tweak,
-            )
-            .unwrap();
+            )?;
 
         let messages: Vec<_> = messages.collect();
 
-- 
2.43.0


From 54e22e20a92d26c1b846a5b9691a03ae030febde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 4/7] fix: NIST scalar decoding refuses truncated encodings

---
 src/group/elliptic_curve.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/group/elliptic_curve.rs b/src/group/elliptic_curve.rs
index e74b1c2..b56217c 100644
--- a/src/group/elliptic_curve.rs
+++ b/src/group/elliptic_curve.rs
@@ -14,7 +14,7 @@ use elliptic_curve::sec1::{FromEncodedPoint, ModulusSize, ToEncodedPoint};
 use elliptic_curve::{
     AffinePoint, Field, FieldBytesSize, Group as _, ProjectivePoint, PublicKey, Scalar, SecretKey,
 };
-use generic_array::typenum::{IsLess, IsLessOrEqual, U256};
+use generic_array::typenum::{IsLess, IsLessOrEqual, Unsigned, U256};
 use generic_array::GenericArray;
 use rand_core::{CryptoRng, RngCore};
 
@@ -101,6 +101,11 @@ where
     }
 
     fn deserialize_scalar(scalar_bits: &[u8]) -> Result<Self::Scalar> {
+        // `SecretKey::from_slice()` zero-pads slices that are too short.
+        if scalar_bits.len() != Self::ScalarLen::USIZE {
+            return Err(Error::Deserialization);
+        }
+
         SecretKey::<Self>::from_slice(scalar_bits)
             .map(|secret_key| *secret_key.to_nonzero_scalar())
             .map_err(|_| Error::Deserialization)
-- 
2.43.0


From 14000fd05a48c95799fab00ff7cf530fb7779d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 5/7] fix: NIST element decoding accepts only compressed
 encodings

---
 src/group/elliptic_curve.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/group/elliptic_curve.rs b/src/group/elliptic_curve.rs
index b56217c..e76cb88 100644
--- a/src/group/elliptic_curve.rs
+++ b/src/group/elliptic_curve.rs
@@ -74,6 +74,12 @@ where
     }
 
     fn deserialize_elem(element_bits: &[u8]) -> Result<Self::Elem> {
+        // `PublicKey::from_sec1_bytes()` also takes uncompressed and compact
+        // encodings, but only the compressed one is canonical.
+        if element_bits.len() != Self::ElemLen::USIZE || !matches!(element_bits[0], 0x02 | 0x03) {
+            return Err(Error::Deserialization);
+        }
+
         PublicKey::<Self>::from_sec1_bytes(element_bits)
             .map(|public_key| public_key.to_projective())
             .map_err(|_| Error::Deserialization)
-- 
2.43.0


From baa29450c566b94817459da65a7804910b773293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 6/7] fix: blinding refuses inputs that hash to the identity

---
 src/common.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index f790edd..c60ccdc 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -444,6 +444,9 @@ where
         IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
 {
     let hashed_point = hash_to_group::<CS>(input, mode)?;
+    if CS::Group::is_identity_elem(hashed_point).into() {
+        return Err(Error::Input);
+    }
     Ok(hashed_point * blind)
 }
 
-- 
2.43.0


From 91a0eee5c0123722b40afa05aec2f90182de0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 7/7] fix: blinding refuses inputs longer than u16::MAX

---
 src/common.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index c60ccdc..5e87d49 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -443,6 +443,9 @@ where
     <CS::Hash as OutputSizeUser>::OutputSize:
         IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
 {
+    // The length of the input has to be encodable in two bytes to finalize.
+    i2osp_2(input.len()).map_err(|_| Error::Input)?;
+
     let hashed_point = hash_to_group::<CS>(input, mode)?;
     if CS::Group::is_identity_elem(hashed_point).into() {
         return Err(Error::Input);
-- 
2.43.0

