From 1ac7ea5d2d00506cdfd05a787a6068ff26d9cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 01/25] fix: reject truncated proofs instead of panicking in
 the verifier

---
 crypto/stark/src/channel.rs            | 37 ++++++++++++++------------
 crypto/stark/src/solidity_seralizer.rs |  4 +++
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/crypto/stark/src/channel.rs b/crypto/stark/src/channel.rs
index 1b39dfb..2dfde72 100644
--- a/crypto/stark/src/channel.rs
+++ b/crypto/stark/src/channel.rs
@@ -89,6 +89,23 @@ impl VerifierChannel {
         self.proof_index == self.proof.len()
     }
 
+    // True when more bytes have been requested than the proof contains.
+    #[cfg(feature = "std")]
+    pub(crate) fn past_end(&self) -> bool {
+        self.proof_index > self.proof.len()
+    }
+
+    // Take the next bytes of the proof and add them to the public coin. Missing
+    // bytes read as zero, but such a channel never gets to `at_end`.
+    fn read_bytes(&mut self, size: usize) -> Vec<u8> {
+        let available = self.proof.get(self.proof_index..).unwrap_or(&[]);
+        let mut bytes = available[..size.min(available.len())].to_vec();
+        bytes.resize(size, 0);
+        self.proof_index = self.proof_index.saturating_add(size);
+        self.coin.write(bytes.as_slice());
+        bytes
+    }
+
     pub(crate) fn get_coefficients(&mut self, n: usize) -> Vec<FieldElement> {
         (0..n).map(|_| self.get_random()).collect()
     }
@@ -97,13 +114,7 @@ impl VerifierChannel {
     // updates the public coin once, with the contents of the entire layer, instead
     // of onces for each FieldElement in the layer.
     pub(crate) fn replay_fri_layer(&mut self, size: usize) -> Vec<FieldElement> {
-        let start_index = self.proof_index;
-        self.proof_index += 32 * size;
-        let layer_contents = &self.proof[start_index..self.proof_index];
-
-        self.coin.write(layer_contents);
-
-        layer_contents
+        self.read_bytes(32 * size)
             .chunks_exact(32)
             .map(|bytes| {
                 FieldElement::from_montgomery(U256::from_bytes_be(bytes.try_into().unwrap()))
@@ -113,12 +124,8 @@ impl VerifierChannel {
 
     fn read_32_bytes(&mut self) -> [u8; 32] {
         let mut holder = [0_u8; 32];
-        let from = self.proof_index;
-        let to = from + 32;
-        self.proof_index = to;
         // OPT: Use arrayref crate or similar to avoid copy
-        holder.copy_from_slice(&self.proof[from..to]);
-        self.coin.write(&holder[..]);
+        holder.copy_from_slice(&self.read_bytes(32));
         holder
     }
 }
@@ -140,11 +147,7 @@ impl Writable<proof_of_work::Response> for ProverChannel {
 impl Replayable<proof_of_work::Response> for VerifierChannel {
     fn replay(&mut self) -> proof_of_work::Response {
         let mut holder = [0_u8; 8];
-        let from = self.proof_index;
-        let to = from + 8;
-        self.proof_index = to;
-        holder.copy_from_slice(&self.proof[from..to]);
-        self.coin.write(&holder[..]);
+        holder.copy_from_slice(&self.read_bytes(8));
         let nonce = u64::from_be_bytes(holder);
         proof_of_work::Response::from_nonce(nonce)
     }
diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index e86fc1f..5ab2b9d 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -236,6 +236,10 @@ pub fn proof_serialize(
         }
     }
 
+    if channel.past_end() {
+        return Err(MerkleError::NotEnoughHashes);
+    }
+
     result_string.push_str(&format!("\"fri_values\": {}, \n", fri_values.sol_encode()));
     result_string.push_str(&format!(
         "\"fri_decommitments\": {} \n",
-- 
2.43.0


From b2e6062921fd690c6e15b2f7f0b0fe22122df56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:26 +0000
Subject: [PATCH 02/25] fix: reject proofs whose field elements are not reduced

---
 crypto/stark/src/channel.rs  | 26 +++++++++++++++++++-------
 crypto/stark/src/verifier.rs |  7 ++++++-
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/crypto/stark/src/channel.rs b/crypto/stark/src/channel.rs
index 2dfde72..ec05417 100644
--- a/crypto/stark/src/channel.rs
+++ b/crypto/stark/src/channel.rs
@@ -5,7 +5,7 @@ use std::{convert::TryInto, prelude::v1::*};
 use tiny_keccak::{Hasher, Keccak};
 use zkp_hash::Hash;
 use zkp_macros_decl::u256h;
-use zkp_primefield::FieldElement;
+use zkp_primefield::{FieldElement, Zero};
 use zkp_u256::U256;
 
 pub(crate) trait RandomGenerator<T> {
@@ -45,6 +45,8 @@ pub(crate) struct VerifierChannel {
     pub(crate) coin:  PublicCoin,
     pub(crate) proof: Vec<u8>,
     proof_index:      usize,
+    // Set when a value was not the encoding of a reduced field element.
+    malformed:        bool,
 }
 
 impl PublicCoin {
@@ -78,6 +80,7 @@ impl VerifierChannel {
             coin: PublicCoin::default(),
             proof,
             proof_index: 0,
+            malformed: false,
         }
     }
 
@@ -86,7 +89,7 @@ impl VerifierChannel {
     }
 
     pub(crate) fn at_end(self) -> bool {
-        self.proof_index == self.proof.len()
+        self.proof_index == self.proof.len() && !self.malformed
     }
 
     // True when more bytes have been requested than the proof contains.
@@ -116,12 +119,21 @@ impl VerifierChannel {
     pub(crate) fn replay_fri_layer(&mut self, size: usize) -> Vec<FieldElement> {
         self.read_bytes(32 * size)
             .chunks_exact(32)
-            .map(|bytes| {
-                FieldElement::from_montgomery(U256::from_bytes_be(bytes.try_into().unwrap()))
-            })
+            .map(|bytes| self.decode_element(U256::from_bytes_be(bytes.try_into().unwrap())))
             .collect()
     }
 
+    // Only reduced representations are valid encodings of a field element. Others
+    // decode to zero, but such a channel never gets to `at_end`.
+    fn decode_element(&mut self, montgomery: U256) -> FieldElement {
+        if montgomery < FieldElement::MODULUS {
+            FieldElement::from_montgomery(montgomery)
+        } else {
+            self.malformed = true;
+            FieldElement::zero()
+        }
+    }
+
     fn read_32_bytes(&mut self) -> [u8; 32] {
         let mut holder = [0_u8; 32];
         // OPT: Use arrayref crate or similar to avoid copy
@@ -299,8 +311,8 @@ impl Replayable<U256> for VerifierChannel {
 
 impl Replayable<FieldElement> for VerifierChannel {
     fn replay(&mut self) -> FieldElement {
-        let montgomery_modulus: U256 = self.replay();
-        FieldElement::from_montgomery(montgomery_modulus)
+        let montgomery: U256 = self.replay();
+        self.decode_element(montgomery)
     }
 }
 
diff --git a/crypto/stark/src/verifier.rs b/crypto/stark/src/verifier.rs
index b2a62b3..7dcb804 100644
--- a/crypto/stark/src/verifier.rs
+++ b/crypto/stark/src/verifier.rs
@@ -49,7 +49,12 @@ impl fmt::Display for Error {
                     "Verifier attempted to look up an empty entry in the hash map"
                 )
             }
-            ProofTooLong => write!(f, "The proof length doesn't match the specification"),
+            ProofTooLong => {
+                write!(
+                    f,
+                    "The proof length or encoding doesn't match the specification"
+                )
+            }
             OodsCalculationFailure => {
                 write!(
                     f,
-- 
2.43.0


From 0708f205d2b4f5ade91f30737f69d9581c43e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:02 +0000
Subject: [PATCH 03/25] fix: apply the inverse cofactor to coefficients in
 natural order

ifft_cofactor scaled the bit-reversed output by successive powers of the
cofactor, so it did not invert fft_cofactor for lengths above two.
---
 algebra/primefield/src/fft/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algebra/primefield/src/fft/mod.rs b/algebra/primefield/src/fft/mod.rs
index 2c03f9e..05dd464 100644
--- a/algebra/primefield/src/fft/mod.rs
+++ b/algebra/primefield/src/fft/mod.rs
@@ -134,11 +134,15 @@ where
         self.ifft();
         let cofactor = cofactor.inv().expect("Can not invert cofactor");
         trace!("BEGIN Cofactor shift");
+        // The coefficients are in permuted order, but the powers of the cofactor
+        // belong to their natural order.
+        permute(self);
         let mut c = Field::one();
         for element in self.iter_mut() {
             *element *= &c;
             c *= &cofactor;
         }
+        permute(self);
         trace!("END Cofactor shift");
     }
 
-- 
2.43.0


From 8d95cf44a45c70c4235ada8b6367b6abe80da6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:39 +0000
Subject: [PATCH 04/25] fix: count an allocation towards the peak of allocated
 bytes

The high-water mark was updated with the number of bytes that were live
before the allocation, so it could be below the bytes currently live.
---
 utils/logging-allocator/src/logging_allocator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/logging-allocator/src/logging_allocator.rs b/utils/logging-allocator/src/logging_allocator.rs
index f9720cf..0e354e9 100644
--- a/utils/logging-allocator/src/logging_allocator.rs
+++ b/utils/logging-allocator/src/logging_allocator.rs
@@ -107,7 +107,8 @@ unsafe impl GlobalAlloc for LoggingAllocator {
         if !result.is_null() {
             // TODO: We are doing a lot of atomic operations here, what is
             // the performance impact?
-            let allocated = self.allocated.fetch_add(layout.size(), Relaxed);
+            // Note that `fetch_add` returns the value before the addition.
+            let allocated = self.allocated.fetch_add(layout.size(), Relaxed) + layout.size();
             let _ = self.total_allocated.fetch_add(layout.size(), Relaxed);
             let _ = self.num_allocations.fetch_add(1, Relaxed);
             // HACK: Using `allocated` here again is not completely fool proof
-- 
2.43.0


From c6a565f2903912e668d704a1645feef1b12a303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:45 +0000
Subject: [PATCH 05/25] fix: drop every element of an MmapVec exactly once

push and extend_from_slice assigned to uninitialized or already dropped
slots, which drops whatever bits are there; extend_from_slice also raised
the length before cloning. resize did not drop the elements it removed and
dropping the vector leaked all of them.
---
 utils/mmap-vec/src/mmap_vec.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 3affb39..575a004 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -14,7 +14,7 @@ use std::{
     marker::PhantomData,
     mem::size_of,
     ops::{Deref, DerefMut},
-    ptr::drop_in_place,
+    ptr::{self, drop_in_place},
     slice,
 };
 
@@ -76,9 +76,12 @@ impl<T: Clone> MmapVec<T> {
         if self.length == self.capacity {
             panic!("MmapVec is at capacity")
         }
-        let end = self.length;
+        // Write without dropping the previous content, the slot holds no element.
+        unsafe {
+            let end = (self.mmap.as_mut_ptr() as *mut T).add(self.length);
+            ptr::write(end, next);
+        }
         self.length += 1;
-        self[end] = next;
     }
 
     pub fn clear(&mut self) {
@@ -109,19 +112,17 @@ impl<T: Clone> MmapVec<T> {
         if size > self.capacity {
             panic!("MmapVec is at capacity")
         }
+        self.truncate(size);
         while self.length < size {
             self.push(fill.clone());
         }
-        self.length = size;
     }
 
     pub fn extend_from_slice(&mut self, slice: &[T]) {
-        if self.length + slice.len() > self.capacity {
+        if slice.len() > self.capacity - self.length {
             panic!("MmapVec would grow beyond capacity")
         }
-        let start = self.length;
-        self.length += slice.len();
-        self.as_mut_slice()[start..].clone_from_slice(slice);
+        self.extend(slice);
     }
 
     #[inline]
@@ -137,6 +138,12 @@ impl<T: Clone> MmapVec<T> {
     }
 }
 
+impl<T: Clone> Drop for MmapVec<T> {
+    fn drop(&mut self) {
+        self.clear()
+    }
+}
+
 impl<T: Clone + PartialEq> PartialEq for MmapVec<T> {
     fn eq(&self, other: &Self) -> bool {
         if self.len() != other.len() {
-- 
2.43.0


From 03fc7d1315365f3191e87dc2fba95d893af92aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:45 +0000
Subject: [PATCH 06/25] fix: refuse MmapVec capacities whose size in bytes
 overflows

In release builds the size wrapped around and a small mapping was used as
if it had the requested capacity.
---
 utils/mmap-vec/src/mmap_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 575a004..44a8047 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -34,7 +34,10 @@ impl<T: Clone> MmapVec<T> {
     pub fn with_capacity(capacity: usize) -> Self {
         // TODO: Round up to nearest 4KB
         // Note: mmaped files can not be empty, so we use at leas one byte.
-        let size = max(1, capacity * size_of::<T>());
+        let size = capacity
+            .checked_mul(size_of::<T>())
+            .expect("MmapVec capacity overflow");
+        let size = max(1, size);
         trace!("Allocating {} MB in anonymous mmap", size / 1_000_000);
         let mmap = MmapOptions::new()
             .len(size)
-- 
2.43.0


From 1b65f72831a79fbaed6893e0d6ed39b671bf6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:05 +0000
Subject: [PATCH 07/25] fix: report contract files that cannot be created
 instead of panicking

---
 crypto/stark/src/solidity_verifier.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/crypto/stark/src/solidity_verifier.rs b/crypto/stark/src/solidity_verifier.rs
index d45dbfc..8efdbfc 100644
--- a/crypto/stark/src/solidity_verifier.rs
+++ b/crypto/stark/src/solidity_verifier.rs
@@ -407,11 +407,7 @@ fn autogen_wrapper_contract(
 
     let name = format!("{}/{}.sol", output_directory, system_name);
     let path = Path::new(&name);
-    let display = path.display();
-    let mut file = match File::create(&path) {
-        Err(why) => panic!("couldn't create {}: {}", display, why.to_string()),
-        Ok(file) => file,
-    };
+    let mut file = File::create(&path)?;
     let num_constraints = constraints.expressions().len();
 
     // The initial index is one because of the oods point
@@ -564,11 +560,7 @@ fn autogen_oods_contract(
     // TODO - Variable naming
     let name = format!("{}/{}Trace.sol", output_directory, system_name);
     let path = Path::new(&name);
-    let display = path.display();
-    let mut file = match File::create(&path) {
-        Err(why) => panic!("couldn't create {}: {}", display, why.to_string()),
-        Ok(file) => file,
-    };
+    let mut file = File::create(&path)?;
     writeln!(&mut file, "{}", trace_contract)?;
 
     Ok(())
-- 
2.43.0


From 1af997a85f39067838018a50445d2f24bde1304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:05 +0000
Subject: [PATCH 08/25] fix: export empty lists of a proof as empty arrays

An empty list was written as nothing at all, which made the exported proof
malformed, or shifted the lists after it, when a FRI layer needs no
additional values or hashes.
---
 crypto/stark/src/solidity_seralizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/stark/src/solidity_seralizer.rs b/crypto/stark/src/solidity_seralizer.rs
index 5ab2b9d..592c520 100644
--- a/crypto/stark/src/solidity_seralizer.rs
+++ b/crypto/stark/src/solidity_seralizer.rs
@@ -41,6 +41,7 @@ impl<T: SoliditySeralize> SoliditySeralize for Vec<T> {
     fn sol_encode(&self) -> String {
         let mut res: String = "".to_string();
         if self.is_empty() {
+            res.push_str("[]");
             return res;
         }
 
-- 
2.43.0


From c642f92841614efc4bb5615ce2dc4cbc164eff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:46 +0000
Subject: [PATCH 09/25] fix: refuse degenerate signatures and keys instead of
 panicking

---
 crypto/elliptic-curve-crypto/src/public_key.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crypto/elliptic-curve-crypto/src/public_key.rs b/crypto/elliptic-curve-crypto/src/public_key.rs
index 79d7d8f..df7501e 100644
--- a/crypto/elliptic-curve-crypto/src/public_key.rs
+++ b/crypto/elliptic-curve-crypto/src/public_key.rs
@@ -20,9 +20,14 @@ impl PublicKey {
     }
 
     pub fn verify(&self, digest: &ScalarFieldElement, signature: &Signature) -> bool {
-        assert!(!signature.r().is_zero());
-        assert!(!signature.w().is_zero());
-        assert!(self.0.is_on_curve());
+        // Signatures and keys come from untrusted parties: refuse degenerate ones.
+        if signature.r().is_zero()
+            || signature.w().is_zero()
+            || self.0 == Affine::ZERO
+            || !self.0.is_on_curve()
+        {
+            return false;
+        }
 
         let generator_factor = digest * signature.w();
         let pubkey_factor = signature.r() * signature.w();
-- 
2.43.0


From 5f07bf744f30db2c22df6f6b5b76934ff81232db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:46 +0000
Subject: [PATCH 10/25] fix: subtract the first point in double_mul by its own
 digit

---
 algebra/elliptic-curve/src/wnaf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index c3e2f76..b451bd0 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -171,7 +171,7 @@ pub fn double_mul(
         r.double_assign();
         if snaf_expansion_a[i] > 0 {
             r += &naf_table_a[(snaf_expansion_a[i] >> 1) as usize];
-        } else if snaf_expansion_b[i] < 0 {
+        } else if snaf_expansion_a[i] < 0 {
             r -= &naf_table_a[(-snaf_expansion_a[i] >> 1) as usize];
         }
         if snaf_expansion_b[i] > 0 {
-- 
2.43.0


From 44bad5c6aabecb96d59de5a4025f0f7c12388e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:09 +0000
Subject: [PATCH 11/25] fix: double when a Jacobian point meets itself in mixed
 addition

---
 algebra/elliptic-curve/src/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/jacobian.rs b/algebra/elliptic-curve/src/jacobian.rs
index 0dc9d4f..a6a761c 100644
--- a/algebra/elliptic-curve/src/jacobian.rs
+++ b/algebra/elliptic-curve/src/jacobian.rs
@@ -193,7 +193,7 @@ impl AddAssign<&Affine> for Jacobian {
                 let u2 = x * &z1z1;
                 let s2 = y * &self.z * &z1z1;
                 if self.x == u2 {
-                    return if self.x == s2 {
+                    return if self.y == s2 {
                         self.double_assign()
                     } else {
                         *self = Self::ZERO
-- 
2.43.0


From a59850ec65460cb0a52845d4b5e869c2b97d30f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:40 +0000
Subject: [PATCH 12/25] fix: report malformed text of an integer instead of
 panicking

---
 algebra/u256/src/conversion.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/algebra/u256/src/conversion.rs b/algebra/u256/src/conversion.rs
index 8d04857..4938f6c 100644
--- a/algebra/u256/src/conversion.rs
+++ b/algebra/u256/src/conversion.rs
@@ -6,7 +6,7 @@ use std::prelude::v1::*;
 
 use crate::U256;
 #[cfg(feature = "serde")]
-use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
 use std::u64;
 
 impl U256 {
@@ -48,7 +48,11 @@ impl<'a> Deserialize<'a> for U256 {
     fn deserialize<D: Deserializer<'a>>(deserializer: D) -> Result<Self, D::Error> {
         if deserializer.is_human_readable() {
             let string = String::deserialize(deserializer)?;
-            Ok(U256::from_hex_str(&string))
+            let digits = string.trim_start_matches("0x");
+            if digits.len() > 64 || !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+                return Err(D::Error::custom("expected at most 64 hexadecimal digits"));
+            }
+            Ok(U256::from_hex_str(digits))
         } else {
             <[u8; 32]>::deserialize(deserializer).map(|b| U256::from_bytes_be(&b))
         }
-- 
2.43.0


From e7b971c1837a383353a27eb9084f431ca4a9c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:40 +0000
Subject: [PATCH 13/25] fix: refuse encoded field elements that are not reduced

---
 algebra/primefield/src/parity_codec.rs | 6 +++++-
 algebra/primefield/src/serde.rs        | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/algebra/primefield/src/parity_codec.rs b/algebra/primefield/src/parity_codec.rs
index 95beb6d..9b2b06d 100644
--- a/algebra/primefield/src/parity_codec.rs
+++ b/algebra/primefield/src/parity_codec.rs
@@ -35,7 +35,11 @@ where
     P: Parameters<UInt = U>,
 {
     fn decode<I: Input>(value: &mut I) -> Result<Self, Error> {
-        Ok(Self::from_uint(&U::decode(value)?))
+        let u = U::decode(value)?;
+        if u >= Self::modulus() {
+            return Err("field element is not reduced".into());
+        }
+        Ok(Self::from_uint(&u))
     }
 }
 
diff --git a/algebra/primefield/src/serde.rs b/algebra/primefield/src/serde.rs
index 7ca23e3..6a34fb1 100644
--- a/algebra/primefield/src/serde.rs
+++ b/algebra/primefield/src/serde.rs
@@ -1,6 +1,6 @@
 use crate::{uint::UInt, Parameters, PrimeField};
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{Deserialize, Deserializer, Error},
     ser::{Serialize, Serializer},
 };
 
@@ -27,6 +27,9 @@ where
         D: Deserializer<'de>,
     {
         let u = U::deserialize(deserializer)?;
+        if u >= Self::modulus() {
+            return Err(D::Error::custom("field element is not reduced"));
+        }
         Ok(Self::from_uint(&u))
     }
 }
-- 
2.43.0


From bd4ebe123a1cc673696a873c1a3fdf8be35f161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:20 +0000
Subject: [PATCH 14/25] fix: report decimal text that is not ASCII or too large

---
 algebra/u256/src/encoding.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebra/u256/src/encoding.rs b/algebra/u256/src/encoding.rs
index b810af5..af5dbfe 100644
--- a/algebra/u256/src/encoding.rs
+++ b/algebra/u256/src/encoding.rs
@@ -25,12 +25,12 @@ impl U256 {
         // TODO: Implement as trait
         // OPT: Convert 19 digits at a time using u64.
         let mut result = Self::ZERO;
-        for (i, _c) in s.chars().enumerate() {
-            if result > max10 {
+        for (i, c) in s.char_indices() {
+            if result >= max10 {
                 return Err(ParseError::Overflow);
             }
             result *= Self::from(10_u64);
-            let digit = Self::from(u64::from_str_radix(&s[i..=i], 10)?);
+            let digit = Self::from(u64::from_str_radix(&s[i..i + c.len_utf8()], 10)?);
             if &result + &digit < result {
                 return Err(ParseError::Overflow);
             }
-- 
2.43.0


From d03d4311a3b662684e260db3dca62693ebf84474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:58 +0000
Subject: [PATCH 15/25] fix: check a single constraint at the row asked for

---
 crypto/stark/src/constraint_check.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 27a7367..70f3893 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -71,12 +71,7 @@ pub(crate) fn check_specific_constraint(
     which_constraint: usize,
 ) -> bool {
     let trace_generator = FieldElement::root(table.num_rows()).unwrap();
-    let x;
-    if row == 0 {
-        x = FieldElement::one();
-    } else {
-        x = trace_generator.pow(row - 1)
-    }
+    let x = trace_generator.pow(row);
     let len = table.num_rows();
 
     let trace = |i: usize, j: isize| {
-- 
2.43.0


From 2b398acc739aead00935db771acd2920c422ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:38 +0000
Subject: [PATCH 16/25] fix: bound the size of a proof from above

---
 crypto/stark/src/constraints.rs         | 37 +++++++++++++------------
 crypto/stark/src/rational_expression.rs |  5 ++--
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index e8140e0..6f2a550 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -221,28 +221,31 @@ impl Constraints {
     // TODO - Improve bound by removing the elements of overlap in
     // worst cases.
     pub fn max_proof_size(&self) -> usize {
-        let trace_len_log = self.trace_nrows().trailing_zeros() as usize;
-        // First we decommit two proofs for each query [one which is the evaluation
-        // domain decommitment and one is the constraints]
-        let mut total_decommitment =
-            self.num_queries * (trace_len_log * self.trace_ncolumns() + trace_len_log);
-        // Now we account for the first layer which is 8 elements [assuming the worst
-        // case we need to decommit 7 other elements].
-        let mut current_size = trace_len_log - 3;
-        total_decommitment += self.num_queries * (current_size + 7);
+        // The constraint polynomial is split over a power of two columns.
+        let constraint_columns = if self.is_empty() {
+            1
+        } else {
+            self.degree().next_power_of_two()
+        };
+        // Depth of a Merkle tree over the low degree extension
+        let mut depth = (self.trace_nrows() * self.blowup).trailing_zeros() as usize;
+
+        // The trace and constraint commitments, and their out of domain values.
+        let mut total = 2 + self.trace_arguments().len() + constraint_columns;
+        // For each query we open a row in both and decommit to it.
+        total += self.num_queries * (self.trace_ncolumns() + depth);
+        total += self.num_queries * (constraint_columns + depth);
 
         for &i in &self.fri_layout {
             // This worst case assumes that only one in each group is from the previous
             // layer.
-            current_size -= i;
-            total_decommitment += self.num_queries * (current_size + (1 << i) - 1);
-        }
-        // Decommits all of the remaining elements
-        let final_list = 1 << current_size;
-        if final_list > self.num_queries {
-            total_decommitment += final_list - self.num_queries;
+            depth -= i;
+            total += 1 + self.num_queries * ((1 << i) - 1 + depth);
         }
-        32 * total_decommitment
+        // The remaining polynomial is written explicitly.
+        total += self.trace_nrows() >> self.fri_layout.iter().sum::<usize>();
+        // The proof of work nonce
+        32 * total + 8
     }
 
     pub fn combine(&self, constraint_coefficients: &[FieldElement]) -> RationalExpression {
diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 5f2bdec..4e8c787 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -325,12 +325,13 @@ impl RationalExpression {
                 let _ = s.insert((i, j));
             }
             X | Constant(_) => (),
-            Polynomial(_, a) | Exp(a, _) | Neg(a) | Inv(a) => a.trace_arguments_impl(s),
+            Polynomial(_, a) | ClaimPolynomial(_, _, a, _) | Exp(a, _) | Neg(a) | Inv(a) => {
+                a.trace_arguments_impl(s)
+            }
             Add(a, b) | Mul(a, b) => {
                 a.trace_arguments_impl(s);
                 b.trace_arguments_impl(s);
             }
-            ClaimPolynomial(..) => panic!("ClaimPolynomial should be substituted by Polynomial"),
         }
     }
 }
-- 
2.43.0


From 3d3bd50a8e59a9890fb282dd9984977d8da73898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:38 +0000
Subject: [PATCH 17/25] fix: wrap row offsets beyond the length of the table

---
 crypto/stark/src/algebraic_dag.rs    |  2 +-
 crypto/stark/src/constraint_check.rs | 12 ++----------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/crypto/stark/src/algebraic_dag.rs b/crypto/stark/src/algebraic_dag.rs
index 1885090..1e3e994 100644
--- a/crypto/stark/src/algebraic_dag.rs
+++ b/crypto/stark/src/algebraic_dag.rs
@@ -520,7 +520,7 @@ impl AlgebraicGraph {
                         // Sizes are small enough
                         #[allow(clippy::cast_possible_wrap)]
                         let row = (self.row + i) as isize;
-                        let row = (n + row + trace_blowup * *o) % n;
+                        let row = (row + trace_blowup * *o).rem_euclid(n);
                         // Sizes are small enough
                         #[allow(clippy::cast_sign_loss)]
                         let row = row as usize;
diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 70f3893..71865ed 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -47,11 +47,7 @@ pub fn check_constraints(
                 table[((j + row) % len, i)].clone()
             } else {
                 let j: usize = j.abs().try_into().unwrap();
-                if row < j {
-                    table[(len + row - j, i)].clone()
-                } else {
-                    table[(row - j, i)].clone()
-                }
+                table[((row + len - j % len) % len, i)].clone()
             }
         };
         for (which, expression) in constraints.expressions().iter().enumerate() {
@@ -80,11 +76,7 @@ pub(crate) fn check_specific_constraint(
             table[((j + row) % len, i)].clone()
         } else {
             let j: usize = j.abs().try_into().unwrap();
-            if row < j {
-                table[(len + row - j, i)].clone()
-            } else {
-                table[(row - j, i)].clone()
-            }
+            table[((row + len - j % len) % len, i)].clone()
         }
     };
 
-- 
2.43.0


From 0ed29de124afd581d2a798663fc55643e48de0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:54 +0000
Subject: [PATCH 18/25] fix: let the constraint checker invert inner
 denominators

---
 crypto/stark/src/rational_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 4e8c787..2d62e5e 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -268,7 +268,7 @@ impl RationalExpression {
                     if res_a == FieldElement::zero() {
                         (FieldElement::one(), false)
                     } else {
-                        (res_a, true)
+                        (res_a.inv().unwrap(), true)
                     }
                 } else {
                     match *(a.clone()) {
-- 
2.43.0


From 31e90e0ecf5959fe6aa78210454747c8e0e8fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 19/25] fix: refuse to sample from an empty range

---
 algebra/u256/src/rand.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algebra/u256/src/rand.rs b/algebra/u256/src/rand.rs
index cb44344..9a6e9b5 100644
--- a/algebra/u256/src/rand.rs
+++ b/algebra/u256/src/rand.rs
@@ -33,6 +33,7 @@ impl UniformSampler for UniformU256 {
         B1: SampleBorrow<U256> + Sized,
         B2: SampleBorrow<U256> + Sized,
     {
+        assert!(low.borrow() < high.borrow(), "cannot sample an empty range");
         let low = low.borrow().clone();
         let range = high.borrow() - &low;
         Self::Ranged { low, range }
@@ -43,6 +44,7 @@ impl UniformSampler for UniformU256 {
         B1: SampleBorrow<U256> + Sized,
         B2: SampleBorrow<U256> + Sized,
     {
+        assert!(low.borrow() <= high.borrow(), "cannot sample an empty range");
         if low.borrow() == &U256::ZERO && high.borrow() == &U256::MAX {
             Self::Full
         } else {
-- 
2.43.0


From f8e33d14528d237baaa44c1d3bbee8d7687eb628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 20/25] fix: generate contracts for a power of two number of
 constraint columns

---
 crypto/stark/src/solidity_verifier.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/solidity_verifier.rs b/crypto/stark/src/solidity_verifier.rs
index 8efdbfc..f6ddc6c 100644
--- a/crypto/stark/src/solidity_verifier.rs
+++ b/crypto/stark/src/solidity_verifier.rs
@@ -554,8 +554,15 @@ fn autogen_oods_contract(
         .max()
         .expect("No constraints");
 
-    let trace_contract =
-        autogen_trace_layout(&trace_keys, n_cols, max_degree, blowup, system_name)?;
+    // The prover splits the combined constraint polynomial in a power of two
+    // number of columns.
+    let trace_contract = autogen_trace_layout(
+        &trace_keys,
+        n_cols,
+        max_degree.next_power_of_two(),
+        blowup,
+        system_name,
+    )?;
 
     // TODO - Variable naming
     let name = format!("{}/{}Trace.sol", output_directory, system_name);
-- 
2.43.0


From 09b8f338b5bbd3dc708cc86daeff7bd3f5223a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 21/25] fix: return the verdict from the on-chain verifier

---
 crypto/stark-verifier-ethereum/contracts/stark_verifier.sol | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index 15bb844..67b09f0 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -70,6 +70,7 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         check_out_of_domain_sample_result(proof, oods_point, constraint_evaluated_oods_point);
 
         trace('verify_proof', false);
+        return true;
     }
 
     // This function write to the channel and reads from the channel to get the randomized data
-- 
2.43.0


From 3a4652df0f5a5f3f7fc32352519645164d25fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 22/25] fix: accept a single opening of a right leaf in the
 on-chain Merkle verifier

---
 crypto/stark-verifier-ethereum/contracts/merkle.sol | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crypto/stark-verifier-ethereum/contracts/merkle.sol b/crypto/stark-verifier-ethereum/contracts/merkle.sol
index 593ed07..bfed6bf 100644
--- a/crypto/stark-verifier-ethereum/contracts/merkle.sol
+++ b/crypto/stark-verifier-ethereum/contracts/merkle.sol
@@ -57,9 +57,10 @@ contract MerkleVerifier is Trace {
                     break
                 }
 
-                // Check if the next index in the ring is the right sibbling.
-                // `index | 1` turns index into the right sibbling (no-op if it already is)
-                switch eq(or(index, 1), mload(add(indices, read_index)))
+                // Check if the current index is a left and the next index in the ring is
+                // its right sibbling. (If only one index is left, the next index is the
+                // current one. `index + 1` can not be the current index.)
+                switch and(iszero(and(index, 1)), eq(add(index, 1), mload(add(indices, read_index))))
                 case 0 {
                     // No merge with right sibbling, read a decommitment
                     // Decommitment goes in left or right, opposite of the index bit.
-- 
2.43.0


From cfdba482befeee2321a9bfc47b09a298f8c3c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 23/25] fix: accept proofs with coinciding queries in the
 on-chain verifier

---
 .../stark-verifier-ethereum/contracts/fri.sol | 18 +++++++++++++
 .../contracts/stark_verifier.sol              | 25 ++++++++++++-------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/crypto/stark-verifier-ethereum/contracts/fri.sol b/crypto/stark-verifier-ethereum/contracts/fri.sol
index 10496f4..bd3eebb 100644
--- a/crypto/stark-verifier-ethereum/contracts/fri.sol
+++ b/crypto/stark-verifier-ethereum/contracts/fri.sol
@@ -108,6 +108,7 @@ contract Fri is Trace, MerkleVerifier {
     // Note the final layer folded values will be overwritten to the input data locations.
     function fold_and_check_fri_layers(FriContext memory fri_data) internal {
         trace('fold_and_check_fri_layers', true);
+        remove_repeated_queries(fri_data.queries, fri_data.polynomial_at_queries);
         LayerContext memory layer_context = LayerContext({
             roots: [1, OROOT4, OROOT2, OROOT6, OROOT1, OROOT5, OROOT3, OROOT7],
             x_inv: new uint256[](fri_data.queries.length),
@@ -193,6 +194,23 @@ contract Fri is Trace, MerkleVerifier {
         trace('fold_and_check_fri_layers', false);
     }
 
+    // The same query can be drawn more than once. This truncates the sorted queries and their values so that
+    // each query is contained only once, after checking that it has the same value each time.
+    function remove_repeated_queries(uint256[] memory queries, uint256[] memory values) internal pure {
+        uint256 write_index = 0;
+        for (uint256 i = 0; i < queries.length; i++) {
+            if (i > 0 && queries[i] == queries[write_index - 1]) {
+                require(values[i] == values[write_index - 1], 'Repeated query mismatch');
+            } else {
+                queries[write_index] = queries[i];
+                values[write_index] = values[i];
+                write_index += 1;
+            }
+        }
+        queries.truncate(write_index);
+        values.truncate(write_index);
+    }
+
     // This function takes in a previous layer and fold and reads from it and writes new folded layers to the next layer.
     // It will overwrite any memory in that location.
     function fold_layer(
diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index 67b09f0..e49f6c4 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -162,7 +162,8 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
     }
 
     // Reads through the groups in the data and then hashes them and stores the hash in the output array
-    // Also copies the queries into the output and adjusts them to merkle tree indexes.
+    // Also copies the queries into the output and adjusts them to merkle tree indexes. Repeated queries
+    // are written once.
     function prepare_hashes_and_queries(
         uint256[] memory data_groups,
         uint256 data_group_size,
@@ -172,18 +173,24 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         uint256[] memory output_queries
     ) internal {
         uint256[] memory group = new uint256[](data_group_size);
-        for (uint256 i = 0; i < data_groups.length / data_group_size; i++) {
+        uint256 write_index = 0;
+        for (uint256 i = 0; i < queries.length; i++) {
             for (uint256 j = 0; j < data_group_size; j++) {
                 group[j] = data_groups[i * data_group_size + j];
             }
-            output_hashes[i] = merkle_leaf_hash(group);
-        }
-
-        queries.deep_copy(output_queries);
-        // TODO - Go to depth indexing in merkle to remove this
-        for (uint256 i = 0; i < queries.length; i++) {
-            output_queries[i] = output_queries[i] + eval_domain_size;
+            bytes32 hash = merkle_leaf_hash(group);
+            if (i > 0 && queries[i] == queries[i - 1]) {
+                // The queries are sorted, but the same query can be drawn more than once.
+                require(hash == output_hashes[write_index - 1], 'Repeated query mismatch');
+            } else {
+                output_hashes[write_index] = hash;
+                // TODO - Go to depth indexing in merkle to remove this
+                output_queries[write_index] = queries[i] + eval_domain_size;
+                write_index += 1;
+            }
         }
+        output_hashes.truncate(write_index);
+        output_queries.truncate(write_index);
         delete group;
     }
 
-- 
2.43.0


From 78ad7928e86940ccc143a3674708a8934ff96a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 24/25] fix: reject proofs of the wrong shape in the on-chain
 verifier

---
 .../contracts/default_cs.sol                  |  2 ++
 .../contracts/stark_verifier.sol              | 34 +++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/crypto/stark-verifier-ethereum/contracts/default_cs.sol b/crypto/stark-verifier-ethereum/contracts/default_cs.sol
index 770ae8c..d954c47 100644
--- a/crypto/stark-verifier-ethereum/contracts/default_cs.sol
+++ b/crypto/stark-verifier-ethereum/contracts/default_cs.sol
@@ -52,6 +52,8 @@ abstract contract DefaultConstraintSystem is ConstraintSystem, Trace  {
         }
 
         uint256[] memory layout = layout_col_major();
+        // The layout contains a pair for each trace value
+        require(layout.length == 2 * data.trace_oods_values.length, 'Invalid trace oods values length');
         for (uint256 i = 0; i < queries.length; i++) {
             uint256 result = 0;
             {
diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index e49f6c4..e14702f 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -27,6 +27,8 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
             proof.public_inputs
         );
         trace('initalize_system', false);
+        // Reject malformed proofs before using any of their content
+        check_proof_shape(proof, constraint_parameters);
         // Write data to the coin and read random data from it
         trace('write_data_and_read_random', true);
         (
@@ -73,6 +75,38 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         return true;
     }
 
+    // Checks that every part of the proof has exactly the size the parameters call for. The other
+    // checks are not sufficient for a proof which supplies more values than the parameters ask for.
+    function check_proof_shape(StarkProof memory proof, ProofParameters memory parameters) internal pure {
+        uint256 number_of_queries = parameters.number_of_queries;
+        require(
+            proof.trace_values.length == number_of_queries * parameters.number_of_columns,
+            'Invalid trace values length'
+        );
+        require(
+            proof.constraint_values.length == number_of_queries * parameters.constraint_degree,
+            'Invalid constraint values length'
+        );
+        require(
+            proof.constraint_oods_values.length == parameters.constraint_degree,
+            'Invalid constraint oods values length'
+        );
+        uint256 number_of_layers = parameters.fri_layout.length;
+        require(proof.fri_values.length == number_of_layers, 'Invalid fri values length');
+        require(proof.fri_commitments.length == number_of_layers, 'Invalid fri commitments length');
+        require(proof.fri_decommitments.length == number_of_layers, 'Invalid fri decommitments length');
+        // Each fri layer divides the degree bound, the last layer has one coefficient for each remaining degree
+        uint256 log_last_layer_size = parameters.log_trace_length;
+        for (uint256 i = 0; i < number_of_layers; i++) {
+            require(parameters.fri_layout[i] <= log_last_layer_size, 'Invalid fri layout');
+            log_last_layer_size -= parameters.fri_layout[i];
+        }
+        require(
+            proof.last_layer_coefficients.length == uint256(1) << log_last_layer_size,
+            'Invalid last layer length'
+        );
+    }
+
     // This function write to the channel and reads from the channel to get the randomized data
     function write_data_and_read_random(
         StarkProof memory proof,
-- 
2.43.0


From d28880b08676d51bab5f76690c687c87d3a9a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:28 +0000
Subject: [PATCH 25/25] fix: reject values that are not reduced in the on-chain
 verifier

---
 .../contracts/stark_verifier.sol              | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
index e14702f..f1afa77 100644
--- a/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
+++ b/crypto/stark-verifier-ethereum/contracts/stark_verifier.sol
@@ -75,8 +75,9 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
         return true;
     }
 
-    // Checks that every part of the proof has exactly the size the parameters call for. The other
-    // checks are not sufficient for a proof which supplies more values than the parameters ask for.
+    // Checks that every part of the proof has exactly the size the parameters call for and contains only
+    // reduced field elements. The other checks are not sufficient for a proof which supplies more values than the
+    // parameters ask for, or values which are not reduced.
     function check_proof_shape(StarkProof memory proof, ProofParameters memory parameters) internal pure {
         uint256 number_of_queries = parameters.number_of_queries;
         require(
@@ -105,6 +106,21 @@ contract StarkVerifier is Trace, ProofOfWork, Fri, ProofTypes {
             proof.last_layer_coefficients.length == uint256(1) << log_last_layer_size,
             'Invalid last layer length'
         );
+
+        check_field_elements(proof.trace_values);
+        check_field_elements(proof.constraint_values);
+        check_field_elements(proof.trace_oods_values);
+        check_field_elements(proof.constraint_oods_values);
+        for (uint256 i = 0; i < number_of_layers; i++) {
+            check_field_elements(proof.fri_values[i]);
+        }
+        check_field_elements(proof.last_layer_coefficients);
+    }
+
+    function check_field_elements(uint256[] memory values) internal pure {
+        for (uint256 i = 0; i < values.length; i++) {
+            require(values[i] < PrimeField.MODULUS, 'Value is not a field element');
+        }
     }
 
     // This function write to the channel and reads from the channel to get the randomized data
-- 
2.43.0

