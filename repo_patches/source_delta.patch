From 4925916bf91fa174405341c350154010535d9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 01/23] fix: decrypt correctly when 2t exceeds the first
 ciphertext modulus

The word-sized decryption path recovered the scaled coefficients from their
residue modulo q_0 only, which is ambiguous once 2t > q_0 and returned wrong
plaintexts for large (but valid) plaintext moduli.
---
 crates/fhe/src/bfv/keys/secret_key.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index b339f6a..575ffeb 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -225,7 +225,9 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
         let d = Zeroizing::new(c_pb.as_ref().scale(&ctx_lvl.cipher_plain_context.scaler)?);
 
         let poly = match self.par.plaintext.small() {
-            Some(plaintext_modulus) => {
+            // A coefficient of `d` is congruent to a value in [-t, t], which the
+            // first residue only determines when 2 * t does not exceed q_0.
+            Some(plaintext_modulus) if **plaintext_modulus <= self.par.moduli[0] / 2 => {
                 let mut v = Vec::<u64>::try_from(d.as_ref())?;
                 v.iter_mut().for_each(|vi| *vi += **plaintext_modulus);
                 let mut w = v[..self.par.degree()].to_vec();
@@ -235,7 +237,7 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
                 plaintext_modulus.reduce_vec(&mut w);
                 Poly::<PowerBasis>::try_convert_from(w.as_slice(), ct[0].ctx(), false)?.into_ntt()
             }
-            None => {
+            _ => {
                 let v: Vec<BigUint> = Vec::<BigUint>::from(d.as_ref())
                     .into_iter()
                     .map(|vi| vi + self.par.plaintext_big())
-- 
2.43.0


From c454143516f3dd630923eaa5a3eb99d03e089c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 02/23] fix: multiplying by the zero ciphertext on the right
 returns zero

The left operand was already special-cased; with an empty right operand the
product was a malformed one-polynomial ciphertext at level 0, and an assertion
failure at any other level.
---
 crates/fhe/src/bfv/ops/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/fhe/src/bfv/ops/mod.rs b/crates/fhe/src/bfv/ops/mod.rs
index de4aa98..3084b61 100644
--- a/crates/fhe/src/bfv/ops/mod.rs
+++ b/crates/fhe/src/bfv/ops/mod.rs
@@ -263,6 +263,9 @@ impl Mul<&Ciphertext> for &Ciphertext {
         if self.is_empty() {
             return self.clone();
         }
+        if rhs.is_empty() {
+            return rhs.clone();
+        }
 
         if rhs == self {
             // Squaring operation
-- 
2.43.0


From 679c0f3de21f1f288106512f35f7127c63431819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 03/23] fix: refuse public key switching of ciphertexts that
 are not of length 2

The share silently ignored every polynomial but the first two of an
unrelinearized product, so the switched ciphertext decrypted to garbage, and
panicked on the empty ciphertext. The secret key switch already refuses both.
---
 crates/fhe/src/mbfv/public_key_switch.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/fhe/src/mbfv/public_key_switch.rs b/crates/fhe/src/mbfv/public_key_switch.rs
index 8ad7667..82e855d 100644
--- a/crates/fhe/src/mbfv/public_key_switch.rs
+++ b/crates/fhe/src/mbfv/public_key_switch.rs
@@ -48,6 +48,15 @@ impl PublicKeySwitchShare {
                 right: crate::ParameterSource::Ciphertext,
             });
         }
+        // Note: M-BFV implementation only supports ciphertext of length 2
+        if ct.len() != 2 {
+            return Err(crate::CiphertextError::InvalidPolynomialCount {
+                operation: crate::CiphertextOperation::MultipartyKeySwitch,
+                actual: ct.len(),
+                expected: 2,
+            }
+            .into());
+        }
         let par = sk_share.par.clone();
 
         // Get appropriate context / level for the following computations
-- 
2.43.0


From 313ef951aa83f53b99b7575483ebca39f5f01dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 04/23] fix: reduce values modulo the plaintext modulus before
 encoding them

Values that are not below the plaintext modulus were encoded incorrectly: the
NTT of the SIMD encoding only accepts reduced inputs (and asserts it in debug
builds), and the polynomial encoding reduced large values modulo the ciphertext
modulus first.
---
 crates/fhe/src/bfv/plaintext_vec.rs | 31 ++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/fhe/src/bfv/plaintext_vec.rs b/crates/fhe/src/bfv/plaintext_vec.rs
index be310ca..2fe6007 100644
--- a/crates/fhe/src/bfv/plaintext_vec.rs
+++ b/crates/fhe/src/bfv/plaintext_vec.rs
@@ -82,15 +82,27 @@ impl PlaintextVec {
                 for (index, &coefficient) in value.iter().enumerate() {
                     coefficients[par.matrix_reps_index_map[index]] = coefficient;
                 }
-                let ntt_operator = par
-                    .ntt_operator
-                    .as_ref()
-                    .ok_or(crate::PlaintextError::NttOperatorUnavailable)?;
-                if variable_time.is_some() {
-                    unsafe { ntt_operator.backward_vt(coefficients.as_mut_ptr()) };
-                } else {
-                    ntt_operator.backward(&mut coefficients);
-                }
+            }
+        }
+        // Values are defined modulo the plaintext modulus; neither the NTT below
+        // nor the embedding modulo the ciphertext moduli would preserve larger
+        // ones.
+        if let Some(modulus) = par.plaintext.small() {
+            if variable_time.is_some() {
+                unsafe { modulus.reduce_vec_vt(&mut coefficients) };
+            } else {
+                modulus.reduce_vec(&mut coefficients);
+            }
+        }
+        if encoding.encoding == EncodingEnum::Simd {
+            let ntt_operator = par
+                .ntt_operator
+                .as_ref()
+                .ok_or(crate::PlaintextError::NttOperatorUnavailable)?;
+            if variable_time.is_some() {
+                unsafe { ntt_operator.backward_vt(coefficients.as_mut_ptr()) };
+            } else {
+                ntt_operator.backward(&mut coefficients);
             }
         }
 
@@ -112,6 +124,7 @@ impl PlaintextVec {
             EncodingEnum::Poly => {
                 let mut coefficients = vec![BigUint::zero(); par.degree()];
                 coefficients[..value.len()].clone_from_slice(value);
+                par.plaintext.reduce_vec(&mut coefficients);
                 Ok(
                     Poly::<PowerBasis>::try_convert_from(coefficients.as_slice(), ctx, false)?
                         .into_ntt(),
-- 
2.43.0


From 22714fa44a07bf02628390846afc0036e448f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 05/23] fix: report an error when a decoded value does not fit
 in i64

Decoding a plaintext with a modulus larger than 64 bits as Vec<i64> panicked.
---
 crates/fhe/src/bfv/plaintext.rs | 16 +++++++++-------
 crates/fhe/src/errors.rs        |  3 +++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/fhe/src/bfv/plaintext.rs b/crates/fhe/src/bfv/plaintext.rs
index f5e863b..d4cdbfb 100644
--- a/crates/fhe/src/bfv/plaintext.rs
+++ b/crates/fhe/src/bfv/plaintext.rs
@@ -445,17 +445,19 @@ impl FheDecoder<Plaintext> for Vec<i64> {
             let modulus_int = BigInt::from_biguint(Sign::Plus, modulus_big.clone());
             let half_modulus = modulus_big / 2u32;
 
-            Ok(values
+            values
                 .iter()
                 .map(|value| {
-                    if value >= &half_modulus {
-                        let value_int = BigInt::from_biguint(Sign::Plus, value.clone());
-                        (value_int - &modulus_int).to_i64().unwrap()
+                    let centered = if value >= &half_modulus {
+                        BigInt::from_biguint(Sign::Plus, value.clone()) - &modulus_int
                     } else {
-                        value.to_i64().unwrap()
-                    }
+                        BigInt::from_biguint(Sign::Plus, value.clone())
+                    };
+                    centered
+                        .to_i64()
+                        .ok_or(crate::PlaintextError::ValueTooLargeForI64.into())
                 })
-                .collect())
+                .collect()
         }
     }
 
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 9521636..93a4b53 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -140,6 +140,9 @@ pub enum PlaintextError {
 
     #[error("Plaintext value does not fit in u64")]
     ValueTooLargeForU64,
+
+    #[error("Plaintext value does not fit in i64")]
+    ValueTooLargeForI64,
 }
 
 /// Plaintext encoding failures.
-- 
2.43.0


From 96d3e2324a8bfa5922dc775c88cdb4202fb877e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 06/23] fix: reduce coefficients given to a context with a
 single modulus

A full vector of coefficients was mistaken for residues and left unreduced,
which the NTT asserts against; this happens when encoding or decrypting at a
level whose ciphertext modulus is smaller than the plaintext modulus.
---
 crates/fhe-math/src/rq/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 34b5057..68a0451 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -147,7 +147,9 @@ impl TryConvertFrom<&Rq> for Poly<NttShoup> {
 
 impl TryConvertFrom<Vec<u64>> for Poly<PowerBasis> {
     fn try_convert_from(mut v: Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> Result<Self> {
-        if v.len() == ctx.q.len() * ctx.degree {
+        // With a single modulus, the residues and the coefficients coincide, and
+        // the latter need to be reduced.
+        if ctx.q.len() > 1 && v.len() == ctx.q.len() * ctx.degree {
             let coefficients = Array2::from_shape_vec((ctx.q.len(), ctx.degree), v).unwrap();
             Ok(Self {
                 ctx: ctx.clone(),
-- 
2.43.0


From c2b6826f60e940cc8a56cb3e56b9f8c9d92dc266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 07/23] fix: refuse to aggregate multiparty shares that do not
 belong together

Shares made for another parameter set, level, ciphertext, common polynomial or
round-one aggregate were added up into garbage or made the aggregation panic.
---
 crates/fhe/src/errors.rs                 | 3 +++
 crates/fhe/src/mbfv/public_key_gen.rs    | 3 +++
 crates/fhe/src/mbfv/public_key_switch.rs | 3 +++
 crates/fhe/src/mbfv/relin_key_gen.rs     | 6 ++++++
 crates/fhe/src/mbfv/secret_key_switch.rs | 3 +++
 5 files changed, 18 insertions(+)

diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 93a4b53..9b8c0dc 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -231,6 +231,9 @@ pub enum MultipartyError {
 
     #[error("Round-two relinearization share is missing its round-one aggregation")]
     MissingRelinearizationRoundOneShare,
+
+    #[error("The shares do not belong to the same protocol execution")]
+    MismatchedShares,
 }
 
 /// Separate enum for errors arising from serialization.
diff --git a/crates/fhe/src/mbfv/public_key_gen.rs b/crates/fhe/src/mbfv/public_key_gen.rs
index 05e39f4..5dc9c6a 100644
--- a/crates/fhe/src/mbfv/public_key_gen.rs
+++ b/crates/fhe/src/mbfv/public_key_gen.rs
@@ -66,6 +66,9 @@ impl Aggregate<PublicKeyShare> for PublicKey {
         let share = shares.next().ok_or(crate::MultipartyError::NoShares)?;
         let mut p0 = share.p0_share;
         for sh in shares {
+            if sh.par != share.par || sh.crp != share.crp {
+                return Err(crate::MultipartyError::MismatchedShares.into());
+            }
             p0 += &sh.p0_share;
         }
 
diff --git a/crates/fhe/src/mbfv/public_key_switch.rs b/crates/fhe/src/mbfv/public_key_switch.rs
index 82e855d..a00c969 100644
--- a/crates/fhe/src/mbfv/public_key_switch.rs
+++ b/crates/fhe/src/mbfv/public_key_switch.rs
@@ -111,6 +111,9 @@ impl Aggregate<PublicKeySwitchShare> for Ciphertext {
         let mut h0 = share.h0_share;
         let mut h1 = share.h1_share;
         for sh in shares {
+            if sh.par != share.par || sh.c0 != share.c0 {
+                return Err(crate::MultipartyError::MismatchedShares.into());
+            }
             h0 += &sh.h0_share;
             h1 += &sh.h1_share;
         }
diff --git a/crates/fhe/src/mbfv/relin_key_gen.rs b/crates/fhe/src/mbfv/relin_key_gen.rs
index 5fae0cd..a60b125 100644
--- a/crates/fhe/src/mbfv/relin_key_gen.rs
+++ b/crates/fhe/src/mbfv/relin_key_gen.rs
@@ -207,6 +207,9 @@ impl Aggregate<RelinKeyShare<R1>> for RelinKeyShare<R1Aggregated> {
         let mut h0 = share.h0;
         let mut h1 = share.h1;
         for sh in shares {
+            if sh.par != share.par {
+                return Err(crate::MultipartyError::MismatchedShares.into());
+            }
             izip!(h0.iter_mut(), sh.h0.iter()).for_each(|(h0i, sh_h0i)| *h0i += sh_h0i);
             izip!(h1.iter_mut(), sh.h1.iter()).for_each(|(h1i, sh_h1i)| *h1i += sh_h1i);
         }
@@ -312,6 +315,9 @@ impl Aggregate<RelinKeyShare<R2>> for RelinearizationKey {
         let mut h0 = share.h0;
         let mut h1 = share.h1;
         for sh in shares {
+            if sh.par != par || sh.last_round.as_ref() != Some(&r1) {
+                return Err(crate::MultipartyError::MismatchedShares.into());
+            }
             izip!(h0.iter_mut(), h1.iter_mut(), sh.h0.iter(), sh.h1.iter()).for_each(
                 |(h0, h1, h0i, h1i)| {
                     *h0 += h0i;
diff --git a/crates/fhe/src/mbfv/secret_key_switch.rs b/crates/fhe/src/mbfv/secret_key_switch.rs
index e5f6de5..d8d90e4 100644
--- a/crates/fhe/src/mbfv/secret_key_switch.rs
+++ b/crates/fhe/src/mbfv/secret_key_switch.rs
@@ -104,6 +104,9 @@ impl Aggregate<SecretKeySwitchShare> for Ciphertext {
         let share = shares.next().ok_or(crate::MultipartyError::NoShares)?;
         let mut h = share.h_share;
         for sh in shares {
+            if sh.par != share.par || sh.ct.c != share.ct.c {
+                return Err(crate::MultipartyError::MismatchedShares.into());
+            }
             h += &sh.h_share;
         }
 
-- 
2.43.0


From acdb12c6c6c6e477f264603b65145a9f065995e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 08/23] fix: refuse common polynomials and round-one shares of
 other parameters

They made the generation of multiparty shares panic, or silently produced
shares for another parameter set.
---
 crates/fhe/src/mbfv/public_key_gen.rs |  6 ++++++
 crates/fhe/src/mbfv/relin_key_gen.rs  | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/crates/fhe/src/mbfv/public_key_gen.rs b/crates/fhe/src/mbfv/public_key_gen.rs
index 5dc9c6a..4def570 100644
--- a/crates/fhe/src/mbfv/public_key_gen.rs
+++ b/crates/fhe/src/mbfv/public_key_gen.rs
@@ -36,6 +36,12 @@ impl PublicKeyShare {
     ) -> Result<Self> {
         let par = sk_share.par.clone();
         let ctx = par.context_at_level(0)?;
+        if crp.poly.ctx() != ctx {
+            return Err(crate::Error::ParameterMismatch {
+                left: crate::ParameterSource::SecretKey,
+                right: crate::ParameterSource::Polynomial,
+            });
+        }
 
         // Convert secret key to usable polynomial
         let s = Zeroizing::new(
diff --git a/crates/fhe/src/mbfv/relin_key_gen.rs b/crates/fhe/src/mbfv/relin_key_gen.rs
index a60b125..e3387b4 100644
--- a/crates/fhe/src/mbfv/relin_key_gen.rs
+++ b/crates/fhe/src/mbfv/relin_key_gen.rs
@@ -88,6 +88,11 @@ impl<'a, 'b> RelinKeyGenerator<'a, 'b> {
                 expected: ctx.moduli().len(),
             }
             .into())
+        } else if crp.iter().any(|crp| crp.poly.ctx() != ctx) {
+            Err(crate::Error::ParameterMismatch {
+                left: crate::ParameterSource::SecretKey,
+                right: crate::ParameterSource::Polynomial,
+            })
         } else {
             let u = Zeroizing::new(Poly::<Ntt>::small(ctx, par.variance, rng)?);
             Ok(Self { sk_share, crp, u })
@@ -232,6 +237,12 @@ impl RelinKeyShare<R2> {
         rng: &mut R,
     ) -> Result<Self> {
         let par = sk_share.par.clone();
+        if r1.par != par {
+            return Err(crate::Error::ParameterMismatch {
+                left: crate::ParameterSource::SecretKey,
+                right: crate::ParameterSource::Parameters,
+            });
+        }
         let h0 = Self::generate_h0(sk_share, &r1.h0, rng)?;
         let h1 = Self::generate_h1(sk_share, u, &r1.h1, rng)?;
         Ok(Self {
-- 
2.43.0


From 64479fec7a04aab765c37a223206df1615225adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 09/23] fix: refuse relinearization keys of other parameters in
 a multiplicator

Only the polynomial contexts were compared, so a key for another plaintext
modulus or variance was accepted.
---
 crates/fhe/src/bfv/ops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/ops/mul.rs b/crates/fhe/src/bfv/ops/mul.rs
index 3bfd317..9ecada8 100644
--- a/crates/fhe/src/bfv/ops/mul.rs
+++ b/crates/fhe/src/bfv/ops/mul.rs
@@ -140,7 +140,7 @@ impl Multiplicator {
     /// Enable relinearization after multiplication.
     pub fn enable_relinearization(&mut self, rk: &RelinearizationKey) -> Result<()> {
         let rk_ctx = self.par.context_at_level(rk.ksk.ciphertext_level)?;
-        if rk_ctx != &self.base_ctx {
+        if rk.ksk.par != self.par || rk_ctx != &self.base_ctx {
             return Err(Error::ParameterMismatch {
                 left: crate::ParameterSource::RelinearizationKey,
                 right: crate::ParameterSource::Multiplicator,
-- 
2.43.0


From 1d8ba2961be1926bca9e9c9333c11ada26c9e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 10/23] fix: refuse relinearization keys above the level of the
 ciphertext

Such a key can be generated but every use of it fails; the evaluation key
builder already refuses the combination.
---
 crates/fhe/src/bfv/keys/relinearization_key.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/relinearization_key.rs b/crates/fhe/src/bfv/keys/relinearization_key.rs
index ecbd030..98cb8c5 100644
--- a/crates/fhe/src/bfv/keys/relinearization_key.rs
+++ b/crates/fhe/src/bfv/keys/relinearization_key.rs
@@ -52,6 +52,13 @@ impl RelinearizationKey {
         if ctx_relin_key.moduli().len() == 1 {
             return Err(crate::EvaluationKeyError::KeySwitchingNotSupported.into());
         }
+        if key_level > ciphertext_level {
+            return Err(Error::InvalidLevel {
+                level: key_level,
+                min_level: 0,
+                max_level: ciphertext_level,
+            });
+        }
 
         let s = Zeroizing::new(
             Poly::<PowerBasis>::try_convert_from(sk.coeffs.as_ref(), ctx_ciphertext, false)?
-- 
2.43.0


From 1227e45005afea4f2539fd1a6e82400df83d5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 11/23] fix: refuse serialized polynomials of another degree

The bytes of a polynomial of smaller degree were accepted as the low-order
coefficients of a polynomial, mixing up the residues of different moduli.
---
 crates/fhe-math/src/rq/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 68a0451..1747021 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -63,7 +63,7 @@ fn parse_proto(
     };
 
     let degree = value.degree as usize;
-    if !degree.is_multiple_of(8) || degree < 8 {
+    if degree != ctx.degree {
         return Err(PolynomialSerializationError::InvalidDegree { degree }.into());
     }
 
-- 
2.43.0


From 65d708aae9ab43324a5c0f2853260cb96cde4e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 12/23] fix: refuse serialized polynomials with unreduced
 coefficients

Residues that fit in the bit width of the modulus but exceed it were kept as
is, giving polynomials that violate the assumptions of every operation and do
not compare equal to the polynomial they represent.
---
 crates/fhe-math/src/errors.rs     | 4 ++++
 crates/fhe-math/src/rq/convert.rs | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/crates/fhe-math/src/errors.rs b/crates/fhe-math/src/errors.rs
index 9066e64..d62fa93 100644
--- a/crates/fhe-math/src/errors.rs
+++ b/crates/fhe-math/src/errors.rs
@@ -144,6 +144,10 @@ pub enum PolynomialSerializationError {
     /// The serialized coefficient byte count is invalid.
     #[error("Invalid coefficient length: found {actual} bytes, expected {expected}.")]
     InvalidCoefficientCount { actual: usize, expected: usize },
+
+    /// A serialized coefficient is not reduced modulo its modulus.
+    #[error("A coefficient is not reduced modulo its modulus.")]
+    UnreducedCoefficient,
 }
 
 #[cfg(test)]
diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 1747021..2a949a1 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -90,6 +90,11 @@ fn parse_proto(
             v
         })
         .collect();
+    if izip!(power_basis_coefficients.chunks_exact(degree), ctx.q.iter())
+        .any(|(residues, qi)| residues.iter().any(|residue| *residue >= **qi))
+    {
+        return Err(PolynomialSerializationError::UnreducedCoefficient.into());
+    }
 
     Ok((
         representation_from_proto,
-- 
2.43.0


From ac2d9198d01861a838cc5fc2807a2cdf07bb7adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 13/23] fix: reject key-switching keys with another
 decomposition base on restore

The base of a serialized single-modulus key-switching key was accepted as
given. A base of 2^64 or more makes every later key switch shift out of range,
which panics (or silently computes garbage without overflow checks).
---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 8 ++++++++
 crates/fhe/src/errors.rs                     | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index 1f83458..a9a5888 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -405,6 +405,14 @@ impl BfvTryConvertFrom<&KeySwitchingKeyProto> for KeySwitchingKey {
             } else {
                 let log_modulus: usize =
                     par.moduli().first().unwrap().next_power_of_two().ilog2() as usize;
+                if log_base != log_modulus / 2 {
+                    return Err(Error::SerializationError(
+                        SerializationError::InvalidKeySwitchingDecompositionBase {
+                            actual: log_base,
+                            expected: log_modulus / 2,
+                        },
+                    ));
+                }
                 c0_size = log_modulus.div_ceil(log_base);
             }
         } else {
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 9b8c0dc..ab1b0ca 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -275,6 +275,11 @@ pub enum SerializationError {
         expected: usize,
     },
 
+    /// A serialized key-switching key uses another decomposition base than key
+    /// generation.
+    #[error("Key-switching decomposition base is 2^{actual}; expected 2^{expected}")]
+    InvalidKeySwitchingDecompositionBase { actual: usize, expected: usize },
+
     /// A serialized key-switching seed has the wrong length.
     #[error("Serialized key-switching seed has {actual} bytes; expected {expected}")]
     InvalidKeySwitchingSeedLength { actual: usize, expected: usize },
-- 
2.43.0


From c9e722ed14ab58d0aa6acd601de20da28487f870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 14/23] fix: forget the seed of a ciphertext whose polynomials
 are borrowed mutably

A fresh ciphertext is stored as its first polynomials and the seed of the last
one. Changing a polynomial through DerefMut (also done by relinearizes on a
restored three-part ciphertext with a seed) kept the seed, so storing the
ciphertext dropped the changed polynomial.
---
 crates/fhe/src/bfv/ciphertext.rs      | 2 ++
 crates/fhe/src/bfv/keys/public_key.rs | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/ciphertext.rs b/crates/fhe/src/bfv/ciphertext.rs
index 3d59901..8da21e9 100644
--- a/crates/fhe/src/bfv/ciphertext.rs
+++ b/crates/fhe/src/bfv/ciphertext.rs
@@ -39,6 +39,8 @@ impl Deref for Ciphertext {
 
 impl DerefMut for Ciphertext {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The polynomials may change: they no longer come from the seed.
+        self.seed = None;
         &mut self.c
     }
 }
diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 5e68e1d..4e585b3 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -28,7 +28,7 @@ impl PublicKey {
         let mut c: Ciphertext = sk.try_encrypt(&zero, rng).unwrap();
         // The polynomials of a public key should not allow for variable time
         // computation.
-        c.iter_mut()
+        c.c.iter_mut()
             .for_each(|p| p.disallow_variable_time_computations());
         Self {
             par: sk.par.clone(),
@@ -132,7 +132,7 @@ impl DeserializeParametrized for PublicKey {
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
-                c.iter_mut()
+                c.c.iter_mut()
                     .for_each(|p| p.disallow_variable_time_computations());
                 Ok(Self {
                     par: par.clone(),
-- 
2.43.0


From 0cb78a9e627e50a25aa9a99e521cfa644e3d1b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 15/23] fix: erase the key-switching temporaries that reveal
 the secret key

The product of the public mask with the secret key, and the copy of the
secret added by the decomposition variant, were freed without being
erased.
---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index a9a5888..19ef852 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -173,7 +173,7 @@ impl KeySwitchingKey {
                 *a_s.as_mut() *= s.as_ref();
                 let ctx = a_s.ctx().clone();
                 let a_s_inner = std::mem::replace(a_s.as_mut(), Poly::<Ntt>::zero(&ctx));
-                let a_s_pb = a_s_inner.into_power_basis();
+                let a_s_pb = Zeroizing::new(a_s_inner.into_power_basis());
 
                 let mut b = Poly::<PowerBasis>::small(a_s_pb.ctx(), sk.par.variance, rng)?;
                 b -= &a_s_pb;
@@ -218,13 +218,14 @@ impl KeySwitchingKey {
                 *a_s.as_mut() *= s.as_ref();
                 let ctx = a_s.ctx().clone();
                 let a_s_inner = std::mem::replace(a_s.as_mut(), Poly::<Ntt>::zero(&ctx));
-                let a_s_pb = a_s_inner.into_power_basis();
+                let a_s_pb = Zeroizing::new(a_s_inner.into_power_basis());
 
                 let mut b = Poly::<PowerBasis>::small(a_s_pb.ctx(), sk.par.variance, rng)?;
                 b -= &a_s_pb;
 
                 let power = BigUint::from(1u64 << (i * log_base));
-                b += &(from * &power);
+                let power_from = Zeroizing::new(from * &power);
+                b += &power_from;
 
                 // It is now safe to enable variable time computations.
                 b.allow_variable_time_computations(fhe_traits::VariableTime::new(
-- 
2.43.0


From 9b5aa0af7f3c2c4bce31eaee293a5b93d39e0a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:38 +0000
Subject: [PATCH 16/23] fix: erase the plaintext temporaries of encoding,
 decoding and decryption

The coefficient vectors built while encoding, decoding and decrypting were
freed without being erased, although the plaintexts themselves are.
---
 crates/fhe/src/bfv/keys/secret_key.rs |  4 ++--
 crates/fhe/src/bfv/plaintext.rs       | 21 +++++++++++++--------
 crates/fhe/src/bfv/plaintext_vec.rs   | 19 ++++++++++---------
 3 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index 575ffeb..21aaf80 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -228,9 +228,9 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
             // A coefficient of `d` is congruent to a value in [-t, t], which the
             // first residue only determines when 2 * t does not exceed q_0.
             Some(plaintext_modulus) if **plaintext_modulus <= self.par.moduli[0] / 2 => {
-                let mut v = Vec::<u64>::try_from(d.as_ref())?;
+                let mut v = Zeroizing::new(Vec::<u64>::try_from(d.as_ref())?);
                 v.iter_mut().for_each(|vi| *vi += **plaintext_modulus);
-                let mut w = v[..self.par.degree()].to_vec();
+                let mut w = Zeroizing::new(v[..self.par.degree()].to_vec());
 
                 let q = Modulus::new(self.par.moduli[0]).map_err(Error::MathError)?;
                 q.reduce_vec(&mut w);
diff --git a/crates/fhe/src/bfv/plaintext.rs b/crates/fhe/src/bfv/plaintext.rs
index d4cdbfb..f8dd30b 100644
--- a/crates/fhe/src/bfv/plaintext.rs
+++ b/crates/fhe/src/bfv/plaintext.rs
@@ -111,7 +111,7 @@ impl Plaintext {
                     .first()
                     .is_some_and(|ciphertext_modulus| **modulus < *ciphertext_modulus) =>
             {
-                let coefficients = Vec::<u64>::try_from(poly.as_ref()).unwrap();
+                let coefficients = Zeroizing::new(Vec::<u64>::try_from(poly.as_ref()).unwrap());
                 let mut values = coefficients[..self.par.degree()].to_vec();
                 modulus.reduce_vec(&mut values);
                 PlaintextCoefficients::Small(values)
@@ -152,21 +152,20 @@ impl Plaintext {
         }
     }
 
-    fn decode_simd_u64(&self, mut values: Vec<u64>) -> Result<Vec<u64>> {
+    fn decode_simd_u64(&self, values: Vec<u64>) -> Result<Vec<u64>> {
+        let mut values = Zeroizing::new(values);
         let op = self
             .par
             .ntt_operator
             .as_ref()
             .ok_or(crate::EncodingError::SimdUnavailable)?;
         op.forward(&mut values);
-        let reordered = self
+        Ok(self
             .par
             .matrix_reps_index_map
             .iter()
             .map(|&index| values[index])
-            .collect();
-        values.zeroize();
-        Ok(reordered)
+            .collect())
     }
 
     pub(crate) fn to_poly(&self) -> Poly<Ntt> {
@@ -378,7 +377,13 @@ impl FheDecoder<Plaintext> for Vec<BigUint> {
     {
         let encoding = pt.resolve_encoding(encoding)?;
         let values = match pt.coefficients() {
-            PlaintextCoefficients::Small(values) => values.into_iter().map(BigUint::from).collect(),
+            PlaintextCoefficients::Small(values) => {
+                let values = Zeroizing::new(match encoding.encoding {
+                    EncodingEnum::Poly => values,
+                    EncodingEnum::Simd => pt.decode_simd_u64(values)?,
+                });
+                return Ok(values.iter().copied().map(BigUint::from).collect());
+            }
             PlaintextCoefficients::Large(values) => values,
         };
 
@@ -437,7 +442,7 @@ impl FheDecoder<Plaintext> for Vec<i64> {
         E: Into<Option<Encoding>>,
     {
         if let Some(modulus) = pt.par.plaintext.small() {
-            let values = Vec::<u64>::try_decode(pt, encoding)?;
+            let values = Zeroizing::new(Vec::<u64>::try_decode(pt, encoding)?);
             Ok(modulus.center_vec(&values))
         } else {
             let values = Vec::<BigUint>::try_decode(pt, encoding)?;
diff --git a/crates/fhe/src/bfv/plaintext_vec.rs b/crates/fhe/src/bfv/plaintext_vec.rs
index 2fe6007..4e85e70 100644
--- a/crates/fhe/src/bfv/plaintext_vec.rs
+++ b/crates/fhe/src/bfv/plaintext_vec.rs
@@ -4,6 +4,7 @@ use fhe_math::rq::{Context, Ntt, Poly, PowerBasis, traits::TryConvertFrom};
 use fhe_traits::{FheEncoder, FheEncoderVariableTime, FheParametrized, FhePlaintext, VariableTime};
 use num_bigint::BigUint;
 use num_traits::{ToPrimitive, Zero};
+use zeroize::Zeroizing;
 use zeroize_derive::{Zeroize, ZeroizeOnDrop};
 
 use crate::{
@@ -75,7 +76,7 @@ impl PlaintextVec {
         ctx: &Arc<Context>,
         variable_time: Option<VariableTime>,
     ) -> Result<Poly<Ntt>> {
-        let mut coefficients = vec![0u64; par.degree()];
+        let mut coefficients = Zeroizing::new(vec![0u64; par.degree()]);
         match encoding.encoding {
             EncodingEnum::Poly => coefficients[..value.len()].copy_from_slice(value),
             EncodingEnum::Simd => {
@@ -107,9 +108,9 @@ impl PlaintextVec {
         }
 
         let poly = if let Some(variable_time) = variable_time {
-            Poly::<PowerBasis>::try_convert_from_public(&coefficients, ctx, variable_time)?
+            Poly::<PowerBasis>::try_convert_from_public(coefficients.as_slice(), ctx, variable_time)?
         } else {
-            Poly::<PowerBasis>::try_convert_from(&coefficients, ctx, false)?
+            Poly::<PowerBasis>::try_convert_from(coefficients.as_slice(), ctx, false)?
         };
         Ok(poly.into_ntt())
     }
@@ -131,14 +132,14 @@ impl PlaintextVec {
                 )
             }
             EncodingEnum::Simd => {
-                let values = value
-                    .iter()
-                    .map(|coefficient| {
+                let mut values = Zeroizing::new(Vec::with_capacity(value.len()));
+                for coefficient in value {
+                    values.push(
                         coefficient
                             .to_u64()
-                            .ok_or(crate::PlaintextError::ValueTooLargeForU64)
-                    })
-                    .collect::<std::result::Result<Vec<_>, _>>()?;
+                            .ok_or(crate::PlaintextError::ValueTooLargeForU64)?,
+                    );
+                }
                 Self::encode_u64_chunk(&values, encoding, par, ctx, None)
             }
         }
-- 
2.43.0


From 694969058a05e3cd90bbef6df9b4d4d374554288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 17/23] fix: erase the coefficients copied while serializing a
 secret key

Serializing and restoring a secret key freed copies of its coefficients
without erasing them, also when the restore is refused.
---
 crates/fhe/src/bfv/keys/secret_key.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index 21aaf80..7ec638c 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -144,7 +144,10 @@ impl From<&SecretKey> for SecretKeyProto {
 
 impl Serialize for SecretKey {
     fn to_bytes(&self) -> Vec<u8> {
-        SecretKeyProto::from(self).encode_to_vec()
+        let mut proto = SecretKeyProto::from(self);
+        let bytes = proto.encode_to_vec();
+        proto.coeffs.zeroize();
+        bytes
     }
 }
 
@@ -152,16 +155,23 @@ impl DeserializeParametrized for SecretKey {
     type Error = Error;
 
     fn from_bytes(bytes: &[u8], par: &Arc<Self::Parameters>) -> Result<Self> {
-        let proto: SecretKeyProto = Message::decode(bytes).map_err(|_| {
+        // A coefficient takes at least one byte: with this capacity, decoding never
+        // reallocates, which would leave a copy of the coefficients behind.
+        let mut proto = SecretKeyProto {
+            coeffs: Vec::with_capacity(bytes.len()),
+        };
+        let decoded = proto.merge(bytes);
+        let coeffs = Zeroizing::new(proto.coeffs);
+        decoded.map_err(|_| {
             Error::SerializationError(SerializationError::Decode {
                 object: crate::SerializedObject::SecretKey,
             })
         })?;
 
-        if proto.coeffs.len() != par.degree() {
+        if coeffs.len() != par.degree() {
             return Err(Error::SerializationError(
                 SerializationError::InvalidSecretKeyCoefficientCount {
-                    actual: proto.coeffs.len(),
+                    actual: coeffs.len(),
                     expected: par.degree(),
                 },
             ));
@@ -169,7 +179,7 @@ impl DeserializeParametrized for SecretKey {
 
         Ok(Self {
             par: par.clone(),
-            coeffs: proto.coeffs.into_boxed_slice(),
+            coeffs: coeffs.as_slice().into(),
         })
     }
 }
-- 
2.43.0


From a604cae478825ccd937e9e598de4e41abca92610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 18/23] fix: do not grant variable time to the square of equal
 operands unless both allow it

The squaring shortcut of ciphertext multiplication is taken when both operands
are equal. Equality ignores the permission for variable-time computations, and
the shortcut only looked at the permissions of the left operand.
---
 crates/fhe/src/bfv/ops/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/ops/mod.rs b/crates/fhe/src/bfv/ops/mod.rs
index 3084b61..4b06178 100644
--- a/crates/fhe/src/bfv/ops/mod.rs
+++ b/crates/fhe/src/bfv/ops/mod.rs
@@ -281,7 +281,12 @@ impl Mul<&Ciphertext> for &Ciphertext {
 
             // Multiply
             let mut c = vec![Poly::<Ntt>::zero(&mp.to); 2 * self_c.len() - 1];
-            if self_c.iter().all(Poly::allows_variable_time_computations) {
+            // The operands are equal, but only one of them may be public.
+            if self_c
+                .iter()
+                .chain(rhs.iter())
+                .all(Poly::allows_variable_time_computations)
+            {
                 let variable_time =
                     fhe_traits::VariableTime::new(fhe_traits::PublicData::assert_public());
                 c.iter_mut()
-- 
2.43.0


From 45d76e0229dd06cedb744b1d0c16046c2abc34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 19/23] fix: serialize the Galois keys of an evaluation key in
 a fixed order

---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index 728b1ed..12a3420 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -497,6 +497,8 @@ impl From<&EvaluationKey> for EvaluationKeyProto {
         for gk in ek.gk.values() {
             proto.gk.push(GaloisKeyProto::from(gk))
         }
+        // The iteration order of the map depends on its hasher.
+        proto.gk.sort_unstable_by_key(|gk| gk.exponent);
         proto.ciphertext_level = ek.ciphertext_level as u32;
         proto.evaluation_key_level = ek.evaluation_key_level as u32;
         proto
-- 
2.43.0


From f36e4bdb8bca91f47acc830295b693c705c272f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 20/23] fix: generate the Galois keys of an evaluation key in a
 fixed order

---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index 12a3420..0f01528 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -474,6 +474,10 @@ impl EvaluationKeyBuilder {
             ek.monomials.push(monomial.into_ntt_shoup());
         }
 
+        // The iteration order of the set depends on its hasher, but the key must
+        // only depend on the random number generator.
+        let mut indices = indices.into_iter().collect::<Vec<_>>();
+        indices.sort_unstable();
         for index in indices {
             ek.gk.insert(
                 index,
-- 
2.43.0


From 4c05d1054bd3627a6025462aa56908278699f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 21/23] fix: leave 51-bit moduli to the native transform, which
 tfhe-ntt gets wrong

---
 crates/fhe-math/src/ntt/tfhe.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/ntt/tfhe.rs b/crates/fhe-math/src/ntt/tfhe.rs
index dc199f7..713ac48 100644
--- a/crates/fhe-math/src/ntt/tfhe.rs
+++ b/crates/fhe-math/src/ntt/tfhe.rs
@@ -40,7 +40,13 @@ impl NttOperator {
     #[must_use]
     pub fn new(p: &Modulus, size: usize) -> Option<Self> {
         let native_operator = native::NttOperator::new(p, size)?;
-        let tfhe_operator = Plan::try_new(size, p.p);
+        // The AVX-512 IFMA kernel that tfhe-ntt selects for moduli of exactly 51
+        // bits returns wrong results, so these are left to the native operator.
+        let tfhe_operator = if p.p >> 50 == 1 {
+            None
+        } else {
+            Plan::try_new(size, p.p)
+        };
         Some(Self {
             tfhe_operator,
             native_operator,
-- 
2.43.0


From e061a67a91ea2c1190602da64649e48410053052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 22/23] fix: scale residues without branching on the sign of
 the rounded value

Decryption scales the phase with RnsScaler; the branch on the sign of the
rounded value depended on the secret key and the message.
---
 crates/fhe-math/src/rns/scaler.rs | 20 +++++++++-----------
 crates/fhe-math/src/zq/mod.rs     |  2 +-
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/crates/fhe-math/src/rns/scaler.rs b/crates/fhe-math/src/rns/scaler.rs
index 064a17b..a497c95 100644
--- a/crates/fhe-math/src/rns/scaler.rs
+++ b/crates/fhe-math/src/rns/scaler.rs
@@ -8,6 +8,7 @@
 //! RNS scaler inspired from Remark 3.2 of <https://eprint.iacr.org/2021/204.pdf>.
 
 use super::RnsContext;
+use crate::zq::const_time_cond_select;
 use ethnum::{U256, u256};
 use itertools::{Itertools, izip};
 use ndarray::{ArrayView1, ArrayViewMut1};
@@ -301,16 +302,13 @@ impl RnsScaler {
                 sum_theta_omega = sum_theta_omega.wrapping_sub(v_theta_gamma);
             }
 
-            // Let's compute w = round(sum_theta_omega / 2^(192)).
-            w_sign = (sum_theta_omega >> (63 + 128)) > u256::ZERO;
-
-            if w_sign {
-                w = ((!sum_theta_omega) >> 126isize).as_u128() + 1;
-                w /= 2;
-            } else {
-                w = (sum_theta_omega >> 126isize).as_u128();
-                w = w.div_ceil(2)
-            }
+            // Let's compute w = round(|sum_theta_omega| / 2^(192)). The sign may be
+            // secret (e.g., when decrypting), so we do not branch on it.
+            w_sign = (sum_theta_omega >> (63 + 128)) != u256::ZERO;
+            let sign_mask = u256::ZERO.wrapping_sub(u256::from(w_sign as u64));
+            w = ((sum_theta_omega ^ sign_mask) >> 126isize)
+                .as_u128()
+                .div_ceil(2);
         }
 
         unsafe {
@@ -333,7 +331,7 @@ impl RnsScaler {
 
                 if !self.scaling_factor.is_one {
                     let wi = qi.lazy_reduce_u128(w);
-                    yi += if w_sign { **qi * 2 - wi } else { wi } as u128;
+                    yi += const_time_cond_select(**qi * 2 - wi, wi, w_sign) as u128;
                 }
 
                 debug_assert!(rests.len() <= omega_i.len());
diff --git a/crates/fhe-math/src/zq/mod.rs b/crates/fhe-math/src/zq/mod.rs
index ccc6753..7261ae0 100644
--- a/crates/fhe-math/src/zq/mod.rs
+++ b/crates/fhe-math/src/zq/mod.rs
@@ -21,7 +21,7 @@ use pulp::Arch;
 use rand::{CryptoRng, Rng as RngCore, RngExt, distr::Uniform};
 
 /// cond ? on_true : on_false
-const fn const_time_cond_select(on_true: u64, on_false: u64, cond: bool) -> u64 {
+pub(crate) const fn const_time_cond_select(on_true: u64, on_false: u64, cond: bool) -> u64 {
     let mask = -(cond as i64) as u64;
     let diff = on_true ^ on_false;
     (diff & mask) ^ on_false
-- 
2.43.0


From 676b583fbfd31bece26a28e96ab19b25188680f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 23/23] fix: reduce and negate modulo p without a selection
 compilers turn into a branch

---
 crates/fhe-math/src/zq/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/fhe-math/src/zq/mod.rs b/crates/fhe-math/src/zq/mod.rs
index 7261ae0..c627232 100644
--- a/crates/fhe-math/src/zq/mod.rs
+++ b/crates/fhe-math/src/zq/mod.rs
@@ -174,7 +174,8 @@ impl Modulus {
     #[must_use]
     pub const fn neg(&self, a: u64) -> u64 {
         debug_assert!(a < self.p);
-        Self::reduce1(self.p - a, self.p)
+        let zero = (a.wrapping_sub(1) as i64 >> 63) as u64;
+        (self.p - a).wrapping_sub(self.p & zero)
     }
 
     /// Modular negation in variable time.
@@ -660,7 +661,10 @@ impl Modulus {
         debug_assert!(p >> 63 == 0);
         debug_assert!(x < 2 * p);
 
-        let r = const_time_cond_select(x, x.wrapping_sub(p), x < p);
+        // The sign of x - p as a mask: compilers turn a selection on x < p into a
+        // branch.
+        let d = x.wrapping_sub(p);
+        let r = d.wrapping_add(p & ((d as i64 >> 63) as u64));
 
         debug_assert!(r == x % p);
 
-- 
2.43.0

