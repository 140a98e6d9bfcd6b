From 53b3c1e0334a44c56f8868fa5694744751129e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 01/19] fix: build X^-(2^i) monomials directly in oblivious
 expansion

Substitution only accepts odd exponents, so deriving X^(N-2^i) by substituting
into X panicked for every i > 0 and no packed query could be expanded.
---
 src/evaluations.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index bbe39a4..9366751 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -300,13 +300,12 @@ impl Evaluation {
 
     fn gen_x_pows(n: usize, ctx: &Arc<RqContext>) -> Vec<Poly> {
         let mut polys = Vec::<Poly>::new();
-        // X
-        let x = Poly::try_from_vec_u64(&ctx, &[0u64, 1]);
         for i in 0..ilog2(n) {
-            let mut xi = x.clone();
             // X^-(2^i) = -X^(N - 2^i), since X^-k = -(X^(N-k))
             let ex = n - 2usize.pow(i as u32);
-            xi = -&xi.substitute(&Substitution::new(&x.context, ex));
+            let mut coeffs = vec![0u64; n];
+            coeffs[ex] = 1;
+            let xi = -&Poly::try_from_vec_u64(&ctx, &coeffs);
             polys.push(xi);
         }
         polys
-- 
2.43.0


From dc0fdf8036527c70909b9b0b6f80a5439062ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 02/19] fix: halve the second-row slot index in the SIMD index
 map

Without the shift the map is not a permutation, so SIMD encoded values are lost.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1c06d09..1447aaa 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -147,7 +147,7 @@ impl BfvParameters {
         let mut matrix_reps_index_map = vec![0usize; degree];
         for i in 0..row_size {
             let index1 = (pos - 1) >> 1;
-            let index2 = (m - pos - 1);
+            let index2 = (m - pos - 1) >> 1;
 
             matrix_reps_index_map[i] = index1.reverse_bits() >> (degree.leading_zeros() + 1);
             matrix_reps_index_map[row_size | i] =
-- 
2.43.0


From 67798fc5a15e59b44d728de67119c97d6826bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 03/19] fix: accumulate cross terms in ciphertext-ciphertext
 multiplication

c0*d1 was overwritten by c1*d0, so the product decrypted to the wrong plaintext.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1447aaa..ec4e2f4 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -496,7 +496,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
         ];
         for i in 0..self.cts.len() {
             for j in 0..rhs.cts.len() {
-                cs[i + j] = &self_scaled[i] * &other_scaled[j];
+                cs[i + j] += &(&self_scaled[i] * &other_scaled[j]);
             }
         }
 
-- 
2.43.0


From af72cc1c374c837ede82128d5e317da0102067fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 04/19] fix: adding a plaintext polynomial to a ciphertext must
 not touch c1

---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index ec4e2f4..dd77004 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -444,7 +444,7 @@ impl Add<&Poly> for &BfvCipherText {
         assert!(self.cts[0].context == rhs.context);
 
         let c0 = &self.cts[0] + rhs;
-        let c1 = &self.cts[1] + rhs;
+        let c1 = self.cts[1].clone();
 
         BfvCipherText {
             params: self.params.clone(),
-- 
2.43.0


From c2150a56aa48b16ee12b2e469b40f7d88ff1a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 05/19] fix: record the level of the plaintext in a fresh
 ciphertext

A plaintext encoded at level > 0 was tagged level 0 and could not be decrypted.
---
 src/bfv.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index dd77004..a5cae9e 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -297,6 +297,8 @@ impl SecretKey {
     }
 
     pub fn encrypt_poly(&self, pt: &Poly) -> BfvCipherText {
+        let level = self.params.ctx_level(&pt.context).unwrap();
+
         let mut sk = Poly::try_from_vec_i64(&pt.context, &self.coeffs);
         sk.change_representation(Representation::Ntt);
 
@@ -324,7 +326,7 @@ impl SecretKey {
         BfvCipherText {
             cts: vec![b, a],
             params: self.params.clone(),
-            level: 0, // FIXME: change this
+            level,
         }
     }
 
-- 
2.43.0


From fd815ffcd69212834d8370dce713072541f0c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 06/19] fix: count hypercube dimensions exactly when dim is not
 a power of two

ilog2(9)/ilog2(3) = 3, so a 4x3x3 database was folded over a bogus dimension
and every query returned 0.
---
 src/evaluations.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 9366751..0aa3b4c 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -117,7 +117,13 @@ impl Server {
         let mut first_dim_cts = eval_key.unpack(query_cts[0].clone());
         first_dim_cts = first_dim_cts.as_slice()[..self.first_dim].to_vec();
 
-        let dimensions = ilog2(self.db.len() / self.first_dim) / ilog2(self.dim) + 1;
+        let mut dimensions = 1;
+        let mut len = self.db.len() / self.first_dim;
+        while len > 1 {
+            assert!(self.dim > 1);
+            len /= self.dim;
+            dimensions += 1;
+        }
 
         let rgsws_count = (dimensions - 1) * self.dim;
         let mut rgsws = vec![];
-- 
2.43.0


From 388c957beedc5a835d075b3a8722c533ef750772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 07/19] fix: only a common prefix of moduli may be copied when
 scaling by one

---
 src/rq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rq.rs b/src/rq.rs
index 052b80d..0776791 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -90,7 +90,8 @@ impl RqScaler {
         if scaling_factor.is_one() {
             number_common_moduli = izip!(&from.moduli_64, &to.moduli_64)
                 .into_iter()
-                .fold(0, |acc, (from, to)| if from == to { acc + 1 } else { acc });
+                .take_while(|(from, to)| from == to)
+                .count();
         }
 
         let rns_scaler = RnsScaler::new(&from.rns, &to.rns, scaling_factor.clone());
-- 
2.43.0


From 5debbf2c4d7f4582f8038a9706fb1ba53ccbed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 08/19] fix: bit length of a modulus

---
 src/modulus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modulus.rs b/src/modulus.rs
index d1a8ddb..654648b 100644
--- a/src/modulus.rs
+++ b/src/modulus.rs
@@ -256,6 +256,6 @@ impl Modulus {
     }
 
     pub fn bits(&self) -> u64 {
-        u64::MAX - self.p.leading_zeros().to_u64().unwrap()
+        64 - self.p.leading_zeros().to_u64().unwrap()
     }
 }
-- 
2.43.0


From bb6f644a5abf6916d73a5d4a951a540539cc586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 09/19] fix: scalar_mul_vec returns reduced residues

The lazy product lies in [0, 2p), so scaled plaintexts were off by one from floor(Q*m/t).
---
 src/modulus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modulus.rs b/src/modulus.rs
index 654648b..a4305d7 100644
--- a/src/modulus.rs
+++ b/src/modulus.rs
@@ -162,7 +162,7 @@ impl Modulus {
     pub fn scalar_mul_vec(&self, a: &[u64], b: u64) -> Vec<u64> {
         let b_shoup = self.shoup(b);
         a.iter()
-            .map(|ai| self.lazy_mul_shoup(*ai, b, b_shoup))
+            .map(|ai| self.mul_shoup(*ai, b, b_shoup))
             .collect()
     }
 
-- 
2.43.0


From 2e092a4c1e90478a8883bf4cf9107baa1d07337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:26 +0000
Subject: [PATCH 10/19] fix: do not drop components of unrelinearized
 ciphertexts

A ciphertext product has three components; adding, subtracting, scaling or
measuring it silently ignored the third one. Operations defined only on two
components now reject the third instead of ignoring it.
---
 src/bfv.rs  | 62 +++++++++++++++++++++++++++++++++++------------------
 src/rgsw.rs |  2 ++
 2 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index a5cae9e..06eac3b 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -8,7 +8,7 @@ use crate::{
     utils::{generate_prime, sample_vec_cbd},
 };
 
-use itertools::Itertools;
+use itertools::{EitherOrBoth, Itertools};
 use ndarray::Axis;
 use num_bigint::BigUint;
 use num_traits::{FromPrimitive, One, ToPrimitive};
@@ -392,8 +392,12 @@ impl SecretKey {
 
         let mut sk = Poly::try_from_vec_i64(&ctx, &self.coeffs);
         sk.change_representation(Representation::Ntt);
-        let mut m = &ct.cts[1] * &sk;
-        m += &ct.cts[0];
+        let mut m = ct.cts[0].clone();
+        let mut sk_i = sk.clone();
+        for c in &ct.cts[1..] {
+            m += &(&sk_i * c);
+            sk_i *= &sk;
+        }
 
         m -= &ideal_m;
         m.change_representation(Representation::PowerBasis);
@@ -429,12 +433,21 @@ impl Add<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] + &rhs.cts[0];
-        let c1 = &self.cts[1] + &rhs.cts[1];
+        // operands may have different number of components
+        let cts = self
+            .cts
+            .iter()
+            .zip_longest(rhs.cts.iter())
+            .map(|pair| match pair {
+                EitherOrBoth::Both(a, b) => a + b,
+                EitherOrBoth::Left(a) => a.clone(),
+                EitherOrBoth::Right(b) => b.clone(),
+            })
+            .collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -445,12 +458,12 @@ impl Add<&Poly> for &BfvCipherText {
     fn add(self, rhs: &Poly) -> Self::Output {
         assert!(self.cts[0].context == rhs.context);
 
-        let c0 = &self.cts[0] + rhs;
-        let c1 = self.cts[1].clone();
+        let mut cts = self.cts.clone();
+        cts[0] += rhs;
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -462,12 +475,21 @@ impl Sub<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] - &rhs.cts[0];
-        let c1 = &self.cts[1] - &rhs.cts[1];
+        // operands may have different number of components
+        let cts = self
+            .cts
+            .iter()
+            .zip_longest(rhs.cts.iter())
+            .map(|pair| match pair {
+                EitherOrBoth::Both(a, b) => a - b,
+                EitherOrBoth::Left(a) => a.clone(),
+                EitherOrBoth::Right(b) => -b,
+            })
+            .collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -524,12 +546,11 @@ impl Mul<&Plaintext> for &BfvCipherText {
         let mut pt_poly = Poly::try_from_vec_u64(&self.params.q_ctxs[self.level], &rhs.values);
         pt_poly.change_representation(Representation::Ntt);
 
-        let c0 = &self.cts[0] * &pt_poly;
-        let c1 = &self.cts[1] * &pt_poly;
+        let cts = self.cts.iter().map(|c| c * &pt_poly).collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -541,12 +562,11 @@ impl Mul<&Poly> for &BfvCipherText {
         assert!(rhs.context == self.cts[0].context);
         assert!(rhs.representation == Representation::Ntt);
 
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
+        let cts = self.cts.iter().map(|c| c * rhs).collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -555,12 +575,11 @@ impl Mul<&Poly> for &BfvCipherText {
 impl Mul<&BigUint> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &BigUint) -> Self::Output {
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
+        let cts = self.cts.iter().map(|c| c * rhs).collect_vec();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -726,6 +745,7 @@ impl GaliosKey {
 
     pub fn relinearize(&self, ct: &BfvCipherText) -> BfvCipherText {
         assert!(ct.level == self.galios_level);
+        assert!(ct.cts.len() == 2);
 
         debug_assert!(ct.cts[0].representation == Representation::Ntt);
 
diff --git a/src/rgsw.rs b/src/rgsw.rs
index 5445ad7..64aca4b 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -61,6 +61,8 @@ impl RgswCt {
     }
 
     pub fn external_product(rgsw: &RgswCt, bfv: &BfvCipherText) -> (Poly, Poly) {
+        assert!(bfv.cts.len() == 2);
+
         let mut c1 = bfv.cts[1].clone();
         let mut c0 = bfv.cts[0].clone();
         c1.change_representation(Representation::PowerBasis);
-- 
2.43.0


From bfcdf5cd0ae0f9dbb591ba7bfd6ea07a2258cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:26 +0000
Subject: [PATCH 11/19] fix: key switching key built from RLWEs keeps their
 level

---
 src/ksk.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ksk.rs b/src/ksk.rs
index 8397288..d32554d 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -145,13 +145,13 @@ impl Ksk {
             })
             .collect();
 
-        // FIXME: default level is 0, which might be incorrect
+        let ctx = params.q_ctxs[cts.first().map_or(0, |c| c.level)].clone();
         Ksk {
             params: params.clone(),
             c0,
             c1,
-            ct_context: params.q_ctxs[0].clone(),
-            ksk_context: params.q_ctxs[0].clone(),
+            ct_context: ctx.clone(),
+            ksk_context: ctx,
         }
     }
 }
-- 
2.43.0


From 17acbc15e0ea5dae1a261fdf70e4dd9e94a2d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:45 +0000
Subject: [PATCH 12/19] verif hooks: guarded re-exports (cfg onion_pir_verif)

---
 src/evaluations.rs | 61 ++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs         | 28 +++++++++++++++++++++
 src/omr.rs         |  9 +++++++
 3 files changed, 98 insertions(+)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 0aa3b4c..03ada47 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -592,3 +592,64 @@ mod tests {
         dbg!(count);
     }
 }
+
+#[cfg(onion_pir_verif)]
+pub mod verif {
+    use super::*;
+
+    pub struct PirClient(Client);
+
+    impl PirClient {
+        pub fn new(first_dim: usize, dim: usize) -> Self {
+            PirClient(Client::new(first_dim, dim))
+        }
+
+        pub fn encode(
+            &self,
+            query_dims: Vec<usize>,
+            db_rows: usize,
+            params: &Arc<BfvParameters>,
+            sk: &SecretKey,
+        ) -> Vec<u64> {
+            self.0.encode(query_dims, db_rows, params, sk)
+        }
+    }
+
+    pub struct PirEvaluation(Evaluation);
+
+    impl PirEvaluation {
+        pub fn build(sk: &SecretKey, params: &Arc<BfvParameters>) -> Self {
+            PirEvaluation(Evaluation::build(sk, params))
+        }
+
+        pub fn unpack(&self, ct: BfvCipherText) -> Vec<BfvCipherText> {
+            self.0.unpack(ct)
+        }
+
+        pub fn sk_rgsw(&self) -> &RgswCt {
+            &self.0.sk_rgsw
+        }
+    }
+
+    pub struct PirServer(Server);
+
+    impl PirServer {
+        pub fn new(
+            first_dim: usize,
+            dim: usize,
+            db: &Vec<Plaintext>,
+            params: &Arc<BfvParameters>,
+        ) -> Self {
+            PirServer(Server::new(first_dim, dim, db, params))
+        }
+
+        pub fn decode(
+            &self,
+            query_cts: Vec<BfvCipherText>,
+            eval_key: &PirEvaluation,
+            params: &Arc<BfvParameters>,
+        ) -> Vec<BfvCipherText> {
+            self.0.decode(query_cts, &eval_key.0, params)
+        }
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 252fdca..e732134 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,3 +9,31 @@ mod rgsw;
 mod rns;
 mod rq;
 mod utils;
+
+/// Verification-only view of the crate. Compiled with `--cfg onion_pir_verif`
+/// and absent otherwise.
+#[cfg(onion_pir_verif)]
+pub mod verif {
+    pub use crate::bfv::{
+        multiply_with_strategy, BfvCipherText, BfvParameters, Encoding, GaliosKey, Plaintext,
+        RelinearizationKey, SecretKey,
+    };
+    pub use crate::evaluations::verif::{PirClient, PirEvaluation, PirServer};
+    pub use crate::ksk::Ksk;
+    pub use crate::modulus::Modulus;
+    pub use crate::ntt::NttOperator;
+    pub use crate::omr::verif::omr_inner_product;
+    pub use crate::pvw::{PvwCiphertext, PvwParams, PvwPk, PvwSk};
+    pub use crate::rgsw::RgswCt;
+    pub use crate::rns::{RnsContext, RnsScaler, ScalingFactor};
+    pub use crate::rq::{
+        BitDecomposition, Poly, Representation, RqContext, RqScaler, Substitution,
+    };
+    pub mod utils {
+        pub use crate::utils::*;
+    }
+
+    pub fn rq_scale(scaler: &RqScaler, p: &Poly) -> Poly {
+        scaler.scale(p)
+    }
+}
diff --git a/src/omr.rs b/src/omr.rs
index 3af75fa..55bf837 100644
--- a/src/omr.rs
+++ b/src/omr.rs
@@ -57,3 +57,12 @@ fn process() {
 
 // #[tests]
 // mod tests {}
+
+#[cfg(onion_pir_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn omr_inner_product(cts: &Vec<BfvCipherText>, polys: &Vec<Poly>) -> BfvCipherText {
+        inner_product(cts, polys)
+    }
+}
-- 
2.43.0


From daa20db914124fa75ae7a8484799a259557edf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:26 +0000
Subject: [PATCH 13/19] fix: reject databases whose size does not match the
 hypercube exactly

Integer division let databases larger than the hypercube through.
---
 src/evaluations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 03ada47..2f6f8c8 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -45,7 +45,7 @@ impl Client {
             .map(|i| (i == query_dims[0]).into())
             .collect();
 
-        assert!(((db_rows / self.first_dim) / self.dim.pow((query_dims.len() - 1) as u32)) == 1);
+        assert!(db_rows == self.first_dim * self.dim.pow((query_dims.len() - 1) as u32));
 
         // final length of `rgsws` = garner.len() * self.dim * (query_dims - 1)
         let mut rgsws: Vec<u64> = vec![];
-- 
2.43.0


From e4d7317b2d8bedbdd4a268258a7cbe1da637e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:26 +0000
Subject: [PATCH 14/19] fix: decryption when the first modulus is close to the
 plaintext modulus

For q_0 < 1.5 * t adding t wraps around q_0 and large messages
decrypt to a wrong value.
---
 src/bfv.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 06eac3b..83f5ee4 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -364,15 +364,18 @@ impl SecretKey {
         // is any of ct moduli.
         // i.e. [(t/q)* m ]_r where `r` is one of the `qi`s.
         m = self.params.scalars[ct.level].scale(&m);
+        // `m` is centred around 0 in `r`: map the negative half to
+        // its residue mod t. Adding t before reducing by `r` is not
+        // enough since it wraps around when r < 1.5 * t.
+        let t = self.params.plaintext_modulus_u64;
+        let q = self.params.q_ctxs[ct.level].moduli[0].modulus();
         let mut m: Vec<u64> = m
             .coefficients()
             .index_axis(Axis(0), 0)
             .iter()
-            .map(|a| *a + self.params.plaintext_modulus_u64)
+            .map(|a| if *a > q / 2 { *a + t - q } else { *a })
             .collect();
         m = m[..self.params.degree].to_vec();
-        let q = self.params.q_ctxs[ct.level].moduli[0].clone();
-        m = q.reduce_vec_u64(&m);
         m = Modulus::new(self.params.plaintext_modulus_u64).reduce_vec_u64(&m);
 
         Plaintext {
-- 
2.43.0


From 4326a92fc5a61ff9718076aa0ea6e7c7aa7ab734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:51 +0000
Subject: [PATCH 15/19] fix: refuse products of operands with different
 parameters

As addition and subtraction do. Parameters that differ only in the
plaintext modulus gave a wrong product silently.
---
 src/bfv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 83f5ee4..f9c70e0 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -502,6 +502,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
     type Output = BfvCipherText;
 
     fn mul(self, rhs: &BfvCipherText) -> Self::Output {
+        assert!(self.params == rhs.params);
         assert!(rhs.level == self.level);
 
         let mul_params = self.params.mul_params[self.level].clone();
@@ -543,6 +544,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
 impl Mul<&Plaintext> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &Plaintext) -> Self::Output {
+        assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
         // TODO: store this in BfvPlaintext
-- 
2.43.0


From 629424c73a351f98515f6a216f015011239efa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:51 +0000
Subject: [PATCH 16/19] fix: refuse arithmetic between polynomials of different
 rings

Operands were zipped modulus by modulus, so a shorter operand left the
remaining residues untouched.
---
 src/rq.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rq.rs b/src/rq.rs
index 0776791..9295018 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -270,6 +270,14 @@ impl Poly {
         self.coefficients.view()
     }
 
+    /// Operands are combined modulus by modulus, thus moduli of `rhs`
+    /// must start with moduli of `self`. Otherwise some residues
+    /// would be left out silently.
+    fn assert_projects_from(&self, rhs: &Poly) {
+        assert!(self.context.degree == rhs.context.degree);
+        assert!(rhs.context.moduli_64.starts_with(&self.context.moduli_64));
+    }
+
     pub fn change_representation(&mut self, to: Representation) {
         match self.representation {
             Representation::PowerBasis => match to {
@@ -547,6 +555,7 @@ impl AddAssign<&Poly> for Poly {
     fn add_assign(&mut self, rhs: &Poly) {
         assert!(self.representation == Representation::Ntt);
         assert!(rhs.representation == Representation::Ntt);
+        self.assert_projects_from(rhs);
 
         izip!(
             self.coefficients.outer_iter_mut(),
@@ -572,6 +581,7 @@ impl SubAssign<&Poly> for Poly {
     fn sub_assign(&mut self, rhs: &Poly) {
         assert!(self.representation == Representation::Ntt);
         assert!(rhs.representation == Representation::Ntt);
+        self.assert_projects_from(rhs);
 
         izip!(
             self.coefficients.outer_iter_mut(),
@@ -597,6 +607,7 @@ impl MulAssign<&Poly> for Poly {
     fn mul_assign(&mut self, rhs: &Poly) {
         assert!(self.representation == Representation::Ntt);
         assert!(rhs.representation == Representation::Ntt);
+        self.assert_projects_from(rhs);
 
         izip!(
             self.coefficients.outer_iter_mut(),
-- 
2.43.0


From 8b5d9734e8b081ac7e43b23762b889a7b146c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:20 +0000
Subject: [PATCH 17/19] fix: div_ceil overflows for operands close to the
 type's maximum

---
 src/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 67235f6..c717cf7 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -100,7 +100,12 @@ pub fn mod_inverse(v: u64, q: u64) -> Option<u64> {
 
 pub fn div_ceil<T: PrimInt>(a: T, b: T) -> T {
     assert!(b != T::zero());
-    (a + b - T::one()) / b
+    // `a + b - 1` may not fit in T
+    if a % b > T::zero() {
+        a / b + T::one()
+    } else {
+        a / b
+    }
 }
 
 // PRIME Functions
-- 
2.43.0


From ab9e55b6a03dbe44626b3009809f33f7f8748ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:04 +0000
Subject: [PATCH 18/19] fix: is_prime rejects some primes, for ex 366791

---
 src/utils.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index c717cf7..0fbcea4 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,5 +1,5 @@
 use num_bigint::BigUint;
-use num_bigint_dig::{prime::probably_prime, BigUint as BigUintDig, ModInverse};
+use num_bigint_dig::{BigUint as BigUintDig, ModInverse};
 use num_traits::{FromPrimitive, One, PrimInt, ToPrimitive, Zero};
 use rand::{CryptoRng, RngCore};
 use rand_distr::{Distribution, Uniform};
@@ -112,8 +112,42 @@ pub fn div_ceil<T: PrimInt>(a: T, b: T) -> T {
 // Ref: https://github.com/tlepoint/fhe.rs/blob/a0287ba3842fcf19b45fd380c56ba7b5e52a387b/crates/fhe-util/src/lib.rs#L0-L1
 
 /// Returns whether the modulus p is prime; this function is 100% accurate.
+///
+/// Miller-Rabin with the first 12 primes as bases is deterministic for any
+/// 64 bit integer. (`num_bigint_dig::prime::probably_prime` rejects primes, for
+/// ex 366791, for which its Lucas test needs more than 37 attempts).
 pub fn is_prime(p: u64) -> bool {
-    probably_prime(&BigUintDig::from(p), 0)
+    const BASES: [u64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
+
+    if p < 2 {
+        return false;
+    }
+    for b in BASES {
+        if p % b == 0 {
+            return p == b;
+        }
+    }
+
+    let mul = |a: u64, b: u64| ((a as u128 * b as u128) % p as u128) as u64;
+    let r = (p - 1).trailing_zeros();
+    let d = (p - 1) >> r;
+    BASES.iter().all(|b| {
+        // b^d
+        let mut x = 1;
+        for i in (0..64).rev() {
+            x = mul(x, x);
+            if (d >> i) & 1 == 1 {
+                x = mul(x, *b);
+            }
+        }
+        // b^d = 1 or b^(2^i * d) = -1 for some i < r
+        let mut passes = x == 1;
+        for _ in 0..r {
+            passes |= x == p - 1;
+            x = mul(x, x);
+        }
+        passes
+    })
 }
 
 /// Generate a `num_bits`-bit prime, congruent to 1 mod `modulo`, strictly
-- 
2.43.0


From f4fe6f7d04e800c4ffc2e8b68c4583fd120aee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:51 +0000
Subject: [PATCH 19/19] fix: keep the carry of v * theta_gamma when scaling
 from more than 8 moduli

---
 src/rns.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rns.rs b/src/rns.rs
index 771a6b4..6481577 100644
--- a/src/rns.rs
+++ b/src/rns.rs
@@ -363,20 +363,20 @@ impl RnsScaler {
             let vt_hi_hi = ((v >> 64) as u128) * (self.theta_gamma_hi as u128);
             let vt_mi =
                 (vt_lo_lo >> 64) + ((vt_lo_hi as u64) as u128) + ((vt_hi_lo as u64) as u128);
-            let vt_hi = (vt_lo_hi >> 64) + (vt_mi >> 64) + ((vt_hi_hi as u64) as u128);
+            let vt_hi = (vt_lo_hi >> 64) + (vt_hi_lo >> 64) + (vt_mi >> 64) + vt_hi_hi;
             if self.theta_gamma_sign {
                 sum_theta_omega.wrapping_add_assign(U256::from([
                     vt_lo_lo as u64,
                     vt_mi as u64,
                     vt_hi as u64,
-                    0,
+                    (vt_hi >> 64) as u64,
                 ]))
             } else {
                 sum_theta_omega.wrapping_sub_assign(U256::from([
                     vt_lo_lo as u64,
                     vt_mi as u64,
                     vt_hi as u64,
-                    0,
+                    (vt_hi >> 64) as u64,
                 ]))
             }
 
-- 
2.43.0

