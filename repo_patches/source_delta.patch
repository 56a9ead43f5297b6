From 99fc2fd4459f19ca79590d8068c66de6f182ce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 1/2] fix: reject tables beyond the capacity in the parallel
 assignment too

The sequential assignment asserts that the table fits; the parallel one
silently dropped the rows that do not.
---
 poseidon-circuit/src/hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index 0f6cae6..03c9be9 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -777,6 +777,8 @@ where
                 |mut region| self.fill_hash_tbl_custom(&mut region),
             )?;
             let data = self.data;
+            // rows beyond the capacity would be dropped silently
+            assert!(self.calcs >= data.inputs.len() && self.calcs >= data.controls.len());
 
             let inputs_i = data
                 .inputs
-- 
2.43.0


From fc6c5d21fafc27714fb3dfaad48a2ebbb362041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 2/2] fix: count the rows of the chip in use in
 minimum_row_require

Without the feature `short` this crate uses the 38-row chip, while
`poseidon-base` keeps `short` by default and announces 9 rows.
---
 poseidon-circuit/src/hash.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/poseidon-circuit/src/hash.rs b/poseidon-circuit/src/hash.rs
index 03c9be9..84dd382 100644
--- a/poseidon-circuit/src/hash.rs
+++ b/poseidon-circuit/src/hash.rs
@@ -325,7 +325,16 @@ impl<F: Hashable> PoseidonHashTable<F> {
     /// return minimum required the circuit rows\
     /// (size of hashes * rows required by each hash)
     pub fn minimum_row_require(&self) -> usize {
-        self.inputs.len() * F::hash_block_size()
+        let block_size = F::hash_block_size();
+        // The chip follows the `short` feature of this crate, the block size the one of
+        // `poseidon-base`, which may be enabled alone: count the rows of the chip in use.
+        #[cfg(not(feature = "short"))]
+        let block_size = {
+            use poseidon_base::primitives::Spec;
+            let rounds = F::SpecType::full_rounds() + (F::SpecType::partial_rounds() + 1) / 2;
+            block_size.max(1 + rounds)
+        };
+        self.inputs.len() * block_size
     }
 }
 
-- 
2.43.0

