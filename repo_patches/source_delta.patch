From 888931bb02564f2b73542251ae0a2fcc9424f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 1/5] fix: compile without the std feature

The std::error::Error impl was not gated, so the crate documented as
no_std compatible did not build with --no-default-features.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 57cc5aa..fb6251e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,4 +77,5 @@ impl fmt::Display for HyperLogLogError {
     }
 }
 
+#[cfg(feature = "std")]
 impl std::error::Error for HyperLogLogError {}
-- 
2.43.0


From 7f117fdf818420b74320e9e4a0ce6f39fbd32970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 2/5] fix: linear counting of the sparse representation uses
 2^25 buckets

The sparse representation keeps a 25-bit prefix of the hash (p' = 25), but
linear counting assumed 2^24 buckets and so overestimated systematically
(+149 at 100000 distinct values, ten times the standard error).
---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 9264ced..1f40d8e 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -90,7 +90,7 @@ where
         let count = Self::register_count(precision);
         let counts = (
             count,
-            Self::register_count(Self::PRIME_PRECISION - 1),
+            Self::register_count(Self::PRIME_PRECISION),
             RegistersPlus::size_in_bytes(count),
         );
 
-- 
2.43.0


From 90817c6a0c2dcf32ca31266dd62aa3c5aa8f5138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 3/5] fix: linear counting threshold for precision 5

The value published for HyperLogLog++ is 20 (10 is the one for precision
4); with 10 the error between 10 and 20 distinct values is needlessly high.
---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 1f40d8e..4391e20 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -421,7 +421,7 @@ where
     fn threshold(precision: u8) -> f64 {
         match precision {
             4 => 10.0,
-            5 => 10.0,
+            5 => 20.0,
             6 => 40.0,
             7 => 80.0,
             8 => 220.0,
-- 
2.43.0


From e0970b0594d6148c5e71ffce1eac8589c765b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 4/5] fix: HyperLogLogPF::count() stays finite when the hash
 space is exhausted

A raw estimate of at least 2^32 made the large range correction return NaN
or infinity.
---
 src/hyperloglog.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 6bda970..320ea11 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -190,7 +190,10 @@ where
             raw = Self::linear_count(self.count, zeros);
         } else if raw > two32 / 30.0 {
             // Apply large range correction.
-            raw = -1.0 * two32 * ln(1.0 - raw / two32);
+            //
+            // It diverges as the raw estimate approaches the size of the
+            // 32-bit hash space, bound it to keep the result finite.
+            raw = -1.0 * two32 * ln(1.0 - raw.min(two32 - 1.0) / two32);
         }
 
         raw
-- 
2.43.0


From ff1ba6aa653748445508626238b6421931baeb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 5/5] fix: the square of the register count does not overflow
 on 32-bit targets

From precision 16 on it is 2^32 or more: with a 32-bit usize, estimates were 0,
or a panic with overflow checks on.
---
 src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 514a40d..420bfbb 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -158,7 +158,7 @@ pub trait HyperLogLogCommon {
             zeros += if value == 0 { 1 } else { 0 };
         }
 
-        raw = Self::alpha(count) * (count * count) as f64 / raw;
+        raw = Self::alpha(count) * (count as f64 * count as f64) / raw;
 
         (raw, zeros)
     }
@@ -172,7 +172,7 @@ pub trait HyperLogLogCommon {
     {
         let raw: f64 = registers.map(|val| 1.0 / (1u64 << val) as f64).sum();
 
-        Self::alpha(count) * (count * count) as f64 / raw
+        Self::alpha(count) * (count as f64 * count as f64) / raw
     }
 
     #[cfg(feature = "const-loop")]
@@ -184,7 +184,7 @@ pub trait HyperLogLogCommon {
     {
         let raw: f64 = registers.map(|val| RAW[val as usize]).sum();
 
-        Self::alpha(count) * (count * count) as f64 / raw
+        Self::alpha(count) * (count as f64 * count as f64) / raw
     }
 
     #[inline] // Estimates the count of distinct elements using linear
-- 
2.43.0

