From 3f0ce353b2ee310bd72ce2ddfdf90686a63cd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 1/4] fix: sum modulo-10 check digit weights in u32

The u8 sums overflowed on long odd-length ITF data: a panic in debug builds and a
wrong check digit in release builds.
---
 src/sym/helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sym/helpers.rs b/src/sym/helpers.rs
index 677ef57..11a8d7c 100644
--- a/src/sym/helpers.rs
+++ b/src/sym/helpers.rs
@@ -23,13 +23,13 @@ where
 
 /// Calculates the checksum digit using a modulo-10 weighting algorithm.
 pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
-    let mut odds = 0;
-    let mut evens = 0;
+    let mut odds: u32 = 0;
+    let mut evens: u32 = 0;
 
     for (i, d) in data.iter().enumerate() {
         match i % 2 {
-            1 => odds += *d,
-            _ => evens += *d,
+            1 => odds += u32::from(*d),
+            _ => evens += u32::from(*d),
         }
     }
 
@@ -41,7 +41,7 @@ pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
         evens *= 3;
     }
 
-    match 10 - ((odds + evens) % 10) {
+    match 10 - ((odds + evens) % 10) as u8 {
         10 => 0,
         n => n,
     }
-- 
2.43.0


From b72c13a2ff67e794376a7597bc9b9fcfe0e5517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 2/4] fix: keep the Code128 checksum reduced modulo 103

The i32 sum overflowed on long data: a panic in debug builds and a wrong checksum in
release builds.
---
 src/sym/code128.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index a1b0081..5b5b18c 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -345,13 +345,13 @@ impl Code128 {
 
     /// Calculates the checksum index using a modulo-103 algorithm.
     fn checksum_value(&self) -> u8 {
-        let sum: i32 = self
+        let sum = self
             .0
             .iter()
-            .zip(0..self.0.len() as i32)
-            .fold(0, |t, (u, i)| t + (u.index() as i32 * cmp::max(1, i)));
+            .enumerate()
+            .fold(0, |t, (i, u)| (t + u.index() * (cmp::max(1, i) % 103)) % 103);
 
-        (sum % 103) as u8
+        sum as u8
     }
 
     fn checksum_encoding(&self) -> Encoding {
-- 
2.43.0


From 5dc117b178cbaa6eb84d53ecb14f5d0184a716a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 3/4] fix: reject a Code128 digit pair split by another
 character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

In character-set C a FNC1 between the two digits of a pair was encoded before the pair,
so that "Ć" "1" FNC1 "2" produced the barcode of FNC1 "12".
---
 src/sym/code128.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index 5b5b18c..05584ca 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -330,6 +330,7 @@ impl Code128 {
                         carry = None;
                     }
                 },
+                _ if carry.is_some() => return Err(Error::Character),
                 _ => {
                     let u = char_set.lookup(&ch.to_string())?;
                     units.push(u);
-- 
2.43.0


From 69adade30e34f6e4b521973de847c7f69453b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 4/4] fix: do not truncate the data length before checking it

Data of 4 GiB plus an accepted length passed the length check.
---
 src/sym.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sym.rs b/src/sym.rs
index f1d3efa..f759a6a 100644
--- a/src/sym.rs
+++ b/src/sym.rs
@@ -38,9 +38,9 @@ trait Parse {
     fn parse(data: &str) -> Result<&str, Error> {
         let valid_chars = Self::valid_chars();
         let valid_len = Self::valid_len();
-        let data_len = data.len() as u32;
+        let data_len = data.len();
 
-        if data_len < valid_len.start || data_len > valid_len.end {
+        if data_len < valid_len.start as usize || data_len > valid_len.end as usize {
             return Err(Error::Length);
         }
 
-- 
2.43.0

