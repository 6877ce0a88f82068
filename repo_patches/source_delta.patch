From 54c6dc81bd3d22ab4d1ebfce226773ba27758625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 1/5] fix: chain_enc and chain_dec on RV32

The RISC-V pre_enc/pre_dec add the round key after the round, the Arm ones before it.
The chaining built on the latter skipped the initial key addition on RV32.
---
 src/lib.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7eaf1fe..b2227b0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -331,20 +331,14 @@ fn enc_round_keys<const N: usize>(dec_round_keys: &[AesBlock; N]) -> [AesBlock;
 }
 
 cfg_if! {
-    if #[cfg(any(
-        all(
+    if #[cfg(all(
             any(
                 target_arch = "aarch64",
                 target_arch = "arm64ec",
                 all(feature = "nightly", target_arch = "arm", target_feature = "v8")
             ),
             target_feature = "aes",
-        ), all(
-                feature = "nightly",
-                target_arch = "riscv32",
-                target_feature = "zkne",
-                target_feature = "zknd"
-        )))] {
+        ))] {
         macro_rules! impl_pre_encdec {
             ($($name:ident),*) => {$(
                 impl $name {
-- 
2.43.0


From bfab9c15d48e097c269388e57abd0aa5b496c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 2/5] fix: build on big-endian AArch64 with the aes target
 feature

The backend selection requires little-endian for the Arm backend; the chaining did not.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index b2227b0..9dca277 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,6 +338,7 @@ cfg_if! {
                 all(feature = "nightly", target_arch = "arm", target_feature = "v8")
             ),
             target_feature = "aes",
+            target_endian = "little"
         ))] {
         macro_rules! impl_pre_encdec {
             ($($name:ident),*) => {$(
-- 
2.43.0


From 632ae37a89781f804fe3487b490aa69de2003aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 3/5] fix: InvShiftRows in the RV32 decryption rounds

dec and dec_last took the bytes of a column from the columns ShiftRows uses; so did imc and mc through them.
---
 src/aes_riscv32.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index fc26a38..4672e19 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -37,6 +37,13 @@ macro_rules! outer {
             inner($msg.3, $msg.0, $msg.1, $msg.2, $rk.3),
         )
     }};
+    // the rows are rotated the other way when decrypting
+    (inv $name:ident, $msg:ident, $rk:ident) => {{
+        let msg = AesBlock($msg.0, $msg.3, $msg.2, $msg.1);
+        let rk = AesBlock($rk.0, $rk.3, $rk.2, $rk.1);
+        let out = outer!($name, msg, rk);
+        AesBlock(out.0, out.3, out.2, out.1)
+    }};
 }
 
 impl From<[u8; 16]> for AesBlock {
@@ -146,7 +153,7 @@ impl AesBlock {
 
     #[inline(always)]
     pub(crate) fn pre_dec(self, round_key: Self) -> Self {
-        outer!(aes32dsmi, self, round_key)
+        outer!(inv aes32dsmi, self, round_key)
     }
 
     /// Performs one round of AES decryption function (`InvShiftRows`->`InvSubBytes`->`InvMixColumn`s->`AddRoundKey`)
@@ -157,7 +164,7 @@ impl AesBlock {
 
     #[inline(always)]
     fn pre_dec_last(self, round_key: Self) -> Self {
-        outer!(aes32dsi, self, round_key)
+        outer!(inv aes32dsi, self, round_key)
     }
 
     /// Performs one round of AES decryption function without `InvMixColumn`s (`InvShiftRows`->`InvSubBytes`->`AddRoundKey`)
-- 
2.43.0


From d9207bebf0a753dae881fb6458db912a70496a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 4/5] fix: RotWord in the RV32 key schedule

keygen_128, keygen_192 and the last step of keygen_256 did not rotate the word.
---
 src/aes_riscv32.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aes_riscv32.rs b/src/aes_riscv32.rs
index 4672e19..2c77d83 100644
--- a/src/aes_riscv32.rs
+++ b/src/aes_riscv32.rs
@@ -211,7 +211,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3]);
+        columns[i + 4] = sub_word(columns[i + 0] ^ RCON[i / 4], columns[i + 3].rotate_right(8));
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -231,7 +231,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5]);
+        columns[i + 6] = sub_word(columns[i + 0] ^ RCON[i / 6], columns[i + 5].rotate_right(8));
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -239,7 +239,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47]);
+    columns[48] = sub_word(columns[42] ^ RCON[7], columns[47].rotate_right(8));
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -268,7 +268,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55]);
+    columns[56] = sub_word(columns[48] ^ RCON[6], columns[55].rotate_right(8));
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0


From 6320245cf08978709c5c8180c4fa1326960214a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 5/5] fix: constant-time key schedule on big-endian targets

RotWord and the round constants were applied in little-endian byte order to native-endian columns.
---
 src/aes_bitslice.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/aes_bitslice.rs b/src/aes_bitslice.rs
index 2dda97a..73f40f4 100644
--- a/src/aes_bitslice.rs
+++ b/src/aes_bitslice.rs
@@ -337,6 +337,12 @@ impl AesBlock {
 
 const RCON: [u32; 10] = [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x1b, 0x36];
 
+// columns are in native byte order
+#[inline(always)]
+const fn rot_word(x: u32) -> u32 {
+    x.to_le().rotate_right(8).to_le()
+}
+
 pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     let mut expanded_keys: [AesBlock; 11] = unsafe { mem::zeroed() };
     let columns = unsafe { slice::from_raw_parts_mut(expanded_keys.as_mut_ptr().cast(), 44) };
@@ -346,7 +352,7 @@ pub(super) fn keygen_128(key: [u8; 16]) -> [AesBlock; 11] {
     }
 
     for i in (0..40).step_by(4) {
-        columns[i + 4] = columns[i + 0] ^ sub_word(columns[i + 3]).rotate_right(8) ^ RCON[i / 4];
+        columns[i + 4] = columns[i + 0] ^ rot_word(sub_word(columns[i + 3])) ^ RCON[i / 4].to_le();
         columns[i + 5] = columns[i + 1] ^ columns[i + 4];
         columns[i + 6] = columns[i + 2] ^ columns[i + 5];
         columns[i + 7] = columns[i + 3] ^ columns[i + 6];
@@ -364,7 +370,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
     }
 
     for i in (0..42).step_by(6) {
-        columns[i + 6] = columns[i + 0] ^ sub_word(columns[i + 5]).rotate_right(8) ^ RCON[i / 6];
+        columns[i + 6] = columns[i + 0] ^ rot_word(sub_word(columns[i + 5])) ^ RCON[i / 6].to_le();
         columns[i + 7] = columns[i + 1] ^ columns[i + 6];
         columns[i + 8] = columns[i + 2] ^ columns[i + 7];
         columns[i + 9] = columns[i + 3] ^ columns[i + 8];
@@ -372,7 +378,7 @@ pub(super) fn keygen_192(key: [u8; 24]) -> [AesBlock; 13] {
         columns[i + 11] = columns[i + 5] ^ columns[i + 10];
     }
 
-    columns[48] = columns[42] ^ sub_word(columns[47]).rotate_right(8) ^ RCON[7];
+    columns[48] = columns[42] ^ rot_word(sub_word(columns[47])) ^ RCON[7].to_le();
     columns[49] = columns[43] ^ columns[48];
     columns[50] = columns[44] ^ columns[49];
     columns[51] = columns[45] ^ columns[50];
@@ -389,7 +395,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
     }
 
     for i in (0..48).step_by(8) {
-        columns[i + 8] = columns[i + 0] ^ sub_word(columns[i + 7]).rotate_right(8) ^ RCON[i / 8];
+        columns[i + 8] = columns[i + 0] ^ rot_word(sub_word(columns[i + 7])) ^ RCON[i / 8].to_le();
         columns[i + 9] = columns[i + 1] ^ columns[i + 8];
         columns[i + 10] = columns[i + 2] ^ columns[i + 9];
         columns[i + 11] = columns[i + 3] ^ columns[i + 10];
@@ -399,7 +405,7 @@ pub(super) fn keygen_256(key: [u8; 32]) -> [AesBlock; 15] {
         columns[i + 15] = columns[i + 7] ^ columns[i + 14];
     }
 
-    columns[56] = columns[48] ^ sub_word(columns[55]).rotate_right(8) ^ RCON[6];
+    columns[56] = columns[48] ^ rot_word(sub_word(columns[55])) ^ RCON[6].to_le();
     columns[57] = columns[49] ^ columns[56];
     columns[58] = columns[50] ^ columns[57];
     columns[59] = columns[51] ^ columns[58];
-- 
2.43.0

