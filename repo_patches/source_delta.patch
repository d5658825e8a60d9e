From 7a4032fee56b1787260f48e25cc0bd4eb3d8b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 1/3] fix: leave output space beyond the image untouched

compress and decompress walked the whole output slice, so a longer output
buffer than required was overwritten past the image (compress) or made the
block lookup run out of bounds (decompress); an image with a zero dimension
panicked on a zero chunk size.
---
 lib/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index ea15d64..bb4b7a2 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -125,6 +125,13 @@ impl Format {
         let blocks_wide = num_blocks(width);
         let block_size = self.block_size();
 
+        // ignore any space after the end of the decompressed image
+        let image_size = output.len().min(4 * width * height);
+        if image_size == 0 {
+            return;
+        }
+        let output = &mut output[..image_size];
+
         #[cfg(feature = "rayon")]
         let output_rows = output.par_chunks_mut(width * 4 * 4);
         #[cfg(not(feature = "rayon"))]
@@ -292,7 +299,14 @@ impl Format {
         params: Params,
         output: &mut [u8],
     ) {
-        assert!(output.len() >= self.compressed_size(width, height));
+        let compressed_size = self.compressed_size(width, height);
+        assert!(output.len() >= compressed_size);
+
+        // ignore any space after the end of the compressed image
+        if compressed_size == 0 {
+            return;
+        }
+        let output = &mut output[..compressed_size];
 
         let block_size = self.block_size();
         let blocks_wide = num_blocks(width);
-- 
2.43.0


From 6b53a2388a05a0a1889bc779b7edb2070a83478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:56 +0000
Subject: [PATCH 2/3] fix: build the 7-step alpha codebook from its own
 endpoints

The fitted codebook used the 5-step endpoints for its first two entries while
the block stores the 7-step ones, so pixels matched to them decoded to a
different value than the one the error was computed for.
---
 lib/src/alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/alpha.rs b/lib/src/alpha.rs
index d5cde06..c53e3d6 100644
--- a/lib/src/alpha.rs
+++ b/lib/src/alpha.rs
@@ -235,8 +235,8 @@ pub fn compress_bc3(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, block: &mut
 
     // set up the 7-alpha codebook
     let mut codes7 = [0u8; 8];
-    codes7[0] = min5;
-    codes7[1] = max5;
+    codes7[0] = min7;
+    codes7[1] = max7;
     for i in 1..7i32 {
         codes7[1 + i as usize] = (((7 - i) * i32::from(min7) + i * i32::from(max7)) / 7) as u8;
     }
-- 
2.43.0


From 95cc18419c4d003d6777192f6251e9b285c28b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 3/3] fix: report errors when finishing the PNG output

Dropping png::Writer and BufWriter swallows errors of the last writes, so
that decompress exits successfully with a truncated file on a full disk.
---
 cli/src/image/png.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/src/image/png.rs b/cli/src/image/png.rs
index f7e5c3d..722b277 100644
--- a/cli/src/image/png.rs
+++ b/cli/src/image/png.rs
@@ -79,4 +79,6 @@ pub fn write(path: &Path, width: u32, height: u32, data: &[u8]) {
     let mut writer = encoder.write_header().unwrap();
 
     writer.write_image_data(data).unwrap();
+    // Write the end of the file and flush it: dropping the writers would ignore errors.
+    writer.finish().unwrap();
 }
-- 
2.43.0

