From 9822ac37dd81a6615bc817333988f1a904f3282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 01/11] fix: build the 8-level interpolated codebook from its
 own endpoints

compress_bc3 filled entries 0 and 1 of the 7-step codebook with the
endpoints of the 5-step one, so pixels were matched against values the
block does not contain once it is written with min7/max7 (e.g. a BC4
block holding 0 and 40 decoded 40 as 0).
---
 lib/src/alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/alpha.rs b/lib/src/alpha.rs
index d5cde06..c53e3d6 100644
--- a/lib/src/alpha.rs
+++ b/lib/src/alpha.rs
@@ -235,8 +235,8 @@ pub fn compress_bc3(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, block: &mut
 
     // set up the 7-alpha codebook
     let mut codes7 = [0u8; 8];
-    codes7[0] = min5;
-    codes7[1] = max5;
+    codes7[0] = min7;
+    codes7[1] = max7;
     for i in 1..7i32 {
         codes7[1 + i as usize] = (((7 - i) * i32::from(min7) + i * i32::from(max7)) / 7) as u8;
     }
-- 
2.43.0


From 2fd4f1e589520cd2a30e611c18ac22171a043046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 02/11] fix: accept output buffers larger than the compressed
 image

compress() documents that output needs at least compressed_size() bytes,
but walked the whole buffer: it wrote blocks past the compressed image and
panicked when the surplus was not a multiple of the block size.
---
 lib/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index ea15d64..37952f6 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -292,7 +292,11 @@ impl Format {
         params: Params,
         output: &mut [u8],
     ) {
-        assert!(output.len() >= self.compressed_size(width, height));
+        let compressed_size = self.compressed_size(width, height);
+        assert!(output.len() >= compressed_size);
+
+        // leave any surplus space in the output buffer alone
+        let output = &mut output[..compressed_size];
 
         let block_size = self.block_size();
         let blocks_wide = num_blocks(width);
-- 
2.43.0


From eebf51a51b757343ec82253dd7705cdbae5d2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 03/11] fix: accept output buffers larger than the decompressed
 image

decompress() treated surplus output space as further rows of blocks and
panicked reading past the end of the compressed data.
---
 lib/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 37952f6..dc15ce8 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -130,8 +130,9 @@ impl Format {
         #[cfg(not(feature = "rayon"))]
         let output_rows = output.chunks_mut(width * 4 * 4);
 
-        // loop over blocks
-        output_rows.enumerate().for_each(|(y, output_row)| {
+        // loop over blocks, leaving any surplus space in the output buffer alone
+        let output_rows = output_rows.enumerate().take(num_blocks(height));
+        output_rows.for_each(|(y, output_row)| {
             for x in 0..blocks_wide {
                 // decompress the block
                 let bidx = (x + y * blocks_wide) * block_size;
-- 
2.43.0


From 6c572bf4d0381820a4bb32a8b5654ce31fb5b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 04/11] fix: do not panic on images of width zero

compressed_size() reports 0 bytes for them, but compress() and decompress()
panicked because they split the output into chunks of size zero.
---
 lib/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index dc15ce8..4dcebae 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -122,6 +122,11 @@ impl Format {
     /// * `height` - The height of the source image
     /// * `output` - Space to store the decompressed image
     pub fn decompress(self, data: &[u8], width: usize, height: usize, output: &mut [u8]) {
+        // an image without pixels has no blocks
+        if width == 0 || height == 0 {
+            return;
+        }
+
         let blocks_wide = num_blocks(width);
         let block_size = self.block_size();
 
@@ -296,6 +301,11 @@ impl Format {
         let compressed_size = self.compressed_size(width, height);
         assert!(output.len() >= compressed_size);
 
+        // an image without pixels has no blocks
+        if compressed_size == 0 {
+            return;
+        }
+
         // leave any surplus space in the output buffer alone
         let output = &mut output[..compressed_size];
 
-- 
2.43.0


From 9b846ea8c2f0334f442d47ec41e1681dd5af2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 05/11] fix: find the principal axis when it is orthogonal to
 grey

The power iteration starts from (1, 1, 1). When all variance of a block is
orthogonal to that (e.g. pure red next to pure blue) the first product is
zero, the axis becomes NaN and every algorithm loses all colours but one:
a red and blue checkerboard was compressed to solid red.
---
 lib/src/math.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/src/math.rs b/lib/src/math.rs
index 1012f8f..91259d6 100644
--- a/lib/src/math.rs
+++ b/lib/src/math.rs
@@ -80,6 +80,20 @@ impl Sym3x3 {
         let row2 = Vec4::new(self.x[2], self.x[4], self.x[5], 0.0);
         let mut v = Vec4::new(1.0, 1.0, 1.0, 1.0);
 
+        // Start from the grey axis, unless the matrix maps it to zero because all the variance
+        // is orthogonal to it. The dominant row can't vanish for a nonzero matrix.
+        let w = row0 + row1 + row2;
+        let trace = self.x[0] + self.x[3] + self.x[5];
+        if w.x().max(w.y().max(w.z())) <= f32::EPSILON * trace {
+            v = if self.x[0] >= self.x[3] && self.x[0] >= self.x[5] {
+                row0
+            } else if self.x[3] >= self.x[5] {
+                row1
+            } else {
+                row2
+            };
+        }
+
         for _ in 0..POWER_ITERATION_COUNT {
             // matrix multiplication
             let w = row0 * v.splat_x();
-- 
2.43.0


From 757cea59c36ffe2a5dbf44c8854afff21f4d1ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 06/11] fix: report errors that occur while finishing a PNG
 file

The end of the file was written and the buffer flushed while dropping the
writer, which ignores errors: 'decompress -o /dev/full' reported success.
---
 cli/src/image/png.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/src/image/png.rs b/cli/src/image/png.rs
index f7e5c3d..e45632d 100644
--- a/cli/src/image/png.rs
+++ b/cli/src/image/png.rs
@@ -79,4 +79,5 @@ pub fn write(path: &Path, width: u32, height: u32, data: &[u8]) {
     let mut writer = encoder.write_header().unwrap();
 
     writer.write_image_data(data).unwrap();
+    writer.finish().unwrap();
 }
-- 
2.43.0


From 071e53ec925281b494743024fc767488770b0354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 07/11] fix: reject DDS files with invalid dimensions before
 writing output

A DDS header with a height of zero, or with dimensions whose pixel count
overflows, was only noticed by the PNG encoder, after an existing output
file had already been truncated.
---
 cli/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 5f82454..c7197e8 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -188,7 +188,12 @@ fn decompress_file(outfile: Option<PathBuf>, infile: &Path) {
 
     let width = dds.header.width as usize;
     let height = dds.header.height as usize;
-    let mut decompressed = vec![0u8; 4 * width * height];
+    let size = width
+        .checked_mul(height)
+        .and_then(|pixels| pixels.checked_mul(4))
+        .filter(|&size| size > 0)
+        .expect("Invalid image dimensions");
+    let mut decompressed = vec![0u8; size];
 
     format.decompress(&dds.data, width, height, &mut decompressed);
 
-- 
2.43.0


From b0694b29f0331c9eea7d63bf56f825a40c4c3375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 08/11] Add row observation hooks behind the verif-hooks
 feature

---
 lib/Cargo.toml         |  4 ++++
 lib/src/lib.rs         | 10 ++++++++++
 lib/src/verif_hooks.rs | 21 +++++++++++++++++++++
 3 files changed, 35 insertions(+)
 create mode 100644 lib/src/verif_hooks.rs

diff --git a/lib/Cargo.toml b/lib/Cargo.toml
index 89e3b8d..50004fb 100644
--- a/lib/Cargo.toml
+++ b/lib/Cargo.toml
@@ -16,3 +16,7 @@ travis-ci = {repository = "jansol/texpresso"}
 [dependencies]
 libm = "0.2"
 rayon = {version = "1", optional = true}
+
+[features]
+# Instrumentation for runtime verification, off by default and not part of the public API
+verif-hooks = []
diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 4dcebae..6cd8c78 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -30,6 +30,10 @@ mod colourfit;
 mod colourset;
 mod math;
 
+#[cfg(feature = "verif-hooks")]
+#[doc(hidden)]
+pub mod verif_hooks;
+
 use crate::colourfit::{ClusterFit, ColourFit, RangeFit, SingleColourFit};
 use crate::colourset::ColourSet;
 #[cfg(feature = "rayon")]
@@ -138,6 +142,9 @@ impl Format {
         // loop over blocks, leaving any surplus space in the output buffer alone
         let output_rows = output_rows.enumerate().take(num_blocks(height));
         output_rows.for_each(|(y, output_row)| {
+            #[cfg(feature = "verif-hooks")]
+            verif_hooks::emit("decompress", y);
+
             for x in 0..blocks_wide {
                 // decompress the block
                 let bidx = (x + y * blocks_wide) * block_size;
@@ -318,6 +325,9 @@ impl Format {
         let output_rows = output.chunks_mut(blocks_wide * block_size);
 
         output_rows.enumerate().for_each(|(y, output_row)| {
+            #[cfg(feature = "verif-hooks")]
+            verif_hooks::emit("compress", y);
+
             let mut source_rgba = [[0u8; 4]; 16];
             let output_blocks = output_row.chunks_mut(block_size);
 
diff --git a/lib/src/verif_hooks.rs b/lib/src/verif_hooks.rs
new file mode 100644
index 0000000..74f5580
--- /dev/null
+++ b/lib/src/verif_hooks.rs
@@ -0,0 +1,21 @@
+//! Observation and delay points for runtime verification (feature `verif-hooks`, off by default).
+
+extern crate std;
+
+use std::sync::OnceLock;
+
+/// Called with the operation and the index of the row of blocks about to be processed
+pub type Hook = fn(operation: &'static str, row: usize);
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Installs the hook, once per process
+pub fn install(hook: Hook) {
+    let _ = HOOK.set(hook);
+}
+
+pub(crate) fn emit(operation: &'static str, row: usize) {
+    if let Some(hook) = HOOK.get() {
+        hook(operation, row);
+    }
+}
-- 
2.43.0


From 9ff769debd7d8dcc13037cf29198b99323dc25ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 09/11] fix: accept format names in upper case, as the README
 writes them

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index c7197e8..e1b0a10 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -60,7 +60,7 @@ enum Opt {
         infile: PathBuf,
 
         /// Compression format
-        #[arg(short = 'f', long = "format")]
+        #[arg(short = 'f', long = "format", ignore_case = true)]
         format: CliFormat,
 
         /// Compressor profile (speed, balanced, quality).
-- 
2.43.0


From 940fb06f509af357f5d611a9b113f56eb816ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 10/11] fix: reject truncated DDS files before decompressing

A file shorter than its header promises made every row beyond its end
panic on its own, which with huge dimensions meant gigabytes of panic
messages and a process that practically never ended.
---
 cli/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index e1b0a10..452219a 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -193,9 +193,13 @@ fn decompress_file(outfile: Option<PathBuf>, infile: &Path) {
         .and_then(|pixels| pixels.checked_mul(4))
         .filter(|&size| size > 0)
         .expect("Invalid image dimensions");
+    let data = dds
+        .data
+        .get(..format.compressed_size(width, height))
+        .expect("DDS file is truncated");
     let mut decompressed = vec![0u8; size];
 
-    format.decompress(&dds.data, width, height, &mut decompressed);
+    format.decompress(data, width, height, &mut decompressed);
 
     image::png::write(&outfile, width as u32, height as u32, &decompressed);
 }
-- 
2.43.0


From c7ee616828c520775f0d7da7a65583b368895ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 11/11] fix: count the blocks of any image, and refuse sizes
 whose compressed size overflows

---
 lib/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 6cd8c78..81c05d9 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -105,7 +105,7 @@ impl Default for Params {
 
 /// Returns number of blocks needed for an image of given dimension
 pub fn num_blocks(size: usize) -> usize {
-    (size + 3) / 4
+    size / 4 + usize::from(size % 4 != 0)
 }
 
 /// BCn formats are laid out in 8-byte blocks of the following types:
@@ -185,10 +185,15 @@ impl Format {
     ///
     /// * `width`  - Width of the uncompressed image
     /// * `height` - Height of the uncompressed image
+    ///
+    /// # Panics
+    /// If the compressed image would not fit into the address space
     pub fn compressed_size(self, width: usize, height: usize) -> usize {
         // Number of blocks required for image of given dimensions
-        let blocks = num_blocks(width) * num_blocks(height);
-        blocks * self.block_size()
+        num_blocks(width)
+            .checked_mul(num_blocks(height))
+            .and_then(|blocks| blocks.checked_mul(self.block_size()))
+            .expect("compressed image exceeds the address space")
     }
 
     /// Compresses a 4x4 block of pixels, masking out some pixels e.g. for padding the
-- 
2.43.0

