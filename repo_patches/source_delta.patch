From 2ae3f6e52a7ddde2f0abb9e65fe07c6d83c33934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 01/18] fix: decode exactly the coded blocks of non-interleaved
 scans

Scans with a single component code ceil(size/8) blocks of that component in
each direction. The decoder derived the count from the image size and the
padded MCU grid, which is wrong for components with a ratio such as 2:4, and
the u16 arithmetic overflowed for images taller or wider than 65528.
---
 src/decoder.rs | 16 +++-------------
 src/parser.rs  | 12 ++++++++++++
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index b8eb531..9c291e0 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -901,22 +901,12 @@ impl<R: Read> Decoder<R> {
         let (max_mcu_x, max_mcu_y) = if is_interleaved {
             (frame.mcu_size.width, frame.mcu_size.height)
         } else {
-            (
-                components[0].block_size.width,
-                components[0].block_size.height,
-            )
+            let blocks = frame.component_size_in_blocks(&components[0])?;
+            (blocks.width, blocks.height)
         };
 
         for mcu_y in 0..max_mcu_y {
-            if mcu_y * 8 >= frame.image_size.height {
-                break;
-            }
-
             for mcu_x in 0..max_mcu_x {
-                if mcu_x * 8 >= frame.image_size.width {
-                    break;
-                }
-
                 if self.restart_interval > 0 {
                     if mcus_left_until_restart == 0 {
                         match huffman.take_marker(&mut self.reader)? {
@@ -1022,7 +1012,7 @@ impl<R: Read> Decoder<R> {
                     // keep going; don't send it yet. We also need to ensure we don't skip over the last
                     // row(s) of the image.
                     if !is_interleaved
-                        && (mcu_y + 1) * 8 < frame.image_size.height
+                        && mcu_y + 1 < max_mcu_y
                         && (mcu_y + 1) % component.vertical_sampling_factor as u16 > 0
                     {
                         continue;
diff --git a/src/parser.rs b/src/parser.rs
index b17e7e9..6f01a2f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -131,6 +131,18 @@ impl FrameInfo {
 
         Ok(())
     }
+
+    /// The number of blocks, in each direction, that cover the samples of a component. This is the
+    /// number of blocks coded in a non-interleaved scan, which has no padding to whole MCUs.
+    pub(crate) fn component_size_in_blocks(&self, component: &Component) -> Result<Dimensions> {
+        let h_max = self.components.iter().map(|c| c.horizontal_sampling_factor).max().unwrap() as u32;
+        let v_max = self.components.iter().map(|c| c.vertical_sampling_factor).max().unwrap() as u32;
+
+        Ok(Dimensions {
+            width: ceil_div(self.image_size.width as u32 * component.horizontal_sampling_factor as u32, h_max * 8)?,
+            height: ceil_div(self.image_size.height as u32 * component.vertical_sampling_factor as u32, v_max * 8)?,
+        })
+    }
 }
 
 fn read_length<R: Read>(reader: &mut R, marker: Marker) -> Result<usize> {
-- 
2.43.0


From 22ef5ee161b648ee75d93e625fe1dd3b858c2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 02/18] fix: ColorTransform::None returns interleaved samples

The samples were written plane by plane into each output line, and the
line buffers, which may be longer than the line, were copied whole, which
panicked.
---
 src/decoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 9c291e0..e99d666 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1464,11 +1464,9 @@ fn color_convert_line_cmyk(data: &[Vec<u8>], output: &mut [u8]) {
 }
 
 fn color_no_convert(data: &[Vec<u8>], output: &mut [u8]) {
-    let mut output_iter = output.iter_mut();
-
-    for pixel in data {
-        for d in pixel {
-            *(output_iter.next().unwrap()) = *d;
+    for (x, pixel) in output.chunks_exact_mut(data.len()).enumerate() {
+        for (sample, component) in pixel.iter_mut().zip(data) {
+            *sample = component[x];
         }
     }
 }
-- 
2.43.0


From dfa65619f91262962806adf509a0967c0552634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 03/18] fix: store lossless planes by frame component

The planes of a lossless scan were stored by their position in the scan,
so images coded in several scans lost components.
---
 src/decoder.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index e99d666..8c5ec13 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -414,11 +414,7 @@ impl<R: Read> Decoder<R> {
                     if frame.coding_process == CodingProcess::Lossless {
                         let (marker, data) = self.decode_scan_lossless(&frame, &scan)?;
 
-                        for (i, plane) in data
-                            .into_iter()
-                            .enumerate()
-                            .filter(|(_, plane)| !plane.is_empty())
-                        {
+                        for (&i, plane) in scan.component_indices.iter().zip(data) {
                             planes_u16[i] = plane;
                         }
                         pending_marker = marker;
-- 
2.43.0


From 7db2f550e72ffb731570e95516ff3524d30d00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 04/18] fix: predict lossless samples before undoing the point
 transform

H.1.2.1: the prediction uses point transformed samples; only the output is
scaled back by the point transform.
---
 src/decoder/lossless.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index cd00476..213e711 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -111,7 +111,6 @@ impl<R: Read> Decoder<R> {
                 let diff = differences[i][0];
                 let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
                 let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                let result = result << scan.point_transform;
                 results[i][0] = result;
 
                 // calculate leftmost column, using top pixel as predictor
@@ -120,7 +119,6 @@ impl<R: Read> Decoder<R> {
                     let diff = differences[i][mcu_y * width];
                     let prediction = previous as i32;
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                    let result = result << scan.point_transform;
                     results[i][mcu_y * width] = result;
                     previous = result;
                 }
@@ -131,7 +129,6 @@ impl<R: Read> Decoder<R> {
                         let diff = differences[i][mcu_y * width + mcu_x];
                         let prediction = results[i][mcu_y * width + mcu_x - 1] as i32;
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        let result = result << scan.point_transform;
                         results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
@@ -170,12 +167,20 @@ impl<R: Read> Decoder<R> {
                                 && mcus_left_until_restart == self.restart_interval - 1,
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                        results[i][mcu_y * width + mcu_x] = result << scan.point_transform;
+                        results[i][mcu_y * width + mcu_x] = result;
                     }
                 }
             }
         }
 
+        // H.1.2.1
+        // Prediction works on point transformed samples, only the output is scaled back.
+        if scan.point_transform > 0 {
+            for sample in results.iter_mut().flatten() {
+                *sample <<= scan.point_transform;
+            }
+        }
+
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
             marker = self.read_marker().ok();
-- 
2.43.0


From 41fa4f350341eecfa2355d7750caf6861a2a1c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 05/18] fix: reset lossless prediction at every restart

H.1.2.1: prediction starts afresh with each restart interval. It was reset
at no restart (predictor 1), or at every sample of images whose last
interval happened to end with the image (other predictors).
---
 src/decoder/lossless.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 213e711..e395550 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -46,6 +46,12 @@ impl<R: Read> Decoder<R> {
         let width = frame.image_size.width as usize;
         let height = frame.image_size.height as usize;
 
+        // H.1.1, H.1.2.1
+        // Restart intervals consist of whole lines and prediction starts afresh with each.
+        let restart_interval = self.restart_interval as usize;
+        let starts_interval =
+            |y: usize| y == 0 || (restart_interval > 0 && y * width % restart_interval == 0);
+
         let mut differences = vec![Vec::with_capacity(npixel); ncomp];
         for _mcu_y in 0..height {
             for _mcu_x in 0..width {
@@ -107,17 +113,15 @@ impl<R: Read> Decoder<R> {
 
         if scan.predictor_selection == Predictor::Ra {
             for (i, _component) in components.iter().enumerate() {
-                // calculate the top left pixel
-                let diff = differences[i][0];
-                let prediction = 1 << (frame.precision - scan.point_transform - 1) as i32;
-                let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
-                results[i][0] = result;
-
                 // calculate leftmost column, using top pixel as predictor
-                let mut previous = result;
-                for mcu_y in 1..height {
+                let mut previous = 0;
+                for mcu_y in 0..height {
                     let diff = differences[i][mcu_y * width];
-                    let prediction = previous as i32;
+                    let prediction = if starts_interval(mcu_y) {
+                        1 << (frame.precision - scan.point_transform - 1) as i32
+                    } else {
+                        previous as i32
+                    };
                     let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                     results[i][mcu_y * width] = result;
                     previous = result;
@@ -162,9 +166,7 @@ impl<R: Read> Decoder<R> {
                             scan.point_transform,
                             frame.precision,
                             mcu_x,
-                            mcu_y,
-                            self.restart_interval > 0
-                                && mcus_left_until_restart == self.restart_interval - 1,
+                            starts_interval(mcu_y),
                         );
                         let result = ((prediction + diff) & 0xFFFF) as u16; // modulo 2^16
                         results[i][mcu_y * width + mcu_x] = result;
@@ -199,17 +201,16 @@ fn predict(
     point_transform: u8,
     input_precision: u8,
     ix: usize,
-    iy: usize,
-    restart: bool,
+    first_line: bool,
 ) -> i32 {
-    if (ix == 0 && iy == 0) || restart {
+    if ix == 0 && first_line {
         // start of first line or restart
         if input_precision > 1 + point_transform {
             1 << (input_precision - point_transform - 1)
         } else {
             0
         }
-    } else if iy == 0 {
+    } else if first_line {
         // rest of first line
         ra
     } else if ix == 0 {
-- 
2.43.0


From 8f654caecb27451809b75feba55b70fee935392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 06/18] fix: initial lossless prediction for a single remaining
 bit

H.1.2.1: the first prediction is 2^(P-Pt-1), which is 1 when the point
transform leaves one bit.
---
 src/decoder/lossless.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index e395550..0b70271 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -205,11 +205,7 @@ fn predict(
 ) -> i32 {
     if ix == 0 && first_line {
         // start of first line or restart
-        if input_precision > 1 + point_transform {
-            1 << (input_precision - point_transform - 1)
-        } else {
-            0
-        }
+        1 << (input_precision - point_transform - 1)
     } else if first_line {
         // rest of first line
         ra
-- 
2.43.0


From 3dc45de739329b6b5a849d2c4f8265e8ca39e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 07/18] fix: return lossless samples of less than 8 bits as one
 byte

The pixel format reported for them is L8, but two bytes were returned.
---
 src/decoder/lossless.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 0b70271..77055e9 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -252,7 +252,7 @@ pub fn compute_image_lossless(frame: &FrameInfo, mut data: Vec<Vec<u16>>) -> Res
 }
 
 fn convert_to_u8(frame: &FrameInfo, data: Vec<u16>) -> Vec<u8> {
-    if frame.precision == 8 {
+    if frame.precision <= 8 {
         data.iter().map(|x| *x as u8).collect()
     } else {
         // we output native endian, which is the standard for image-rs
-- 
2.43.0


From c97ac68c9b6bfe404f711cd8f24c30e4421eb656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:29 +0000
Subject: [PATCH 08/18] fix: do not pretend to scale lossless images

scale() returned and reported a reduced size, while the decoded buffer
still had the full size or was a wrong part of the image.
---
 src/decoder.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 8c5ec13..088fd61 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -278,13 +278,18 @@ impl<R: Read> Decoder<R> {
     pub fn scale(&mut self, requested_width: u16, requested_height: u16) -> Result<(u16, u16)> {
         self.read_info()?;
         let frame = self.frame.as_mut().unwrap();
-        let idct_size = crate::idct::choose_idct_size(
-            frame.image_size,
-            Dimensions {
-                width: requested_width,
-                height: requested_height,
-            },
-        );
+        let idct_size = if frame.coding_process == CodingProcess::Lossless {
+            // There is no DCT that could scale the image.
+            8
+        } else {
+            crate::idct::choose_idct_size(
+                frame.image_size,
+                Dimensions {
+                    width: requested_width,
+                    height: requested_height,
+                },
+            )
+        };
         frame.update_idct_size(idct_size)?;
         Ok((frame.output_size.width, frame.output_size.height))
     }
-- 
2.43.0


From 7c6270dd2426e686c1cf8239f61e40b7d5e4294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:29 +0000
Subject: [PATCH 09/18] fix: count two bytes per sample in the buffer size
 limit

The limit did not count the second byte of samples of more than 8 bits.
---
 src/decoder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 088fd61..9d9d2a5 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -629,10 +629,18 @@ impl<R: Read> Decoder<R> {
 
         let frame = self.frame.as_ref().unwrap();
 
+        let sample_bytes =
+            if frame.coding_process == CodingProcess::Lossless && frame.precision > 8 {
+                2
+            } else {
+                1
+            };
+
         if frame
             .components
             .len()
-            .checked_mul(frame.output_size.width.into())
+            .checked_mul(sample_bytes)
+            .and_then(|m| m.checked_mul(frame.output_size.width.into()))
             .and_then(|m| m.checked_mul(frame.output_size.height.into()))
             .map_or(true, |m| self.decoding_buffer_size_limit < m)
         {
-- 
2.43.0


From 5fdb2882d0e1e925d42cc0c04f0c856120a010b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:29 +0000
Subject: [PATCH 10/18] fix: report read errors after a trailing restart marker

The error was dropped, and decoding went on as if nothing had been read.
---
 src/decoder.rs          | 2 +-
 src/decoder/lossless.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 9d9d2a5..53feffe 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -1061,7 +1061,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
 
         if finished.iter().any(|&c| c) {
diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index 77055e9..f218c30 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -185,7 +185,7 @@ impl<R: Read> Decoder<R> {
 
         let mut marker = huffman.take_marker(&mut self.reader)?;
         while let Some(Marker::RST(_)) = marker {
-            marker = self.read_marker().ok();
+            marker = Some(self.read_marker()?);
         }
         Ok((marker, results))
     }
-- 
2.43.0


From 804e9aabc0d526c9aa00c92767ad0bdcecca9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:29 +0000
Subject: [PATCH 11/18] fix: accept ICC profiles of 255 chunks

255 is a valid chunk count and the largest sequence number.
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 53feffe..1f4f31f 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -211,7 +211,7 @@ impl<R: Read> Decoder<R> {
     pub fn icc_profile(&self) -> Option<Vec<u8>> {
         let mut marker_present: [Option<&IccChunk>; 256] = [None; 256];
         let num_markers = self.icc_markers.len();
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check the validity of the markers
-- 
2.43.0


From 8a03ecf444597dde24ded2db2c8c48c485a8be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 12/18] fix: refuse lossless images with subsampling

Their samples were decoded as if not subsampled, which returned garbage or
failed with unrelated errors.
---
 src/decoder/lossless.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decoder/lossless.rs b/src/decoder/lossless.rs
index f218c30..3d6d447 100644
--- a/src/decoder/lossless.rs
+++ b/src/decoder/lossless.rs
@@ -1,5 +1,5 @@
 use crate::decoder::{Decoder, MAX_COMPONENTS};
-use crate::error::{Error, Result};
+use crate::error::{Error, Result, UnsupportedFeature};
 use crate::huffman::HuffmanDecoder;
 use crate::marker::Marker;
 use crate::parser::Predictor;
@@ -24,6 +24,16 @@ impl<R: Read> Decoder<R> {
             .map(|&i| frame.components[i].clone())
             .collect();
 
+        // Samples are only decoded in raster order, one of each component at a time.
+        if frame.components.iter().any(|c| c.size != frame.image_size)
+            || (ncomp > 1
+                && components
+                    .iter()
+                    .any(|c| c.horizontal_sampling_factor != 1 || c.vertical_sampling_factor != 1))
+        {
+            return Err(Error::Unsupported(UnsupportedFeature::SubsamplingRatio));
+        }
+
         // Verify that all required huffman tables has been set.
         if scan
             .dc_table_indices
-- 
2.43.0


From e01cb7a32e7bb8ba9c2c529185814543e6432afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:42 +0000
Subject: [PATCH 13/18] fix: accept every approximation depth in progressive
 scans

The limit on the point transform of lossless scans was applied to the
successive approximation parameter of progressive scans as well.
---
 src/parser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6f01a2f..a4d1ae4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -417,12 +417,6 @@ pub fn parse_sos<R: Read>(reader: &mut R, frame: &FrameInfo) -> Result<ScanInfo>
     let predictor_selection;
     let point_transform = successive_approximation_low;
 
-    if point_transform >= frame.precision {
-        return Err(Error::Format(
-            "invalid point transform, must be less than the frame precision".to_owned(),
-        ));
-    }
-
     if frame.coding_process == CodingProcess::DctProgressive {
         predictor_selection = Predictor::NoPrediction;
         if spectral_selection_end > 63 || spectral_selection_start > spectral_selection_end ||
@@ -451,6 +445,11 @@ pub fn parse_sos<R: Read>(reader: &mut R, frame: &FrameInfo) -> Result<ScanInfo>
         if successive_approximation_high != 0 {
             return Err(Error::Format("successive approximation high shall be zero in lossless scan".to_owned()));
         }
+        if point_transform >= frame.precision {
+            return Err(Error::Format(
+                "invalid point transform, must be less than the frame precision".to_owned(),
+            ));
+        }
         predictor_selection = match spectral_selection_start {
             0 => Predictor::NoPrediction,
             1 => Predictor::Ra,
-- 
2.43.0


From 2b41ecc5bedd13e173b9c909f6c7493fff027328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:51 +0000
Subject: [PATCH 14/18] fix: wrapping sums in the odd part of the SIMD inverse
 DCT

Intermediate products of high-contrast blocks saturated at 16 bits although
their sums, the samples, do not leave that range; samples were off by up to
200 levels. Wrapping sums give the right result.
---
 src/arch/ssse3.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/arch/ssse3.rs b/src/arch/ssse3.rs
index e0bd2e4..51b8cde 100644
--- a/src/arch/ssse3.rs
+++ b/src/arch/ssse3.rs
@@ -43,35 +43,37 @@ unsafe fn idct8(data: &mut [__m128i; 8]) {
     let p1 = _mm_adds_epi16(t0, t3);
     let p2 = _mm_adds_epi16(t1, t2);
     let p5 = _mm_adds_epi16(p3, p4);
-    let p5 = _mm_adds_epi16(p5, _mm_mulhrs_epi16(p5, _mm_set1_epi16(5763))); // 0.175875602
+    // The products below can leave the 16 bit range although their sums, the odd part of the
+    // result, do not. Wrapping arithmetic gives the right sums, saturation would not.
+    let p5 = _mm_add_epi16(p5, _mm_mulhrs_epi16(p5, _mm_set1_epi16(5763))); // 0.175875602
 
     let t0 = _mm_mulhrs_epi16(t0, _mm_set1_epi16(9786)); // 0.298631336
-    let t1 = _mm_adds_epi16(
-        _mm_adds_epi16(t1, t1),
+    let t1 = _mm_add_epi16(
+        _mm_add_epi16(t1, t1),
         _mm_mulhrs_epi16(t1, _mm_set1_epi16(1741)), // 0.053119869
     );
-    let t2 = _mm_adds_epi16(
-        _mm_adds_epi16(t2, _mm_adds_epi16(t2, t2)),
+    let t2 = _mm_add_epi16(
+        _mm_add_epi16(t2, _mm_add_epi16(t2, t2)),
         _mm_mulhrs_epi16(t2, _mm_set1_epi16(2383)), // 0.072711026
     );
-    let t3 = _mm_adds_epi16(t3, _mm_mulhrs_epi16(t3, _mm_set1_epi16(16427))); // 0.501321110
+    let t3 = _mm_add_epi16(t3, _mm_mulhrs_epi16(t3, _mm_set1_epi16(16427))); // 0.501321110
 
-    let p1 = _mm_subs_epi16(p5, _mm_mulhrs_epi16(p1, _mm_set1_epi16(29490))); // 0.899976223
-    let p2 = _mm_subs_epi16(
-        _mm_subs_epi16(_mm_subs_epi16(p5, p2), p2),
+    let p1 = _mm_sub_epi16(p5, _mm_mulhrs_epi16(p1, _mm_set1_epi16(29490))); // 0.899976223
+    let p2 = _mm_sub_epi16(
+        _mm_sub_epi16(_mm_sub_epi16(p5, p2), p2),
         _mm_mulhrs_epi16(p2, _mm_set1_epi16(18446)), // 0.562915447
     );
 
-    let p3 = _mm_subs_epi16(
+    let p3 = _mm_sub_epi16(
         _mm_mulhrs_epi16(p3, _mm_set1_epi16(-31509)), // -0.961570560
         p3,
     );
     let p4 = _mm_mulhrs_epi16(p4, _mm_set1_epi16(-12785)); // -0.390180644
 
-    let t3 = _mm_adds_epi16(_mm_adds_epi16(p1, p4), t3);
-    let t2 = _mm_adds_epi16(_mm_adds_epi16(p2, p3), t2);
-    let t1 = _mm_adds_epi16(_mm_adds_epi16(p2, p4), t1);
-    let t0 = _mm_adds_epi16(_mm_adds_epi16(p1, p3), t0);
+    let t3 = _mm_add_epi16(_mm_add_epi16(p1, p4), t3);
+    let t2 = _mm_add_epi16(_mm_add_epi16(p2, p3), t2);
+    let t1 = _mm_add_epi16(_mm_add_epi16(p2, p4), t1);
+    let t0 = _mm_add_epi16(_mm_add_epi16(p1, p3), t0);
 
     data[0] = _mm_adds_epi16(x0, t3);
     data[7] = _mm_subs_epi16(x0, t3);
-- 
2.43.0


From 0532f394c405892b8c6433d7f576ec79d82f4476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:43 +0000
Subject: [PATCH 15/18] fix: report lossless precisions of 0 and 1 bits as
 format errors

A precision outside 2..16 bits is not allowed by the format at all.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a4d1ae4..a83ae1f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -205,7 +205,7 @@ pub fn parse_sof<R: Read>(reader: &mut R, marker: Marker) -> Result<FrameInfo> {
             }
         },
         _ => {
-            if coding_process != CodingProcess::Lossless || precision > 16 {
+            if coding_process != CodingProcess::Lossless || !(2..=16).contains(&precision) {
                 return Err(Error::Format(format!("invalid precision {} in frame header", precision)))
             }
         },
-- 
2.43.0


From b019db294bc7f32a052565895b9a4368ae117455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:51 +0000
Subject: [PATCH 16/18] fix: wrapping sums in the odd part of the wasm32 SIMD
 inverse DCT

---
 src/arch/wasm.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/arch/wasm.rs b/src/arch/wasm.rs
index 7a94551..d825dbb 100644
--- a/src/arch/wasm.rs
+++ b/src/arch/wasm.rs
@@ -41,35 +41,37 @@ fn idct8(data: &mut [v128; 8]) {
     let p1 = i16x8_add_sat(t0, t3);
     let p2 = i16x8_add_sat(t1, t2);
     let p5 = i16x8_add_sat(p3, p4);
-    let p5 = i16x8_add_sat(p5, i16x8_q15mulr_sat(p5, i16x8_splat(5763))); // 0.175875602
+    // The products below can leave the 16 bit range although their sums, the odd part of the
+    // result, do not. Wrapping arithmetic gives the right sums, saturation would not.
+    let p5 = i16x8_add(p5, i16x8_q15mulr_sat(p5, i16x8_splat(5763))); // 0.175875602
 
     let t0 = i16x8_q15mulr_sat(t0, i16x8_splat(9786)); // 0.298631336
-    let t1 = i16x8_add_sat(
-        i16x8_add_sat(t1, t1),
+    let t1 = i16x8_add(
+        i16x8_add(t1, t1),
         i16x8_q15mulr_sat(t1, i16x8_splat(1741)), // 0.053119869
     );
-    let t2 = i16x8_add_sat(
-        i16x8_add_sat(t2, i16x8_add_sat(t2, t2)),
+    let t2 = i16x8_add(
+        i16x8_add(t2, i16x8_add(t2, t2)),
         i16x8_q15mulr_sat(t2, i16x8_splat(2383)), // 0.072711026
     );
-    let t3 = i16x8_add_sat(t3, i16x8_q15mulr_sat(t3, i16x8_splat(16427))); // 0.501321110
+    let t3 = i16x8_add(t3, i16x8_q15mulr_sat(t3, i16x8_splat(16427))); // 0.501321110
 
-    let p1 = i16x8_sub_sat(p5, i16x8_q15mulr_sat(p1, i16x8_splat(29490))); // 0.899976223
-    let p2 = i16x8_sub_sat(
-        i16x8_sub_sat(i16x8_sub_sat(p5, p2), p2),
+    let p1 = i16x8_sub(p5, i16x8_q15mulr_sat(p1, i16x8_splat(29490))); // 0.899976223
+    let p2 = i16x8_sub(
+        i16x8_sub(i16x8_sub(p5, p2), p2),
         i16x8_q15mulr_sat(p2, i16x8_splat(18446)), // 0.562915447
     );
 
-    let p3 = i16x8_sub_sat(
+    let p3 = i16x8_sub(
         i16x8_q15mulr_sat(p3, i16x8_splat(-31509)), // -0.961570560
         p3,
     );
     let p4 = i16x8_q15mulr_sat(p4, i16x8_splat(-12785)); // -0.390180644
 
-    let t3 = i16x8_add_sat(i16x8_add_sat(p1, p4), t3);
-    let t2 = i16x8_add_sat(i16x8_add_sat(p2, p3), t2);
-    let t1 = i16x8_add_sat(i16x8_add_sat(p2, p4), t1);
-    let t0 = i16x8_add_sat(i16x8_add_sat(p1, p3), t0);
+    let t3 = i16x8_add(i16x8_add(p1, p4), t3);
+    let t2 = i16x8_add(i16x8_add(p2, p3), t2);
+    let t1 = i16x8_add(i16x8_add(p2, p4), t1);
+    let t0 = i16x8_add(i16x8_add(p1, p3), t0);
 
     data[0] = i16x8_add_sat(x0, t3);
     data[7] = i16x8_sub_sat(x0, t3);
-- 
2.43.0


From 5ecca14f544df6afb4d93bdcc8a0785ef7599dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:53 +0000
Subject: [PATCH 17/18] fix: wrapping sums in the odd part of the NEON inverse
 DCT

---
 src/arch/neon.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/arch/neon.rs b/src/arch/neon.rs
index 4843578..120e22d 100644
--- a/src/arch/neon.rs
+++ b/src/arch/neon.rs
@@ -41,35 +41,37 @@ unsafe fn idct8(data: &mut [int16x8_t; 8]) {
     let p1 = vqaddq_s16(t0, t3);
     let p2 = vqaddq_s16(t1, t2);
     let p5 = vqaddq_s16(p3, p4);
-    let p5 = vqaddq_s16(p5, vqrdmulhq_n_s16(p5, 5763)); // 0.175875602
+    // The products below can leave the 16 bit range although their sums, the odd part of the
+    // result, do not. Wrapping arithmetic gives the right sums, saturation would not.
+    let p5 = vaddq_s16(p5, vqrdmulhq_n_s16(p5, 5763)); // 0.175875602
 
     let t0 = vqrdmulhq_n_s16(t0, 9786); // 0.298631336
-    let t1 = vqaddq_s16(
-        vqaddq_s16(t1, t1),
+    let t1 = vaddq_s16(
+        vaddq_s16(t1, t1),
         vqrdmulhq_n_s16(t1, 1741), // 0.053119869
     );
-    let t2 = vqaddq_s16(
-        vqaddq_s16(t2, vqaddq_s16(t2, t2)),
+    let t2 = vaddq_s16(
+        vaddq_s16(t2, vaddq_s16(t2, t2)),
         vqrdmulhq_n_s16(t2, 2383), // 0.072711026
     );
-    let t3 = vqaddq_s16(t3, vqrdmulhq_n_s16(t3, 16427)); // 0.501321110
+    let t3 = vaddq_s16(t3, vqrdmulhq_n_s16(t3, 16427)); // 0.501321110
 
-    let p1 = vqsubq_s16(p5, vqrdmulhq_n_s16(p1, 29490)); // 0.899976223
-    let p2 = vqsubq_s16(
-        vqsubq_s16(vqsubq_s16(p5, p2), p2),
+    let p1 = vsubq_s16(p5, vqrdmulhq_n_s16(p1, 29490)); // 0.899976223
+    let p2 = vsubq_s16(
+        vsubq_s16(vsubq_s16(p5, p2), p2),
         vqrdmulhq_n_s16(p2, 18446), // 0.562915447
     );
 
-    let p3 = vqsubq_s16(
+    let p3 = vsubq_s16(
         vqrdmulhq_n_s16(p3, -31509), // -0.961570560
         p3,
     );
     let p4 = vqrdmulhq_n_s16(p4, -12785); // -0.390180644
 
-    let t3 = vqaddq_s16(vqaddq_s16(p1, p4), t3);
-    let t2 = vqaddq_s16(vqaddq_s16(p2, p3), t2);
-    let t1 = vqaddq_s16(vqaddq_s16(p2, p4), t1);
-    let t0 = vqaddq_s16(vqaddq_s16(p1, p3), t0);
+    let t3 = vaddq_s16(vaddq_s16(p1, p4), t3);
+    let t2 = vaddq_s16(vaddq_s16(p2, p3), t2);
+    let t1 = vaddq_s16(vaddq_s16(p2, p4), t1);
+    let t0 = vaddq_s16(vaddq_s16(p1, p3), t0);
 
     data[0] = vqaddq_s16(x0, t3);
     data[7] = vqsubq_s16(x0, t3);
-- 
2.43.0


From c2a6ffd402f2a38573fd1a2d653a5a9ae76c629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:55 +0000
Subject: [PATCH 18/18] fix: report frames whose buffers a 32-bit platform
 can't address instead of overflowing

---
 src/decoder.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 1f4f31f..0aa13fa 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -401,6 +401,7 @@ impl<R: Read> Decoder<R> {
 
                     let frame = self.frame.clone().unwrap();
                     let scan = parse_sos(&mut self.reader, &frame)?;
+                    check_addressable(&frame)?;
 
                     if frame.coding_process == CodingProcess::DctProgressive
                         && self.coefficients.is_empty()
@@ -1296,6 +1297,33 @@ fn refine_non_zeroes<R: Read>(
     Ok(last)
 }
 
+/// Fails if a buffer needed to decode the frame can't be addressed, which is possible for large
+/// dimensions on 32-bit platforms.
+fn check_addressable(frame: &FrameInfo) -> Result<()> {
+    let area = |size: Dimensions| u64::from(size.width) * u64::from(size.height);
+    let samples = area(frame.output_size) * frame.components.len() as u64;
+
+    let addressable = if frame.coding_process == CodingProcess::Lossless {
+        // The differences of a component, and the samples of all of them.
+        let differences = area(frame.image_size) * mem::size_of::<i32>() as u64;
+        cmp::max(differences, samples * mem::size_of::<u16>() as u64) <= isize::MAX as u64
+    } else {
+        samples <= isize::MAX as u64
+            && frame.components.iter().all(|component| {
+                let bytes_per_block = match frame.coding_process {
+                    CodingProcess::DctProgressive => 64 * mem::size_of::<i16>(),
+                    _ => component.dct_scale * component.dct_scale,
+                };
+                area(component.block_size) * bytes_per_block as u64 <= isize::MAX as u64
+            })
+    };
+
+    if !addressable {
+        return Err(Error::Format("image is too large to decode".to_owned()));
+    }
+    Ok(())
+}
+
 fn compute_image(
     components: &[Component],
     mut data: Vec<Vec<u8>>,
-- 
2.43.0

