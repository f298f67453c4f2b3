From c92bbd9e1b3e756df7dbc08f7989bfe7ddcfea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 01/36] fix: grayscale output panicked or skewed rows when the
 width is padded to a block

The row length was recomputed from the strip length and the image width,
which is not the padded width; use the padded width, as the other
conversions do.
---
 src/color_convert/scalar.rs | 11 +++++------
 src/worker.rs               |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/color_convert/scalar.rs b/src/color_convert/scalar.rs
index a5de15e..b876fdc 100644
--- a/src/color_convert/scalar.rs
+++ b/src/color_convert/scalar.rs
@@ -88,15 +88,14 @@ pub fn ycbcr_to_rgb_16_scalar(
     *pos += 48;
 }
 
-pub fn ycbcr_to_grayscale(y: &[i16], width: usize, output: &mut [u8])
+pub fn ycbcr_to_grayscale(
+    y: &[i16], width: usize, h_samp: usize, v_samp: usize, output: &mut [u8],
+)
 {
     // Convert i16's to u8's
     let temp_output = y.iter().map(|x| *x as u8).collect::<Vec<u8>>();
-    // chunk according to width.
-
-    let width_mcu = y.len() / width;
-
-    let width_chunk = y.len() / width_mcu;
+    // chunk according to the padded width, i.e width which accounts for fill bytes.
+    let width_chunk = (y.len() / (h_samp * v_samp)) >> 3;
 
     let mut start = 0;
 
diff --git a/src/worker.rs b/src/worker.rs
index 4232a2c..5cffa0a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -114,7 +114,7 @@ pub(crate) fn post_process_inner(
     {
         (ColorSpace::YCbCr | ColorSpace::GRAYSCALE, ColorSpace::GRAYSCALE) =>
         {
-            ycbcr_to_grayscale(&unprocessed[0], width, output);
+            ycbcr_to_grayscale(&unprocessed[0], width, h_samp, v_samp, output);
         }
 
         (ColorSpace::YCbCr, ColorSpace::YCbCr) =>
-- 
2.43.0


From da653ce1431162b0938d33e0bc2688a13024c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:33 +0000
Subject: [PATCH 02/36] fix: baseline decode panicked on small vertically
 sub-sampled images

The output buffer could be smaller than one strip of pixels, so the first
strip had nowhere to go and chunks.next().unwrap() panicked.
---
 src/mcu.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 296ad96..d1b20de 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -53,7 +53,7 @@
 //! This allows us to not use locks during decoding avoiding that overhead. and allowing more cleaner
 //! faster code in post processing..
 
-use std::cmp::min;
+use std::cmp::{max, min};
 use std::io::Cursor;
 use std::sync::Arc;
 
@@ -219,11 +219,14 @@ impl Decoder
 
         let mut stream = BitStream::new();
         // Storage for decoded pixels
-        let mut global_channel = vec![0; (capacity * self.options.get_out_colorspace().num_components()) + extra_space];
+        // size of the block of pixels each thread writes to
+        let chunk_size = width * output.num_components() * 8 * h_max * v_max;
+        // there should be enough space for every block, no matter how small the image is.
+        let channel_size = max((capacity * output.num_components()) + extra_space, chunk_size * mcu_height);
+        let mut global_channel = vec![0; channel_size];
 
         // Split output into different blocks each containing enough space for an MCU width
-        let mut chunks =
-            global_channel.chunks_exact_mut(width * output.num_components() * 8 * h_max * v_max);
+        let mut chunks = global_channel.chunks_exact_mut(chunk_size);
         let mut tmp = [0; DCT_BLOCK];
 
         // Argument for scoped threadpools, see file docs.
-- 
2.43.0


From 0a90d87c2dcd79d8b19eeead4b0d81caeac0f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 03/36] fix: frame headers with 2 or more than 3 components
 caused out-of-bounds panics

Reject them when the frame header is parsed; only grayscale and YCbCr
images are supported.
---
 src/headers.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 03ab65e..9b737d9 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -273,6 +273,15 @@ where
         )));
     }
 
+    if num_components != 1 && num_components != 3
+    {
+        // everything after this point assumes either a grayscale or a YCbCr image.
+        return Err(DecodeErrors::SofError(format!(
+            "Images with {} components are not supported, expected 1 or 3",
+            num_components
+        )));
+    }
+
     info!("Image components : {}", num_components);
 
     if num_components == 1
-- 
2.43.0


From 47f02a78342cfe944a36035f7a87b6511b922a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:32 +0000
Subject: [PATCH 04/36] fix: a reused Decoder leaked state from one image into
 the next

Progressive mode, sampling factors, restart interval, tables and the
grayscale output colorspace of one image (decoded, failed or only its
headers read) changed how the next one was decoded. Start every image
from a clean state and remember the colorspace the caller asked for.
---
 src/decoder.rs | 21 +++++++++++++++++++++
 src/headers.rs |  1 +
 2 files changed, 22 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index 39b8d85..c253962 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -118,6 +118,9 @@ pub struct Decoder
     pub(crate) todo:             usize,
     // decoder options
     pub(crate) options:          ZuneJpegOptions,
+    /// Output colorspace the caller asked for, present when the image being decoded
+    /// is grayscale and the one in `options` was replaced.
+    pub(crate) requested_colorspace: Option<ColorSpace>,
 }
 
 impl Decoder
@@ -166,8 +169,23 @@ impl Decoder
             todo: 0x7fff_ffff,
             // options
             options,
+            requested_colorspace: None,
         }
     }
+    /// Forget everything learnt from a previous image.
+    ///
+    /// A decoder can be used for more than one image, and nothing found in the headers of
+    /// one (complete or not) should influence how the next one is decoded.
+    fn reset(&mut self)
+    {
+        let mut options = self.options;
+
+        if let Some(colorspace) = self.requested_colorspace
+        {
+            options = options.set_out_colorspace(colorspace);
+        }
+        *self = Decoder::default(options);
+    }
     /// Decode a buffer already in memory
     ///
     /// The buffer should be a valid jpeg file, perhaps created by the command
@@ -240,6 +258,7 @@ impl Decoder
     where
         R: Read + BufRead,
     {
+        self.reset();
         // First two bytes should be jpeg soi marker
         let magic_bytes = read_u16_be(buf)?;
 
@@ -535,6 +554,7 @@ impl Decoder
     pub fn rgba(&mut self)
     {
         // told you so
+        self.requested_colorspace = None;
         self.options = self.options.set_out_colorspace(ColorSpace::RGBA);
     }
 
@@ -552,6 +572,7 @@ impl Decoder
     )]
     pub fn set_output_colorspace(&mut self, colorspace: ColorSpace)
     {
+        self.requested_colorspace = None;
         self.options = self.options.set_out_colorspace(colorspace);
     }
     #[must_use]
diff --git a/src/headers.rs b/src/headers.rs
index 9b737d9..b116bb4 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -290,6 +290,7 @@ where
         // and that to us translates to setting input and output
         // colorspaces to zero
         img.input_colorspace = ColorSpace::GRAYSCALE;
+        img.requested_colorspace = Some(img.options.get_out_colorspace());
         img.options = img.options.set_out_colorspace(ColorSpace::GRAYSCALE);
     }
 
-- 
2.43.0


From cde157d5b37c686c04ff3aab8aa19296c6ceb86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:32 +0000
Subject: [PATCH 05/36] fix: a second frame header made the decoder panic

The sampling maxima of both frames were mixed and the second could also
arrive in the middle of the entropy-coded data; an image has one frame.
---
 src/decoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index c253962..621f1e5 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -328,6 +328,14 @@ impl Decoder
         {
             Marker::SOF(0 | 2) =>
             {
+                if !self.components.is_empty()
+                {
+                    // B.2.1, there is only one frame in an image
+                    return Err(DecodeErrors::SofError(
+                        "More than one frame header found, corrupt jpeg".to_string(),
+                    ));
+                }
+
                 let marker = {
                     // choose marker
                     if m == Marker::SOF(0)
-- 
2.43.0


From a69cc026d24b15b12693992fe0dab57a30608146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:16 +0000
Subject: [PATCH 06/36] fix: progressive grayscale images with a sampling
 factor panicked in a worker

The chunk handed to a worker was the square of the row length; use one
row of blocks, with the stride the coefficients were stored with.
---
 src/mcu_prog.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 4467d7d..5b1e1cd 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -162,8 +162,9 @@ impl Decoder
             self.v_max = 1;
             self.sub_sample_ratio = SubSampRatios::None;
             self.components[0].vertical_sample = 1;
-            self.components[0].width_stride = mcu_width * 8;
-            self.components[0].horizontal_sample = mcu_width;
+            self.components[0].horizontal_sample = 1;
+            // coefficients were laid out using this stride, one chunk is one row of blocks
+            mcu_width = self.components[0].width_stride * 8;
             bias = 1;
         }
         // remove items from  top block
-- 
2.43.0


From c4dbb82bbffe7d37fdb489293956781dde22d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:27 +0000
Subject: [PATCH 07/36] fix: dimensions close to 65535 overflowed 16-bit
 arithmetic

With the limits raised, padding the width or the height wrapped around:
the decoder panicked or returned a buffer of the wrong length.
---
 src/mcu.rs      | 10 +++++-----
 src/mcu_prog.rs |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index d1b20de..638c914 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -164,8 +164,8 @@ impl Decoder
         } else {
             // For non-interleaved images( (1*1) subsampling)
             // number of MCU's are the widths (+7 to account for paddings) divided bu 8.
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
 
         if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
@@ -183,7 +183,7 @@ impl Decoder
 
             warn!("Grayscale image with down-sampled component, resetting component details");
 
-            mcu_width = ((self.info.width + 7) / 8) as usize;
+            mcu_width = (usize::from(self.info.width) + 7) / 8;
             self.h_max = 1;
             self.options = self.options.set_out_colorspace(ColorSpace::GRAYSCALE);
             self.v_max = 1;
@@ -191,11 +191,11 @@ impl Decoder
             self.components[0].vertical_sample = 1;
             self.components[0].width_stride = mcu_width * 8;
             self.components[0].horizontal_sample = 1;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_height = (usize::from(self.info.height) + 7) / 8;
             bias = 1;
         }
         // Size of our output image(width*height)
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
+        let capacity = (usize::from(self.info.width) + 8) * (usize::from(self.info.height) + 8);
         let component_capacity = mcu_width * DCT_BLOCK;
         // Create an Arc of components to prevent cloning on every MCU width
         let global_component = Arc::new(self.components.clone());
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 5b1e1cd..41e3313 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -172,7 +172,7 @@ impl Decoder
         let cb = &block[1];
         let cr = &block[2];
         let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
-        let capacity = usize::from(self.info.width + 8) * usize::from(self.info.height + 8);
+        let capacity = (usize::from(self.info.width) + 8) * (usize::from(self.info.height) + 8);
 
         let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
 
@@ -281,8 +281,8 @@ impl Decoder
             // by 8
             if self.components[k].component_id == ComponentID::Y || !self.interleaved
             {
-                mcu_width = ((self.info.width + 7) / 8) as usize;
-                mcu_height = ((self.info.height + 7) / 8) as usize;
+                mcu_width = (usize::from(self.info.width) + 7) / 8;
+                mcu_height = (usize::from(self.info.height) + 7) / 8;
             } else {
                 // For other channels, in an interleaved mcu, number of MCU's
                 // are determined by some weird maths done in headers.rs->parse_sos()
-- 
2.43.0


From fbab867d1a8c04f27c1d16f61bec7203ac8c520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:54 +0000
Subject: [PATCH 08/36] fix: restart intervals were counted per component and
 lost in progressive scans

A restart interval counts MCUs, not components, starts anew in every scan, and
includes blocks skipped by an end-of-band run. The marker that ends an interval
may not have been read yet when the interval is over. A left over restart marker
made the progressive decoder stop and ignore (and not count) all later scans.
---
 src/bitstream.rs |  2 +-
 src/mcu.rs       | 22 ++++++++++++++--------
 src/mcu_prog.rs  | 30 ++++++++++++++++++++----------
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index f6a76df..73ad52c 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -156,7 +156,7 @@ impl BitStream
     ///
     /// This function will only refill if `self.count` is less than 32
     #[inline(never)] // to many call sites?
-    fn refill(&mut self, reader: &mut Cursor<Vec<u8>>) -> Result<bool, DecodeErrors>
+    pub(crate) fn refill(&mut self, reader: &mut Cursor<Vec<u8>>) -> Result<bool, DecodeErrors>
     {
         /// Macro version of a single byte refill.
         /// Arguments
diff --git a/src/mcu.rs b/src/mcu.rs
index 638c914..32e593b 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -323,13 +323,6 @@ impl Decoder
                                     }
                                 }
                             }
-                            self.todo = self.todo.wrapping_sub(1);
-                            // after every interleaved MCU that's a mcu, count down restart markers.
-                            if self.todo == 0
-                            {
-                                self.handle_rst(&mut stream)?;
-                            }
-
                             // In some corrupt images, it may occur that header markers occur in the stream.
                             // The spec EXPLICITLY FORBIDS this, specifically, in
                             // routine F.2.2.5  it says
@@ -350,6 +343,12 @@ impl Decoder
                                 self.parse_marker_inner(m, reader)?;
                             }
                         }
+                        self.todo = self.todo.wrapping_sub(1);
+                        // after every interleaved MCU that's a mcu, count down restart markers.
+                        if self.todo == 0
+                        {
+                            self.handle_rst(reader, &mut stream)?;
+                        }
                     }
                 }
                 // Clone things, to make multithreading safe
@@ -386,10 +385,17 @@ impl Decoder
     // No-op if not using restarts
     // this routine is shared with mcu_prog
     #[cold]
-    pub(crate) fn handle_rst(&mut self, stream: &mut BitStream) -> Result<(), DecodeErrors>
+    pub(crate) fn handle_rst(
+        &mut self, reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream,
+    ) -> Result<(), DecodeErrors>
     {
         self.todo = self.restart_interval;
 
+        if stream.marker.is_none()
+        {
+            // the bits before the marker were enough, the marker itself wasn't read yet.
+            stream.refill(reader)?;
+        }
         if let Some(marker) = stream.marker
         {
             // Found a marker
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 41e3313..89ce38c 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -26,6 +26,7 @@
 //!
 //! So here we use a different scheme. Just decode everything and then finally use threads when post processing.
 
+use std::cmp::max;
 use std::io::Cursor;
 use std::sync::Arc;
 
@@ -254,6 +255,11 @@ impl Decoder
         self.check_component_dimensions()?;
         stream.reset();
         self.components.iter_mut().for_each(|x| x.dc_pred = 0);
+        // every scan starts with a full restart interval
+        if self.restart_interval != 0
+        {
+            self.todo = self.restart_interval;
+        }
 
         if usize::from(self.num_scans) > self.input_colorspace.num_components() {
             return Err(Format(format!("Number of scans {} cannot be greater than number of components, {}", self.num_scans, self.input_colorspace.num_components())));
@@ -348,6 +354,8 @@ impl Decoder
 
                                 i += (j + stream.eob_run as usize - 1) / mcu_width;
                                 j = (j + stream.eob_run as usize - 1) % mcu_width;
+                                // skipped blocks count for restart intervals too.
+                                self.todo = max(self.todo.saturating_sub(stream.eob_run as usize - 1), 1);
                                 stream.eob_run = 0;
                             } else {
                                 stream.decode_mcu_ac_first(reader, ac_table, data)?;
@@ -358,11 +366,12 @@ impl Decoder
                         }
                     }
                     j += 1;
-                    self.todo -= 1;
+                    self.todo = self.todo.wrapping_sub(1);
 
-                    if self.todo == 0
+                    // no restart marker follows the last block of a scan.
+                    if self.todo == 0 && (i + 1 < mcu_height || j < mcu_width)
                     {
-                        self.handle_rst(stream)?;
+                        self.handle_rst(reader, stream)?;
                     }
                 }
                 j = 0;
@@ -416,13 +425,14 @@ impl Decoder
                                 }
                             }
                         }
-                        // We want wrapping subtraction here because it means
-                        // we get a higher number in the case this underflows
-                        self.todo = self.todo.wrapping_sub(1);
-                        // after every scan that's a mcu, count down restart markers.
-                        if self.todo == 0 {
-                            self.handle_rst(stream)?;
-                        }
+                    }
+                    // We want wrapping subtraction here because it means
+                    // we get a higher number in the case this underflows
+                    self.todo = self.todo.wrapping_sub(1);
+                    // after every scan that's a mcu, count down restart markers.
+                    if self.todo == 0 && (i + 1 < self.mcu_y || j + 1 < self.mcu_x)
+                    {
+                        self.handle_rst(reader, stream)?;
                     }
                 }
             }
-- 
2.43.0


From 28a398128bbec4c50b775a960f9a650a1c61ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 09/36] fix: DC coefficients with long codes were decoded from
 too few bits

---
 src/bitstream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index 73ad52c..5770ae3 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -275,7 +275,7 @@ impl BitStream
     {
         let (mut symbol, r);
 
-        if self.bits_left < 16
+        if self.bits_left < 32
         {
             self.refill(reader)?;
         };
-- 
2.43.0


From 5189550b7f93109bcd030099fb3f9a966deb204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 10/36] fix: chroma of the last MCUs was lost when the end of
 the image was read ahead

---
 src/mcu.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index 32e593b..bd4eedb 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -332,12 +332,8 @@ impl Decoder
                             // allow it because of some weird reason.
                             if let Some(m) = stream.marker
                             {
-                                if m == Marker::EOI
-                                {
-                                    break;
-                                }
-
-                                if let Marker::RST(_) = m { continue }
+                                // what was read before the marker may still hold data
+                                if let Marker::EOI | Marker::RST(_) = m { continue }
 
                                 error!("Marker `{:?}` Found within Huffman Stream, possibly corrupt jpeg",m);
                                 self.parse_marker_inner(m, reader)?;
-- 
2.43.0


From dbcfbba0cfcbd2ab38fb69cbc682669d6a768d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 11/36] fix: progressive images failed when the marker after
 the first scan was not read ahead

---
 src/mcu_prog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 89ce38c..f9912e6 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -86,7 +86,7 @@ impl Decoder
         self.parse_entropy_coded_data(reader, &mut stream, &mut block)?;
 
         // extract marker
-        let mut marker = stream.marker.take().ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(reader, &mut stream).ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
         // if marker is EOI, we are done, otherwise continue scanning.
         'eoi: while marker != Marker::EOI
         {
-- 
2.43.0


From 426e82dc9200dabb01a1efa556b1a8a2c79b511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:12 +0000
Subject: [PATCH 12/36] fix: AC coefficients of six bits and more with short
 codes were truncated

---
 src/huffman.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index 39c2116..b999c91 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -245,8 +245,8 @@ impl HuffmanTable
                             k += (!0_i16 << mag_bits) + 1;
                         };
 
-                        // if result is small enough fit into fast ac table
-                        if (-128..=127).contains(&k)
+                        // if result is small enough (6 bits are left for it) fit into fast ac table
+                        if (-32..=31).contains(&k)
                         {
                             fast_ac[i] = (k << 10) + (run << 4) + (len + mag_bits);
                         }
-- 
2.43.0


From 14e991550df314518f2b94c1f59951b4f7b3882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:32 +0000
Subject: [PATCH 13/36] fix: arithmetic overflow in portable IDCT and colour
 conversion of corrupt images

Builds with overflow checks panicked in a worker, or aborted.
---
 src/color_convert/scalar.rs | 20 ++++-----
 src/idct/scalar.rs          | 85 ++++++++++++++++++++-----------------
 2 files changed, 57 insertions(+), 48 deletions(-)

diff --git a/src/color_convert/scalar.rs b/src/color_convert/scalar.rs
index b876fdc..8b6d0e5 100644
--- a/src/color_convert/scalar.rs
+++ b/src/color_convert/scalar.rs
@@ -26,15 +26,15 @@ pub fn ycbcr_to_rgba_16_scalar(
     let mut p = 0;
     for (y, (cb, cr)) in y.iter().zip(cb.iter().zip(cr.iter()))
     {
-        let cr = cr - 128;
+        let cr = cr.wrapping_sub(128);
 
-        let cb = cb - 128;
+        let cb = cb.wrapping_sub(128);
 
-        let r = y + ((45_i16.wrapping_mul(cr)) >> 5);
+        let r = y.wrapping_add((45_i16.wrapping_mul(cr)) >> 5);
 
-        let g = y - ((11_i16.wrapping_mul(cb) + 23_i16.wrapping_mul(cr)) >> 5);
+        let g = y.wrapping_sub((11_i16.wrapping_mul(cb).wrapping_add(23_i16.wrapping_mul(cr))) >> 5);
 
-        let b = y + ((113_i16.wrapping_mul(cb)) >> 6);
+        let b = y.wrapping_add((113_i16.wrapping_mul(cb)) >> 6);
 
         opt[p] = clamp(r);
 
@@ -65,15 +65,15 @@ pub fn ycbcr_to_rgb_16_scalar(
 
     for (y, (cb, cr)) in y.iter().zip(cb.iter().zip(cr.iter()))
     {
-        let cr = cr - 128;
+        let cr = cr.wrapping_sub(128);
 
-        let cb = cb - 128;
+        let cb = cb.wrapping_sub(128);
 
-        let r = y + ((45_i16.wrapping_mul(cr)) >> 5);
+        let r = y.wrapping_add((45_i16.wrapping_mul(cr)) >> 5);
 
-        let g = y - ((11_i16.wrapping_mul(cb) + 23_i16.wrapping_mul(cr)) >> 5);
+        let g = y.wrapping_sub((11_i16.wrapping_mul(cb).wrapping_add(23_i16.wrapping_mul(cr))) >> 5);
 
-        let b = y + ((113_i16.wrapping_mul(cb)) >> 6);
+        let b = y.wrapping_add((113_i16.wrapping_mul(cb)) >> 6);
 
         opt[p] = clamp(r);
 
diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index e58abe1..d00bb1a 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -1,6 +1,8 @@
 //! Platform independent IDCT algorithm
 //!
 //! Not as fast as AVX one.
+use std::num::Wrapping;
+
 use crate::misc::Aligned32;
 
 const SCALE_BITS: i32 = 512 + 65536 + (128 << 17);
@@ -25,7 +27,7 @@ pub fn dequantize_and_idct_int(
 
     let mut out_vector = vec![0; vector.len()];
 
-    let mut tmp = [0; 64];
+    let mut tmp = [w(0); 64];
 
     let chunks = vector.len() * v_samp / samp_factors;
     // calculate position
@@ -82,11 +84,11 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = dequantize(vector[ptr + 48], qt_table.0[ptr + 48]);
 
-                    let p1 = (p2 + p3).wrapping_mul(2217);
+                    let p1 = (p2 + p3) * w(2217);
 
-                    let t2 = p1 + p3 * -7567;
+                    let t2 = p1 + p3 * w(-7567);
 
-                    let t3 = p1 + p2 * 3135;
+                    let t3 = p1 + p2 * w(3135);
 
                     let p2 = dequantize(vector[ptr], qt_table.0[ptr]);
 
@@ -96,13 +98,13 @@ pub fn dequantize_and_idct_int(
 
                     let t1 = fsh(p2 - p3);
 
-                    let x0 = t0 + t3 + 512;
+                    let x0 = t0 + t3 + w(512);
 
-                    let x3 = t0 - t3 + 512;
+                    let x3 = t0 - t3 + w(512);
 
-                    let x1 = t1 + t2 + 512;
+                    let x1 = t1 + t2 + w(512);
 
-                    let x2 = t1 - t2 + 512;
+                    let x2 = t1 - t2 + w(512);
 
                     // odd part
                     let mut t0 = dequantize(vector[ptr + 56], qt_table.0[ptr + 56]);
@@ -121,23 +123,23 @@ pub fn dequantize_and_idct_int(
 
                     let p2 = t1 + t2;
 
-                    let p5 = (p3 + p4) * 4816;
+                    let p5 = (p3 + p4) * w(4816);
 
-                    t0 *= 1223;
+                    t0 *= w(1223);
 
-                    t1 *= 8410;
+                    t1 *= w(8410);
 
-                    t2 *= 12586;
+                    t2 *= w(12586);
 
-                    t3 *= 6149;
+                    t3 *= w(6149);
 
-                    let p1 = p5 + p1 * -3685;
+                    let p1 = p5 + p1 * w(-3685);
 
-                    let p2 = p5 + p2 * -10497;
+                    let p2 = p5 + p2 * w(-10497);
 
-                    let p3 = p3 * -8034;
+                    let p3 = p3 * w(-8034);
 
-                    let p4 = p4 * -1597;
+                    let p4 = p4 * w(-1597);
 
                     t3 += p1 + p4;
 
@@ -176,11 +178,11 @@ pub fn dequantize_and_idct_int(
 
                     let p3 = tmp[i + 6];
 
-                    let p1 = (p2 + p3) * 2217;
+                    let p1 = (p2 + p3) * w(2217);
 
-                    let t2 = p1 + p3 * -7567;
+                    let t2 = p1 + p3 * w(-7567);
 
-                    let t3 = p1 + p2 * 3135;
+                    let t3 = p1 + p2 * w(3135);
 
                     let p2 = tmp[i];
 
@@ -196,13 +198,13 @@ pub fn dequantize_and_idct_int(
                     // so we want to round that, which means adding 0.5 * 1<<17,
                     // aka 65536. Also, we'll end up with -128 to 127 that we want
                     // to encode as 0..255 by adding 128, so we'll add that before the shift
-                    let x0 = t0 + t3 + SCALE_BITS;
+                    let x0 = t0 + t3 + w(SCALE_BITS);
 
-                    let x3 = t0 - t3 + SCALE_BITS;
+                    let x3 = t0 - t3 + w(SCALE_BITS);
 
-                    let x1 = t1 + t2 + SCALE_BITS;
+                    let x1 = t1 + t2 + w(SCALE_BITS);
 
-                    let x2 = t1 - t2 + SCALE_BITS;
+                    let x2 = t1 - t2 + w(SCALE_BITS);
 
                     // odd part
                     let mut t0 = tmp[i + 7];
@@ -221,23 +223,23 @@ pub fn dequantize_and_idct_int(
 
                     let p2 = t1 + t2;
 
-                    let p5 = (p3 + p4) * f2f(1.175875602);
+                    let p5 = (p3 + p4) * w(f2f(1.175875602));
 
-                    t0 = t0.wrapping_mul(1223);
+                    t0 *= w(1223);
 
-                    t1 = t1.wrapping_mul(8410);
+                    t1 *= w(8410);
 
-                    t2 = t2.wrapping_mul(12586);
+                    t2 *= w(12586);
 
-                    t3 = t3.wrapping_mul(6149);
+                    t3 *= w(6149);
 
-                    let p1 = p5 + p1 * -3685;
+                    let p1 = p5 + p1 * w(-3685);
 
-                    let p2 = p5 + p2 * -10497;
+                    let p2 = p5 + p2 * w(-10497);
 
-                    let p3 = p3 * -8034;
+                    let p3 = p3 * w(-8034);
 
-                    let p4 = p4 * -1597;
+                    let p4 = p4 * w(-1597);
 
                     t3 += p1 + p4;
 
@@ -291,21 +293,28 @@ fn f2f(x: f32) -> i32
 
 #[inline]
 /// Multiply a number by 4096
-fn fsh(x: i32) -> i32
+fn fsh(x: Wrapping<i32>) -> Wrapping<i32>
 {
     x << 12
 }
 
+/// Coefficients of corrupt images can be anything, so arithmetic on them wraps.
+#[inline]
+const fn w(x: i32) -> Wrapping<i32>
+{
+    Wrapping(x)
+}
+
 /// Clamp values between 0 and 255
 #[inline]
 #[allow(clippy::cast_possible_truncation)]
-fn clamp(a: i32) -> i16
+fn clamp(a: Wrapping<i32>) -> i16
 {
-    a.max(0).min(255) as i16
+    a.0.max(0).min(255) as i16
 }
 
 #[inline]
-fn dequantize(a: i16, b: i32) -> i32
+fn dequantize(a: i16, b: i32) -> Wrapping<i32>
 {
-    i32::from(a) * b
+    w(i32::from(a)) * w(b)
 }
-- 
2.43.0


From defc0193a9c3727e643193825dba10ada265c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:22 +0000
Subject: [PATCH 14/36] fix: convert the last pixels of a row for the width and
 color space at hand

The end of a row was converted by going back 64 bytes and converting the last 16
(padded) columns, which is right only for four channels and widths divisible by 8.
RGB rows ended with wrong or zero pixels.
---
 src/worker.rs | 115 ++++++++++++++++----------------------------------
 1 file changed, 37 insertions(+), 78 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 5cffa0a..5484df5 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -148,19 +148,15 @@ fn color_convert_ycbcr(
     let mcu_chunks = mcu_block[0].len() / (h_samp * v_samp);
     // Width of image which takes into account fill bytes(it may be larger than actual width).
     let width_chunk = mcu_chunks >> 3;
-    let stride = width * output_colorspace.num_components();
+    let num_components = output_colorspace.num_components();
+    let stride = width * num_components;
 
     let mut start = 0;
     let mut end = stride;
-    // over allocate to account for fill bytes
-    let mut temp = vec![];
+    // Color conversion works on 16 pixels at a time, the end of a row goes through this
+    // buffer. It has room for 16 pixels of any colorspace.
+    let mut temp = [0; 64];
 
-    if width < 16
-    {
-        // Allocate temporary buffer for small widths less than
-        // 16.
-        temp = vec![0; 16 * output_colorspace.num_components()];
-    }
     // We need to chunk per width to ensure we can discard extra values at the end of the width.
     // Since the encoder may pad bits to ensure the width is a multiple of 8.
     for ((y_width, cb_width), cr_width) in mcu_block[0]
@@ -168,83 +164,46 @@ fn color_convert_ycbcr(
         .zip(mcu_block[1].chunks_exact(width_chunk))
         .zip(mcu_block[2].chunks_exact(width_chunk))
     {
-        let elements = (y_width.len() / 16).saturating_sub(1);
-
         let mut position = 0;
         let out = &mut output[start..end];
 
-        if width < 16
-        {
-            // allocate temporary buffers for the values received from idct
-            let mut y_out = [0; 16];
-            let mut cb_out = [0; 16];
-            let mut cr_out = [0; 16];
-            // copy those small widths to that buffer
-            y_out[0..y_width.len()].copy_from_slice(y_width);
-            cb_out[0..cb_width.len()].copy_from_slice(cb_width);
-            cr_out[0..cr_width.len()].copy_from_slice(cr_width);
-            // we handle widths less than 16 a bit differently, allocating a temporary
-            // buffer and writing to that and then flushing to the out buffer
-            // because of the optimizations applied below,
-            (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
-            // copy to stride
-            out[position..position + width * output_colorspace.num_components()]
-                .copy_from_slice(&temp[0..width * output_colorspace.num_components()]);
-            // increment position
-            start += stride;
-            end += stride;
-            // next
-            continue;
-        }
-
         // Chunk in outputs of 16 to pass to color_convert as an array of 16 i16's.
         for ((y, cb), cr) in y_width
-            .chunks_exact(16)
-            .zip(cb_width.chunks_exact(16))
-            .zip(cr_width.chunks_exact(16))
-            .take(elements)
+            .chunks(16)
+            .zip(cb_width.chunks(16))
+            .zip(cr_width.chunks(16))
         {
-            (color_convert_16)(
-                y.try_into().unwrap(),
-                cb.try_into().unwrap(),
-                cr.try_into().unwrap(),
-                out,
-                &mut position,
-            );
+            if y.len() == 16 && stride - position >= temp.len()
+            {
+                (color_convert_16)(
+                    y.try_into().unwrap(),
+                    cb.try_into().unwrap(),
+                    cr.try_into().unwrap(),
+                    out,
+                    &mut position,
+                );
+            }
+            else
+            {
+                // Less than 16 pixels, or not enough space left to write 16 pixels.
+                let mut y_out = [0; 16];
+                let mut cb_out = [0; 16];
+                let mut cr_out = [0; 16];
+
+                y_out[0..y.len()].copy_from_slice(y);
+                cb_out[0..cb.len()].copy_from_slice(cb);
+                cr_out[0..cr.len()].copy_from_slice(cr);
+
+                (color_convert_16)(&y_out, &cb_out, &cr_out, &mut temp, &mut 0);
+
+                let pixels = min(16 * num_components, stride - position);
+
+                out[position..position + pixels].copy_from_slice(&temp[0..pixels]);
+
+                position += pixels;
+            }
         }
 
-        // we have more pixels in the end that can't be handled by the main loop.
-        // move pointer back a little bit to get last 16 bytes,
-        // color convert, and overwrite
-        // This means some values will be color converted twice.
-
-        let diff = 64_usize.saturating_sub(stride.saturating_sub(position));
-
-        position = position.saturating_sub(diff);
-
-        (color_convert_16)(
-            y_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cb_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            cr_width
-                .rchunks_exact(16)
-                .next()
-                .unwrap()
-                .try_into()
-                .unwrap(),
-            out,
-            &mut position,
-        );
-
         start += stride;
         end += stride;
     }
-- 
2.43.0


From 501a636e25a1785c202427aa6ea5d0463d8b1d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:56 +0000
Subject: [PATCH 15/36] fix: select the color conversion for the output color
 space

The RGB routine was used whatever the output color space, RGBA and RGBX images were
RGB pixels packed to the left of every row.
---
 src/color_convert/avx.rs | 4 ++--
 src/decoder.rs           | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/color_convert/avx.rs b/src/color_convert/avx.rs
index c67005a..44b060c 100644
--- a/src/color_convert/avx.rs
+++ b/src/color_convert/avx.rs
@@ -358,8 +358,8 @@ unsafe fn ycbcr_to_rgbx_unsafe(
 
     // Pack the integers into u8's using signed saturation.
     let c = _mm256_packus_epi16(r, g); //aaaaa_bbbbb_aaaaa_bbbbbb
-    // Set alpha channel to random things, Mostly I see it using the b values
-    let d = _mm256_packus_epi16(b, _mm256_undefined_si256()); // cccccc_dddddd_ccccccc_ddddd
+    // Set the X channel to what the other implementations use.
+    let d = _mm256_packus_epi16(b, _mm256_set1_epi16(255)); // cccccc_dddddd_ccccccc_ddddd
     // transpose and interleave channels
     let e = _mm256_unpacklo_epi8(c, d); //ab_ab_ab_ab_ab_ab_ab_ab
     let f = _mm256_unpackhi_epi8(c, d); //cd_cd_cd_cd_cd_cd_cd_cd
diff --git a/src/decoder.rs b/src/decoder.rs
index 621f1e5..cd4d9bd 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -127,8 +127,11 @@ impl Decoder
 {
     fn default(options: ZuneJpegOptions) -> Self
     {
-        let color_convert =
-            choose_ycbcr_to_rgb_convert_func(ColorSpace::RGB, options.get_use_unsafe()).unwrap();
+        let use_unsafe = options.get_use_unsafe();
+        // grayscale and YCbCr output do not use it.
+        let color_convert = choose_ycbcr_to_rgb_convert_func(options.get_out_colorspace(), use_unsafe)
+            .or_else(|| choose_ycbcr_to_rgb_convert_func(ColorSpace::RGB, use_unsafe))
+            .unwrap();
         Decoder {
             info: ImageInfo::default(),
             qt_tables: [None, None, None, None],
-- 
2.43.0


From ae17dafa53d5e30fdd1ea44a7c7b43913fdc2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:11 +0000
Subject: [PATCH 16/36] fix: clamp blocks without AC coefficients in the
 portable IDCT

Values outside 0..=255 wrapped around in grayscale and YCbCr output, a white block
could come out black. The AVX2 version clamps.
---
 src/idct/scalar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/idct/scalar.rs b/src/idct/scalar.rs
index d00bb1a..8dc65e8 100644
--- a/src/idct/scalar.rs
+++ b/src/idct/scalar.rs
@@ -47,7 +47,8 @@ pub fn dequantize_and_idct_int(
             if &vector[1..] == &[0_i16; 63]
             {
                 // okay then if you work, yaay, let's write you really quick
-                let coeff = [((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128; 8];
+                let value = ((vector[0].wrapping_mul(qt_table.0[0] as i16)) >> 3) + 128;
+                let coeff = [value.max(0).min(255); 8];
 
                 macro_rules! store {
                     ($index:tt) => {
-- 
2.43.0


From 173b6023a8d357cda2e89609b10a916b683a041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 17/36] fix: allocate enough space for all rows of small
 progressive images

A chunk of output rows that did not fit was left out, wide and low images with vertical
sub-sampling came out black.
---
 src/mcu_prog.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index f9912e6..2bc5c6d 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -175,8 +175,6 @@ impl Decoder
         let extra_space = usize::from(self.interleaved) * 128 * usize::from(self.height()) * self.options.get_out_colorspace().num_components();
         let capacity = (usize::from(self.info.width) + 8) * (usize::from(self.info.height) + 8);
 
-        let mut out_vector = vec![0_u8; capacity * self.options.get_out_colorspace().num_components() + extra_space];
-
         // Things we need for multithreading.
         let h_max = self.h_max;
         let v_max = self.v_max;
@@ -188,10 +186,13 @@ impl Decoder
         let width = usize::from(self.width());
         // Divide the output into small blocks and send to threads/
         let chunks_size = width * self.options.get_out_colorspace().num_components() * 8 * h_max * v_max;
-        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Chunk sizes. Each determine how many pixels go per thread.
         let y_chunk_size =
             mcu_width * self.components[0].vertical_sample * self.components[0].horizontal_sample * bias;
+        // there should be enough space for every chunk, no matter how small the image is.
+        let out_size = max(capacity * output.num_components() + extra_space, chunks_size * (y.len() / y_chunk_size));
+        let mut out_vector = vec![0_u8; out_size];
+        let out_chunks = out_vector.chunks_exact_mut(chunks_size);
         // Divide into chunks
         let y_chunk = y.chunks_exact(y_chunk_size);
 
-- 
2.43.0


From ba6517ffb6d09aaad8110d9b511818591d2b92e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 18/36] fix: decode the last row of MCU's when their number is
 odd

Images with horizontal sub-sampling are processed two rows of MCU's at a time, the last
row of an odd number of them was left out.
---
 src/mcu.rs      | 13 +++++++++++--
 src/mcu_prog.rs |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mcu.rs b/src/mcu.rs
index bd4eedb..e663a53 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -151,11 +151,11 @@ impl Decoder
                 // Values for horizontal samples end halfway the image and do not complete an MCU width.
                 // To make it complete we multiply width by 2 and divide mcu_height by 2
                 mcu_width = self.mcu_x * 2;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
             } else if self.sub_sample_ratio == SubSampRatios::HV
             {
                 mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y / 2;
+                mcu_height = (self.mcu_y + 1) / 2;
                 bias = 2;
             } else {
                 mcu_width = self.mcu_x;
@@ -168,6 +168,9 @@ impl Decoder
             mcu_height = (usize::from(self.info.height) + 7) / 8;
         }
 
+        // MCU's the image has, when two rows are processed at once the second may not exist.
+        let mut mcus_left = self.mcu_x * self.mcu_y;
+
         if self.input_colorspace == ColorSpace::GRAYSCALE && self.interleaved {
             /*
             Apparently, grayscale images which can be down sampled exists, which is weird in the sense
@@ -192,6 +195,7 @@ impl Decoder
             self.components[0].width_stride = mcu_width * 8;
             self.components[0].horizontal_sample = 1;
             mcu_height = (usize::from(self.info.height) + 7) / 8;
+            mcus_left = mcu_width * mcu_height;
             bias = 1;
         }
         // Size of our output image(width*height)
@@ -257,6 +261,11 @@ impl Decoder
                 {
                     for j in 0..mcu_width
                     {
+                        if mcus_left == 0
+                        {
+                            break;
+                        }
+                        mcus_left -= 1;
                         // iterate over components
 
                         for pos in 0..self.input_colorspace.num_components()
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 2bc5c6d..2ed37b3 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -63,7 +63,8 @@ impl Decoder
         if self.interleaved
         {
             mcu_width = self.mcu_x;
-            mcu_height = self.mcu_y;
+            // two rows of MCU's are processed at once with horizontal sub-sampling.
+            mcu_height = if self.h_max == 2 { (self.mcu_y + 1) / 2 * 2 } else { self.mcu_y };
         } else {
             mcu_width = (self.info.width as usize + 7) / 8;
             mcu_height = (self.info.height as usize + 7) / 8;
-- 
2.43.0


From 56117a96dc8a1c6a8c6e6c450a13f3bf12192d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:06 +0000
Subject: [PATCH 19/36] fix: up-sample chroma row by row

Rows were up-sampled as if they were one long row, which mixed both edges of the image,
and images with quartered chroma as if pairs of rows were one row, which swapped rows.
---
 src/upsampler/scalar.rs | 10 ++++++++--
 src/worker.rs           | 11 ++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index a932b00..bcf7095 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -159,8 +159,14 @@ pub fn upsample_hv(input: &[i16], output_len: usize) -> Vec<i16>
 
     // first pass, do vertical sampling
     let first_pass = upsample_vertical(input, input.len() * 2);
-    //second pass, do horizontal sampling
-    let second_pass = upsample_horizontal(&first_pass, output_len);
+    //second pass, do horizontal sampling, one row at a time
+    let stride = input.len() >> 3;
+    let mut second_pass = Vec::with_capacity(output_len);
+
+    for row in first_pass.chunks_exact(stride)
+    {
+        second_pass.extend(upsample_horizontal(row, stride * 2));
+    }
 
     return second_pass;
 }
diff --git a/src/worker.rs b/src/worker.rs
index 5484df5..2f436a6 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -102,10 +102,19 @@ pub(crate) fn post_process_inner(
 
     if h_samp != 1 || v_samp != 1
     {
+        // Vertical up-sampling works on eight rows at a time, while the samples at the end of a row
+        // are no neighbours of those starting the next one.
+        let rows = if v_samp == 1 { 1 } else { 8 };
         // carry out upsampling , the return vector overwrites the original vector
         for i in 1..x
         {
-            unprocessed[i] = (component_data[i].up_sampler)(&unprocessed[i], unprocessed[0].len());
+            let mut up_sampled = Vec::with_capacity(unprocessed[0].len());
+
+            for chunk in unprocessed[i].chunks_exact(component_data[i].width_stride * rows)
+            {
+                up_sampled.extend((component_data[i].up_sampler)(chunk, chunk.len() * h_samp * v_samp));
+            }
+            unprocessed[i] = up_sampled;
         }
     }
 
-- 
2.43.0


From dc773d9aecc5c34273ab71f63f13f0af7c800d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 20/36] fix: make the AVX2 up-sampling of quartered chroma
 agree with the portable one

The end of every row was made from pixels further left without vertical interpolation,
and its start from pixels of the row before.
---
 src/upsampler/avx2.rs | 116 +++++++++++++++++-------------------------
 1 file changed, 47 insertions(+), 69 deletions(-)

diff --git a/src/upsampler/avx2.rs b/src/upsampler/avx2.rs
index fcc2b4e..c546b17 100644
--- a/src/upsampler/avx2.rs
+++ b/src/upsampler/avx2.rs
@@ -64,9 +64,6 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
     let mut pos = 0;
     let mut output_position = 0;
 
-    let mut prev = (3 * input[0] + input[stride] + 2) >> 2;
-    let mut pixel_far = (3 * input[pos + 16] + input[pos + stride + 16] + 2) >> 2;
-
     let three = _mm256_set1_epi16(3);
     let two = _mm256_set1_epi16(2);
 
@@ -82,7 +79,7 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
     }
 
     macro_rules! upsample_horizontal {
-        ($row:tt,$stride:tt) => {
+        ($row:tt,$stride:tt,$prev:tt,$next:tt) => {
             // AND THE implementation of srli is 2 128 bit shuffles.
             // Mahn intel really??
             // Therefore we need to emulate that instruction
@@ -106,9 +103,9 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
             // insert values
 
             // prev_array => [X0,B1,B2,B3,B4,B5,B6,B7]
-            prev_arr = _mm256_insert_epi16::<0>(prev_arr, prev);
+            prev_arr = _mm256_insert_epi16::<0>(prev_arr, $prev);
             // NEXT_ARR => [B0,B1,B2,B3,B4,B5,B6,X1]
-            next_arr = _mm256_insert_epi16::<15>(next_arr, pixel_far);
+            next_arr = _mm256_insert_epi16::<15>(next_arr, $next);
 
             // Okay at this point we have: (the arrows just show how prev_arr & next_arr differ from row_near)
             //              |                                                  |
@@ -220,15 +217,16 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
 
     let len = output_len / 16;
     let end = (input.len() >> 7).saturating_sub( 1);
-    // some calculations to determine how much will not be written per MCU.
-    let v = (output.len() / 16).saturating_sub (end * 32);
-
-
     // we need to iterate row wise
     // we initially have 8 rows we want to make 32, new rows,
     for j in 0..8
     {
 
+        let row_end = pos + input.len() / 8;
+        // the first pixel in a row has nothing before it, so it's its own neighbour.
+        let mut near_prev = vertical(input[pos], input[pos + stride]);
+        let mut far_prev = vertical(input[pos + stride], input[pos]);
+
         // loop row wise
         // we are feed it our stuff with 16 values, therefore we can loop the number of times we can
         // chunk data. into 16
@@ -249,68 +247,51 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
             // Pass 2: Horizontal upsampling
             //---------------------------------------------------------------------------
 
-            upsample_horizontal!(row_near, 0);
+            let near_next = vertical(input[pos + 16], input[pos + stride + 16]);
+            let far_next = vertical(input[pos + stride + 16], input[pos + 16]);
+
+            upsample_horizontal!(row_near, 0, near_prev, near_next);
 
-            upsample_horizontal!(row_far, (len));
+            upsample_horizontal!(row_far, (len), far_prev, far_next);
 
             output_position += 32;
             // ---------------------------------------------------------------------------
             // pass 2 complete
             // ===========================================================================
+            near_prev = vertical(input[pos + 15], input[pos + stride + 15]);
+            far_prev = vertical(input[pos + stride + 15], input[pos + 15]);
+
             pos += 16;
-            // update previous and next values
-            assert!(input.len() >= pos + stride + 16);
-            // Safety , the assert statement above ensures none of these goes out of bounds.
-            prev = (3 * (*input.get(pos).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride).unwrap_or(&0))
-                .wrapping_add(2)) >> 2;
-
-            pixel_far = (3 * (*input.get(pos + 16).unwrap_or(&0))
-                .wrapping_add (*input.get(pos + stride + 16).unwrap_or(&0))
-                .wrapping_add( 2)) >> 2;
         }
         // now there are some more data left, since we actually don't write
         // to the end of the array.
 
         // those whe handle using scalar code
-       
-        let (a,b )=  output.split_at_mut(output_position+v);
-        
-        let c = a.len()-v;
-    
-        // areas the vector code didn't touch
-        let unwritten = &mut a[c..];
-        let unwritten_stride = &mut b[len-v..len];
-     
-        
-        for (input_window,output_window) in input[pos-v/2-2..pos].windows(3).zip(unwritten.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
-        }
-        *unwritten.last_mut().unwrap() = input[pos];
-        
-        for (input_window,output_window) in input[pos-v/2+stride-2..pos+stride].windows(3).zip(unwritten_stride.chunks_exact_mut(2)){
-            let input_window: &[i16; 3] = input_window.try_into().unwrap();
-
-            let sample = 3 * input_window[1] + 2;
-    
-            output_window[0] = (sample + input_window[0]) >> 2;
-    
-            output_window[1] = (sample + input_window[2]) >> 2;
+        while pos < row_end
+        {
+            let next = (pos + 1).min(row_end - 1);
+
+            let near = vertical(input[pos], input[pos + stride]);
+            let far = vertical(input[pos + stride], input[pos]);
+
+            let near_next = vertical(input[next], input[next + stride]);
+            let far_next = vertical(input[next + stride], input[next]);
+
+            output[output_position] = (3 * near + near_prev + 2) >> 2;
+            output[output_position + 1] = (3 * near + near_next + 2) >> 2;
+
+            output[output_position + len] = (3 * far + far_prev + 2) >> 2;
+            output[output_position + len + 1] = (3 * far + far_next + 2) >> 2;
+
+            near_prev = near;
+            far_prev = far;
+
+            output_position += 2;
+            pos += 1;
         }
-        
-        *unwritten_stride.last_mut().unwrap() = input[pos+stride];
-        
-    
-
-        output_position += len+v;
-        pos+=v/2;
-        
+        // we wrote two rows
+        output_position += len;
+
         if modify_stride
         {
             stride = input.len() / 8;
@@ -326,21 +307,18 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
             stride = 0;
 
         }
-        // set some manually
-        output[output_position - len] = output[output_position - len + 1];
-
-        output[output_position - len - 2] = output[output_position - len - 4];
-
-        output[output_position - len - 1] = output[output_position - len - 3];
-
-        output[output_position - 2] = output[output_position - 4];
-
-        output[output_position - 1] = output[output_position - 3];
     }
 
     return output;
 }
 
+/// Vertical pass for a single pixel
+#[inline]
+const fn vertical(near: i16, far: i16) -> i16
+{
+    (3 * near + far + 2) >> 2
+}
+
 #[inline]
 const fn shuffle(z: i32, y: i32, x: i32, w: i32) -> i32
 {
-- 
2.43.0


From c45934faf48c5caf53484aebebd6930e604f0503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 21/36] fix: use the right neighbours for the last pixels in
 SSE up-sampling

---
 src/upsampler/sse.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/upsampler/sse.rs b/src/upsampler/sse.rs
index fc2feb3..0a420c8 100644
--- a/src/upsampler/sse.rs
+++ b/src/upsampler/sse.rs
@@ -120,13 +120,13 @@ pub unsafe fn upsample_horizontal_sse_u(input: &[i16], output_len: usize) -> Vec
 
     l_out[2] = (input[il + 1] * 3 + input[il] + 2) >> 2;
 
-    l_out[3] = (input[il + 1] * 3 + input[il + 1] + 2) >> 2;
+    l_out[3] = (input[il + 1] * 3 + input[il + 2] + 2) >> 2;
 
-    l_out[4] = (input[il + 2] * 3 + input[il + 2] + 2) >> 2;
+    l_out[4] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
 
-    l_out[5] = (input[il + 2] * 3 + input[il + 1] + 2) >> 2;
+    l_out[5] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
 
-    l_out[6] = (input[il + 2] * 3 + input[il + 3] + 2) >> 2;
+    l_out[6] = (input[il + 3] * 3 + input[il + 2] + 2) >> 2;
 
     l_out[7] = input[il + 3];
 
-- 
2.43.0


From bdde1c295eb709f0aea5d4d3bd4fe3071a409822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:41 +0000
Subject: [PATCH 22/36] fix: process columns first in the AVX2 IDCT

The portable version does, both round in between, so that pixels differed by one where
they are meant to be identical.
---
 src/idct/avx2.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index cf3f671..e3c46e6 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -330,12 +330,7 @@ unsafe fn dequantize_and_idct_int_avx2(
                 };
             }
 
-            transpose(
-                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
-                &mut row7,
-            );
-
-            // Process rows
+            // Process columns
             dct_pass!(512, 10);
 
             transpose(
@@ -343,10 +338,14 @@ unsafe fn dequantize_and_idct_int_avx2(
                 &mut row7,
             );
 
-            // process columns
+            // process rows
             dct_pass!(SCALE_BITS, 17);
 
             // transpose to original
+            transpose(
+                &mut row0, &mut row1, &mut row2, &mut row3, &mut row4, &mut row5, &mut row6,
+                &mut row7,
+            );
 
             // Pack i32 to i16's,
             // clamp them to be between 0-255
-- 
2.43.0


From dc9031c33a4d30426a73f7c4c2edb44d189a688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:27 +0000
Subject: [PATCH 23/36] fix: weigh the last pixels right in portable horizontal
 up-sampling

The last pixel but one got the weights of the pixel before it.
---
 src/upsampler/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index bcf7095..3ff8ca1 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -52,7 +52,7 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
     let i_last: &[i16; 2] = input.get(input_len..).unwrap().try_into().unwrap();
 
     // write out manually..
-    f_out[0] = (3 * i_last[0] + i_last[1] + 2) >> 2;
+    f_out[0] = (3 * i_last[1] + i_last[0] + 2) >> 2;
 
     f_out[1] = i_last[1];
 
-- 
2.43.0


From d9c98402e55319e28b260d70e6477f26a4c924b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:24 +0000
Subject: [PATCH 24/36] fix: vertical up-sampling was off by one row

The first two output rows were both a copy of the first input row, so every
pair interpolated between two rows ended up one row too high and the pair
between the first two rows was missing.
---
 src/upsampler/avx2.rs   | 83 +++++++++++++++++----------------------
 src/upsampler/scalar.rs | 86 +++++++++--------------------------------
 2 files changed, 54 insertions(+), 115 deletions(-)

diff --git a/src/upsampler/avx2.rs b/src/upsampler/avx2.rs
index c546b17..60d9f83 100644
--- a/src/upsampler/avx2.rs
+++ b/src/upsampler/avx2.rs
@@ -57,9 +57,7 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
     // okay for the next step lets play with AVX
 
     // Difference in  pixels for a width
-    let mut stride = 0;
-    //
-    let mut modify_stride = true;
+    let stride = input.len() / 8;
 
     let mut pos = 0;
     let mut output_position = 0;
@@ -198,22 +196,21 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
     }
 
     macro_rules! upsample_vertical {
-        ($load_near:tt,$load_far:tt,$row_near:tt,$row_far:tt) => {
-            let t2 = _mm256_add_epi16($load_far, two);
+        ($load_near:tt,$load_above:tt,$load_below:tt,$row_upper:tt,$row_lower:tt) => {
             let t1 = _mm256_mullo_epi16($load_near, three);
+            let t2 = _mm256_add_epi16($load_above, two);
 
-            // (near * 3 + far + 2 ) >> 2
-            $row_near = _mm256_srai_epi16::<2>(_mm256_add_epi16(t1, t2));
+            // (near * 3 + above + 2 ) >> 2
+            $row_upper = _mm256_srai_epi16::<2>(_mm256_add_epi16(t1, t2));
 
-            let t3 = _mm256_add_epi16($load_near, two);
-            let t4 = _mm256_mullo_epi16($load_far, three);
+            let t3 = _mm256_add_epi16($load_below, two);
 
-            // (far * 3 + near + 2 ) >> 2
-            $row_far = _mm256_srai_epi16::<2>(_mm256_add_epi16(t3, t4));
+            // (near * 3 + below + 2 ) >> 2
+            $row_lower = _mm256_srai_epi16::<2>(_mm256_add_epi16(t1, t3));
         };
     }
 
-    let (mut row_near, mut row_far);
+    let (mut row_upper, mut row_lower);
 
     let len = output_len / 16;
     let end = (input.len() >> 7).saturating_sub( 1);
@@ -223,9 +220,14 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
     {
 
         let row_end = pos + input.len() / 8;
+        // there is nothing above the first row and below the last one, there we
+        // get a nearest neighbour
+        let up = if j == 0 { 0 } else { stride };
+        let down = if j == 7 { 0 } else { stride };
+
         // the first pixel in a row has nothing before it, so it's its own neighbour.
-        let mut near_prev = vertical(input[pos], input[pos + stride]);
-        let mut far_prev = vertical(input[pos + stride], input[pos]);
+        let mut upper_prev = vertical(input[pos], input[pos - up]);
+        let mut lower_prev = vertical(input[pos], input[pos + down]);
 
         // loop row wise
         // we are feed it our stuff with 16 values, therefore we can loop the number of times we can
@@ -233,11 +235,12 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
         for _ in 0..end
         {
             let load_near = _mm256_loadu_si256(input[pos..].as_ptr().cast());
-            let load_far = _mm256_loadu_si256(input[pos + stride..].as_ptr().cast());
+            let load_above = _mm256_loadu_si256(input[pos - up..].as_ptr().cast());
+            let load_below = _mm256_loadu_si256(input[pos + down..].as_ptr().cast());
             // ==========================================================================
             // -> Pass 1:Vertical calculation.
             // --------------------------------------------------------------------------
-            upsample_vertical!(load_near, load_far, row_near, row_far);
+            upsample_vertical!(load_near, load_above, load_below, row_upper, row_lower);
 
             // --------------------------------------------------------------------------
             // Pass 1 : Complete
@@ -247,19 +250,19 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
             // Pass 2: Horizontal upsampling
             //---------------------------------------------------------------------------
 
-            let near_next = vertical(input[pos + 16], input[pos + stride + 16]);
-            let far_next = vertical(input[pos + stride + 16], input[pos + 16]);
+            let upper_next = vertical(input[pos + 16], input[pos - up + 16]);
+            let lower_next = vertical(input[pos + 16], input[pos + down + 16]);
 
-            upsample_horizontal!(row_near, 0, near_prev, near_next);
+            upsample_horizontal!(row_upper, 0, upper_prev, upper_next);
 
-            upsample_horizontal!(row_far, (len), far_prev, far_next);
+            upsample_horizontal!(row_lower, (len), lower_prev, lower_next);
 
             output_position += 32;
             // ---------------------------------------------------------------------------
             // pass 2 complete
             // ===========================================================================
-            near_prev = vertical(input[pos + 15], input[pos + stride + 15]);
-            far_prev = vertical(input[pos + stride + 15], input[pos + 15]);
+            upper_prev = vertical(input[pos + 15], input[pos - up + 15]);
+            lower_prev = vertical(input[pos + 15], input[pos + down + 15]);
 
             pos += 16;
         }
@@ -271,42 +274,26 @@ pub unsafe fn upsample_hv_avx(input: &[i16], output_len: usize) -> Vec<i16>
         {
             let next = (pos + 1).min(row_end - 1);
 
-            let near = vertical(input[pos], input[pos + stride]);
-            let far = vertical(input[pos + stride], input[pos]);
+            let upper = vertical(input[pos], input[pos - up]);
+            let lower = vertical(input[pos], input[pos + down]);
 
-            let near_next = vertical(input[next], input[next + stride]);
-            let far_next = vertical(input[next + stride], input[next]);
+            let upper_next = vertical(input[next], input[next - up]);
+            let lower_next = vertical(input[next], input[next + down]);
 
-            output[output_position] = (3 * near + near_prev + 2) >> 2;
-            output[output_position + 1] = (3 * near + near_next + 2) >> 2;
+            output[output_position] = (3 * upper + upper_prev + 2) >> 2;
+            output[output_position + 1] = (3 * upper + upper_next + 2) >> 2;
 
-            output[output_position + len] = (3 * far + far_prev + 2) >> 2;
-            output[output_position + len + 1] = (3 * far + far_next + 2) >> 2;
+            output[output_position + len] = (3 * lower + lower_prev + 2) >> 2;
+            output[output_position + len + 1] = (3 * lower + lower_next + 2) >> 2;
 
-            near_prev = near;
-            far_prev = far;
+            upper_prev = upper;
+            lower_prev = lower;
 
             output_position += 2;
             pos += 1;
         }
         // we wrote two rows
         output_position += len;
-
-        if modify_stride
-        {
-            stride = input.len() / 8;
-            modify_stride = false;
-
-        }
-        if j == 6
-        {
-            // when j is 6 it means we are at position 14, and 15, here we
-            // need to revert stride to be zero to get a nearest neighbour
-
-            // since there is no more row to look ahead using stride.
-            stride = 0;
-
-        }
     }
 
     return output;
diff --git a/src/upsampler/scalar.rs b/src/upsampler/scalar.rs
index 3ff8ca1..4a6f002 100644
--- a/src/upsampler/scalar.rs
+++ b/src/upsampler/scalar.rs
@@ -63,84 +63,36 @@ pub fn upsample_horizontal(input: &[i16], output_len: usize) -> Vec<i16>
 /// The algorithm is still a bi-linear filter with some caveats.
 pub fn upsample_vertical(input: &[i16], output_len: usize) -> Vec<i16>
 {
-    // the caveats, row_near and row_far for the first row point to the same
-    // array, that boils to a nearest neighbour upsampling?
-
-    // if row_near doesn't have data (next returns None), it uses it's
-    // previous row, so this again becomes a nearest neighbour
-
-    // How many pixels we need to skip to the next MCU row.
-    let stride = input.len() >> 3;
-
     // We have 8 rows and we want 16 rows
-    let mut row_near = input.chunks_exact(stride);
-
-    // row far should point one row below row_near, if row near is in row 3, row far is in
-    // row 4.
-    let mut row_far = input.chunks_exact(stride);
+    let stride = input.len() >> 3;
 
     let mut out = vec![0; output_len];
-    // nearest row
-    let mut rw_n = row_near.next().unwrap();
-    // farthest row;
-    let mut rw_f = row_far.next().unwrap();
-    // previous row, for out of edge cases, e.g if we reach a row and
-    // we don't have data for that row, we use the previous row
-    let mut previous;
 
-    let mut i = 0;
+    for (i, out_row) in out.chunks_exact_mut(stride).take(16).enumerate()
+    {
+        // the row this one lies in
+        let near = i >> 1;
+        // the upper half of a row is close to the row above, the lower half to the row below.
+        // There is nothing above the first row and below the last one, so there it
+        // boils down to a nearest neighbour upsampling
+        let far = if i & 1 == 0
+        {
+            near.saturating_sub(1)
+        }
+        else
+        {
+            (near + 1).min(7)
+        };
 
-    let mut next_row = true;
+        let row_near = &input[near * stride..(near + 1) * stride];
+        let row_far = &input[far * stride..(far + 1) * stride];
 
-    for _ in 0..8
-    {
-        // A bit of cheat here.
-        //
-        // Let me explain, split at mut will return two slices, one containing 0..stride
-        // and another containing what remains.
-        //
-        // The length of out_near => stride, remainder will ALWAYS be greater than or equal to stride.
-        // now this is important with the loop below, we are using zip iterators which have an interesting
-        // property, they stop if any iterator doesn't have elements
-        //
-        // So we know remainder will be >= stride but out_near will be stride, therefore the zip will
-        // effectively stop when we write two rows.
-        //
-        // Ideally all of this is done to eliminate bounds check, the compiler will vectorize this
-        // better without the bounds check.
-        let (out_near, remainder) = out[i..].split_at_mut(stride);
-
-        for (((near, far), on), of) in rw_n
-            .iter()
-            .zip(rw_f.iter())
-            .zip(out_near.iter_mut())
-            .zip(remainder.iter_mut())
+        for ((near, far), on) in row_near.iter().zip(row_far.iter()).zip(out_row.iter_mut())
         {
             // Yes this can be easily accelerated, with SSE or AVX,
             // but it's a maintenance overhead and the compiler does an amazing work
             // here so Id rather not do it (even libjpeg doesn't :) )
-
-            // near row
             *on = ((*near) * 3 + (*far) + 2) >> 2;
-            // far row
-            *of = ((*far) * 3 + (*near) + 2) >> 2;
-        }
-        // we wrote two adjacent lines update i to point to next position
-        // in output buffer.
-        i += stride * 2;
-
-        previous = rw_n;
-
-        rw_n = row_near.next().unwrap_or(previous);
-
-        rw_f = row_far.next().unwrap_or(rw_n);
-        // okay here I'm lazy. Ideally what i want s simply this.
-        // for the first row, keep row_near and row_far to the same, row, but for sub-sequent rows,
-        // row_far should point to the next row(1 row further than this row_near).
-        if next_row
-        {
-            rw_f = row_far.next().unwrap_or(rw_n);
-            next_row = false;
         }
     }
     return out;
-- 
2.43.0


From 6f6ea4429684969561764e34c841adbe0b6272aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 25/36] fix: fill bytes before a marker were taken for an
 unknown segment

B.1.1.2 allows any number of 0xFF bytes before a marker; what followed was
read as a length and that many bytes of the headers skipped.
---
 src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index cd4d9bd..a314ef8 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -280,6 +280,11 @@ impl Decoder
             // like OxFF(some marker data)
             if last_byte == 0xFF
             {
+                // B.1.1.2, any marker may be preceded by any number of fill bytes
+                if m == 0xFF
+                {
+                    continue;
+                }
                 let marker = Marker::from_u8(m);
 
                 bytes_before_marker = 0;
-- 
2.43.0


From bf9b617a32e75db89c9e416365977f80278969ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 26/36] fix: Huffman tables before the header of a progressive
 frame

Their fast look-up took end of band runs for the end of a baseline block.
---
 src/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decoder.rs b/src/decoder.rs
index a314ef8..e17b7cb 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -353,6 +353,12 @@ impl Decoder
                     else
                     {
                         self.is_progressive = true;
+                        // tables that came before the frame header were set up for
+                        // baseline images, where an end of block has another meaning
+                        for table in self.ac_huffman_tables.iter_mut().flatten()
+                        {
+                            *table = HuffmanTable::new(&table.bits, table.values, false, true)?;
+                        }
 
                         SOFMarkers::ProgressiveDctHuffman
                     }
-- 
2.43.0


From 55ab6c3fa4cfccf5edcdb6ccbdc6c756615da706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 27/36] fix: segments between progressive scans ended the
 decode

DRI, DQT, comments and application data may precede any scan; the scans
behind them were silently ignored.
---
 src/marker.rs   | 4 +---
 src/mcu_prog.rs | 7 ++++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index 6e44034..0e604f8 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -70,9 +70,7 @@ impl Marker
             0xDB => Some(DQT),
             0xDC => Some(DNL),
             0xDD => Some(DRI),
-            0xE0 => Some(APP(0)),
-            0xE1 => Some(APP(1)),
-            0xEE => Some(APP(14)),
+            0xE0..=0xEF => Some(APP(n - 0xE0)),
             _ => None,
         }
     }
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 2ed37b3..5be4ff6 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -35,7 +35,7 @@ use crate::components::{ComponentID, SubSampRatios};
 use crate::decoder::MAX_COMPONENTS;
 use crate::errors::DecodeErrors;
 use crate::errors::DecodeErrors::Format;
-use crate::headers::{parse_huffman, parse_sos};
+use crate::headers::parse_sos;
 use crate::marker::Marker;
 use crate::misc::read_byte;
 use crate::worker::post_process;
@@ -94,8 +94,9 @@ impl Decoder
 
             match marker
             {
-                Marker::DHT => {
-                    parse_huffman(self, reader)?;
+                // tables and miscellaneous segments may precede every scan, see B.2.1 and B.2.4
+                Marker::DHT | Marker::DQT | Marker::DRI | Marker::COM | Marker::APP(_) => {
+                    self.parse_marker_inner(marker, reader)?;
                 }
                 Marker::SOS =>
                     {
-- 
2.43.0


From 338b3b45c7a9595e498769bd0a8122c21663aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:19 +0000
Subject: [PATCH 28/36] fix: quantization tables behind the frame header were
 ignored

They may come anywhere before the first scan of a component (B.2.4.1); such
images were refused.
---
 src/components.rs |  3 +++
 src/headers.rs    | 33 +++++++++++++++++++--------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index e76339a..07ceab0 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -31,6 +31,8 @@ pub(crate) struct Components
     pub quantization_table_number: u8,
     /// Specifies quantization table to use with this component
     pub quantization_table:        Aligned32<[i32; 64]>,
+    /// Whether the above was set, that happens in the first scan of the component
+    pub has_quantization_table:    bool,
     /// dc prediction for the component
     pub dc_pred:                   i32,
     /// An up-sampling function, can be basic or SSE, depending
@@ -105,6 +107,7 @@ impl Components
             dc_huff_table: 0,
             ac_huff_table: 0,
             quantization_table: Aligned32([0; 64]),
+            has_quantization_table: false,
             dc_pred: 0,
             up_sampler: upsample_no_op,
             // set later
diff --git a/src/headers.rs b/src/headers.rs
index b116bb4..2393fb3 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -333,24 +333,10 @@ where
             // not equal to 1.
             img.interleaved = true;
         }
-        // Extract quantization tables from the arrays into components
-        let qt_table = *img.qt_tables[component.quantization_table_number as usize]
-            .as_ref()
-            .ok_or_else(|| {
-                DecodeErrors::DqtError(format!(
-                    "No quantization table for component {:?}",
-                    component.component_id
-                ))
-            })?;
-
-        component.quantization_table = Aligned32(qt_table);
         // initially stride contains its horizontal sub-sampling
         component.width_stride *= img.mcu_x * 8;
     }
 
-    // delete quantization tables, we'll extract them from the components when
-    // needed
-    img.qt_tables = [None, None, None, None];
     img.components = components;
 
     Ok(())
@@ -444,6 +430,25 @@ where
 
         image.components[usize::from(j)].dc_huff_table = usize::from((y >> 4) & 0xF);
         image.components[usize::from(j)].ac_huff_table = usize::from(y & 0xF);
+
+        // Extract quantization tables from the arrays into components, they may come
+        // anywhere before the first scan of a component
+        let component = &mut image.components[usize::from(j)];
+
+        if !component.has_quantization_table
+        {
+            let qt_table = *image.qt_tables[component.quantization_table_number as usize]
+                .as_ref()
+                .ok_or_else(|| {
+                    DecodeErrors::DqtError(format!(
+                        "No quantization table for component {:?}",
+                        component.component_id
+                    ))
+                })?;
+
+            component.quantization_table = Aligned32(qt_table);
+            component.has_quantization_table = true;
+        }
         image.z_order[i as usize] = j as usize;
     }
 
-- 
2.43.0


From 78662143592b8eb23257a0f181c39ba972ba6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 29/36] fix: sequential images with more than one scan came out
 as garbage

The data of the first scan was taken for all components interleaved. Such
images are put together scan by scan now, the way progressive ones are.
---
 src/decoder.rs  |  4 +++-
 src/mcu_prog.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index e17b7cb..7907214 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -464,7 +464,9 @@ impl Decoder
 
         self.decode_headers_internal(&mut buf)?;
 
-        if self.is_progressive
+        // sequential images that do not have all of their components in a single scan are put
+        // together scan by scan, just like progressive ones.
+        if self.is_progressive || usize::from(self.num_scans) < self.components.len()
         {
             self.decode_mcu_ycbcr_progressive(&mut buf)
         }
diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 5be4ff6..6f2fa07 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -31,11 +31,12 @@ use std::io::Cursor;
 use std::sync::Arc;
 
 use crate::bitstream::BitStream;
-use crate::components::{ComponentID, SubSampRatios};
+use crate::components::{ComponentID, Components, SubSampRatios};
 use crate::decoder::MAX_COMPONENTS;
 use crate::errors::DecodeErrors;
 use crate::errors::DecodeErrors::Format;
 use crate::headers::parse_sos;
+use crate::huffman::HuffmanTable;
 use crate::marker::Marker;
 use crate::misc::read_byte;
 use crate::worker::post_process;
@@ -271,7 +272,7 @@ impl Decoder
         if self.num_scans == 1
         {
             // Safety checks
-            if self.spec_end != 0 && self.spec_start == 0
+            if self.is_progressive && self.spec_end != 0 && self.spec_start == 0
             {
                 return Err(DecodeErrors::HuffmanDecode(
                     "Can't merge DC and AC corrupt jpeg".to_string(),
@@ -315,7 +316,12 @@ impl Decoder
                         .unwrap().get_mut(start..start + 64)
                         .unwrap().try_into().unwrap();
 
-                    if self.spec_start == 0
+                    if !self.is_progressive
+                    {
+                        decode_sequential_block(reader, stream, &mut self.components[k],
+                                                &self.dc_huffman_tables, &self.ac_huffman_tables, data)?;
+                    }
+                    else if self.spec_start == 0
                     {
                         let pos = self.components[k].dc_huff_table & (MAX_COMPONENTS - 1);
                         let dc_table = self.dc_huffman_tables.get(pos)
@@ -381,7 +387,7 @@ impl Decoder
                 i += 1;
             }
         } else {
-            if self.spec_end != 0
+            if self.is_progressive && self.spec_end != 0
             {
                 return Err(DecodeErrors::HuffmanDecode(
                     "Can't merge dc and AC corrupt jpeg".to_string(),
@@ -405,6 +411,26 @@ impl Decoder
                         }
 
                         let component = &mut self.components[n];
+
+                        if !self.is_progressive
+                        {
+                            for v_samp in 0..component.vertical_sample
+                            {
+                                for h_samp in 0..component.horizontal_sample
+                                {
+                                    let x2 = j * component.horizontal_sample + h_samp;
+                                    let y2 = i * component.vertical_sample + v_samp;
+                                    let start = 64 * (x2 + y2 * component.width_stride / 8);
+                                    let data: &mut [i16; 64] = buffer[n].get_mut(start..start + 64)
+                                        .unwrap().try_into().unwrap();
+
+                                    decode_sequential_block(reader, stream, component,
+                                                            &self.dc_huffman_tables, &self.ac_huffman_tables, data)?;
+                                }
+                            }
+                            continue;
+                        }
+
                         let huff_table = self.dc_huffman_tables.get(component.dc_huff_table)
                             .ok_or_else(|| DecodeErrors::Format(format!("No huffman table for component:{}", component.dc_huff_table)))?
                             .as_ref()
@@ -444,6 +470,20 @@ impl Decoder
     }
 }
 
+/// Decode a whole block of a sequential scan
+fn decode_sequential_block(
+    reader: &mut Cursor<Vec<u8>>, stream: &mut BitStream, component: &mut Components,
+    dc_tables: &[Option<HuffmanTable>], ac_tables: &[Option<HuffmanTable>], block: &mut [i16; 64],
+) -> Result<(), DecodeErrors>
+{
+    let missing = || DecodeErrors::FormatStatic("No huffman table for component");
+
+    let dc_table = dc_tables.get(component.dc_huff_table).and_then(Option::as_ref).ok_or_else(missing)?;
+    let ac_table = ac_tables.get(component.ac_huff_table).and_then(Option::as_ref).ok_or_else(missing)?;
+
+    stream.decode_mcu_block(reader, dc_table, ac_table, block, &mut component.dc_pred)
+}
+
 ///Get a marker from the bit-stream.
 ///
 /// This reads until it gets a marker or end of file is encountered
-- 
2.43.0


From 29707e91249813bf1b544b4676ccbe2ece778e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:24 +0000
Subject: [PATCH 30/36] fix: frame headers that give two components the same ID
 made progressive images panic

---
 src/headers.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/headers.rs b/src/headers.rs
index 2393fb3..6ff2388 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -308,6 +308,13 @@ where
         // create a component.
         let component = Components::from(temp)?;
 
+        if components.iter().any(|other: &Components| other.id == component.id)
+        {
+            return Err(DecodeErrors::SofError(format!(
+                "Component ID {} seen twice in the frame header",
+                component.id
+            )));
+        }
         components.push(component);
     }
 
-- 
2.43.0


From f58dc3b9aa785abc672b66dd407d13a6b7dc94c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:42 +0000
Subject: [PATCH 31/36] fix: refinement scans of corrupt images overflowed
 coefficients

---
 src/bitstream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitstream.rs b/src/bitstream.rs
index 5770ae3..97f56e2 100644
--- a/src/bitstream.rs
+++ b/src/bitstream.rs
@@ -574,11 +574,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
 
@@ -635,11 +635,11 @@ impl BitStream
                         {
                             if *coefficient >= 0
                             {
-                                *coefficient += bit;
+                                *coefficient = coefficient.wrapping_add(bit);
                             }
                             else
                             {
-                                *coefficient -= bit;
+                                *coefficient = coefficient.wrapping_sub(bit);
                             }
                         }
                     }
-- 
2.43.0


From ff018cfb0e1abebce801c42cc7d6b52e92b2d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:42 +0000
Subject: [PATCH 32/36] fix: load coefficients without assuming that they are
 aligned

---
 src/idct/avx2.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/idct/avx2.rs b/src/idct/avx2.rs
index e3c46e6..19ba874 100644
--- a/src/idct/avx2.rs
+++ b/src/idct/avx2.rs
@@ -104,19 +104,19 @@ unsafe fn dequantize_and_idct_int_avx2(
             // We sign extend i16's to i32's and calculate them with extended precision and
             // later reduce them to i16's when we are done carrying out IDCT
 
-            let rw0 = _mm_load_si128(vector[0..=7].as_ptr().cast());
+            let rw0 = _mm_loadu_si128(vector[0..=7].as_ptr().cast());
 
-            let rw1 = _mm_load_si128(vector[8..=15].as_ptr().cast());
+            let rw1 = _mm_loadu_si128(vector[8..=15].as_ptr().cast());
 
-            let rw2 = _mm_load_si128(vector[16..=23].as_ptr().cast());
+            let rw2 = _mm_loadu_si128(vector[16..=23].as_ptr().cast());
 
-            let rw3 = _mm_load_si128(vector[24..=31].as_ptr().cast());
+            let rw3 = _mm_loadu_si128(vector[24..=31].as_ptr().cast());
 
-            let rw4 = _mm_load_si128(vector[32..=39].as_ptr().cast());
+            let rw4 = _mm_loadu_si128(vector[32..=39].as_ptr().cast());
 
-            let rw5 = _mm_load_si128(vector[40..=47].as_ptr().cast());
+            let rw5 = _mm_loadu_si128(vector[40..=47].as_ptr().cast());
 
-            let rw6 = _mm_load_si128(vector[48..=55].as_ptr().cast());
+            let rw6 = _mm_loadu_si128(vector[48..=55].as_ptr().cast());
 
             let rw7 = _mm_loadu_si128(vector[56..=63].as_ptr().cast());
 
-- 
2.43.0


From c839ecb1d1cd9bfa0a1d47a7153ef736fe1d5048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 33/36] fix: set_num_threads panicked for counts whose low 32
 bits are zero

and took the low 32 bits of other large counts.
---
 src/decoder.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 7907214..4b6f372 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -622,7 +622,7 @@ impl Decoder
     /// This allows the end user to manually set decoding threads
     ///
     /// # Errors
-    /// Errors when value is `0`
+    /// Errors when value is `0` or does not fit into 32 bits
     ///
     /// # Example
     /// ```
@@ -632,7 +632,6 @@ impl Decoder
     /// img.set_num_threads(3).unwrap(); // spawn only three threads
     /// ```
     #[deprecated(since = "0.2.0", note = "Use new_with_options to set options")]
-    #[allow(clippy::cast_possible_truncation)]
     pub fn set_num_threads(&mut self, threads: usize) -> Result<(), DecodeErrors>
     {
         if threads == 0
@@ -641,9 +640,12 @@ impl Decoder
                 "Cannot set zero threads to decode image",
             ));
         }
-        self.options = self
-            .options
-            .set_num_threads(NonZeroU32::new(threads as u32).unwrap());
+        let threads = u32::try_from(threads)
+            .ok()
+            .and_then(NonZeroU32::new)
+            .ok_or(DecodeErrors::FormatStatic("Too many threads"))?;
+
+        self.options = self.options.set_num_threads(threads);
         Ok(())
     }
     /// Check that all components have the correct width and height
-- 
2.43.0


From f59359c7d1c0e46833b3b0476b85871ae062bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:59 +0000
Subject: [PATCH 34/36] fix: a restart marker left over from a corrupt scan
 ended the image, dropping the scans after it

---
 src/mcu_prog.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 6f2fa07..0d92f65 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -99,6 +99,8 @@ impl Decoder
                 Marker::DHT | Marker::DQT | Marker::DRI | Marker::COM | Marker::APP(_) => {
                     self.parse_marker_inner(marker, reader)?;
                 }
+                // left over from a corrupt scan, scans that come after it are not affected
+                Marker::RST(_) => {}
                 Marker::SOS =>
                     {
                         parse_sos(reader, self)?;
-- 
2.43.0


From ccdd88425344de4eaa73a6dc628d0853e828f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 35/36] fix: a corrupt restart interval that left data behind
 shifted everything after it

---
 src/mcu.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mcu.rs b/src/mcu.rs
index e663a53..a9c3716 100644
--- a/src/mcu.rs
+++ b/src/mcu.rs
@@ -401,6 +401,12 @@ impl Decoder
             // the bits before the marker were enough, the marker itself wasn't read yet.
             stream.refill(reader)?;
         }
+        // a corrupt interval may leave data behind, the next one starts after the marker
+        while stream.marker.is_none() && (reader.position() as usize) < reader.get_ref().len()
+        {
+            stream.bits_left = 0;
+            stream.refill(reader)?;
+        }
         if let Some(marker) = stream.marker
         {
             // Found a marker
-- 
2.43.0


From 46116c0b70954748a4ffcb236d6995b96f6ff075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 36/36] fix: an end of band run in a corrupt restart interval
 went over its end, shifting everything after it

---
 src/mcu_prog.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mcu_prog.rs b/src/mcu_prog.rs
index 0d92f65..b1f4f35 100644
--- a/src/mcu_prog.rs
+++ b/src/mcu_prog.rs
@@ -26,7 +26,7 @@
 //!
 //! So here we use a different scheme. Just decode everything and then finally use threads when post processing.
 
-use std::cmp::max;
+use std::cmp::{max, min};
 use std::io::Cursor;
 use std::sync::Arc;
 
@@ -363,10 +363,18 @@ impl Decoder
                                 // which is more faster than a decrement and return since EOB runs can be
                                 // as big as 10,000
 
-                                i += (j + stream.eob_run as usize - 1) / mcu_width;
-                                j = (j + stream.eob_run as usize - 1) % mcu_width;
+                                let mut run = stream.eob_run as usize;
+
+                                if self.restart_interval != 0
+                                {
+                                    // a run ends with its restart interval.
+                                    run = min(run, self.todo);
+                                }
+
+                                i += (j + run - 1) / mcu_width;
+                                j = (j + run - 1) % mcu_width;
                                 // skipped blocks count for restart intervals too.
-                                self.todo = max(self.todo.saturating_sub(stream.eob_run as usize - 1), 1);
+                                self.todo = max(self.todo.saturating_sub(run - 1), 1);
                                 stream.eob_run = 0;
                             } else {
                                 stream.decode_mcu_ac_first(reader, ac_table, data)?;
-- 
2.43.0

