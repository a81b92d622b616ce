From 9e2c2aabb05a915c2048d0f2290940683729fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 001/157] fix: inflate loses its place after a stored block at
 the end of the input

The bit buffer may already hold bytes appended past the end of the input, which the
position computed for a stored block and for the checksum did not account for.
---
 crates/zune-inflate/src/bitstream.rs | 7 ++++---
 crates/zune-inflate/src/decoder.rs   | 9 ++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/zune-inflate/src/bitstream.rs b/crates/zune-inflate/src/bitstream.rs
index 6c5ce0a..ec79b7b 100644
--- a/crates/zune-inflate/src/bitstream.rs
+++ b/crates/zune-inflate/src/bitstream.rs
@@ -144,14 +144,15 @@ impl<'src> BitStreamReader<'src> {
     /// Get position the stream is in this buffer
     /// Or alternatively, number of bits read.
     pub fn get_position(&self) -> usize {
-        self.position
-            .saturating_sub(usize::from(self.bits_left >> 3))
+        // bytes implicitly appended past the end are in the bit buffer too
+        (self.position + self.over_read).saturating_sub(usize::from(self.bits_left >> 3))
     }
 
-    /// Reset buffer and bits left to zero.
+    /// Reset buffer, bits left and over-read bytes to zero.
     pub fn reset(&mut self) {
         self.buffer = 0;
         self.bits_left = 0;
+        self.over_read = 0;
     }
     /// Return true if the bit buffer can satisfy
     /// `bits` read without refilling,
diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 4a074bf..41c2a9e 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -307,7 +307,7 @@ impl<'a> DeflateDecoder<'a> {
 
         if self.options.confirm_checksum {
             // Get number of consumed bytes from the input
-            let out_pos = self.stream.get_position() + self.position + self.stream.over_read;
+            let out_pos = self.stream.get_position() + self.position;
 
             // read adler
             if let Some(adler) = self.data.get(out_pos..out_pos + 4) {
@@ -461,7 +461,7 @@ impl<'a> DeflateDecoder<'a> {
 
         let data = self.decode_deflate()?;
 
-        let mut out_pos = self.stream.get_position() + self.position + self.stream.over_read;
+        let mut out_pos = self.stream.get_position() + self.position;
 
         if self.options.confirm_checksum {
             // Get number of consumed bytes from the input
@@ -602,7 +602,7 @@ impl<'a> DeflateDecoder<'a> {
                 }
                 let len = len as usize;
 
-                let start = self.stream.get_position() + self.position + self.stream.over_read;
+                let start = self.stream.get_position() + self.position;
 
                 // ensure there is enough space for a fast copy
                 if dest_offset + len + FASTCOPY_BYTES > out_block.len() {
@@ -636,8 +636,7 @@ impl<'a> DeflateDecoder<'a> {
                 dest_offset += len;
 
                 // get the new position to write.
-                self.stream.position =
-                    len + (self.stream.position - usize::from(self.stream.bits_left >> 3));
+                self.stream.position = start + len - self.position;
 
                 self.stream.reset();
 
-- 
2.43.0


From 58b724e24c0006e3c0daf60bda91cb3fa68fe6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 002/157] fix: inflate runs out of bits on long offset codes

A literal, a length and an offset can need 59 bits, more than one refill guarantees.
---
 crates/zune-inflate/src/decoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 41c2a9e..246535e 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -838,6 +838,12 @@ impl<'a> DeflateDecoder<'a> {
                          */
                         let entry_dup = entry;
 
+                        // an offset can need 15 bits for its code and 13 extra bits, which may
+                        // not be left after a literal and a long length
+                        if self.stream.bits_left < 15 + 13 {
+                            self.stream.refill();
+                        }
+
                         entry = offset_decode_table[self.stream.peek_bits::<OFFSET_TABLEBITS>()];
                         length = (entry_dup >> 16) as usize;
 
@@ -874,7 +880,7 @@ impl<'a> DeflateDecoder<'a> {
                         src_offset = dest_offset - offset;
 
                         if self.stream.bits_left < 11 {
-                            self.stream.refill_inner_loop();
+                            self.stream.refill();
                         }
                         // Copy some bytes unconditionally
                         // This makes us copy smaller match lengths quicker because we don't need
-- 
2.43.0


From eae12152c32428e07e73cc3672e1eb6bd689d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 003/157] fix: disabling unsafe code does not disable platform
 intrinsics

---
 crates/zune-core/src/options/decoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zune-core/src/options/decoder.rs b/crates/zune-core/src/options/decoder.rs
index 6093c70..3a9a96d 100644
--- a/crates/zune-core/src/options/decoder.rs
+++ b/crates/zune-core/src/options/decoder.rs
@@ -439,7 +439,7 @@ impl DecoderOptions {
     /// false if it's not present
     #[allow(unreachable_code)]
     pub fn use_sse2(&self) -> bool {
-        let opt = self.flags.zune_use_sse2 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse2 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -472,7 +472,7 @@ impl DecoderOptions {
     /// it's not present
     #[allow(unreachable_code)]
     pub fn use_sse3(&self) -> bool {
-        let opt = self.flags.zune_use_sse3 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse3 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -504,7 +504,7 @@ impl DecoderOptions {
     /// is not present
     #[allow(unreachable_code)]
     pub fn use_sse41(&self) -> bool {
-        let opt = self.flags.zune_use_sse41 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse41 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -536,7 +536,7 @@ impl DecoderOptions {
     /// not present
     #[allow(unreachable_code)]
     pub fn use_avx(&self) -> bool {
-        let opt = self.flags.zune_use_avx | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_avx & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -568,7 +568,7 @@ impl DecoderOptions {
     /// present
     #[allow(unreachable_code)]
     pub fn use_avx2(&self) -> bool {
-        let opt = self.flags.zune_use_avx2 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_avx2 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -596,7 +596,7 @@ impl DecoderOptions {
 
     #[allow(unreachable_code)]
     pub fn use_neon(&self) -> bool {
-        let opt = self.flags.zune_use_neon | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_neon & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
-- 
2.43.0


From ddefc424318f206cc9927d7cc6366807fc00b4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 004/157] fix: tRNS of 16-bit images is compared in the wrong
 byte order

---
 crates/zune-png/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-png/src/utils.rs b/crates/zune-png/src/utils.rs
index 1633e4d..e844ddc 100644
--- a/crates/zune-png/src/utils.rs
+++ b/crates/zune-png/src/utils.rs
@@ -135,7 +135,7 @@ pub fn expand_trns<const SIXTEEN_BITS: bool>(
     if SIXTEEN_BITS {
         match color {
             PngColor::Luma => {
-                let trns_byte = trns_bytes[0].to_ne_bytes();
+                let trns_byte = trns_bytes[0].to_be_bytes();
 
                 for (in_chunk, chunk) in input.chunks_exact(2).zip(out.chunks_exact_mut(4)) {
                     chunk[..2].copy_from_slice(in_chunk);
@@ -150,9 +150,9 @@ pub fn expand_trns<const SIXTEEN_BITS: bool>(
                 }
             }
             PngColor::RGB => {
-                let r = trns_bytes[0].to_ne_bytes();
-                let g = trns_bytes[1].to_ne_bytes();
-                let b = trns_bytes[2].to_ne_bytes();
+                let r = trns_bytes[0].to_be_bytes();
+                let g = trns_bytes[1].to_be_bytes();
+                let b = trns_bytes[2].to_be_bytes();
 
                 // copy all trns chunks into one big vector
                 let mut all: [u8; 6] = [0; 6];
-- 
2.43.0


From bc098bfa4877142d162384d796d333fb49219398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 005/157] fix: added alpha channel is wrong in the last row of
 images below 8 bits

---
 crates/zune-png/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index cf55eb3..3adb2a7 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1183,7 +1183,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 let to_filter_row = &mut out[(i - 1) * out_chunk_size..i * out_chunk_size];
 
                 // check if we will run any other transform
-                let extra_transform = self.seen_ptle | self.seen_trns;
+                let extra_transform = self.seen_ptle | self.seen_trns | add_alpha_channel;
 
                 if info.depth < 8 {
                     if extra_transform {
-- 
2.43.0


From d84205f5f1182cbc286210e2edcc7f9f9cf66711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 006/157] fix: adding an alpha channel overwrites the tRNS
 transparency

---
 crates/zune-png/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 3adb2a7..2e15e86 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1165,7 +1165,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         // Normal expansion
                         expand_palette(&self.previous_stride, to_filter_row, plte_entry, 3);
                     }
-                } else if add_alpha_channel {
+                } else if add_alpha_channel && !self.seen_trns {
                     // the image is a normal RGB/ Luma image, which we need to add the alpha channel
                     // do it here
                     add_alpha(
@@ -1255,7 +1255,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                     } else {
                         expand_palette(&self.previous_stride, to_filter_row, plte_entry, 3);
                     }
-                } else if add_alpha_channel {
+                } else if add_alpha_channel && !self.seen_trns {
                     add_alpha(
                         &self.previous_stride,
                         to_filter_row,
-- 
2.43.0


From 77fb5ad2ecca43fca26301d386761d040997c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 007/157] fix: 16-bit PNG reduced to 8 bits keeps the low byte
 in little endian mode and reports 16 bits

---
 crates/zune-png/src/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 2e15e86..ef44975 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -251,6 +251,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         }
         match self.png_info.depth {
             1 | 2 | 4 | 8 => Some(BitDepth::Eight),
+            // the samples will be reduced to 8 bits
+            16 if self.options.png_get_strip_to_8bit() => Some(BitDepth::Eight),
             16 => Some(BitDepth::Sixteen),
             _ => unreachable!()
         }
@@ -1172,7 +1174,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         &self.previous_stride,
                         to_filter_row,
                         self.png_info.color,
-                        self.depth().unwrap()
+                        if info.depth == 16 { BitDepth::Sixteen } else { BitDepth::Eight }
                     );
                 }
             }
@@ -1260,7 +1262,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         &self.previous_stride,
                         to_filter_row,
                         self.png_info.color,
-                        self.depth().unwrap()
+                        if info.depth == 16 { BitDepth::Sixteen } else { BitDepth::Eight }
                     );
                 }
             }
-- 
2.43.0


From 46c9e301bfd7785ae0eb2114cb5933da579404ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 008/157] fix: PNG text and ICC chunks with 79-byte keywords
 are dropped

---
 crates/zune-png/src/headers/readers.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index e0853f2..7b6aede 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -320,7 +320,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
     /// Parse the iCCP chunk
     pub(crate) fn parse_iccp(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        // a keyword has up to 79 bytes and is followed by a null byte
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
@@ -359,7 +360,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
     /// Parse the text chunk
     pub(crate) fn parse_text(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        // a keyword has up to 79 bytes and is followed by a null byte
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
@@ -389,7 +391,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
     /// Parse the itXT chunk
     pub(crate) fn parse_itxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        // a keyword has up to 79 bytes and is followed by a null byte
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
@@ -424,7 +427,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
     /// Parse zTxt chunk
     pub(crate) fn parse_ztxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        // a keyword has up to 79 bytes and is followed by a null byte
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
-- 
2.43.0


From 4b4d81685355dba998d1b6ccba4429b290d3c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:29 +0000
Subject: [PATCH 009/157] fix: interlaced animation frames smaller than the
 canvas are scrambled

---
 crates/zune-png/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index ef44975..06d5480 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -813,7 +813,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         let out_y = j * YSPC[p] + YORIG[p];
                         let out_x = i * XSPC[p] + XORIG[p];
 
-                        let final_start = out_y * info.width * out_bytes + out_x * out_bytes;
+                        let final_start = out_y * frame_info.width * out_bytes + out_x * out_bytes;
                         let out_start = (j * x + i) * out_bytes;
 
                         if let Some(e) = out.get_mut(final_start..final_start + out_bytes) {
-- 
2.43.0


From e7939e8c1b8d4ba50ddcf3b165b68db97939527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:29 +0000
Subject: [PATCH 010/157] fix: reducing 16-bit animation frames to 8 bits:
 decode_raw breaks later decode_into calls and small frames

---
 crates/zune-png/src/decoder.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 06d5480..3ab0f67 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -171,8 +171,7 @@ pub struct PngDecoder<T> {
     pub(crate) seen_headers:            bool,
     pub(crate) seen_trns:               bool,
     pub(crate) seen_iend:               bool,
-    pub(crate) current_frame:           usize,
-    pub(crate) called_from_decode_into: bool
+    pub(crate) current_frame:           usize
 }
 
 impl<T: ZByteReaderTrait> PngDecoder<T> {
@@ -216,8 +215,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             seen_headers:            false,
             seen_iend:               false,
             trns_bytes:              [0; 4],
-            current_frame:           0,
-            called_from_decode_into: true
+            current_frame:           0
         }
     }
 
@@ -592,10 +590,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         self.decode_headers()?;
 
         // in case we are to decode from 16 bit to 8 bit, allocate separate and decode
-        if self.called_from_decode_into
-            && self.png_info.depth == 16
-            && self.options.png_get_strip_to_8bit()
-        {
+        if self.png_info.depth == 16 && self.options.png_get_strip_to_8bit() {
             let image_len = self.output_buffer_size().unwrap();
 
             if out.len() < image_len {
@@ -684,14 +679,12 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     ///
     pub fn decode_raw(&mut self) -> Result<Vec<u8>, PngDecodeErrors> {
         self.decode_headers()?;
-        self.called_from_decode_into = false;
 
         // allocate
-        let new_len = self.output_buffer_size().unwrap();
         let t = self.inner_buffer_size().unwrap();
         let mut out: Vec<u8> = vec![0; t];
         //decode
-        self.decode_into(&mut out)?;
+        self.decode_into_inner(&mut out)?;
         if self.options.png_get_strip_to_8bit() && self.png_info.depth == 16 {
             // in case we are to convert from 16 bit to 8 bit, we can do it here
             // we optimize it by using the same buffer the 16 bit data is stored in
@@ -709,7 +702,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 i += 1;
                 j += 2;
             }
-            out.truncate(new_len);
+            out.truncate(i);
         }
 
         Ok(out)
-- 
2.43.0


From 73ace59bee8b12d49c87080824d42b467f1d8cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:29 +0000
Subject: [PATCH 011/157] fix: decode() pads small animation frames to the size
 of the image

---
 crates/zune-png/src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 3ab0f67..064188c 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -885,7 +885,9 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         let bytes = if info.depth == 16 { 2 } else { 1 };
 
         let out_n = self.colorspace().unwrap().num_components();
-        let new_len = info.width * info.height * out_n;
+        // animation frames may be smaller than the image
+        let frame = self.frame_info().ok_or(GenericStatic("No more frames"))?;
+        let new_len = frame.width * frame.height * out_n;
 
         let mut out_u8: Vec<u8> = vec![0; new_len * usize::from(info.depth != 16)];
         let mut out_u16: Vec<u16> = vec![0; new_len * usize::from(info.depth == 16)];
-- 
2.43.0


From 762d7826a158db7fe0d71b252ee7849d1383fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:29 +0000
Subject: [PATCH 012/157] fix: panic when decoding beyond the last PNG frame

---
 crates/zune-png/src/decoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 064188c..56461e6 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -30,6 +30,8 @@ use crate::utils::{
     expand_palette, expand_trns, is_le
 };
 
+const NO_FRAME: &str = "No more frames, or the frame size overflows";
+
 /// A palette entry.
 ///
 /// The alpha field is used if the image has a tRNS
@@ -597,7 +599,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 return Err(PngDecodeErrors::TooSmallOutput(image_len, out.len()));
             }
             // allocate new size
-            let mut temp_alloc = vec![0; self.inner_buffer_size().unwrap()];
+            let temp_len = self.inner_buffer_size().ok_or(GenericStatic(NO_FRAME))?;
+            let mut temp_alloc = vec![0; temp_len];
             self.decode_into_inner(&mut temp_alloc)?;
 
             let out = &mut out[..image_len];
@@ -681,7 +684,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         self.decode_headers()?;
 
         // allocate
-        let t = self.inner_buffer_size().unwrap();
+        let t = self.inner_buffer_size().ok_or(GenericStatic(NO_FRAME))?;
         let mut out: Vec<u8> = vec![0; t];
         //decode
         self.decode_into_inner(&mut out)?;
-- 
2.43.0


From ce8c923248b4f000d9cfd210def55f6c63c18790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:29 +0000
Subject: [PATCH 013/157] fix: blending an animation frame without alpha panics

---
 crates/zune-png/src/apng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/apng.rs b/crates/zune-png/src/apng.rs
index 574c27c..7d5ff58 100644
--- a/crates/zune-png/src/apng.rs
+++ b/crates/zune-png/src/apng.rs
@@ -329,9 +329,10 @@ pub fn post_process_image(
             BlendOp::Over => {
                 // carry out alpha blending, we do the alpha bending in linear colorspace
                 //
-                assert!(colorspace.has_alpha());
                 if !colorspace.has_alpha() {
-                    return Err(PngDecodeErrors::GenericStatic("Image doesn't have alpha but requests blending using over which requires alpha"));
+                    // every pixel is opaque
+                    h_x.copy_from_slice(src_width);
+                    continue;
                 }
                 // pre-calculate the gamma samples
                 let mut gamma_values = [0.0; 256];
-- 
2.43.0


From e30a00737f0182c5ad6f5e20215a9e1e70a575a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:29 +0000
Subject: [PATCH 014/157] fix: blending an animation frame ignores the alpha of
 the canvas

---
 crates/zune-png/src/apng.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/apng.rs b/crates/zune-png/src/apng.rs
index 7d5ff58..6f30dd9 100644
--- a/crates/zune-png/src/apng.rs
+++ b/crates/zune-png/src/apng.rs
@@ -355,7 +355,10 @@ pub fn post_process_image(
                 {
                     let alpha = *src_comp.last().unwrap();
                     let foreground_alpha = f32::from(alpha) / 255.0;
-                    let dst_alpha = 1.0 - foreground_alpha;
+                    let background_alpha = f32::from(*dst_comp.last().unwrap()) / 255.0;
+                    // contribution of the (possibly translucent) background
+                    let dst_alpha = background_alpha * (1.0 - foreground_alpha);
+                    let out_alpha = foreground_alpha + dst_alpha;
 
                     let max_sample = 255.0;
 
@@ -368,12 +371,19 @@ pub fn post_process_image(
                         continue;
                     }
 
+                    if alpha == 255 {
+                        dst_comp.copy_from_slice(src_comp);
+                        continue;
+                    }
+
+                    dst_comp[nc - 1] = (out_alpha * max_sample + 0.5) as u8;
+
                     for (a, b) in src_comp.iter().zip(dst_comp).take(nc - 1) {
                         // convert to floating point, undo gamma encoding
                         let linfg = gamma_values[usize::from(*a)];
                         let linbg = gamma_values[usize::from(*b)];
                         // composite
-                        let commpix = linfg * foreground_alpha + linbg * dst_alpha;
+                        let commpix = (linfg * foreground_alpha + linbg * dst_alpha) / out_alpha;
                         // gamma encode for storage
                         // NB: (cae): This function becomes quite expensive.
                         // I'm not sure if memoization may help us here.
-- 
2.43.0


From 8b3cf4faee209eb366047c62a124d560c99b0ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:43 +0000
Subject: [PATCH 015/157] fix: image reader disposes of the wrong area at the
 wrong time in PNG animations

---
 crates/zune-image/src/codecs/png.rs | 36 ++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index edafb02..c928ec2 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -54,12 +54,15 @@ where
                 self.decode_headers()?;
 
                 let mut frame = self.frame_info().unwrap();
-                if frame.dispose_op == DisposeOp::Previous {
-                    // we don't clear our buffer, so output always contains the previous frame
-                    //
-                    // this means that there is no need to store the previous frame and copy it
-                    frame.dispose_op = DisposeOp::None;
-                }
+                // the dispose operation says what happens to the canvas after
+                // this frame was rendered, so it's applied below
+                let dispose_op = frame.dispose_op;
+                frame.dispose_op = DisposeOp::None;
+
+                let previous = match dispose_op {
+                    DisposeOp::Previous => Some(output.clone()),
+                    _ => None
+                };
                 let pix = self.decode()?;
                 match pix {
                     DecodingResult::U8(pix) => {
@@ -76,6 +79,27 @@ where
                         // then build a frame from that
                         let im_frame = Frame::from_u8(&output, colorspace, usize::from(frame.delay_num),usize::from(frame.delay_denom));
                         output_frames.push(im_frame);
+
+                        match dispose_op {
+                            DisposeOp::None => {}
+                            DisposeOp::Background => {
+                                // clear the region of the frame
+                                let nc = colorspace.num_components();
+                                for row in output
+                                    .chunks_exact_mut(info.width * nc)
+                                    .skip(frame.y_offset)
+                                    .take(frame.height)
+                                {
+                                    row[frame.x_offset * nc..(frame.x_offset + frame.width) * nc]
+                                        .fill(0);
+                                }
+                            }
+                            DisposeOp::Previous => {
+                                if let Some(previous) = previous {
+                                    output = previous;
+                                }
+                            }
+                        }
                     }
                     _ => return Err(ImageDecodeErrors("The current image is an  Animated PNG but has a depth of 16, such an image isn't supported".to_string()))
                 }
-- 
2.43.0


From e23f1a1402efe78407f4c13fd1c348824735fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:43 +0000
Subject: [PATCH 016/157] fix: image reader shows the default image of a PNG as
 an animation frame

---
 crates/zune-image/src/codecs/png.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index c928ec2..789200c 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -64,6 +64,11 @@ where
                     _ => None
                 };
                 let pix = self.decode()?;
+
+                if !frame.is_part_of_seq && self.more_frames() {
+                    // the default image, which isn't a frame of the animation
+                    continue;
+                }
                 match pix {
                     DecodingResult::U8(pix) => {
                         post_process_image(
-- 
2.43.0


From 049a167ec98fb3e1a7093fed201995cc29f8d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 017/157] fix: animation frames outside of the image are
 accepted

---
 crates/zune-png/src/headers/readers.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 7b6aede..3ae68be 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -557,6 +557,21 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         let dispose_op = DisposeOp::from_int(self.stream.read_u8())?;
         let blend_op = BlendOp::from_int(self.stream.read_u8())?;
 
+        if width == 0 || height == 0 {
+            return Err(PngDecodeErrors::GenericStatic(
+                "Frame width or height cannot be zero"
+            ));
+        }
+        // the frame has to be within the image, the width and height of which
+        // were checked against the configured limits
+        if x_offset.saturating_add(width) > self.png_info.width
+            || y_offset.saturating_add(height) > self.png_info.height
+        {
+            return Err(PngDecodeErrors::GenericStatic(
+                "Animation frame is not within the image"
+            ));
+        }
+
         let fctl_info = FrameInfo {
             seq_number,
             width,
-- 
2.43.0


From 65acf79209e29cc3ae0ae31e847b774eff101350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 018/157] fix: acTL chunks of the wrong length are read after
 being skipped

---
 crates/zune-png/src/headers/readers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 3ae68be..1cb66f6 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -241,6 +241,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         if chunk.length != 8 {
             warn!("Invalid chunk length for ACTL, skipping");
             self.stream.skip(chunk.length + 4)?;
+            return Ok(());
         }
         // extract num_frames
         let num_frames = self.stream.get_u32_be();
-- 
2.43.0


From 339817e513ae534fc4ca51d59d084d78e7a3aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 019/157] fix: text, EXIF and ICC chunks that cannot be read
 panic

---
 crates/zune-png/src/headers/readers.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 1cb66f6..0e5ed55 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -294,7 +294,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
 
     pub(crate) fn parse_exif(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let data = self.stream.peek_at(0, chunk.length).unwrap();
+        let data = self.stream.peek_at(0, chunk.length)?;
 
         // recommended that we check for first four bytes compatibility
         // so do it here
@@ -323,7 +323,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     pub(crate) fn parse_iccp(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         // a keyword has up to 79 bytes and is followed by a null byte
         let length = core::cmp::min(chunk.length, 80);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -340,7 +340,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             let _ = self.stream.read_u8();
 
             // read remaining chunk
-            let data = self.stream.peek_at(0, remainder).unwrap();
+            let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
             if let Ok(icc_uncompressed) = DeflateDecoder::new(data).decode_zlib() {
@@ -363,7 +363,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     pub(crate) fn parse_text(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         // a keyword has up to 79 bytes and is followed by a null byte
         let length = core::cmp::min(chunk.length, 80);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -375,7 +375,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
             // read remaining chunk
 
-            let text = self.stream.peek_at(0, remainder).unwrap().to_vec();
+            let text = self.stream.peek_at(0, remainder)?.to_vec();
 
             let text_chunk = TextChunk { keyword, text };
             self.png_info.text_chunk.push(text_chunk);
@@ -394,7 +394,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     pub(crate) fn parse_itxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         // a keyword has up to 79 bytes and is followed by a null byte
         let length = core::cmp::min(chunk.length, 80);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -408,7 +408,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
             self.stream.skip(bytes_to_skip)?;
             let remainder = chunk.length.saturating_sub(bytes_to_skip);
-            let raw_data = self.stream.peek_at(0, remainder).unwrap().to_vec();
+            let raw_data = self.stream.peek_at(0, remainder)?.to_vec();
 
             let itxt_chunk = ItxtChunk {
                 keyword,
@@ -430,7 +430,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     pub(crate) fn parse_ztxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         // a keyword has up to 79 bytes and is followed by a null byte
         let length = core::cmp::min(chunk.length, 80);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -449,7 +449,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             let _ = self.stream.read_u8();
 
             // read remaining chunk
-            let data = self.stream.peek_at(0, remainder).unwrap();
+            let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
             if let Ok(ztxt) = DeflateDecoder::new(data).decode_zlib() {
-- 
2.43.0


From 2c04204d598612d833423c9032f1b0f4a07d0a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 020/157] fix: bit depths below 8 are accepted for colour types
 that do not have them

---
 crates/zune-png/src/headers/readers.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 0e5ed55..58ce0f6 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -64,7 +64,15 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         self.png_info.component = self.png_info.color.num_components();
         // verify colors plus bit depths
         match self.png_info.depth {
-            1 | 2 | 4 | 8 => { /*silent pass through since all color types support it */ }
+            8 => { /*silent pass through since all color types support it */ }
+            1 | 2 | 4 => {
+                if !matches!(self.png_info.color, PngColor::Luma | PngColor::Palette) {
+                    return Err(PngDecodeErrors::Generic(format!(
+                        "Bit depth {} is not allowed for colour type {:?}",
+                        self.png_info.depth, self.png_info.color
+                    )));
+                }
+            }
             16 => {
                 if self.png_info.color == PngColor::Palette {
                     return Err(PngDecodeErrors::GenericStatic(
-- 
2.43.0


From b9fc5b6b96aafdeab8cfe74f277127cb2665ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 021/157] fix: frame control chunks may shrink the default
 image

---
 crates/zune-png/src/headers/readers.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 58ce0f6..09a33d3 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -504,6 +504,14 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             // we have a chunk, this chunk if idat is associated with the first frame
             else if next_header.chunk_type == PngChunkType::IDAT {
                 self.parse_idat(next_header)?;
+                // the default image always covers the whole canvas
+                if fctl_info.width != self.png_info.width
+                    || fctl_info.height != self.png_info.height
+                {
+                    return Err(PngDecodeErrors::GenericStatic(
+                        "Frame control of the default image does not cover the image"
+                    ));
+                }
                 // set fctl information
                 self.frames[0].set_fctl(fctl_info);
             } else if next_header.chunk_type == PngChunkType::fcTL {
-- 
2.43.0


From c5822a1239226a1a2f3a13be3d9dcb39f84c2bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 022/157] fix: compressed text and ICC chunks ignore the
 configured inflate limit

---
 crates/zune-png/src/headers/readers.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 09a33d3..f770f19 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -8,7 +8,7 @@ use alloc::{format, vec};
 
 use zune_core::bytestream::ZByteReaderTrait;
 use zune_core::log::{trace, warn};
-use zune_inflate::DeflateDecoder;
+use zune_inflate::{DeflateDecoder, DeflateOptions};
 
 use crate::apng::{ActlChunk, BlendOp, DisposeOp, FrameInfo, SingleFrame};
 use crate::decoder::{ItxtChunk, PLTEEntry, PngChunk, TextChunk, TimeInfo, ZtxtChunk};
@@ -347,11 +347,14 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             // read compression method
             let _ = self.stream.read_u8();
 
+            let options =
+                DeflateOptions::default().set_limit(self.options.inflate_get_limit());
+
             // read remaining chunk
             let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
-            if let Ok(icc_uncompressed) = DeflateDecoder::new(data).decode_zlib() {
+            if let Ok(icc_uncompressed) = DeflateDecoder::new_with_options(data, options).decode_zlib() {
                 self.png_info.icc_profile = Some(icc_uncompressed);
             } else {
                 warn!("Could not decode ICC profile, error with zlib stream");
@@ -456,11 +459,14 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             // read compression method
             let _ = self.stream.read_u8();
 
+            let options =
+                DeflateOptions::default().set_limit(self.options.inflate_get_limit());
+
             // read remaining chunk
             let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
-            if let Ok(ztxt) = DeflateDecoder::new(data).decode_zlib() {
+            if let Ok(ztxt) = DeflateDecoder::new_with_options(data, options).decode_zlib() {
                 let chunk = ZtxtChunk {
                     keyword,
                     text: ztxt
-- 
2.43.0


From e0907141fa0454a4e5868f88b853ca46907170eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 023/157] fix: indexed images without a palette are decoded, or
 panic when an alpha channel is added

---
 crates/zune-png/src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 56461e6..661d56f 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -629,6 +629,10 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         let png_info = self.png_info.clone();
 
+        if self.png_info.color == PngColor::Palette && self.palette.is_empty() {
+            return Err(PngDecodeErrors::EmptyPalette);
+        }
+
         let image_len = self
             .inner_buffer_size()
             .ok_or(PngDecodeErrors::GenericStatic(
-- 
2.43.0


From 4b14742ee8d1ad5abc877de2ce15657c85352215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 024/157] fix: a tRNS chunk behind the image data changes the
 colorspace after it was reported

---
 crates/zune-png/src/headers/readers.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index f770f19..21b499d 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -188,6 +188,13 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
 
     pub(crate) fn parse_trns(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
+        if self.seen_headers || self.frames.iter().any(|frame| !frame.fdat.is_empty()) {
+            // the chunk must precede the image data, its presence decides the colorspace
+            // we may have reported already
+            warn!("tRNS chunk after image data, skipping");
+            self.stream.skip(chunk.length + 4)?;
+            return Ok(());
+        }
         match self.png_info.color {
             PngColor::Luma => {
                 let grey_sample = self.stream.get_u16_be();
-- 
2.43.0


From dc24ddb60132033090f9431e09f9be52835f4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 025/157] fix: valid PNG chunks above 20 MB are rejected when
 confirming CRCs

---
 crates/zune-png/src/decoder.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 661d56f..423bcdf 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -360,11 +360,19 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
             // go back and point to chunk type.
             self.stream.rewind(4)?;
-            // read chunk type + chunk data
-            let bytes = self.stream.peek_at(0, chunk_length + 4)?;
-
-            // calculate crc
-            let calc_crc = !crc32_slice8(bytes, u32::MAX);
+            // read chunk type + chunk data, in pieces since a chunk may be large
+            let mut remaining = chunk_length + 4;
+            let mut calc_crc = u32::MAX;
+            let mut bytes = vec![0; min(remaining, 1 << 16)];
+
+            while remaining != 0 {
+                let piece = min(remaining, bytes.len());
+                self.stream.read_exact_bytes(&mut bytes[..piece])?;
+                // calculate crc
+                calc_crc = crc32_slice8(&bytes[..piece], calc_crc);
+                remaining -= piece;
+            }
+            calc_crc = !calc_crc;
 
             if crc != calc_crc {
                 return Err(PngDecodeErrors::BadCrc(crc, calc_crc));
@@ -372,7 +380,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             // go point after the chunk type
             // The other parts expect the bit-reader to point to the
             // start of the chunk data.
-            self.stream.skip(4)?;
+            self.stream.rewind(chunk_length)?;
         }
 
         Ok(PngChunk {
-- 
2.43.0


From cc4e1d65eba7566701a6f08f406129772059720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 026/157] fix: a JPEG subsampled vertically only is rejected or
 garbled when decoded to Luma

---
 crates/zune-jpeg/src/mcu.rs      | 6 +-----
 crates/zune-jpeg/src/mcu_prog.rs | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 61ee2df..cce4888 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -114,15 +114,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 || self.sub_sample_ratio == SampleRatios::HV)
         {
             // For a specific set of images, e.g interleaved,
-            // when converting from YcbCr to grayscale, we need to
-            // take into account mcu height since the MCU decoding needs to take
-            // it into account for padding purposes and the post processor
+            // when converting from YcbCr to grayscale, the post processor
             // parses two rows per mcu width.
             //
             // set coeff to be 2 to ensure that we increment two rows
             // for every mcu processed also
-            mcu_height *= self.v_max;
-            mcu_height /= self.h_max;
             self.coeff = 2;
         }
 
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index a4ecbab..20253b9 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -84,15 +84,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 || self.sub_sample_ratio == SampleRatios::HV)
         {
             // For a specific set of images, e.g interleaved,
-            // when converting from YcbCr to grayscale, we need to
-            // take into account mcu height since the MCU decoding needs to take
-            // it into account for padding purposes and the post processor
+            // when converting from YcbCr to grayscale, the post processor
             // parses two rows per mcu width.
             //
             // set coeff to be 2 to ensure that we increment two rows
             // for every mcu processed also
-            mcu_height *= self.v_max;
-            mcu_height /= self.h_max;
             self.coeff = 2;
         }
 
-- 
2.43.0


From ffffa673e1c344195b96168bfcf9c57d17d45ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 027/157] fix: JPEG application segments other than 0, 1, 2,
 13, 14 between scans end decoding

---
 crates/zune-jpeg/src/marker.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/zune-jpeg/src/marker.rs b/crates/zune-jpeg/src/marker.rs
index f080b41..17a5163 100644
--- a/crates/zune-jpeg/src/marker.rs
+++ b/crates/zune-jpeg/src/marker.rs
@@ -80,11 +80,7 @@ impl Marker {
             0xDB => Some(DQT),
             0xDC => Some(DNL),
             0xDD => Some(DRI),
-            0xE0 => Some(APP(0)),
-            0xE1 => Some(APP(1)),
-            0xE2 => Some(APP(2)),
-            0xED => Some(APP(13)),
-            0xEE => Some(APP(14)),
+            0xE0..=0xEF => Some(APP(n - 0xE0)),
             _ => Some(UNKNOWN(n))
         }
     }
-- 
2.43.0


From 176a2de878e68ec5fd3739f97252e04349db9e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 028/157] fix: JPEG files with several scans: non-interleaved
 scans of subsampled components, tables between scans, restart intervals

---
 crates/zune-jpeg/src/mcu.rs      | 75 ++++++++++++++++++++++++++------
 crates/zune-jpeg/src/mcu_prog.rs | 29 +++++-------
 2 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index cce4888..111332c 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -32,8 +32,10 @@ pub const DCT_BLOCK: usize = 64;
 impl<T: ZByteReaderTrait> JpegDecoder<T> {
     /// Check for existence of DC and AC Huffman Tables
     pub(crate) fn check_tables(&self) -> Result<(), DecodeErrors> {
-        // check that dc and AC tables exist outside the hot path
-        for component in &self.components {
+        // check that dc and AC tables exist outside the hot path, tables for
+        // components of later scans may be defined between the scans
+        let scan_components = &self.z_order[..usize::from(self.num_scans)];
+        for component in scan_components.iter().filter_map(|&k| self.components.get(k)) {
             let _ = &self
                 .dc_huffman_tables
                 .get(component.dc_huff_table)
@@ -192,9 +194,21 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 &self.z_order[..usize::from(self.num_scans)]
             );
 
-            trace!("Decoding MCU width: {mcu_width}, height: {mcu_height}");
+            // A scan of one component of several is not interleaved, its MCU's are the blocks
+            // covering that component
+            let (scan_width, scan_height) = if !all_components_in_first_scan && self.num_scans == 1
+            {
+                self.non_interleaved_dimensions(self.z_order[0])
+            } else {
+                (mcu_width, mcu_height)
+            };
+            // predictions and restart intervals start anew in every scan
+            self.components.iter_mut().for_each(|x| x.dc_pred = 0);
+            self.todo = if self.restart_interval != 0 { self.restart_interval } else { usize::MAX };
 
-            for i in 0..mcu_height {
+            trace!("Decoding MCU width: {scan_width}, height: {scan_height}");
+
+            for i in 0..scan_height {
                 if stream.overread_by > 0 {
                     pixels.get_mut(pixels_written..).map(|v| v.fill(128));
                     if self.options.strict_mode() {
@@ -209,7 +223,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 // this takes into account interleaved components.
                 let terminate = if all_components_in_first_scan {
                     self.decode_mcu_width::<false>(
-                        mcu_width,
+                        scan_width,
+                        scan_height,
                         i,
                         &mut tmp,
                         &mut stream,
@@ -234,7 +249,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     */
 
                     self.decode_mcu_width::<true>(
-                        mcu_width,
+                        scan_width,
+                        scan_height,
                         i,
                         &mut tmp,
                         &mut stream,
@@ -390,11 +406,23 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         return Ok(());
     }
 
+    /// Number of blocks per row and column in a scan which only contains component `k`
+    pub(crate) fn non_interleaved_dimensions(&self, k: usize) -> (usize, usize) {
+        let component = &self.components[k];
+        let width = usize::from(self.info.width) * component.horizontal_sample;
+        let height = usize::from(self.info.height) * component.vertical_sample;
+
+        (
+            width.div_ceil(self.h_max).div_ceil(8),
+            height.div_ceil(self.v_max).div_ceil(8)
+        )
+    }
+
     fn decode_mcu_width<const PROGRESSIVE: bool>(
-        &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
+        &mut self, mcu_width: usize, mcu_height: usize, row: usize, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
-        let is_one_by_one = !self.scan_subsampled;
+        let is_one_by_one = !self.scan_subsampled || (PROGRESSIVE && self.num_scans == 1);
 
         // The definition of MCU depends on the sampling factor of involved scans. When components
         // have different factors then each Minimal-Coding-Unit is the least common multiple such
@@ -409,6 +437,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             self.inner_decode_mcu_width::<PROGRESSIVE, false>(
                 mcu_width,
                 mcu_height,
+                row,
                 tmp,
                 stream,
                 progressive
@@ -417,6 +446,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             self.inner_decode_mcu_width::<PROGRESSIVE, true>(
                 mcu_width,
                 mcu_height,
+                row,
                 tmp,
                 stream,
                 progressive
@@ -430,9 +460,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     // when `not SAMPLED` then the inner loop has exactly one iteration per component in
     // the scan. The difference was ~1% or a bit more.
     fn inner_decode_mcu_width<const PROGRESSIVE: bool, const SAMPLED: bool>(
-        &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
+        &mut self, mcu_width: usize, mcu_height: usize, row: usize, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
+        let is_last_row = row + 1 == mcu_height;
         let z_order = self.z_order;
         let z_scans = &z_order[..usize::from(self.num_scans)];
 
@@ -463,8 +494,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
                 let qt_table = &component.quantization_table;
                 let channel = if PROGRESSIVE {
-                    let offset =
-                        mcu_height * component.width_stride * 8 * component.vertical_sample;
+                    let block_rows = if SAMPLED { component.vertical_sample } else { 1 };
+                    let offset = row * component.width_stride * 8 * block_rows;
                     &mut progressive[k][offset..]
                 } else {
                     &mut component.raw_coeff
@@ -523,6 +554,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                             // result.is_err()
                             return if self.options.strict_mode() {
                                 Err(result.err().unwrap())
+                            } else if PROGRESSIVE && stream.marker.is_some() {
+                                error!("{}", result.err().unwrap());
+                                // this scan is cut short, the next ones may be fine
+                                self.check_stream_marker_after_mcu_width(stream)
                             } else {
                                 error!("{}", result.err().unwrap());
                                 Ok(McuContinuation::Terminate)
@@ -536,7 +571,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                             let idct_position = {
                                 // derived from stb and rewritten for my tastes
                                 let c2 = v_samp * 8;
-                                let c3 = ((j * component.horizontal_sample) + h_samp) * 8;
+                                let blocks = if SAMPLED { component.horizontal_sample } else { 1 };
+                                let c3 = ((j * blocks) + h_samp) * 8;
 
                                 component.width_stride * c2 + c3
                             };
@@ -558,7 +594,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
             self.todo = self.todo.wrapping_sub(1);
 
-            if self.todo == 0 {
+            // no restart marker follows the last MCU of a scan
+            if self.todo == 0 && !(is_last_row && j + 1 == mcu_width) {
                 self.handle_rst_main(stream)?;
                 continue;
             }
@@ -568,6 +605,18 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             }
         }
 
+        if PROGRESSIVE {
+            if !is_last_row && !matches!(stream.marker, Some(Marker::RST(_))) {
+                // The stream may have run into the marker behind this scan while
+                // there are still blocks left in its buffer
+                return Ok(McuContinuation::Ok);
+            }
+            if is_last_row && stream.marker.is_none() && !stream.seen_eoi {
+                // the scan is complete, look for what follows
+                stream.marker = get_marker(&mut self.stream, stream).ok();
+            }
+        }
+
         self.check_stream_marker_after_mcu_width(stream)
     }
 
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 20253b9..50860ac 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -53,7 +53,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     ) -> Result<(), DecodeErrors> {
         setup_component_params(self)?;
 
-        let mut mcu_height;
+        let mcu_height;
 
         // memory location for decoded pixels for components
         let mut block: [Vec<i16>; MAX_COMPONENTS] = [vec![], vec![], vec![], vec![]];
@@ -243,22 +243,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 )));
             }
 
-            let (mcu_width, mcu_height);
-
-            if self.components[k].vertical_sample != 1
-                || self.components[k].horizontal_sample != 1
-                || !self.is_interleaved
-            {
-                // For non interleaved scans
-                // mcu's is the image dimensions divided by 8
-                mcu_width = self.info.width.div_ceil(8) as usize;
-                mcu_height = self.info.height.div_ceil(8) as usize;
-            } else {
-                // For other channels, in an interleaved mcu, number of MCU's
-                // are determined by some weird maths done in headers.rs->parse_sos()
-                mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y;
-            }
+            let (mcu_width, mcu_height) = self.non_interleaved_dimensions(k);
 
             for i in 0..mcu_height {
                 for j in 0..mcu_width {
@@ -339,7 +324,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     // + EOB and investigate effect.
                     self.todo -= 1;
 
-                    self.handle_rst_main(stream)?;
+                    // no restart marker follows the last MCU of a scan
+                    if i + 1 != mcu_height || j + 1 != mcu_width {
+                        self.handle_rst_main(stream)?;
+                    }
                 }
             }
         } else {
@@ -428,7 +416,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     // we get a higher number in the case this underflows
                     self.todo -= 1;
                     // after every scan that's a mcu, count down restart markers.
-                    self.handle_rst_main(stream)?;
+                    // No restart marker follows the last MCU of a scan.
+                    if i + 1 != self.mcu_y || j + 1 != self.mcu_x {
+                        self.handle_rst_main(stream)?;
+                    }
                 }
             }
         }
-- 
2.43.0


From 63e3fe041057e34f5cb8dc46b188972249227056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 029/157] fix: progressive JPEG rejected when the first scan
 ends before the marker behind it was read

---
 crates/zune-jpeg/src/mcu_prog.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 50860ac..e34da52 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -117,10 +117,9 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         }
 
         // extract marker
-        let mut marker = stream
-            .marker
-            .take()
-            .ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        // (the bit stream may not have run into it yet)
+        let mut marker = get_marker(&mut self.stream, &mut stream)
+            .map_err(|_| DecodeErrors::FormatStatic("Marker missing where expected"))?;
 
         // if marker is EOI, we are done, otherwise continue scanning.
         //
-- 
2.43.0


From e7c22cdac44624193a2cffd142ed59eba8072eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 030/157] fix: jpeg: support all integer sampling ratios in any
 component

---
 crates/zune-jpeg/src/components.rs |  7 ++++++-
 crates/zune-jpeg/src/decoder.rs    | 28 ++++++++++++++++++++++++++++
 crates/zune-jpeg/src/mcu.rs        |  8 ++++++--
 crates/zune-jpeg/src/misc.rs       |  4 +++-
 4 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/crates/zune-jpeg/src/components.rs b/crates/zune-jpeg/src/components.rs
index 1d1b33c..b704303 100644
--- a/crates/zune-jpeg/src/components.rs
+++ b/crates/zune-jpeg/src/components.rs
@@ -13,6 +13,7 @@
 
 use alloc::vec::Vec;
 use alloc::{format, vec};
+use core::cmp::max;
 
 use zune_core::log::trace;
 
@@ -192,8 +193,12 @@ impl Components {
         self.row_up = vec![0; self.width_stride * self.vertical_sample];
         self.first_row_upsample_dest =
             vec![128; self.vertical_sample * self.width_stride * self.sample_ratio.sample()];
+        let block_rows = match self.sample_ratio {
+            SampleRatios::Generic(..) => max(self.fix_an_annoying_bug, self.vertical_sample),
+            _ => self.fix_an_annoying_bug
+        };
         self.upsample_dest =
-            vec![0; self.width_stride * self.sample_ratio.sample() * self.fix_an_annoying_bug * 8];
+            vec![0; self.width_stride * self.sample_ratio.sample() * block_rows * 8];
     }
 }
 
diff --git a/crates/zune-jpeg/src/decoder.rs b/crates/zune-jpeg/src/decoder.rs
index 892628b..fcb922b 100644
--- a/crates/zune-jpeg/src/decoder.rs
+++ b/crates/zune-jpeg/src/decoder.rs
@@ -856,11 +856,39 @@ where
             }
         }
 
+        let (h_max, v_max) = (self.h_max, self.v_max);
+
+        if self
+            .components
+            .iter()
+            .any(|c| h_max % c.horizontal_sample != 0 || v_max % c.vertical_sample != 0)
+        {
+            return Err(DecodeErrors::FormatStatic(
+                "Fractional sampling ratios are not supported"
+            ));
+        }
+        // The interpolating vertical upsamplers carry over rows between MCU rows, which
+        // is only done for layouts whose first component has the full resolution and
+        // whose components have at most two rows of blocks.
+        // Other layouts repeat the nearest sample
+        let nearest = self.components.first().map_or(false, |c| {
+            c.horizontal_sample != h_max || c.vertical_sample != v_max
+        }) || (v_max > 2
+            && self.components.iter().any(|c| v_max / c.vertical_sample == 2));
+
+        if nearest {
+            self.sub_sample_ratio = SampleRatios::Generic(h_max, v_max);
+        }
+
         for comp in &mut self.components {
             let hs = self.h_max / comp.horizontal_sample;
             let vs = self.v_max / comp.vertical_sample;
 
             let samp_factor = match (hs, vs) {
+                (hs, vs) if nearest && (hs, vs) != (1, 1) => {
+                    comp.sample_ratio = SampleRatios::Generic(hs, vs);
+                    generic_sampler()
+                }
                 (1, 1) => {
                     comp.sample_ratio = SampleRatios::None;
                     upsample_no_op
diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 111332c..731584c 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -178,7 +178,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     * component.horizontal_sample
                     * mcu_height
                     * 64;
-                *mcu = vec![0; len];
+                // blocks a non interleaved scan does not carry are those of a zero coefficient
+                *mcu = vec![128; len];
             }
         }
 
@@ -844,7 +845,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
         let comps = &mut self.components[..];
 
-        if self.is_interleaved && self.options.jpeg_get_out_colorspace() != ColorSpace::Luma {
+        if self.is_interleaved
+            && (self.options.jpeg_get_out_colorspace() != ColorSpace::Luma
+                || comps[0].sample_ratio != SampleRatios::None)
+        {
             for comp in comps.iter_mut() {
                 upsample(
                     comp,
diff --git a/crates/zune-jpeg/src/misc.rs b/crates/zune-jpeg/src/misc.rs
index 19391ba..65fe73d 100644
--- a/crates/zune-jpeg/src/misc.rs
+++ b/crates/zune-jpeg/src/misc.rs
@@ -210,12 +210,14 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
         img.input_colorspace = ColorSpace::RGB;
     }
 
-    for component in &mut img.components {
+    for component in &img.components {
         // compute interleaved image info
         // h_max contains the maximum horizontal component
         img.h_max = max(img.h_max, component.horizontal_sample);
         // v_max contains the maximum vertical component
         img.v_max = max(img.v_max, component.vertical_sample);
+    }
+    for component in &mut img.components {
         img.mcu_width = img.h_max * 8;
         img.mcu_height = img.v_max * 8;
         // Number of MCU's per width
-- 
2.43.0


From d10c5c3744942c09c921d59aaf04dc75347aeec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 031/157] fix: jpeg: do not grow component strides on every
 decode call

---
 crates/zune-jpeg/src/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/misc.rs b/crates/zune-jpeg/src/misc.rs
index 65fe73d..855f532 100644
--- a/crates/zune-jpeg/src/misc.rs
+++ b/crates/zune-jpeg/src/misc.rs
@@ -248,7 +248,7 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
         component.y = y;
         component.quantization_table = qt_table;
         // initially stride contains its horizontal sub-sampling
-        component.width_stride *= img.mcu_x * 8;
+        component.width_stride = component.horizontal_sample * img.mcu_x * 8;
     }
     {
         // Sampling factors are one thing that suck
-- 
2.43.0


From 99edf3247bed294c3a5a43035b91f03b8ca03f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 032/157] fix: jpeg: reject scan headers without a valid frame
 or component count

---
 crates/zune-jpeg/src/headers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/headers.rs b/crates/zune-jpeg/src/headers.rs
index 8c3892f..94ee25a 100644
--- a/crates/zune-jpeg/src/headers.rs
+++ b/crates/zune-jpeg/src/headers.rs
@@ -291,7 +291,6 @@ pub(crate) fn parse_sos<T: ZByteReaderTrait>(
 
     let mut seen: [_; 5] = [-1; { MAX_COMPONENTS + 1 }];
 
-    image.num_scans = ns;
     let smallest_size = 6 + 2 * usize::from(ns);
 
     if ls != smallest_size {
@@ -313,6 +312,12 @@ pub(crate) fn parse_sos<T: ZByteReaderTrait>(
         ));
     }
 
+    // an earlier failure to parse the frame header may have left no components
+    if image.components.len() != usize::from(image.info.components) {
+        return Err(DecodeErrors::FormatStatic("No components defined before scan"));
+    }
+    image.num_scans = ns;
+
     // consume spec parameters
     image.scan_subsampled = false;
 
-- 
2.43.0


From 08996275d065b2b8670492813f77826859538019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 033/157] fix: jpeg: keep input colorspace consistent with the
 number of components

---
 crates/zune-jpeg/src/headers.rs | 2 ++
 crates/zune-jpeg/src/misc.rs    | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/crates/zune-jpeg/src/headers.rs b/crates/zune-jpeg/src/headers.rs
index 94ee25a..5cd7740 100644
--- a/crates/zune-jpeg/src/headers.rs
+++ b/crates/zune-jpeg/src/headers.rs
@@ -483,6 +483,8 @@ pub(crate) fn parse_app14<T: ZByteReaderTrait>(
         let transform = decoder.stream.read_u8();
         // https://exiftool.org/TagNames/JPEG.html#Adobe
         match transform {
+            // it would be too late to change the colorspace between scans
+            0..=2 if decoder.headers_decoded => {}
             0 => decoder.input_colorspace = ColorSpace::CMYK,
             1 => decoder.input_colorspace = ColorSpace::YCbCr,
             2 => decoder.input_colorspace = ColorSpace::YCCK,
diff --git a/crates/zune-jpeg/src/misc.rs b/crates/zune-jpeg/src/misc.rs
index 855f532..5689c8f 100644
--- a/crates/zune-jpeg/src/misc.rs
+++ b/crates/zune-jpeg/src/misc.rs
@@ -297,6 +297,14 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
         );
     }
 
+    // an adobe app14 segment after the start of frame cannot change what the number of
+    // components implies
+    if img.components.len() == 1 {
+        img.input_colorspace = ColorSpace::Luma;
+    } else if img.components.len() == 4 && img.input_colorspace.num_components() != 4 {
+        img.input_colorspace = ColorSpace::CMYK;
+    }
+
     // check colorspace matches
     if img.input_colorspace.num_components() > img.components.len() {
         if img.input_colorspace == ColorSpace::YCCK {
-- 
2.43.0


From 8614185871466ea68b487240df87353902dcefcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 034/157] fix: jpeg: no overflow when refining coefficients

---
 crates/zune-jpeg/src/bitstream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-jpeg/src/bitstream.rs b/crates/zune-jpeg/src/bitstream.rs
index 300d4e0..11f754e 100644
--- a/crates/zune-jpeg/src/bitstream.rs
+++ b/crates/zune-jpeg/src/bitstream.rs
@@ -685,9 +685,9 @@ impl BitStream {
                             }
                             if self.get_bit() == 1 && (*coefficient & bit) == 0 {
                                 if *coefficient >= 0 {
-                                    *coefficient += bit;
+                                    *coefficient = coefficient.wrapping_add(bit);
                                 } else {
-                                    *coefficient -= bit;
+                                    *coefficient = coefficient.wrapping_sub(bit);
                                 }
                             }
                         } else {
-- 
2.43.0


From dbe57a9a9439909bced7e9e93cf486626b150a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:46 +0000
Subject: [PATCH 035/157] fix: jpeg: leave scan parameters alone on error and
 skip foreign APP14 segments exactly

---
 crates/zune-jpeg/src/headers.rs | 37 +++++++++++++++++----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/crates/zune-jpeg/src/headers.rs b/crates/zune-jpeg/src/headers.rs
index 5cd7740..95fd133 100644
--- a/crates/zune-jpeg/src/headers.rs
+++ b/crates/zune-jpeg/src/headers.rs
@@ -381,41 +381,40 @@ pub(crate) fn parse_sos<T: ZByteReaderTrait>(
     // Page 42
 
     // Start of spectral / predictor selection. (between 0 and 63)
-    image.spec_start = image.stream.read_u8_err()?;
+    let spec_start = image.stream.read_u8_err()?;
     // End of spectral selection
-    image.spec_end = image.stream.read_u8_err()?;
+    let spec_end = image.stream.read_u8_err()?;
 
     let bit_approx = image.stream.read_u8_err()?;
     // successive approximation bit position high
-    image.succ_high = bit_approx >> 4;
+    let succ_high = bit_approx >> 4;
+    // successive approximation bit position low
+    let succ_low = bit_approx & 0xF;
 
-    if image.spec_end > 63 {
+    if spec_end > 63 {
         return Err(DecodeErrors::SosError(format!(
-            "Invalid Se parameter {}, range should be 0-63",
-            image.spec_end
+            "Invalid Se parameter {spec_end}, range should be 0-63"
         )));
     }
-    if image.spec_start > 63 {
+    if spec_start > 63 {
         return Err(DecodeErrors::SosError(format!(
-            "Invalid Ss parameter {}, range should be 0-63",
-            image.spec_start
+            "Invalid Ss parameter {spec_start}, range should be 0-63"
         )));
     }
-    if image.succ_high > 13 {
+    if succ_high > 13 {
         return Err(DecodeErrors::SosError(format!(
-            "Invalid Ah parameter {}, range should be 0-13",
-            image.succ_low
+            "Invalid Ah parameter {succ_high}, range should be 0-13"
         )));
     }
-    // successive approximation bit position low
-    image.succ_low = bit_approx & 0xF;
-
-    if image.succ_low > 13 {
+    if succ_low > 13 {
         return Err(DecodeErrors::SosError(format!(
-            "Invalid Al parameter {}, range should be 0-13",
-            image.succ_low
+            "Invalid Al parameter {succ_low}, range should be 0-13"
         )));
     }
+    image.spec_start = spec_start;
+    image.spec_end = spec_end;
+    image.succ_high = succ_high;
+    image.succ_low = succ_low;
     // skip any bytes not read
     image.stream.skip(smallest_size.saturating_sub(ls))?;
 
@@ -501,6 +500,8 @@ pub(crate) fn parse_app14<T: ZByteReaderTrait>(
         length = length.saturating_sub(14);
     } else {
         warn!("Not a valid Adobe APP14 Segment, skipping");
+        // the length bytes were already read
+        length -= 2;
     }
     // skip any proceeding lengths.
     // we do not need them
-- 
2.43.0


From 8e3aac9f304995ca9683aaca10883a08ded0542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:46 +0000
Subject: [PATCH 036/157] fix: jpeg: no overflow in DC dequantization

---
 crates/zune-jpeg/src/bitstream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/bitstream.rs b/crates/zune-jpeg/src/bitstream.rs
index 11f754e..3c802aa 100644
--- a/crates/zune-jpeg/src/bitstream.rs
+++ b/crates/zune-jpeg/src/bitstream.rs
@@ -387,7 +387,7 @@ impl BitStream {
         self.decode_dc(reader, dc_table, dc_prediction)?;
 
         // set dc to be the dc prediction.
-        block[0] = *dc_prediction * qt_table[0];
+        block[0] = dc_prediction.wrapping_mul(qt_table[0]);
 
         while pos < 64 {
             self.refill(reader)?;
-- 
2.43.0


From a9f0e7cbff0db1f566820c21540167a609a2c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:46 +0000
Subject: [PATCH 037/157] fix: jpeg: no u16 overflow for dimensions above 65528

---
 crates/zune-jpeg/src/mcu.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 731584c..faf660b 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -106,8 +106,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         } else {
             // For non-interleaved images( (1*1) subsampling)
             // number of MCU's are the widths (+7 to account for paddings) divided bu 8.
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = usize::from(self.info.width).div_ceil(8);
+            mcu_height = usize::from(self.info.height).div_ceil(8);
         }
         if self.is_interleaved
             && self.input_colorspace.num_components() > 1
@@ -129,8 +129,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
             self.reset_params();
 
-            mcu_width = ((self.info.width + 7) / 8) as usize;
-            mcu_height = ((self.info.height + 7) / 8) as usize;
+            mcu_width = usize::from(self.info.width).div_ceil(8);
+            mcu_height = usize::from(self.info.height).div_ceil(8);
         }
         let width = usize::from(self.info.width);
 
-- 
2.43.0


From c7d4d7e37b6bf5cbec60d970f473185a82bcab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 038/157] fix: jpeg: reject impossible colorspace conversions
 up front, convert CMYK and YCCK to RGBA

---
 crates/zune-jpeg/src/decoder.rs | 28 ++++++++++------------------
 crates/zune-jpeg/src/misc.rs    | 15 +++++++++++++++
 crates/zune-jpeg/src/worker.rs  | 24 ++++++++++++++++++++++--
 3 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/crates/zune-jpeg/src/decoder.rs b/crates/zune-jpeg/src/decoder.rs
index fcb922b..941f863 100644
--- a/crates/zune-jpeg/src/decoder.rs
+++ b/crates/zune-jpeg/src/decoder.rs
@@ -12,6 +12,7 @@
 use alloc::string::ToString;
 use alloc::vec::Vec;
 use alloc::{format, vec};
+use core::num::NonZeroU32;
 
 use zune_core::bytestream::{ZByteReaderTrait, ZReader};
 use zune_core::colorspace::ColorSpace;
@@ -358,24 +359,6 @@ where
             return Ok(());
         }
 
-        // match output colorspace here
-        // we know this will only be called once per image
-        // so makes sense
-        // We only care for ycbcr to rgb/rgba here
-        // in case one is using another colorspace.
-        // May god help you
-        let out_colorspace = self.options.jpeg_get_out_colorspace();
-
-        if matches!(
-            out_colorspace,
-            ColorSpace::BGR | ColorSpace::BGRA | ColorSpace::RGB | ColorSpace::RGBA
-        ) {
-            self.color_convert_16 = choose_ycbcr_to_rgb_convert_func(
-                self.options.jpeg_get_out_colorspace(),
-                &self.options
-            )
-            .unwrap();
-        }
         // First two bytes should be jpeg soi marker
         let magic_bytes = self.stream.get_u16_be_err()?;
 
@@ -463,6 +446,15 @@ where
                         if is_rgb {
                             self.input_colorspace = ColorSpace::RGB;
                         }
+                        // There is no conversion from two components to anything else, see
+                        // setup_component_params
+                        if self.components.len() == 2 && !self.options.strict_mode() {
+                            if let Some(n) = NonZeroU32::new(2) {
+                                let colorspace = ColorSpace::MultiBand(n);
+                                self.input_colorspace = colorspace;
+                                self.options = self.options.jpeg_set_out_colorspace(colorspace);
+                            }
+                        }
 
                         return Ok(());
                     }
diff --git a/crates/zune-jpeg/src/misc.rs b/crates/zune-jpeg/src/misc.rs
index 5689c8f..ed64ac0 100644
--- a/crates/zune-jpeg/src/misc.rs
+++ b/crates/zune-jpeg/src/misc.rs
@@ -18,9 +18,11 @@ use zune_core::bytestream::ZByteReaderTrait;
 use zune_core::colorspace::ColorSpace;
 use zune_core::log::{trace, warn};
 
+use crate::color_convert::choose_ycbcr_to_rgb_convert_func;
 use crate::components::{ComponentID, SampleRatios};
 use crate::errors::DecodeErrors;
 use crate::huffman::HuffmanTable;
+use crate::worker::can_convert;
 use crate::JpegDecoder;
 
 /// Start of baseline DCT Huffman coding
@@ -353,6 +355,19 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
             }
         }
     }
+    let output_colorspace = img.options.jpeg_get_out_colorspace();
+
+    if !can_convert(img.input_colorspace, output_colorspace) {
+        return Err(DecodeErrors::Format(format!(
+            "Unimplemented colorspace mapping from {:?} to {:?}",
+            img.input_colorspace, output_colorspace
+        )));
+    }
+    // We only care for ycbcr to rgb/rgba here, options may have changed since the decoder was
+    // created
+    if let Some(func) = choose_ycbcr_to_rgb_convert_func(output_colorspace, &img.options) {
+        img.color_convert_16 = func;
+    }
     Ok(())
 }
 
diff --git a/crates/zune-jpeg/src/worker.rs b/crates/zune-jpeg/src/worker.rs
index 83927d7..2c8f2a4 100644
--- a/crates/zune-jpeg/src/worker.rs
+++ b/crates/zune-jpeg/src/worker.rs
@@ -27,6 +27,23 @@ fn blinn_8x8(in_val: u8, y: u8) -> u8 {
     return ((t + (t >> 8)) >> 8) as u8;
 }
 
+/// Whether [`color_convert`] can convert between two colorspaces
+pub(crate) fn can_convert(input: ColorSpace, output: ColorSpace) -> bool {
+    match (input, output) {
+        (ColorSpace::MultiBand(n), _) => n.get() == 2 && output.num_components() == 2,
+        (ColorSpace::YCbCr | ColorSpace::Luma, ColorSpace::Luma) => true,
+        (
+            ColorSpace::YCbCr,
+            ColorSpace::RGB | ColorSpace::RGBA | ColorSpace::BGR | ColorSpace::BGRA
+        ) => true,
+        (
+            ColorSpace::YCCK | ColorSpace::CMYK | ColorSpace::Luma,
+            ColorSpace::RGB | ColorSpace::RGBA
+        ) => true,
+        _ => matches!(input.num_components(), 3 | 4) && input == output
+    }
+}
+
 #[allow(clippy::cast_sign_loss, clippy::cast_possible_truncation)]
 pub(crate) fn color_convert(
     unprocessed: &[&[i16]; MAX_COMPONENTS], color_convert_16: ColorConvert16Ptr,
@@ -242,7 +259,7 @@ fn color_convert_ycck_to_rgb<const NUM_COMPONENTS: usize>(
         output
     );
     for (pix_w, m_w) in output
-        .chunks_exact_mut(width * 3)
+        .chunks_exact_mut(width * NUM_COMPONENTS)
         .zip(mcu_block[3].chunks_exact(padded_width))
     {
         for (pix, m) in pix_w.chunks_exact_mut(NUM_COMPONENTS).zip(m_w) {
@@ -266,7 +283,7 @@ fn color_convert_cymk_to_rgb<const NUM_COMPONENTS: usize>(
         .zip(mcu_block[3].chunks_exact(padded_width))
     {
         for ((((pix, c), m), y), k) in pix_w
-            .chunks_exact_mut(3)
+            .chunks_exact_mut(NUM_COMPONENTS)
             .zip(c_w)
             .zip(m_w)
             .zip(y_w)
@@ -280,6 +297,9 @@ fn color_convert_cymk_to_rgb<const NUM_COMPONENTS: usize>(
             pix[0] = blinn_8x8(c, k);
             pix[1] = blinn_8x8(m, k);
             pix[2] = blinn_8x8(y, k);
+            if let Some(alpha) = pix.get_mut(3) {
+                *alpha = 255;
+            }
         }
     }
 }
-- 
2.43.0


From d87c42dbfcc5b03bea05af7cc5706a2c07ab0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:19 +0000
Subject: [PATCH 039/157] fix: jpeg: accept ICC profiles in 255 segments

---
 crates/zune-jpeg/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/decoder.rs b/crates/zune-jpeg/src/decoder.rs
index 941f863..466fa90 100644
--- a/crates/zune-jpeg/src/decoder.rs
+++ b/crates/zune-jpeg/src/decoder.rs
@@ -617,7 +617,7 @@ where
         }
         let num_markers = self.icc_data.len();
 
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check validity
-- 
2.43.0


From 5716080f3982379b86fe5e488eeb98e70f588cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:38 +0000
Subject: [PATCH 040/157] fix: qoi: decode_into writes only the image, not the
 rest of a larger buffer

---
 crates/zune-qoi/src/decoder.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index a9298d5..3a82394 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -248,12 +248,15 @@ where
             self.decode_headers()?;
         }
 
-        if pixels.len() < self.output_buffer_size().unwrap() {
-            return Err(QoiErrors::InsufficientData(
-                self.output_buffer_size().unwrap(),
-                pixels.len()
-            ));
+        let expected = self
+            .output_buffer_size()
+            .ok_or(QoiErrors::GenericStatic("Image dimensions overflow"))?;
+
+        if pixels.len() < expected {
+            return Err(QoiErrors::InsufficientData(expected, pixels.len()));
         }
+        // ignore any padding after the image
+        let pixels = &mut pixels[..expected];
 
         match self.colorspace.num_components() {
             3 => self.decode_inner_generic::<3>(pixels)?,
-- 
2.43.0


From 9b53b7b35f64b3e921d46dd17708b5b1e683a004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:38 +0000
Subject: [PATCH 041/157] fix: qoi: report write errors for difference chunks

---
 crates/zune-qoi/src/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-qoi/src/encoder.rs b/crates/zune-qoi/src/encoder.rs
index 60156fb..9ec78b7 100644
--- a/crates/zune-qoi/src/encoder.rs
+++ b/crates/zune-qoi/src/encoder.rs
@@ -185,12 +185,12 @@ impl<'a> QoiEncoder<'a> {
                             && !(2..=253).contains(&vg)
                             && !(2..=253).contains(&vb)
                         {
-                            stream.write_u8(
+                            stream.write_u8_err(
                                 QOI_OP_DIFF
                                     | vr.wrapping_add(2) << 4
                                     | vg.wrapping_add(2) << 2
                                     | vb.wrapping_add(2)
-                            );
+                            )?;
                         } else if !(8..=247).contains(&vg_r)
                             && !(32..=223).contains(&vg)
                             && !(8..=247).contains(&vg_b)
-- 
2.43.0


From 888056e124e02051229b311871986d9c842c9bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:38 +0000
Subject: [PATCH 042/157] fix: farbfeld: decode valid images

---
 crates/zune-farbfeld/src/decoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 95b7348..57e1241 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -120,9 +120,11 @@ where
         if !self.decoded_headers {
             self.decode_headers()?;
         }
+        // output_buffer_size is in bytes, the sink holds two byte samples
         let expected_len = self
             .output_buffer_size()
-            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?;
+            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?
+            / 2;
 
         if sink.len() < expected_len {
             return Err(FarbFeldErrors::Generic("Too small output buffer size"));
@@ -152,7 +154,9 @@ where
     /// assert!(decoder.decode().is_err());
     /// ```
     pub fn decode(&mut self) -> Result<Vec<u16>, FarbFeldErrors> {
-        self.decode_headers()?;
+        if !self.decoded_headers {
+            self.decode_headers()?;
+        }
 
         let size = (FARBFELD_COLORSPACE.num_components()/*RGBA*/)
             .saturating_mul(self.width)
-- 
2.43.0


From 0ca2012a7f1c8a9a8be794500e7d4ecfe0a961cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:38 +0000
Subject: [PATCH 043/157] fix: farbfeld: return sink errors while writing the
 header

---
 crates/zune-farbfeld/src/encoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/zune-farbfeld/src/encoder.rs b/crates/zune-farbfeld/src/encoder.rs
index e9aeda1..96e76e7 100644
--- a/crates/zune-farbfeld/src/encoder.rs
+++ b/crates/zune-farbfeld/src/encoder.rs
@@ -123,9 +123,7 @@ impl<'a> FarbFeldEncoder<'a> {
     fn encode_headers<T: ZByteWriterTrait>(
         &self, stream: &mut ZWriter<T>
     ) -> Result<(), FarbFeldEncoderErrors> {
-        // these routines panic because I need them
-        // to panic as it is a me problem
-        stream.write_all(b"farbfeld").unwrap();
+        stream.write_all(b"farbfeld")?;
 
         if (self.options.width() as u64) > u64::from(u32::MAX) {
             // error out
@@ -139,8 +137,8 @@ impl<'a> FarbFeldEncoder<'a> {
             ));
         }
         // dimensions
-        stream.write_u32_be(self.options.width() as u32);
-        stream.write_u32_be(self.options.height() as u32);
+        stream.write_u32_be_err(self.options.width() as u32)?;
+        stream.write_u32_be_err(self.options.height() as u32)?;
 
         Ok(())
     }
-- 
2.43.0


From ae576c9702fc9cd999a138ed3667fe9ec49c25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:38 +0000
Subject: [PATCH 044/157] fix: ppm: return sink errors while writing the header

---
 crates/zune-ppm/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-ppm/src/encoder.rs b/crates/zune-ppm/src/encoder.rs
index b860aa2..358ad17 100644
--- a/crates/zune-ppm/src/encoder.rs
+++ b/crates/zune-ppm/src/encoder.rs
@@ -136,7 +136,7 @@ impl<'a> PPMEncoder<'a> {
             }
         };
 
-        stream.write_all(header.as_bytes()).unwrap();
+        stream.write_all(header.as_bytes())?;
 
         Ok(())
     }
-- 
2.43.0


From adf644b0c7711f39c7ed1115a31d92f826bcb4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:38 +0000
Subject: [PATCH 045/157] fix: ppm: reject unsupported bit depths instead of
 panicking

---
 crates/zune-ppm/src/encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-ppm/src/encoder.rs b/crates/zune-ppm/src/encoder.rs
index 358ad17..1e3a610 100644
--- a/crates/zune-ppm/src/encoder.rs
+++ b/crates/zune-ppm/src/encoder.rs
@@ -154,6 +154,11 @@ impl<'a> PPMEncoder<'a> {
         let found = self.data.len();
         let expected = calc_expected_size(self.options);
 
+        if !matches!(self.options.depth().bit_type(), BitType::U8 | BitType::U16) {
+            return Err(PPMEncodeErrors::Static(
+                "Unsupported bit depth, only 8 and 16 bits are supported"
+            ));
+        }
         if expected != found {
             return Err(PPMEncodeErrors::TooShortInput(expected, found));
         }
-- 
2.43.0


From bc77ee84502176236121e03d2d8f970d66c9a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:38 +0000
Subject: [PATCH 046/157] fix: ppm: flip PFM images with an odd number of rows
 correctly

---
 crates/zune-ppm/src/decoder.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index a169a88..c122166 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -593,24 +593,16 @@ where
                 };
 
                 // pfm uses bottom-top orientation, so let's fix it
-                let length = result.len() / 2;
-
-                let (in_img_top, in_img_bottom) = result.split_at_mut(length);
-
                 let single_stride = self.width * self.colorspace.num_components();
-                let mut stride = vec![0.; single_stride];
+                let middle = self.height.div_ceil(2) * single_stride;
+
+                let (in_img_top, in_img_bottom) = result.split_at_mut(middle);
 
                 for (in_dim, out_dim) in in_img_top
                     .chunks_exact_mut(single_stride)
-                    .rev()
-                    .zip(in_img_bottom.chunks_exact_mut(single_stride))
+                    .zip(in_img_bottom.chunks_exact_mut(single_stride).rev())
                 {
-                    // copy in_top to temp vec
-                    stride.copy_from_slice(in_dim);
-                    // copy bottom to top
-                    in_dim.copy_from_slice(out_dim);
-                    // copy temp to bottom
-                    out_dim.copy_from_slice(&stride);
+                    in_dim.swap_with_slice(out_dim);
                 }
 
                 Ok(DecodingResult::F32(result))
-- 
2.43.0


From 57822daedfd048effd0f4c95acd51a3a29190eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:38 +0000
Subject: [PATCH 047/157] fix: ppm: do not skip pixels that look like
 whitespace or a comment after the header

---
 crates/zune-ppm/src/decoder.rs | 37 +++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index c122166..315dbec 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -250,12 +250,11 @@ where
             skip_spaces(&mut self.reader)?;
 
             let value_size = get_bytes_until_whitespace(&mut self.reader, &mut byte_header)?;
-            let value = &byte_header[..value_size];
+            let value = byte_header[..value_size].trim_ascii_end();
 
             match value {
-                // Notice the explicit space,
-                // It's needed
-                b"WIDTH " => {
+                b"WIDTH" => {
+                    skip_spaces(&mut self.reader)?;
                     self.width = self.get_integer()?;
 
                     if self.width > self.options.max_width() {
@@ -266,7 +265,8 @@ where
                     }
                     seen_width = true;
                 }
-                b"HEIGHT " => {
+                b"HEIGHT" => {
+                    skip_spaces(&mut self.reader)?;
                     self.height = self.get_integer()?;
 
                     if self.height > self.options.max_height() {
@@ -278,7 +278,8 @@ where
 
                     seen_height = true;
                 }
-                b"DEPTH " => {
+                b"DEPTH" => {
+                    skip_spaces(&mut self.reader)?;
                     let depth = self.get_integer()?;
 
                     if depth > 4 {
@@ -288,7 +289,8 @@ where
 
                     seen_depth = true;
                 }
-                b"MAXVAL " => {
+                b"MAXVAL" => {
+                    skip_spaces(&mut self.reader)?;
                     let max_value = self.get_integer()?;
 
                     if max_value > usize::from(u16::MAX) {
@@ -305,7 +307,8 @@ where
                     }
                     seen_max_val = true;
                 }
-                b"TUPLTYPE " => {
+                b"TUPLTYPE" => {
+                    skip_spaces(&mut self.reader)?;
                     let value_size =
                         get_bytes_until_whitespace(&mut self.reader, &mut byte_header)?;
                     let new_value = &byte_header[..value_size];
@@ -400,8 +403,16 @@ where
         skip_spaces(&mut self.reader)?;
         // read max value
         let max_value = self.get_integer()?;
-        // skip ascii space
-        skip_spaces(&mut self.reader)?;
+        // a single whitespace separates the header from the pixels
+        if !self.reader.eof()? {
+            let byte = self.reader.read_u8_err()?;
+
+            if !byte.is_ascii_whitespace() {
+                return Err(PPMDecodeErrors::InvalidHeader(
+                    "Expected a whitespace after the maximum value".to_string()
+                ));
+            }
+        }
 
         if max_value > usize::from(u16::MAX) {
             let msg = format!("MAX value {max_value} greater than 65535");
@@ -625,7 +636,7 @@ where
         if byte == b'#' {
             // comment
             // skip the whole comment
-            while byte != b'\n' && !byte_stream.eof()? {
+            while byte != b'\n' && byte != b'\r' && !byte_stream.eof()? {
                 byte = byte_stream.read_u8();
             }
         } else if !byte.is_ascii_whitespace() {
@@ -640,7 +651,7 @@ where
 /// Return a reference to all bytes preceding a whitespace.
 ///
 /// # Note
-/// This skips all whitespaces after it finds one. That is the desired implementation
+/// Only a single whitespace is consumed after the value, the bytes after it may be pixels
 ///
 /// # Panics
 /// If end < start
@@ -659,8 +670,6 @@ fn get_bytes_until_whitespace<T: ZByteReaderTrait>(
         if byte.is_ascii_whitespace() {
             // mark where the text ends
             end = z.position()?;
-            // skip any proceeding whitespace
-            skip_spaces(z)?;
             break;
         }
         // push the byte read
-- 
2.43.0


From 6400d96df7330c22646ac891944f7543f282acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:38 +0000
Subject: [PATCH 048/157] fix: ppm: do not wrap integers too large for the
 machine

---
 crates/zune-ppm/src/decoder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index 315dbec..c627e74 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -438,10 +438,9 @@ where
             let byte = self.reader.read_u8();
 
             if byte.is_ascii_digit() {
-                // if it overflows, we have bigger problems.
                 value = value
-                    .wrapping_mul(10_usize)
-                    .wrapping_add(usize::from(byte - b'0'))
+                    .saturating_mul(10_usize)
+                    .saturating_add(usize::from(byte - b'0'))
             } else {
                 // rewind to the previous byte
                 self.reader.rewind(1)?;
-- 
2.43.0


From b02603c5f51e28abeed152c65300a5a96c745794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 049/157] fix: hdr: keep header values that contain an equals
 sign

---
 crates/zune-hdr/src/decoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index ed514d3..fa70883 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -136,10 +136,11 @@ where
                 // utf-8, we throw garbage to the dictionary if the image is garbage
                 let keys_and_values = String::from_utf8_lossy(&max_header_size[..size]);
 
-                let mut keys_and_values_split = keys_and_values.trim().split('=');
-                let key = keys_and_values_split.next().unwrap().trim().to_string();
-                let value = keys_and_values_split.next().unwrap().trim().to_string();
-                self.metadata.insert(key, value);
+                // only the first `=` separates the key from the value
+                if let Some((key, value)) = keys_and_values.trim().split_once('=') {
+                    self.metadata
+                        .insert(key.trim().to_string(), value.trim().to_string());
+                }
             }
 
             if size == 0 || max_header_size[0] == b'\n' {
-- 
2.43.0


From 66a262d60456f62b200b95efe1ef2e900da12346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 050/157] fix: hdr: decode exponents beyond 31 correctly

---
 crates/zune-hdr/src/decoder.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index fa70883..491687d 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -484,12 +484,13 @@ fn convert_scanline(in_scanline: &[u8], out_scanline: &mut [f32]) {
 }
 
 fn ldexp_pos(x: f32, exp: u32) -> f32 {
-    let pow = 1_u32.wrapping_shl(exp) as f32;
-    x * pow
+    // two steps, since exp can be up to 127
+    let half = exp / 2;
+    x * (1_u64 << half) as f32 * (1_u64 << (exp - half)) as f32
 }
 fn ldexp_neg(x: f32, exp: u32) -> f32 {
-    let pow = 1_u32.wrapping_shl(exp) as f32;
-    x / pow
+    let half = exp / 2;
+    x / (1_u64 << half) as f32 / (1_u64 << (exp - half)) as f32
 }
 /// Fast calculation of  x*(2^exp).
 ///
@@ -510,11 +511,11 @@ fn ldexp_neg(x: f32, exp: u32) -> f32 {
 #[inline]
 fn convert_pos(val: i32, exponent: i32) -> f32 {
     let v = (val as f32) / 256.0;
-    ldexp_pos(v, exponent.unsigned_abs() & 31)
+    ldexp_pos(v, exponent.unsigned_abs())
 }
 
 #[inline]
 fn convert_neg(val: i32, exponent: i32) -> f32 {
     let v = (val as f32) / 256.0;
-    ldexp_neg(v, exponent.unsigned_abs() & 31)
+    ldexp_neg(v, exponent.unsigned_abs())
 }
-- 
2.43.0


From 95939f15f545f575aef491641d9665a090d3a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 051/157] fix: hdr: decode old style run length coding

---
 crates/zune-hdr/src/decoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 491687d..ef3b9da 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -345,7 +345,7 @@ where
                 scanline[0] = 2;
                 scanline[3] = i;
 
-                self.decompress(&mut scanline[4..], self.width as i32 - 1, 0)?;
+                self.decompress(&mut scanline, self.width as i32 - 1, 4)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -413,11 +413,12 @@ where
 
                 let mut i = i32::from(run) << shift;
 
-                while width > 0 && scanline_offset > 4 && i > 0 {
-                    scanline.copy_within(scanline_offset - 4..scanline_offset, 4);
+                while width > 0 && scanline_offset >= 4 && i > 0 {
+                    // repeat the previous pixel
+                    scanline.copy_within(scanline_offset - 4..scanline_offset, scanline_offset);
                     scanline_offset += 4;
                     i -= 1;
-                    width -= 4;
+                    width -= 1;
                 }
                 shift += 8;
 
-- 
2.43.0


From 31a7b099beb4ad3fd3fe7e063d260637aab4560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 052/157] fix: hdr: report truncated run length data

---
 crates/zune-hdr/src/decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index ef3b9da..1c179be 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -326,7 +326,7 @@ where
                 continue;
             }
 
-            let mut i = self.buf.read_u8();
+            let mut i = self.buf.read_u8_err()?;
 
             if i != 2 {
                 // undo byte read
@@ -362,7 +362,7 @@ where
                     let mut run = i32::from(self.buf.read_u8_err()?);
 
                     if run > 128 {
-                        let val = self.buf.read_u8();
+                        let val = self.buf.read_u8_err()?;
                         run &= 127;
 
                         while run > 0 {
@@ -382,7 +382,7 @@ where
                                 break;
                             }
 
-                            new_scanline[j] = self.buf.read_u8();
+                            new_scanline[j] = self.buf.read_u8_err()?;
                             j += 4;
                         }
                     }
-- 
2.43.0


From 0102b64ce833e6146544552ca9b92be763710b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 053/157] fix: hdr: transpose images stored in column order

---
 crates/zune-hdr/src/decoder.rs | 49 +++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 1c179be..211b228 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -36,7 +36,9 @@ pub struct HdrDecoder<T: ZByteReaderTrait> {
     metadata:        BTreeMap<String, String>,
     width:           usize,
     height:          usize,
-    decoded_headers: bool
+    decoded_headers: bool,
+    // whether the scanlines are the columns of the image
+    x_major:         bool
 }
 
 impl<T> HdrDecoder<T>
@@ -94,7 +96,8 @@ where
             width: 0,
             height: 0,
             metadata: BTreeMap::new(),
-            decoded_headers: false
+            decoded_headers: false,
+            x_major: false
         }
     }
     /// Get key value metadata found in the header
@@ -180,6 +183,7 @@ where
             ("+X", "-Y") => {
                 self.height = coords2.parse::<usize>()?;
                 self.width = coords1.parse::<usize>()?;
+                self.x_major = true;
             }
             (_, _) => {
                 return Err(HdrDecodeErrors::UnsupportedOrientation(
@@ -309,19 +313,28 @@ where
         if self.width == 0 {
            return Err(HdrDecodeErrors::Generic("Width cannot be 0"));
         }
+        if self.x_major && self.height == 0 {
+            return Err(HdrDecodeErrors::Generic("Height cannot be 0"));
+        }
+        // number of pixels in a scanline, and number of scanlines
+        let (length, count) = if self.x_major {
+            (self.height, self.width)
+        } else {
+            (self.width, self.height)
+        };
 
         // single width scanline
-        let mut scanline = vec![0_u8; self.width * 4]; // R,G,B,E
+        let mut scanline = vec![0_u8; length * 4]; // R,G,B,E
 
-        let output_scanline_size = self.width * 3; // RGB, * width gives us size of one scanline
+        let output_scanline_size = length * 3; // RGB, * length gives us size of one scanline
 
         // read flat data
         for out_scanline in buffer
             .chunks_exact_mut(output_scanline_size)
-            .take(self.height)
+            .take(count)
         {
-            if self.width < 8 || self.width > 0x7fff {
-                self.decompress(&mut scanline, self.width as i32, 0)?;
+            if !(8..=0x7fff).contains(&length) {
+                self.decompress(&mut scanline, length as i32, 0)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -332,7 +345,7 @@ where
                 // undo byte read
                 self.buf.rewind(1)?;
 
-                self.decompress(&mut scanline, self.width as i32, 0)?;
+                self.decompress(&mut scanline, length as i32, 0)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -345,7 +358,7 @@ where
                 scanline[0] = 2;
                 scanline[3] = i;
 
-                self.decompress(&mut scanline, self.width as i32 - 1, 4)?;
+                self.decompress(&mut scanline, length as i32 - 1, 4)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -356,7 +369,7 @@ where
                 let mut j = 0;
 
                 loop {
-                    if j >= self.width * 4 {
+                    if j >= length * 4 {
                         break;
                     }
                     let mut run = i32::from(self.buf.read_u8_err()?);
@@ -368,7 +381,7 @@ where
                         while run > 0 {
                             run -= 1;
 
-                            if j >= self.width * 4 {
+                            if j >= length * 4 {
                                 break;
                             }
                             new_scanline[j] = val;
@@ -378,7 +391,7 @@ where
                         while run > 0 {
                             run -= 1;
 
-                            if j >= self.width * 4 {
+                            if j >= length * 4 {
                                 break;
                             }
 
@@ -391,6 +404,18 @@ where
             convert_scanline(&scanline, out_scanline);
         }
 
+        if self.x_major {
+            // the scanlines we decoded are columns
+            let columns = buffer[..output_size].to_vec();
+
+            for (x, column) in columns.chunks_exact(output_scanline_size).enumerate() {
+                for (y, pixel) in column.chunks_exact(3).enumerate() {
+                    let at = (y * self.width + x) * 3;
+                    buffer[at..at + 3].copy_from_slice(pixel);
+                }
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 62f90a10eb3603ef870ec145f162d7d0ec252189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 054/157] fix: hdr: report write errors for literal runs

---
 crates/zune-hdr/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index 2bb9f41..fda65da 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -239,7 +239,7 @@ fn rle<T: ZByteWriterTrait>(
         while cur < beg_run {
             let nonrun_count = 128.min(beg_run - cur);
             buf[0] = nonrun_count as u8;
-            writer.write_u8(buf[0]);
+            writer.write_u8_err(buf[0])?;
             for i in 0..nonrun_count {
                 writer.write_u8_err(data[(cur + i) * 4])?;
             }
-- 
2.43.0


From 1499b32e4a6a5ac2d0c50b17142e832e3c406c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 055/157] fix: hdr: keep the precision of dark pixels when
 encoding

---
 crates/zune-hdr/src/encoder.rs | 74 +++++++---------------------------
 1 file changed, 15 insertions(+), 59 deletions(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index fda65da..0f054a7 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -283,66 +283,22 @@ pub fn abs(num: f32) -> f32
     f32::from_bits(num.to_bits() & (i32::MAX as u32))
 }
 
-/// Implementation of signum that works in no_std
-#[rustfmt::skip]
-pub fn signum(num: f32) -> f32
-{
-    if num.is_nan() { f32::NAN } else if num.is_infinite()
-    {
-        if num.is_sign_positive() { 0.0 } else { -0.0 }
-    } else if num > 0.0 { 1.0 } else { -1.0 }
-}
-
-fn floor(num: f32) -> f32 {
-    if num.is_nan() || num.is_infinite() {
-        /* handle infinities and nan */
-        return num;
-    }
-    let n = num as u64;
-    let d = n as f32;
+/// Split a number into a mantissa in `[0.5,1.0)` and an exponent
+fn frexp(s: f32) -> (f32, i32) {
+    let bits = s.to_bits();
+    let exponent = ((bits >> 23) & 0xff) as i32;
 
-    if d == num || num >= 0.0 {
-        d
-    } else {
-        d - 1.0
+    if exponent == 0 && abs(s) > 0.0 {
+        // subnormal, scale it up
+        let (mantissa, exponent) = frexp(s * (1_u64 << 32) as f32);
+        return (mantissa, exponent - 32);
     }
-}
-
-/// Fast log2 approximation
-/// (we really don't need that accurate)
-#[allow(clippy::cast_precision_loss, clippy::cast_sign_loss)]
-fn fast_log2(x: f32) -> f32 {
-    /*
-     * Fast log approximation from
-     * https://github.com/romeric/fastapprox
-     *
-     * Some pretty good stuff.
-     */
-    let vx = x.to_bits();
-    let mx = (vx & 0x007F_FFFF) | 0x3f00_0000;
-    let mx_f = f32::from_bits(mx);
-
-    let mut y = vx as f32;
-    // 1/(1<<23)
-    y *= 1.192_092_9e-7;
-
-    y - 124.225_52 - 1.498_030_3 * mx_f - 1.725_88 / (0.352_088_72 + mx_f)
-}
-
-/// non standard frexp implementation
-fn frexp(s: f32) -> (f32, i32) {
-    // from https://stackoverflow.com/a/55696477
-    if 0.0 == s {
-        (s, 0)
-    } else {
-        let lg = fast_log2(abs(s));
-        let lg_floor = floor(lg);
-        // Note: This is the only reason we need the standard library
-        // I haven't found a good exp2 function, fast_exp2 doesn't work
-        // and libm/musl exp2 introduces visible color distortions and is slow, so for
-        // now let's stick to whatever the platform provides
-        let x = (lg - lg_floor - 1.0).exp2();
-        let exp = lg_floor + 1.0;
-        (signum(s) * x, exp as i32)
+    if exponent == 0 || exponent == 255 {
+        // zero, infinities and NaN
+        return (s, 0);
     }
+    (
+        f32::from_bits((bits & 0x807f_ffff) | (126 << 23)),
+        exponent - 126
+    )
 }
-- 
2.43.0


From bdb257184f3b571e6428a9081e5031b421a2650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:22 +0000
Subject: [PATCH 056/157] fix: hdr: largest exponents

---
 crates/zune-hdr/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 211b228..d2235d7 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -512,11 +512,11 @@ fn convert_scanline(in_scanline: &[u8], out_scanline: &mut [f32]) {
 fn ldexp_pos(x: f32, exp: u32) -> f32 {
     // two steps, since exp can be up to 127
     let half = exp / 2;
-    x * (1_u64 << half) as f32 * (1_u64 << (exp - half)) as f32
+    x * (1_u128 << half) as f32 * (1_u128 << (exp - half)) as f32
 }
 fn ldexp_neg(x: f32, exp: u32) -> f32 {
     let half = exp / 2;
-    x / (1_u64 << half) as f32 / (1_u64 << (exp - half)) as f32
+    x / (1_u128 << half) as f32 / (1_u128 << (exp - half)) as f32
 }
 /// Fast calculation of  x*(2^exp).
 ///
-- 
2.43.0


From 3699d2766fbd60f3ec80de039c0964a922e8fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 057/157] fix: bmp: decode 16 bit images of any aspect ratio

---
 crates/zune-bmp/src/decoder.rs | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 23259bb..20f75f4 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -856,41 +856,19 @@ where
                                     // PS: Not sure if it works
                                     assert!(self.pix_fmt.num_components() >= 3);
 
-                                    // Number of iterations we expect to go
-                                    let num_iters = buf.len() / pad_size;
-                                    // Input bytes per every output byte width
-                                    //
-                                    // this does ceil division to ensure input is appropriately rounded
-                                    // of to a multiple of 4 to handle pad bytes in BMP
-                                    let input_bytes_per_width = (((num_iters * 2) + 3) / 4) * 4;
-
-                                    // we chunk according to number of iterations, which is usually the
-                                    // image dimensions (w*h*color components), this is given by the size of
-                                    // buf - output buffer is appropriately sized for this-.
-                                    // for the input, we are reading two bytes( for every three bytes (or four)
-                                    // consumed hence if we know how many iterations we will be doing
-                                    // we can use that to chunk appropriately
+                                    // each row is padded to a multiple of four bytes
+                                    let padding_bytes = (self.width % 2) * 2;
 
                                     for out in buf.rchunks_exact_mut(pad_size) {
-                                        let mut count = 0;
-                                        for raw_pix in out
-                                            .chunks_exact_mut(self.pix_fmt.num_components())
-                                            .take(input_bytes_per_width)
+                                        for raw_pix in
+                                            out.chunks_exact_mut(self.pix_fmt.num_components())
                                         {
                                             let v = u32::from(u16::from_le_bytes(
                                                 self.bytes.read_fixed_bytes_or_zero::<2>()
                                             ));
-                                            count += 2;
 
                                             conv_function(v, raw_pix);
                                         }
-                                        //assert_eq!(count, input_bytes_per_width * 2);
-                                        debug_assert!(
-                                            input_bytes_per_width * 2 >= count,
-                                            "Input bytes cannot be greater than count"
-                                        );
-                                        let padding_bytes =
-                                            (input_bytes_per_width * 2).saturating_sub(count);
                                         self.bytes.skip(padding_bytes)?;
                                     }
                                     self.image_in_bgra = true;
-- 
2.43.0


From 60558b438e1ed6d15d8eebca7ee93089bb3accb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 058/157] fix: bmp: skip row padding of 1, 2 and 4 bit images

---
 crates/zune-bmp/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 20f75f4..7b08d09 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -917,6 +917,8 @@ where
                     // before expanding them in a separate pass
                     let in_width_bytes = ((self.width * usize::from(self.depth)) + 7) / 8;
                     let mut in_width_buf = vec![0_u8; in_width_bytes];
+                    // each row is padded to a multiple of four bytes
+                    let padding_bytes = in_width_bytes.next_multiple_of(4) - in_width_bytes;
 
                     let scanline_size = width_bytes * 3;
                     let mut scanline_bytes = vec![0_u8; scanline_size];
@@ -926,6 +928,7 @@ where
                     {
                         // read a whole width scanline before expanding
                         self.bytes.read_exact_bytes(&mut in_width_buf)?;
+                        self.bytes.skip(padding_bytes)?;
 
                         expand_bits_to_byte(
                             self.depth as usize,
-- 
2.43.0


From fa7fa6ed4c5d015f349b382cc075519596ad93a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 059/157] fix: bmp: do not swap samples of grayscale images

---
 crates/zune-bmp/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 7b08d09..828f32f 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -890,7 +890,7 @@ where
                                 // skip padding bytes
                                 self.bytes.skip(in_width.saturating_sub(out_width))?;
                                 // then flip bgr to rgb
-                                if !PRESERVE_BGRA {
+                                if !PRESERVE_BGRA && self.pix_fmt == BmpPixelFormat::RGB {
                                     for pix_pair in out.chunks_exact_mut(3) {
                                         pix_pair.swap(0, 2);
                                     }
-- 
2.43.0


From a4ac84ab83de0f50f0281c0ec94974122e126826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 060/157] fix: bmp: read only the header fields the header
 version has

---
 crates/zune-bmp/src/decoder.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 828f32f..165df64 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -319,7 +319,7 @@ where
                 height = self.bytes.get_u32_le_err()?;
                 _planes = self.bytes.get_u16_le_err()?;
                 bpp = self.bytes.get_u16_le_err()?;
-                compression = if hsize >= 40 {
+                compression = if ihsize >= 40 {
                     match BmpCompression::from_u32(self.bytes.get_u32_le_err()?) {
                         Some(c) => c,
                         None => {
@@ -344,16 +344,19 @@ where
                     trace!("Color used : {}", color_used);
                     trace!("Important Colors: {}", important_colors);
 
-                    self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
-
+                    // 64 bytes is the OS/2 v2 header, it has no masks
+                    if (compression == BmpCompression::BITFIELDS || ihsize > 40) && ihsize != 64 {
+                        self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
+                    }
                     let mut colorspace_type = 0;
 
-                    if ihsize > 40 {
+                    if ihsize > 52 && ihsize != 64 {
                         // alpha mask
                         self.rgb_bitfields[3] = self.bytes.get_u32_le_err()?;
-
+                    }
+                    if ihsize >= 108 {
                         colorspace_type = self.bytes.get_u32_le_err()?;
 
                         const BMP_DENOM: f64 = 0x40000000_u32 as f64;
-- 
2.43.0


From 253c96fdd16f93cc015ff6d4ff762fb02500d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 061/157] fix: bmp: accept an end of line after the last line
 of RLE4 images

---
 crates/zune-bmp/src/decoder.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 165df64..dffe341 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -1166,9 +1166,14 @@ where
                         // move to the next line
                         line -= 1;
                         if line < 0 {
-                            return Err(BmpDecoderErrors::Generic(format!(
-                                "Line less than 0 {line}"
-                            )));
+                            return if self.bytes.get_u16_be_err()? == 1 {
+                                // end of picture
+                                Ok(pixels)
+                            } else {
+                                Err(BmpDecoderErrors::Generic(format!(
+                                    "Line less than 0 {line}"
+                                )))
+                            };
                         }
                         // move to the next line
                         output = &mut pixels
-- 
2.43.0


From 170e925225440c9c3a1a3c634700eab99492e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 062/157] fix: bmp: return an error for a small output buffer

---
 crates/zune-bmp/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index dffe341..c99256f 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -736,6 +736,9 @@ where
             .output_buf_size()
             .ok_or(BmpDecoderErrors::OverFlowOccurred)?;
 
+        if buf.len() < output_size {
+            return Err(BmpDecoderErrors::TooSmallBuffer(output_size, buf.len()));
+        }
         let buf = &mut buf[0..output_size];
 
         if self.comp == BmpCompression::RLE4 || self.comp == BmpCompression::RLE8 {
-- 
2.43.0


From 2708e9f4a180d7249eee59ba2389934432d8a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 063/157] fix: psd: read 16-bit samples back in the byte order
 they were stored in

---
 crates/zune-psd/src/decoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index de64502..85ee844 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -316,11 +316,11 @@ where
             match self.depth {
                 BitDepth::Sixteen => {
                     for pixel in result.chunks_exact_mut(8) {
-                        let px3 = u16::from_be_bytes(pixel[6..8].try_into().unwrap());
+                        let px3 = u16::from_ne_bytes(pixel[6..8].try_into().unwrap());
                         if px3 != 0 && px3 != 65535 {
-                            let px0 = u16::from_be_bytes(pixel[0..2].try_into().unwrap());
-                            let px1 = u16::from_be_bytes(pixel[2..4].try_into().unwrap());
-                            let px2 = u16::from_be_bytes(pixel[4..6].try_into().unwrap());
+                            let px0 = u16::from_ne_bytes(pixel[0..2].try_into().unwrap());
+                            let px1 = u16::from_ne_bytes(pixel[2..4].try_into().unwrap());
+                            let px2 = u16::from_ne_bytes(pixel[4..6].try_into().unwrap());
 
                             let a = f32::from(px3) / 65535.0;
                             let ra = 1.0 / a;
@@ -371,7 +371,7 @@ where
                 .chunks_exact(2)
                 .map(|chunk| {
                     let value: [u8; 2] = chunk.try_into().unwrap();
-                    u16::from_be_bytes(value)
+                    u16::from_ne_bytes(value)
                 })
                 .collect();
 
-- 
2.43.0


From 36410cfd9f108571d75d6af0888d471d6691f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 064/157] fix: psd: skip the row byte counts of all stored
 channels

---
 crates/zune-psd/src/decoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 85ee844..d4494c1 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -50,7 +50,9 @@ where
     depth:          BitDepth,
     color_type:     Option<ColorModes>,
     compression:    CompressionMethod,
-    channel_count:  usize
+    channel_count:  usize,
+    // channels present in the file, may be more than those decoded
+    stored_channels: usize
 }
 
 impl<T> PSDDecoder<T>
@@ -81,7 +83,8 @@ where
             depth: BitDepth::Eight,
             color_type: None,
             compression: CompressionMethod::NoCompression,
-            channel_count: 0
+            channel_count: 0,
+            stored_channels: 0
         }
     }
 
@@ -117,6 +120,7 @@ where
         }
 
         self.channel_count = usize::from(channel_count);
+        self.stored_channels = self.channel_count;
 
         let height = self.stream.get_u32_be_err()? as usize;
         let width = self.stream.get_u32_be_err()? as usize;
@@ -232,7 +236,7 @@ where
 
                 // The RLE-compressed data is preceded by a 2-byte data count for each row
                 // in the data, which we're going to just skip.
-                let skipped = self.height * self.channel_count * 2;
+                let skipped = self.height * self.stored_channels * 2;
                 self.stream.skip(skipped)?;
 
                 let mut out_channel = vec![0; pixel_count * self.channel_count + 10];
-- 
2.43.0


From 4a1a42e362d24f417cf5a1e9b068bd9ebd63f55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 065/157] fix: psd: reject RGB and CMYK images with too few
 channels

---
 crates/zune-psd/src/decoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index d4494c1..9ba0edd 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -200,6 +200,13 @@ where
             self.channel_count = 1;
         }
 
+        // check there are enough channels for the colour mode
+        if (self.color_type == Some(ColorModes::RGB) && channel_count < 3)
+            || (self.color_type == Some(ColorModes::CYMK) && channel_count < 4)
+        {
+            return Err(PSDDecodeErrors::UnsupportedChannelCount(channel_count));
+        }
+
         self.compression = CompressionMethod::from_int(compression).unwrap();
 
         self.decoded_header = true;
-- 
2.43.0


From 40f734c31eac563f7984b1522b43ea1d1e510b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:56 +0000
Subject: [PATCH 066/157] fix: psd: report truncated RLE data instead of
 decoding zeros

---
 crates/zune-psd/src/decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 9ba0edd..1f863fa 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -401,7 +401,7 @@ where
         let mut position = 0;
 
         while nleft > 0 {
-            let mut len = usize::from(self.stream.read_u8());
+            let mut len = usize::from(self.stream.read_u8_err()?);
 
             match len.cmp(&128) {
                 Ordering::Less => {
@@ -417,7 +417,7 @@ where
                     }
 
                     while len > 0 {
-                        buffer[position] = self.stream.read_u8();
+                        buffer[position] = self.stream.read_u8_err()?;
                         position += self.channel_count;
                         len -= 1;
                     }
@@ -432,7 +432,7 @@ where
                         return Err(PSDDecodeErrors::BadRLE);
                     }
                     count += len;
-                    let val = self.stream.read_u8();
+                    let val = self.stream.read_u8_err()?;
 
                     if position + (self.channel_count * len) > buffer.len() {
                         return Err(PSDDecodeErrors::BadRLE);
-- 
2.43.0


From 3ac54c9b5367a4634fb3e897d58dcf23f6f5ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:56 +0000
Subject: [PATCH 067/157] fix: psd: decode 16-bit RLE images

---
 crates/zune-psd/src/decoder.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 1f863fa..62bb9c1 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -250,7 +250,7 @@ where
 
                 for channel in 0..self.channel_count {
                     let pixel_count = self.width * self.height;
-                    self.psd_decode_rle(pixel_count, &mut out_channel[channel..])?;
+                    self.psd_decode_rle(pixel_count, self.channel_count, &mut out_channel[channel..])?;
                 }
 
                 out_channel.truncate(pixel_count * self.channel_count);
@@ -320,6 +320,28 @@ where
                 out_channel.truncate(pixel_count * self.channel_count);
                 out_channel
             }
+            (CompressionMethod::RLE, BitDepth::Sixteen) => {
+                // same layout as 8 bit RLE, but the unpacked bytes are
+                // big endian samples
+                let skipped = self.height * self.stored_channels * 2;
+                self.stream.skip(skipped)?;
+
+                let mut plane = vec![0; pixel_count * 2];
+                let mut out_channel = vec![0; pixel_count * self.channel_count * 2];
+
+                for channel in 0..self.channel_count {
+                    self.psd_decode_rle(plane.len(), 1, &mut plane)?;
+
+                    let out_chunks = out_channel.chunks_exact_mut(self.channel_count * 2);
+
+                    for (out, sample) in out_chunks.zip(plane.chunks_exact(2)) {
+                        let value = u16::from_be_bytes([sample[0], sample[1]]);
+
+                        out[channel * 2..channel * 2 + 2].copy_from_slice(&value.to_ne_bytes());
+                    }
+                }
+                out_channel
+            }
             _ => return Err(PSDDecodeErrors::Generic("Not implemented or Unknown"))
         };
         // remove white matte from psd
@@ -393,7 +415,7 @@ where
     }
 
     fn psd_decode_rle(
-        &mut self, pixel_count: usize, buffer: &mut [u8]
+        &mut self, pixel_count: usize, stride: usize, buffer: &mut [u8]
     ) -> Result<(), PSDDecodeErrors> {
         let mut count = 0;
         let mut nleft = pixel_count - count;
@@ -412,13 +434,13 @@ where
                     }
                     count += len;
 
-                    if position + (self.channel_count * len) > buffer.len() {
+                    if position + (stride * len) > buffer.len() {
                         return Err(PSDDecodeErrors::BadRLE);
                     }
 
                     while len > 0 {
                         buffer[position] = self.stream.read_u8_err()?;
-                        position += self.channel_count;
+                        position += stride;
                         len -= 1;
                     }
                 }
@@ -434,13 +456,13 @@ where
                     count += len;
                     let val = self.stream.read_u8_err()?;
 
-                    if position + (self.channel_count * len) > buffer.len() {
+                    if position + (stride * len) > buffer.len() {
                         return Err(PSDDecodeErrors::BadRLE);
                     }
 
                     while len > 0 {
                         buffer[position] = val;
-                        position += self.channel_count;
+                        position += stride;
                         len -= 1;
                     }
                 }
-- 
2.43.0


From 40cdafb754c0f629a650b9124c989ede8eead1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 068/157] fix: jxl: reserve enough room for the bits of 16-bit
 samples

---
 crates/zune-jpegxl/src/bit_depth.rs |  3 ++-
 crates/zune-jpegxl/src/encoder.rs   | 28 ++++++++++++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/crates/zune-jpegxl/src/bit_depth.rs b/crates/zune-jpegxl/src/bit_depth.rs
index 70eb5ef..04975fb 100644
--- a/crates/zune-jpegxl/src/bit_depth.rs
+++ b/crates/zune-jpegxl/src/bit_depth.rs
@@ -203,7 +203,8 @@ impl JxlBitEncoder for MoreThan14Bits {
     }
 
     fn max_encoded_bits_per_sample(&self) -> usize {
-        24
+        // 8 bits of prefix code and 17 extra bits
+        25
     }
     fn num_symbols(&self, _: bool) -> usize {
         19
diff --git a/crates/zune-jpegxl/src/encoder.rs b/crates/zune-jpegxl/src/encoder.rs
index 7ef8e48..66fa715 100644
--- a/crates/zune-jpegxl/src/encoder.rs
+++ b/crates/zune-jpegxl/src/encoder.rs
@@ -895,9 +895,9 @@ fn process_image_area<A, BitDepth>(
 
 fn prepare_dc_global_common(
     is_single_group: bool, width: usize, height: usize, codes: &[PrefixCode],
-    output: &mut BitWriter
+    bits_per_sample: usize, output: &mut BitWriter
 ) {
-    let length = if is_single_group { width * height * 16 } else { 0 };
+    let length = if is_single_group { width * height * bits_per_sample } else { 0 };
 
     output.allocate(100000 + length);
 
@@ -1020,9 +1020,9 @@ fn write_a_c_section<B: JxlBitEncoder>(
 
 fn prepare_dc_global(
     is_single_group: bool, width: usize, height: usize, channels: usize, code: &[PrefixCode],
-    output: &mut BitWriter
+    bits_per_sample: usize, output: &mut BitWriter
 ) {
-    prepare_dc_global_common(is_single_group, width, height, code, output);
+    prepare_dc_global_common(is_single_group, width, height, code, bits_per_sample, output);
 
     if channels > 2 {
         output.put_bits(2, 0b01); // 1 transform
@@ -1209,7 +1209,15 @@ impl<'a> JxlSimpleEncoder<'a> {
             {
                 let writer = &mut group_data[0].lock().unwrap()[0];
 
-                prepare_dc_global(one_group, width, height, num_components, &codes, writer);
+                prepare_dc_global(
+                    one_group,
+                    width,
+                    height,
+                    num_components,
+                    &codes,
+                    encoder.max_encoded_bits_per_sample(),
+                    writer
+                );
             }
             let pixels = self.data;
 
@@ -1318,7 +1326,15 @@ impl<'a> JxlSimpleEncoder<'a> {
 
             {
                 let writer = &mut group_data[0][0];
-                prepare_dc_global(one_group, width, height, num_components, &codes, writer);
+                prepare_dc_global(
+                    one_group,
+                    width,
+                    height,
+                    num_components,
+                    &codes,
+                    encoder.max_encoded_bits_per_sample(),
+                    writer
+                );
             }
             let pixels = self.data;
 
-- 
2.43.0


From 93e6b5aa7af1ac29d83b83a470414b3df3250c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 069/157] fix: jxl: write the bit depth of 16-bit alpha
 channels

---
 crates/zune-jpegxl/src/encoder.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/zune-jpegxl/src/encoder.rs b/crates/zune-jpegxl/src/encoder.rs
index 66fa715..77199bd 100644
--- a/crates/zune-jpegxl/src/encoder.rs
+++ b/crates/zune-jpegxl/src/encoder.rs
@@ -1533,7 +1533,19 @@ fn prepare_header(frame: &mut FrameState, add_image_header: bool, is_last: bool)
         }
         if have_alpha {
             output.put_bits(2, 1); // extra channel
-            output.put_bits(1, 1); // all default (8 bit alpha)
+
+            if depth == BitDepth::Eight {
+                output.put_bits(1, 1); // all default (8 bit alpha)
+            } else {
+                output.put_bits(1, 0); // not all default
+                output.put_bits(2, 0b00); // alpha
+                output.put_bits(1, 0); // bit depth floating point sample
+                output.put_bits(2, 0b11);
+                output.put_bits(6, (depth.bit_size() - 1) as u64);
+                output.put_bits(2, 0b00); // no dim shift
+                output.put_bits(2, 0b00); // no name
+                output.put_bits(1, 0); // alpha is not premultiplied
+            }
         } else {
             output.put_bits(2, 0); // no extra channel
         }
-- 
2.43.0


From 9f2f6ed3c9fc65d11809a4b0aa0dc2a1f18e88ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:57 +0000
Subject: [PATCH 070/157] fix: jxl: treat 16-bit LumaA samples as unsigned

---
 crates/zune-jpegxl/src/color_convert.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/zune-jpegxl/src/color_convert.rs b/crates/zune-jpegxl/src/color_convert.rs
index d300b18..05d4d04 100644
--- a/crates/zune-jpegxl/src/color_convert.rs
+++ b/crates/zune-jpegxl/src/color_convert.rs
@@ -69,14 +69,19 @@ where
 
 pub fn fill_row_ga16<T>(pixels: &[u8], oxs: usize, luma: &mut [T], alpha: &mut [T])
 where
-    T: From<i16>
+    T: TryFrom<u16>
 {
     for ((rg, lm), am) in pixels.chunks_exact(4).zip(luma).zip(alpha).take(oxs) {
-        let luma_bits = i16::from_ne_bytes([rg[0], rg[1]]);
-        let alpha_bits = i16::from_ne_bytes([rg[2], rg[3]]);
-
-        *lm = T::from(luma_bits);
-        *am = T::from(alpha_bits);
+        let luma_bits = u16::from_ne_bytes([rg[0], rg[1]]);
+        let alpha_bits = u16::from_ne_bytes([rg[2], rg[3]]);
+
+        // always true for 32 bit pixels, see fill_row_g16
+        if let (Ok(l), Ok(a)) = (T::try_from(luma_bits), T::try_from(alpha_bits)) {
+            *lm = l;
+            *am = a;
+        } else {
+            debug_assert!(false, "Conversion failed")
+        }
     }
 }
 
-- 
2.43.0


From edf03f9a10f531f1edd07de6a2ddcfc280910a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:50 +0000
Subject: [PATCH 071/157] fix: farbfeld: reject images with a zero dimension

---
 crates/zune-farbfeld/src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 57e1241..9ec1612 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -78,6 +78,10 @@ where
             return Err(FarbFeldErrors::Generic("Image width is greater than max width. Bump up max_width in options to support such images"));
         }
 
+        if self.width == 0 || self.height == 0 {
+            return Err(FarbFeldErrors::Generic("Image has a zero width or height"));
+        }
+
         self.decoded_headers = true;
         Ok(())
     }
-- 
2.43.0


From 091b109e6bcd77d8129f40e050051c69945998c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 072/157] fix: hdr: reject images with a zero dimension

---
 crates/zune-hdr/src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index d2235d7..8a22b3c 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -208,6 +208,10 @@ where
             ));
         }
 
+        if self.width == 0 || self.height == 0 {
+            return Err(HdrDecodeErrors::Generic("Image has a zero width or height"));
+        }
+
         trace!("Width: {}", self.width);
         trace!("Height: {}", self.height);
 
-- 
2.43.0


From e677c85fdbb53e5cc3732e53094a27b79e3d8d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 073/157] fix: jpeg: do not leave stale bytes in the buffer of
 decode_into

---
 crates/zune-jpeg/src/decoder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/decoder.rs b/crates/zune-jpeg/src/decoder.rs
index 466fa90..67b0112 100644
--- a/crates/zune-jpeg/src/decoder.rs
+++ b/crates/zune-jpeg/src/decoder.rs
@@ -216,7 +216,7 @@ where
         self.decode_headers()?;
         let size = self.output_buffer_size().unwrap();
         let mut out = vec![0; size];
-        self.decode_into(&mut out)?;
+        self.decode_pixels(&mut out)?;
         Ok(out)
     }
 
@@ -779,6 +779,14 @@ where
         let out_len = core::cmp::min(out.len(), expected_size);
         let out = &mut out[0..out_len];
 
+        // a tolerated error may leave parts of the image undecoded, do not
+        // present previous contents of the buffer as pixels
+        out.fill(0);
+
+        self.decode_pixels(out)
+    }
+
+    fn decode_pixels(&mut self, out: &mut [u8]) -> Result<(), DecodeErrors> {
         if self.is_progressive {
             self.decode_mcu_ycbcr_progressive(out)
         } else {
-- 
2.43.0


From ac51dc270bbb601399c58b9b335ee0e0c7139066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 074/157] fix: bmp: do not leave stale bytes in the buffer of
 decode_into

---
 crates/zune-bmp/src/decoder.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index c99256f..da5956f 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -684,7 +684,7 @@ where
                 .ok_or(BmpDecoderErrors::OverFlowOccurred)?
         ];
 
-        self.decode_into(&mut output)?;
+        self.decode_pixels(&mut output)?;
 
         Ok(output)
     }
@@ -712,6 +712,17 @@ where
     ///
     /// Also see [`decode`](Self::decode) which allocates and decodes into buffer
     pub fn decode_into(&mut self, buf: &mut [u8]) -> Result<(), BmpDecoderErrors> {
+        self.decode_headers()?;
+
+        // not every pixel may be present in the file, do not present previous
+        // contents of the buffer as pixels
+        if let Some(region) = self.output_buf_size().and_then(|size| buf.get_mut(..size)) {
+            region.fill(0);
+        }
+        self.decode_pixels(buf)
+    }
+
+    fn decode_pixels(&mut self, buf: &mut [u8]) -> Result<(), BmpDecoderErrors> {
         #[cfg(feature = "rgb_inverse")]
         {
             if self.convert_rgba_to_bgra {
-- 
2.43.0


From 6c796e50f1522a09c3d8a3b390fbd54bdf0fcfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 075/157] fix: core: skip and rewind by 2^63 bytes or more
 moved the other way or panicked

---
 crates/zune-core/src/bytestream/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader.rs b/crates/zune-core/src/bytestream/reader.rs
index d12340f..09ac4da 100644
--- a/crates/zune-core/src/bytestream/reader.rs
+++ b/crates/zune-core/src/bytestream/reader.rs
@@ -159,7 +159,8 @@ impl<T: ZByteReaderTrait> ZReader<T> {
     ///  - `Error` If something went wrong
     #[inline(always)]
     pub fn skip(&mut self, num: usize) -> Result<u64, ZByteIoError> {
-        self.inner.z_seek(ZSeekFrom::Current(num as i64))
+        let offset = i64::try_from(num)?;
+        self.inner.z_seek(ZSeekFrom::Current(offset))
     }
     /// Move back from current position to a previous
     /// position
@@ -175,7 +176,8 @@ impl<T: ZByteReaderTrait> ZReader<T> {
     ///  - `Error` If something went wrong
     #[inline(always)]
     pub fn rewind(&mut self, num: usize) -> Result<u64, ZByteIoError> {
-        self.inner.z_seek(ZSeekFrom::Current(-(num as i64)))
+        let offset = i64::try_from(num)?;
+        self.inner.z_seek(ZSeekFrom::Current(-offset))
     }
     /// Move around a stream of bytes
     ///
-- 
2.43.0


From 11a2ecb87ec9cefd048a4b4c7ad21ce7cda1c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 076/157] fix: core: peek_at moved the position when it failed

---
 crates/zune-core/src/bytestream/reader.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader.rs b/crates/zune-core/src/bytestream/reader.rs
index 09ac4da..07721a1 100644
--- a/crates/zune-core/src/bytestream/reader.rs
+++ b/crates/zune-core/src/bytestream/reader.rs
@@ -233,27 +233,24 @@ impl<T: ZByteReaderTrait> ZReader<T> {
         // short circuit for zero
         // important since implementations like File will
         // cause a syscall on skip
-        if position != 0 {
-            // skip position bytes from start
-            self.skip(position)?;
-        }
         if num_bytes > 20 * 1024 * 1024 {
             // resize of 20 MBs, skipping too much, so panic
             return Err(ZByteIoError::Generic("Too many bytes skipped"));
         }
+        if position != 0 {
+            // skip position bytes from start
+            self.skip(position)?;
+        }
         // resize buffer
         self.temp_buffer.resize(num_bytes, 0);
         // read bytes
-        match self.inner.peek_exact_bytes(&mut self.temp_buffer[..]) {
-            Ok(_) => {
-                // rewind back to where we were
-                if position != 0 {
-                    self.rewind(position)?;
-                }
-                Ok(&self.temp_buffer)
-            }
-            Err(e) => Err(e)
+        let result = self.inner.peek_exact_bytes(&mut self.temp_buffer[..]);
+        // rewind back to where we were
+        if position != 0 {
+            self.rewind(position)?;
         }
+        result?;
+        Ok(&self.temp_buffer)
     }
     /// Read a fixed number of known bytes to a buffer and return the bytes or an error
     /// if it occurred.
-- 
2.43.0


From 813d187220ece19219de402cc68d3b02214dd6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 077/157] fix: core: reads that return zero when there is not
 enough data returned the bytes that were left

---
 crates/zune-core/src/bytestream/reader/std_readers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-core/src/bytestream/reader/std_readers.rs b/crates/zune-core/src/bytestream/reader/std_readers.rs
index 2334624..6d45d10 100644
--- a/crates/zune-core/src/bytestream/reader/std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/std_readers.rs
@@ -46,7 +46,11 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
     }
 
     fn read_const_bytes_no_error<const N: usize>(&mut self, buf: &mut [u8; N]) {
-        let _ = self.read_const_bytes(buf);
+        // a failed read may have written to part of its buffer
+        let mut bytes = [0; N];
+        if self.read_const_bytes(&mut bytes).is_ok() {
+            *buf = bytes;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 8100c713969372695465762c5b19c89add76f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 078/157] fix: core: ZCursor overflowed when reading at huge
 positions, and moved past the end without std

---
 .../src/bytestream/reader/no_std_readers.rs      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader/no_std_readers.rs b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
index dd1c2b9..40fa59e 100644
--- a/crates/zune-core/src/bytestream/reader/no_std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
@@ -52,9 +52,13 @@ impl<T: AsRef<[u8]>> ZCursor<T> {
 impl<T: AsRef<[u8]>>  ZCursor<T> {
     #[inline(always)]
     pub (crate) fn read_byte_no_error_impl(&mut self) -> u8 {
-        let byte = self.stream.as_ref().get(self.position).unwrap_or(&0);
-        self.position += 1;
-        *byte
+        match self.stream.as_ref().get(self.position) {
+            Some(byte) => {
+                self.position += 1;
+                *byte
+            }
+            None => 0
+        }
     }
     #[inline(always)]
     pub (crate) fn read_exact_bytes_impl(&mut self, buf: &mut [u8]) -> Result<(), ZByteIoError> {
@@ -69,7 +73,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     }
 
     pub (crate) fn read_const_bytes_impl<const N: usize>(&mut self, buf: &mut [u8; N]) -> Result<(), ZByteIoError> {
-        if self.position + N <= self.stream.as_ref().len() {
+        if self.position.saturating_add(N) <= self.stream.as_ref().len() {
             // we are in bounds
             let reference = self.stream.as_ref();
             let position = self.position;
@@ -83,7 +87,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     }
 
     pub (crate) fn read_const_bytes_no_error_impl<const N: usize>(&mut self, buf: &mut [u8; N]) {
-        if self.position + N <= self.stream.as_ref().len() {
+        if self.position.saturating_add(N) <= self.stream.as_ref().len() {
             // we are in bounds
             let reference = self.stream.as_ref();
             let position = self.position;
@@ -106,7 +110,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
         let stream_end = self.stream.as_ref().len();
 
         let start = core::cmp::min(self.position, stream_end);
-        let end = core::cmp::min(self.position + buf.len(), stream_end);
+        let end = core::cmp::min(self.position.saturating_add(buf.len()), stream_end);
 
         let slice = self.stream.as_ref().get(start..end).unwrap();
         buf[..slice.len()].copy_from_slice(slice);
-- 
2.43.0


From bcdd942d877d7aa3cbf5731522ed936721657b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 079/157] fix: core: set_jpeg_encode_progressive set the
 huffman option instead

---
 crates/zune-core/src/options/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-core/src/options/encoder.rs b/crates/zune-core/src/options/encoder.rs
index fb59f6c..2b6366e 100644
--- a/crates/zune-core/src/options/encoder.rs
+++ b/crates/zune-core/src/options/encoder.rs
@@ -211,7 +211,7 @@ impl EncoderOptions {
     ///
     /// Default is `false`
     pub fn set_jpeg_encode_progressive(mut self, yes: bool) -> Self {
-        self.flags.jpeg_optimize_huffman = yes;
+        self.flags.jpeg_encode_progressive = yes;
         self
     }
 }
-- 
2.43.0


From efa5d3f0a3aad33dd687bd9630945fa2476662b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 080/157] fix: core: strip_metadata() returned the opposite of
 what was set (PNG metadata was written only when stripping)

---
 crates/zune-core/src/options/encoder.rs | 2 +-
 crates/zune-image/src/codecs/jpeg.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-core/src/options/encoder.rs b/crates/zune-core/src/options/encoder.rs
index 2b6366e..c634324 100644
--- a/crates/zune-core/src/options/encoder.rs
+++ b/crates/zune-core/src/options/encoder.rs
@@ -183,7 +183,7 @@ impl EncoderOptions {
     /// The default value is false, and encoders that respect this try to preserve as much
     /// data as possible from one image to another
     pub const fn strip_metadata(&self) -> bool {
-        !self.flags.image_strip_metadata
+        self.flags.image_strip_metadata
     }
 }
 
diff --git a/crates/zune-image/src/codecs/jpeg.rs b/crates/zune-image/src/codecs/jpeg.rs
index 282ef51..98a8fcb 100644
--- a/crates/zune-image/src/codecs/jpeg.rs
+++ b/crates/zune-image/src/codecs/jpeg.rs
@@ -175,7 +175,7 @@ impl EncoderTrait for JpegEncoder {
             {
                 use exif::experimental::Writer;
 
-                if options.strip_metadata() {
+                if !options.strip_metadata() {
                     // explicit :)
                 } else if let Some(metadata) = &image.metadata.exif {
                     let mut writer = Writer::new();
-- 
2.43.0


From 6e805df356cc685cb1d81c14fd628001679425ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 081/157] fix: zune-image: keep the channel layout in step when
 reallocating

---
 crates/zune-image/src/channel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zune-image/src/channel.rs b/crates/zune-image/src/channel.rs
index 8ac3b84..ec865db 100644
--- a/crates/zune-image/src/channel.rs
+++ b/crates/zune-image/src/channel.rs
@@ -220,6 +220,8 @@ impl Channel {
     /// it's capacity
     pub unsafe fn realloc(&mut self, new_size: usize) {
         self.ptr = realloc(self.ptr, self.layout, new_size);
+        // the next realloc (and dealloc) must see the layout of the new block
+        self.layout = Layout::from_size_align(new_size, self.layout.align()).unwrap();
         // set capacity to be new size
         self.capacity = new_size;
     }
-- 
2.43.0


From 1c114e22f3454dcfbc9a4796a2d39e5e33ea492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 082/157] fix: zune-image: make room for the pushed element in
 small channels

---
 crates/zune-image/src/channel.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/channel.rs b/crates/zune-image/src/channel.rs
index ec865db..695613b 100644
--- a/crates/zune-image/src/channel.rs
+++ b/crates/zune-image/src/channel.rs
@@ -514,8 +514,9 @@ impl Channel {
         if !self.has_capacity(size) {
             unsafe {
                 // extend
-                // use 3/2 formula
-                self.realloc(self.capacity.saturating_mul(size.saturating_mul(3)) / 2);
+                // use 3/2 formula, ensuring there is always place for the new element
+                let grown = self.capacity.saturating_mul(size.saturating_mul(3)) / 2;
+                self.realloc(grown.max(self.length + size));
             }
         }
         // safety:
-- 
2.43.0


From a8a946721d73eb8d107ab5c2265efc2ef804a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 083/157] fix: zune-image: tell luma and alpha apart when
 separating color and alpha

---
 crates/zune-image/src/frame.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/zune-image/src/frame.rs b/crates/zune-image/src/frame.rs
index d3a024d..155faf2 100644
--- a/crates/zune-image/src/frame.rs
+++ b/crates/zune-image/src/frame.rs
@@ -616,15 +616,14 @@ impl Frame {
         if color_space.num_components() != self.channels.len() {
             return None;
         }
-        let mut position = color_space.alpha_position().expect("No way!!");
-        if position == 0 {
-            position = 1;
-        }
+        let alpha_position = color_space.alpha_position().expect("No way!!");
+        // alpha is either the first or the last channel
+        let position = alpha_position.max(1);
         let (src_c1, src_c2) = self.channels.split_at(position);
 
         let src_alpha_channel;
         let src_color_channels;
-        if position == 1 {
+        if alpha_position == 0 {
             // argb
             src_alpha_channel = &src_c1[0];
             src_color_channels = src_c2;
@@ -660,15 +659,14 @@ impl Frame {
         if color_space.num_components() != self.channels.len() {
             return None;
         }
-        let mut position = color_space.alpha_position().expect("No way!!");
-        if position == 0 {
-            position = 1;
-        }
+        let alpha_position = color_space.alpha_position().expect("No way!!");
+        // alpha is either the first or the last channel
+        let position = alpha_position.max(1);
         let (src_c1, src_c2) = self.channels.split_at_mut(position);
 
         let src_alpha_channel;
         let src_color_channels;
-        if position == 1 {
+        if alpha_position == 0 {
             // argb
             src_alpha_channel = &mut src_c1[0];
             src_color_channels = src_c2;
-- 
2.43.0


From 8e4043ad07c84d58ac14df9778a082193328b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 084/157] fix: zune-image: do not panic interleaving into a
 buffer of another length

---
 crates/zune-image/src/utils.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zune-image/src/utils.rs b/crates/zune-image/src/utils.rs
index 47d003d..dc027f1 100644
--- a/crates/zune-image/src/utils.rs
+++ b/crates/zune-image/src/utils.rs
@@ -122,8 +122,10 @@ pub fn swizzle_channels<T: Copy + Default + 'static>(
         0 => Ok(0),
         // copy
         1 => {
-            output.copy_from_slice(channels[0].reinterpret_as()?);
-            Ok(output.len())
+            let channel: &[T] = channels[0].reinterpret_as()?;
+            let size = min(channel.len(), output.len());
+            output[..size].copy_from_slice(&channel[..size]);
+            Ok(size)
         }
         2 => {
             for ((output, a), b) in output
@@ -177,7 +179,8 @@ pub fn swizzle_channels<T: Copy + Default + 'static>(
                 channels_ref.push(channel.reinterpret_as::<T>()?);
             }
             let mut written_pixels = 0;
-            for (pos, pixel) in output.chunks_exact_mut(n).enumerate() {
+            let length = channels_ref.iter().map(|c| c.len()).min().unwrap_or(0);
+            for (pos, pixel) in output.chunks_exact_mut(n).take(length).enumerate() {
                 for (channel, out_p) in channels_ref.iter().zip(pixel) {
                     *out_p = channel[pos];
                     written_pixels += 1;
-- 
2.43.0


From df119e6aea8eb4dfd2c87c6fcbbdf18015c070dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 085/157] fix: zune-image: round when changing the bit depth

---
 crates/zune-image/src/core_filters/depth.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-image/src/core_filters/depth.rs b/crates/zune-image/src/core_filters/depth.rs
index 5cdff7c..e1e6bcd 100644
--- a/crates/zune-image/src/core_filters/depth.rs
+++ b/crates/zune-image/src/core_filters/depth.rs
@@ -83,7 +83,7 @@ pub(crate) fn depth_u8_to_u16(from: &[u8], to: &mut [u16], max_value: u16) {
     let scale = f32::from(max_value);
 
     for (old, new) in from.iter().zip(to.iter_mut()) {
-        let new_val = ((f32::from(*old) * max) * scale) as u16;
+        let new_val = ((f32::from(*old) * max) * scale + 0.5) as u16;
         *new = new_val;
     }
 }
@@ -145,7 +145,7 @@ impl OperationsTrait for Depth {
 
                     // scale by multiplying with 255
                     for (old_chan, new_chan) in old_data.iter().zip(new_channel_raw.iter_mut()) {
-                        *new_chan = (255.0 * old_chan).clamp(0.0, 255.0) as u8;
+                        *new_chan = (255.0 * old_chan + 0.5).clamp(0.0, 255.0) as u8;
                     }
 
                     *channel = new_channel;
@@ -158,7 +158,7 @@ impl OperationsTrait for Depth {
 
                     // scale by multiplying with 65535
                     for (old_chan, new_chan) in old_data.iter().zip(new_channel_raw.iter_mut()) {
-                        *new_chan = (65535.0 * old_chan).clamp(0.0, 65535.0) as u16;
+                        *new_chan = (65535.0 * old_chan).clamp(0.0, 65535.0).round() as u16;
                     }
 
                     *channel = new_channel;
-- 
2.43.0


From 03b0d28d24c5c609bf43707d1aec8003bf203f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 086/157] fix: zune-image: the SIMD grayscale conversions had
 green and blue swapped

---
 crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs | 2 +-
 .../zune-image/src/core_filters/colorspace/grayscale/sse41.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
index b05e972..8b8ef4e 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
@@ -29,8 +29,8 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_avx2(r: &[u8], g: &[u8], b: &[u
 
     for (((r_chunk, g_chunk), b_chunk), out) in r
         .chunks_exact(CHUNK_SIZE)
-        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(g.chunks_exact(CHUNK_SIZE))
+        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(gr.chunks_exact_mut(CHUNK_SIZE))
     {
         // Load to memory
diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
index c7c76b7..570f564 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
@@ -34,8 +34,8 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_sse41(
 
     for (((r_chunk, g_chunk), b_chunk), out) in r
         .chunks_exact(CHUNK_SIZE)
-        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(g.chunks_exact(CHUNK_SIZE))
+        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(gr.chunks_exact_mut(CHUNK_SIZE))
     {
         // PS I'm not sure if this is valid, we chunked 8 values
-- 
2.43.0


From 03b19e2a989d469eee914706d3135d8184274631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 087/157] fix: zune-image: convert all remainder pixels to
 grayscale

---
 .../src/core_filters/colorspace/grayscale/avx2.rs          | 7 +++----
 .../src/core_filters/colorspace/grayscale/sse41.rs         | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
index 8b8ef4e..e030ce6 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
@@ -77,11 +77,10 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_avx2(r: &[u8], g: &[u8], b: &[u
         // do the remainder
         let rem = r.len() % CHUNK_SIZE;
         let start = r.len() - rem;
-        let c_start = r.len() - (rem / 3);
 
-        let c1 = &r[c_start..];
-        let c2 = &g[c_start..];
-        let c3 = &b[c_start..];
+        let c1 = &r[start..];
+        let c2 = &g[start..];
+        let c3 = &b[start..];
 
         convert_rgb_to_grayscale_scalar(c1, c2, c3, &mut gr[start..], 255);
     }
diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
index 570f564..616d83d 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
@@ -75,11 +75,10 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_sse41(
         // assume r ,g and b are equal lengths.
         let rem = r.len() % CHUNK_SIZE;
         let start = r.len() - rem;
-        let c_start = r.len() - (rem / 3);
 
-        let c1 = &r[c_start..];
-        let c2 = &g[c_start..];
-        let c3 = &b[c_start..];
+        let c1 = &r[start..];
+        let c2 = &g[start..];
+        let c3 = &b[start..];
 
         convert_rgb_to_grayscale_scalar(c1, c2, c3, &mut gr[start..], 255);
     }
-- 
2.43.0


From a7c17d0d4cf9769f4e5e1529029fe9fa20c510dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 088/157] fix: zune-image: make 16 bit and float CMYK agree
 with the 8 bit conversion

---
 .../core_filters/colorspace/rgb_to_cmyk.rs    | 40 +++++++++----------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs b/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
index a198347..cafbff3 100644
--- a/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
+++ b/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
@@ -83,16 +83,17 @@ fn rgb_to_cmyk_inner_f32(r: f32, g: f32, b: f32) -> [f32; 4] {
     let ytmp = 1.0 - b.clamp(0., 1.);
 
     let ktmp = ctmp.min(mtmp).min(ytmp);
+    if ktmp >= 1.0 {
+        // black, no color to separate
+        return out;
+    }
     let kmtp_inv = 1.0 / (1.0 - ktmp);
 
-    let c = (ctmp - ktmp) * kmtp_inv;
-    let m = (mtmp - ktmp) * kmtp_inv;
-    let y = (ytmp - ktmp) * kmtp_inv;
-
-    out[0] = c;
-    out[1] = m;
-    out[2] = y;
-    out[3] = ktmp;
+    // stored inverted, like the 8 bit version does
+    out[0] = 1.0 - (ctmp - ktmp) * kmtp_inv;
+    out[1] = 1.0 - (mtmp - ktmp) * kmtp_inv;
+    out[2] = 1.0 - (ytmp - ktmp) * kmtp_inv;
+    out[3] = 1.0 - ktmp;
 
     out
 }
@@ -123,21 +124,16 @@ pub fn rgb_to_cmyk_u16(r_to_c: &mut [u16], g_to_m: &mut [u16], b_to_y: &mut [u16
             f32::from(*g_m) * inv,
             f32::from(*b_y) * inv
         );
-        *r_c = (result[0] * v) as u16;
-        *g_m = (result[1] * v) as u16;
-        *b_y = (result[2] * v) as u16;
-        *k = (result[3] * v) as u16;
+        *r_c = (result[0] * v + 0.5) as u16;
+        *g_m = (result[1] * v + 0.5) as u16;
+        *b_y = (result[2] * v + 0.5) as u16;
+        *k = (result[3] * v + 0.5) as u16;
     }
 }
 #[inline(always)]
 fn cmyk_to_rgb_f32_inner(c: f32, m: f32, y: f32, k: f32) -> [f32; 3] {
-    let k_inv = 1.0 / (k / 255.0 + 0.5);
-
-    let r = c * k_inv;
-    let g = m * k_inv;
-    let b = y * k_inv;
-
-    [r, g, b]
+    // components are inverted, so this is (1-C) * (1-K)
+    [c * k, m * k, y * k]
 }
 
 /// Convert CMYK to RGB
@@ -186,8 +182,8 @@ pub fn cmyk_to_rgb_u16(c_to_r: &mut [u16], m_to_g: &mut [u16], y_to_b: &mut [u16
         let [r, g, b] = cmyk_to_rgb_f32_inner(c, m, y, k);
 
         // scale back to be between 0 - 65535
-        *c_r = (r * v) as u16;
-        *m_g = (g * v) as u16;
-        *y_b = (b * v) as u16;
+        *c_r = (r * v + 0.5) as u16;
+        *m_g = (g * v + 0.5) as u16;
+        *y_b = (b * v + 0.5) as u16;
     }
 }
-- 
2.43.0


From ccd4a4cd1baccfc59dfc4cb91a6d95eb2078d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 089/157] fix: zune-image: move alpha to the end converting
 ARGB to RGBA

---
 .../src/core_filters/colorspace/conversion_functions.rs  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs b/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
index 4e58ae0..bb37360 100644
--- a/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
+++ b/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
@@ -415,11 +415,16 @@ pub fn convert_rgba_to_argb_or_vice_versa(image: &mut Image) -> Result<(), Image
         image.colorspace(),
         ColorSpace::RGBA | ColorSpace::ARGB
     ));
+    let alpha_is_last = image.colorspace() == ColorSpace::RGBA;
     // swap
     for frame in image.frames_mut() {
         // switch the channels now
-        let a_channel = frame.channels_vec().pop().unwrap();
-        frame.channels_vec().insert(0, a_channel);
+        let channels = frame.channels_vec();
+        if alpha_is_last {
+            channels.rotate_right(1);
+        } else {
+            channels.rotate_left(1);
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 4298e514d3a4b7eb672ef16a0ff993636f0c7b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 090/157] fix: zune-imageprocs: transposing an image less than
 eight pixels wide or high underflowed

---
 crates/zune-imageprocs/src/transpose/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/transpose/scalar.rs b/crates/zune-imageprocs/src/transpose/scalar.rs
index b219165..0e43f3d 100644
--- a/crates/zune-imageprocs/src/transpose/scalar.rs
+++ b/crates/zune-imageprocs/src/transpose/scalar.rs
@@ -63,8 +63,8 @@ pub fn transpose_scalar<T: Copy + Default>(
             }
         }
     }
-    let rem_w = width - (width & 7) - 1;
-    let rem_h = height - (height & 7) - 1;
+    let rem_w = width - (width & 7);
+    let rem_h = height - (height & 7);
 
     for i in rem_h..height {
         for j in 0..width {
-- 
2.43.0


From b20e506393d28ae31a04721f256fde958da24649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 091/157] fix: zune-imageprocs: rotate: size the new channels
 by the depth

---
 crates/zune-imageprocs/src/rotate.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index bed172d..d06c0d7 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -61,7 +61,8 @@ impl OperationsTrait for Rotate {
     }
 
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
-        let im_type = image.depth().bit_type();
+        let depth = image.depth();
+        let im_type = depth.bit_type();
 
         let (width, height) = image.dimensions();
 
@@ -70,8 +71,10 @@ impl OperationsTrait for Rotate {
         let resize_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
             let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
 
-            let mut new_channel =
-                Channel::new_with_length_and_type(new_width * new_height, channel.type_id());
+            let mut new_channel = Channel::new_with_length_and_type(
+                new_width * new_height * depth.size_of(),
+                channel.type_id()
+            );
 
             match im_type {
                 BitType::U8 => {
-- 
2.43.0


From 75b83cdc95739add5cb880b821b30512cde36b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 092/157] fix: zune-imageprocs: rotate: rotating by 180 degrees
 only flipped vertically

---
 crates/zune-imageprocs/src/rotate.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index d06c0d7..5d0441a 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -155,7 +155,7 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     if (angle - 180.0).abs() < f32::EPSILON {
         // copy in image to out image
         out_image.copy_from_slice(in_image);
-        rotate_180(out_image, width);
+        rotate_180(out_image);
     } else if (angle - 90.0).abs() < f32::EPSILON {
         rotate_90(in_image, out_image, width, height);
     } else if (angle - 270.0).abs() < f32::EPSILON {
@@ -167,18 +167,9 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     }
 }
 
-fn rotate_180<T: Copy>(in_out_image: &mut [T], width: usize) {
-    let half = in_out_image.len() / 2;
-    let (top, bottom) = in_out_image.split_at_mut(half);
-
-    for (top_chunk, bottom_chunk) in top
-        .chunks_exact_mut(width)
-        .zip(bottom.chunks_exact_mut(width).rev())
-    {
-        for (a, b) in top_chunk.iter_mut().zip(bottom_chunk.iter_mut()) {
-            core::mem::swap(a, b);
-        }
-    }
+fn rotate_180<T: Copy>(in_out_image: &mut [T]) {
+    // the last pixel comes first
+    in_out_image.reverse();
 }
 
 fn rotate_arbitrary<T: Copy + Default + NumOps<T>>(
-- 
2.43.0


From 8809dd1510a4174c098a2e1e4ed985212cc1c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 093/157] fix: zune-imageprocs: rotate: keep the dimensions in
 step with the pixels for whole quarter turns

---
 crates/zune-imageprocs/src/rotate.rs | 34 ++++++++++------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index 5d0441a..4f922d6 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -23,13 +23,16 @@ use crate::traits::NumOps;
 use crate::utils::execute_on;
 
 pub fn get_rotated_dimensions(width: usize, height: usize, angle: f32) -> (usize, usize) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
     // Handle special cases for 90-degree rotations
     if (angle - 90.0).abs() < f32::EPSILON || (angle - 270.0).abs() < f32::EPSILON {
         return (height, width); // Dimensions swap
     }
-    if (angle - 180.0).abs() < f32::EPSILON || angle.abs() < f32::EPSILON {
+    if (angle - 180.0).abs() < f32::EPSILON
+        || angle.abs() < f32::EPSILON
+        || (angle - 360.0).abs() < f32::EPSILON
+    {
         return (width, height); // Dimensions stay the same
     }
 
@@ -66,8 +69,6 @@ impl OperationsTrait for Rotate {
 
         let (width, height) = image.dimensions();
 
-        let will_change_dims = (self.angle - 180.0).abs() > f32::EPSILON;
-
         let resize_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
             let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
 
@@ -115,9 +116,7 @@ impl OperationsTrait for Rotate {
         };
         execute_on(resize_fn, image, false)?;
 
-        if will_change_dims {
-            change_image_dims(image, self.angle);
-        }
+        change_image_dims(image, self.angle);
 
         Ok(())
     }
@@ -129,19 +128,7 @@ impl OperationsTrait for Rotate {
 
 fn change_image_dims(image: &mut Image, angle: f32) {
     let (ow, oh) = image.dimensions();
-    if (angle - 90.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    if (angle - 270.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    // For arbitrary angles, calculate bounding box
-    let angle_rad = angle.to_radians();
-    let cos_a = angle_rad.cos().abs();
-    let sin_a = angle_rad.sin().abs();
-
-    let new_width = (ow as f32 * cos_a + oh as f32 * sin_a).ceil() as usize;
-    let new_height = (ow as f32 * sin_a + oh as f32 * cos_a).ceil() as usize;
+    let (new_width, new_height) = get_rotated_dimensions(ow, oh, angle);
 
     image.set_dimensions(new_width, new_height)
 }
@@ -150,9 +137,12 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     angle: f32, width: usize, height: usize, out_width: usize, out_height: usize, in_image: &[T],
     out_image: &mut [T]
 ) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
-    if (angle - 180.0).abs() < f32::EPSILON {
+    if angle.abs() < f32::EPSILON || (angle - 360.0).abs() < f32::EPSILON {
+        // a whole turn
+        out_image.copy_from_slice(in_image);
+    } else if (angle - 180.0).abs() < f32::EPSILON {
         // copy in image to out image
         out_image.copy_from_slice(in_image);
         rotate_180(out_image);
-- 
2.43.0


From 4e784cb5f614bce969b22cc51aa4b74f4a947578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 094/157] fix: zune-imageprocs: the horizontal Sobel, Scharr
 and Prewitt kernels read the wrong corner

---
 crates/zune-imageprocs/src/prewitt.rs | 4 ++--
 crates/zune-imageprocs/src/scharr.rs  | 4 ++--
 crates/zune-imageprocs/src/sobel.rs   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zune-imageprocs/src/prewitt.rs b/crates/zune-imageprocs/src/prewitt.rs
index 4d07d9a..04d20d6 100644
--- a/crates/zune-imageprocs/src/prewitt.rs
+++ b/crates/zune-imageprocs/src/prewitt.rs
@@ -27,7 +27,7 @@ fn prewitt_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * 1.) + (f32::from(c[2]) * -1.);
     sum_a += (f32::from(c[3]) * 1.) + (f32::from(c[5]) * -1.);
-    sum_a += (f32::from(c[6]) * 1.) + (f32::from(c[7]) * -1.);
+    sum_a += (f32::from(c[6]) * 1.) + (f32::from(c[8]) * -1.);
 
     // matrix
     //  1,  1,  1,
@@ -61,7 +61,7 @@ fn prewitt_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * 1) + (i32::from(c[2]) * -1);
     sum_a += (i32::from(c[3]) * 1) + (i32::from(c[5]) * -1);
-    sum_a += (i32::from(c[6]) * 1) + (i32::from(c[7]) * -1);
+    sum_a += (i32::from(c[6]) * 1) + (i32::from(c[8]) * -1);
 
     // matrix
     //  1,  1,  1,
diff --git a/crates/zune-imageprocs/src/scharr.rs b/crates/zune-imageprocs/src/scharr.rs
index 1e762e5..6dfe2f9 100644
--- a/crates/zune-imageprocs/src/scharr.rs
+++ b/crates/zune-imageprocs/src/scharr.rs
@@ -158,7 +158,7 @@ fn scharr_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * -03.) + (f32::from(c[2]) * 03.);
     sum_a += (f32::from(c[3]) * -10.) + (f32::from(c[5]) * 10.);
-    sum_a += (f32::from(c[6]) * -03.) + (f32::from(c[7]) * 30.);
+    sum_a += (f32::from(c[6]) * -03.) + (f32::from(c[8]) * 03.);
 
     // matrix
     // -03,-10,-03,
@@ -192,7 +192,7 @@ fn scharr_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * -03) + (i32::from(c[2]) * 03);
     sum_a += (i32::from(c[3]) * -10) + (i32::from(c[5]) * 10);
-    sum_a += (i32::from(c[6]) * -03) + (i32::from(c[7]) * 03);
+    sum_a += (i32::from(c[6]) * -03) + (i32::from(c[8]) * 03);
 
     // Gy matrix
     // -3,-10,-3,
diff --git a/crates/zune-imageprocs/src/sobel.rs b/crates/zune-imageprocs/src/sobel.rs
index 663c5fe..1fbf1a5 100644
--- a/crates/zune-imageprocs/src/sobel.rs
+++ b/crates/zune-imageprocs/src/sobel.rs
@@ -112,7 +112,7 @@ fn sobel_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * -1.) + (f32::from(c[2]) * 1.);
     sum_a += (f32::from(c[3]) * -2.) + (f32::from(c[5]) * 2.);
-    sum_a += (f32::from(c[6]) * -1.) + (f32::from(c[7]) * 1.);
+    sum_a += (f32::from(c[6]) * -1.) + (f32::from(c[8]) * 1.);
 
     // matrix
     // -1,-2,-1,
@@ -146,7 +146,7 @@ fn sobel_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * -1) + (i32::from(c[2]) * 1);
     sum_a += (i32::from(c[3]) * -2) + (i32::from(c[5]) * 2);
-    sum_a += (i32::from(c[6]) * -1) + (i32::from(c[7]) * 1);
+    sum_a += (i32::from(c[6]) * -1) + (i32::from(c[8]) * 1);
 
     // matrix
     // -1,-2,-1,
-- 
2.43.0


From c3535d758464a474cd5b2465fbd2b63b767bdc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 095/157] fix: zune-imageprocs: squaring a gradient of a 16 bit
 image overflowed

---
 crates/zune-imageprocs/src/prewitt.rs | 4 +++-
 crates/zune-imageprocs/src/scharr.rs  | 4 +++-
 crates/zune-imageprocs/src/sobel.rs   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/prewitt.rs b/crates/zune-imageprocs/src/prewitt.rs
index 04d20d6..8268144 100644
--- a/crates/zune-imageprocs/src/prewitt.rs
+++ b/crates/zune-imageprocs/src/prewitt.rs
@@ -72,7 +72,9 @@ fn prewitt_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * 1) + (i32::from(c[6]) * -1);
     sum_b += (i32::from(c[7]) * -1) + (i32::from(c[8]) * -1);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the prewitt filter for a float channel
diff --git a/crates/zune-imageprocs/src/scharr.rs b/crates/zune-imageprocs/src/scharr.rs
index 6dfe2f9..a4e576e 100644
--- a/crates/zune-imageprocs/src/scharr.rs
+++ b/crates/zune-imageprocs/src/scharr.rs
@@ -203,7 +203,9 @@ fn scharr_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * -03) + (i32::from(c[6]) * 03);
     sum_b += (i32::from(c[7])  * 10) + (i32::from(c[8]) * 03);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the scharr filter for a float channel
diff --git a/crates/zune-imageprocs/src/sobel.rs b/crates/zune-imageprocs/src/sobel.rs
index 1fbf1a5..ec97b77 100644
--- a/crates/zune-imageprocs/src/sobel.rs
+++ b/crates/zune-imageprocs/src/sobel.rs
@@ -157,7 +157,9 @@ fn sobel_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * -1) + (i32::from(c[6]) * 1);
     sum_b += (i32::from(c[7]) * 2) + (i32::from(c[8]) * 1);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the sobel filter for a float channel
-- 
2.43.0


From b270855de05f2928de4a982eba4a0ac741186e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 096/157] fix: zune-imageprocs: median: the window's middle
 value was missed by one

---
 crates/zune-imageprocs/src/median.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/median.rs b/crates/zune-imageprocs/src/median.rs
index 014c5bf..86d6b97 100644
--- a/crates/zune-imageprocs/src/median.rs
+++ b/crates/zune-imageprocs/src/median.rs
@@ -167,7 +167,7 @@ pub fn median_u16(
 
         for (pos, v) in histogram.iter().enumerate() {
             accum += *v;
-            if accum >= median_pos as u32 {
+            if accum > median_pos as u32 {
                 // we found the median
                 median = pos as u16;
                 break;
@@ -249,7 +249,7 @@ pub fn median_u8(
 
         for (pos, v) in histogram.iter().enumerate() {
             accum += *v;
-            if accum >= median_pos as u32 {
+            if accum > median_pos as u32 {
                 // we found the median
                 median = pos as u8;
                 break;
-- 
2.43.0


From c02cfde02c921bac2ca6311daabf54a1ec2185b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 097/157] fix: zune-imageprocs: median: a radius of one was
 ignored

---
 crates/zune-imageprocs/src/median.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/median.rs b/crates/zune-imageprocs/src/median.rs
index 86d6b97..1363158 100644
--- a/crates/zune-imageprocs/src/median.rs
+++ b/crates/zune-imageprocs/src/median.rs
@@ -72,7 +72,7 @@ impl OperationsTrait for Median {
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let (width, height) = image.dimensions();
 
-        if self.radius < 2 {
+        if self.radius < 1 {
             return Ok(());
         }
         let depth = image.depth();
-- 
2.43.0


From cc96854fed0e57528e6d946224e89912c9fffc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 098/157] fix: zune-imageprocs: the contrast statistic
 overflowed

---
 crates/zune-imageprocs/src/spatial_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/spatial_ops.rs b/crates/zune-imageprocs/src/spatial_ops.rs
index 687fdc3..15621ca 100644
--- a/crates/zune-imageprocs/src/spatial_ops.rs
+++ b/crates/zune-imageprocs/src/spatial_ops.rs
@@ -73,7 +73,7 @@ fn find_contrast<
         }
     }
     let num = maximum - minimum;
-    let div = (maximum + minimum).saturating_add(T::one()); // do not allow division by zero
+    let div = maximum.saturating_add(minimum).saturating_add(T::one()); // do not allow division by zero
 
     num / div
 }
-- 
2.43.0


From 7ed7b7b86eb6fb956b8c2f0b50b9f0a80993709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 099/157] fix: zune-imageprocs: unsharpen wrapped around

---
 crates/zune-imageprocs/src/unsharpen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/unsharpen.rs b/crates/zune-imageprocs/src/unsharpen.rs
index 214597c..ae0fde5 100644
--- a/crates/zune-imageprocs/src/unsharpen.rs
+++ b/crates/zune-imageprocs/src/unsharpen.rs
@@ -202,7 +202,7 @@ pub fn unsharpen_u16(
         // let diff = (diff * percentage) / 100;
 
         // if diff > threshold { pix = (diff + pix) } else { pix }
-        *in_pix = (in_pix.wrapping_add(diff) & !threshold_mask) | (*in_pix & threshold_mask);
+        *in_pix = (in_pix.saturating_add(diff) & !threshold_mask) | (*in_pix & threshold_mask);
     }
 }
 
@@ -238,7 +238,7 @@ pub fn unsharpen_u8(
     // blur buffer now contains gaussian blurred pixels
     // so iterate replacing them
     for (in_pix, blur_pix) in channel.iter_mut().zip(blur_buffer.iter()) {
-        let diff = in_pix.wrapping_sub(*blur_pix);
+        let diff = in_pix.saturating_sub(*blur_pix);
         // pull some branchless tricks to help the optimizer
         // here
 
-- 
2.43.0


From 283cd0ae56530f4b2bd8345c73b9bd33290f148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 100/157] fix: zune-imageprocs: bilateral: honour the
 documented handling of non-positive parameters

---
 crates/zune-imageprocs/src/bilateral_filter.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/zune-imageprocs/src/bilateral_filter.rs b/crates/zune-imageprocs/src/bilateral_filter.rs
index 6e7c209..e8a271a 100644
--- a/crates/zune-imageprocs/src/bilateral_filter.rs
+++ b/crates/zune-imageprocs/src/bilateral_filter.rs
@@ -78,9 +78,6 @@ impl OperationsTrait for BilateralFilter {
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let depth = image.depth();
         let (w, h) = image.dimensions();
-        if self.d < 1 {
-            return Ok(());
-        }
 
         // initialize bilateral coefficients outside of the main loop
         let coeffs = init_bilateral(
@@ -134,18 +131,18 @@ struct BilateralCoeffs {
 
 #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
 fn init_bilateral(
-    d: i32, sigma_color: f32, mut sigma_space: f32, color_range: usize
+    d: i32, mut sigma_color: f32, mut sigma_space: f32, color_range: usize
 ) -> BilateralCoeffs {
+    if sigma_color <= 0.0 {
+        sigma_color = 1.0;
+    }
+    if sigma_space <= 0.0 {
+        sigma_space = 1.0;
+    }
     let gauss_color_coeff = f64::from(-0.5 / (sigma_color * sigma_color));
     let gauss_space_coeff = f64::from(-0.5 / (sigma_space * sigma_space));
     let cn = 1;
 
-    // if sigma_color <= 0.0 {
-    //     sigma_color = 1.0;
-    // }
-    if sigma_space <= 0.0 {
-        sigma_space = 1.0;
-    }
 
     let radius: i32 = if d <= 0 { (sigma_space * 1.5).round() as _ } else { d / 2 };
 
-- 
2.43.0


From 7907bb63681f69fcfac605111c79720d3c82c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 101/157] fix: zune-imageprocs: bilateral: pair each pixel of
 the window with its own weight

---
 .../zune-imageprocs/src/bilateral_filter.rs   | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/crates/zune-imageprocs/src/bilateral_filter.rs b/crates/zune-imageprocs/src/bilateral_filter.rs
index e8a271a..fdb3965 100644
--- a/crates/zune-imageprocs/src/bilateral_filter.rs
+++ b/crates/zune-imageprocs/src/bilateral_filter.rs
@@ -125,8 +125,7 @@ impl OperationsTrait for BilateralFilter {
 struct BilateralCoeffs {
     color_weight: Vec<f64>,
     space_weight: Vec<f64>,
-    radius:       usize,
-    makx:         usize
+    radius:       usize
 }
 
 #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
@@ -147,30 +146,30 @@ fn init_bilateral(
     let radius: i32 = if d <= 0 { (sigma_space * 1.5).round() as _ } else { d / 2 };
 
     let mut color_weight = vec![0.0_f64; cn * color_range];
-    let mut space_weight = vec![0.0_f64; (d * d).unsigned_abs() as usize];
+    let mut space_weight = Vec::new();
 
     // initialize color-related bilateral filter coeffs
     for (i, item) in color_weight.iter_mut().enumerate().take(color_range) {
         let c = i as f64;
         *item = (c * c * gauss_color_coeff).exp();
     }
-    let mut makx = 0;
     // initialize space-related bilateral coeffs
     for i in -radius..=radius {
         for j in -radius..=radius {
             let r = f64::from((i * i) + (j * j)).sqrt();
+            // one weight for each pixel of the square window, those outside of the circle
+            // do not count
             if r > f64::from(radius) {
-                continue;
+                space_weight.push(0.0);
+            } else {
+                space_weight.push((r * r * gauss_space_coeff).exp());
             }
-            space_weight[makx] = (r * r * gauss_space_coeff).exp();
-            makx += 1;
         }
     }
     return BilateralCoeffs {
         color_weight,
         space_weight,
-        radius: usize::try_from(radius).unwrap_or_default(),
-        makx
+        radius: usize::try_from(radius).unwrap_or_default()
     };
 }
 
@@ -195,17 +194,13 @@ fn bilateral_filter_int<T>(
     // This impl matches opencv bilateral_filter's inner loop, with less pointer chasing as
     // the spatial function sends the right thing to us
     let bilateral_func = |area: &[T]| -> T {
-        let mid = (area.len() + 1) / 2;
+        let mid = area.len() / 2;
 
         let mut sum = 0.0;
         let mut wsum = 0.0;
         let val0 = i32::from(area[mid]);
 
-        for (val, space_w) in area
-            .iter()
-            .zip(coeffs.space_weight.iter())
-            .take(coeffs.makx)
-        {
+        for (val, space_w) in area.iter().zip(coeffs.space_weight.iter()) {
             let val = i32::from(*val);
             let abs_val = (val - val0).unsigned_abs() as usize;
 
-- 
2.43.0


From 234961f000cf64dcdbcc1ca81483f7bff7dbeb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 102/157] fix: zune-imageprocs: box blur: extend the edges for
 windows of any size

---
 crates/zune-imageprocs/src/box_blur.rs | 153 +++++++------------------
 1 file changed, 44 insertions(+), 109 deletions(-)

diff --git a/crates/zune-imageprocs/src/box_blur.rs b/crates/zune-imageprocs/src/box_blur.rs
index 7dca2f3..02b739f 100644
--- a/crates/zune-imageprocs/src/box_blur.rs
+++ b/crates/zune-imageprocs/src/box_blur.rs
@@ -193,6 +193,8 @@ where
     T: Copy + NumOps<T>,
     u32: std::convert::From<T>
 {
+    // larger than any image there is, and the sums below still fit
+    let radius = radius.min(1 << 30);
     let diameter = (radius * 2) + 1;
     // 1D-Box blurs can be seen as the average of radius pixels iterating
     // through a window
@@ -219,79 +221,44 @@ where
     // where a is sum of chunk[0..r], (first of the array), we can keep updating a during the loop
     // and we have a window sum!
 
-    if width <= 1 || diameter <= 1 {
-        // repeated here for the optimizer
+    if width == 0 {
         return;
     }
-    let diameter = diameter.min(width);
     let m_radius = compute_mod_u32(diameter as u64);
+    // largest sum for which the fast division is exact
+    let max_sum = (diameter as u64).saturating_mul(u64::from(u32::from(T::MAX_VAL)));
+    let divide = |sum: u64| -> T {
+        if max_sum <= u64::from(u32::MAX) {
+            T::from_u32(fastdiv_u32(sum as u32, m_radius))
+        } else {
+            T::from_u32((sum / diameter as u64) as u32)
+        }
+    };
 
     for (stride_in, stride_out) in in_image
         .chunks_exact(width)
         .zip(out_image.chunks_exact_mut(width))
     {
-        let half_radius = (diameter + 1) / 2;
-
-        let mut accumulator: u32 = stride_in[..half_radius].iter().map(|x| u32::from(*x)).sum();
-
-        accumulator += ((half_radius - 1) as u32) * u32::from(stride_in[0]);
-
-        for (data_in, data_out) in stride_in[half_radius..]
-            .iter()
-            .zip(stride_out.iter_mut())
-            .take(half_radius - 1)
-        {
-            accumulator += u32::from(*data_in);
-            accumulator -= u32::from(stride_in[0]);
-
-            *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
-        }
-
-        // testing purposes
-        //
-        // assert_eq!(
-        //     accumulator,
-        //     stride_in[..diameter]
-        //         .iter()
-        //         .map(|x| u32::from(*x))
-        //         .sum::<u32>()
-        // );
-
-        let mut window_slide = u32::from(stride_in[0]);
-
-        for (window_in, data_out) in stride_in[1..]
-            .windows(diameter)
-            .zip(stride_out[half_radius - 1..].iter_mut())
-        {
-            accumulator -= window_slide;
-            accumulator += u32::from(*window_in.last().unwrap());
-
-            // testing purposes
-            //
-            // assert_eq!(
-            //     accumulator,
-            //     window_in.iter().map(|x| u32::from(*x)).sum::<u32>()
-            // );
-
-            window_slide = u32::from(window_in[0]);
-
-            *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
-        }
-
-        let edge_len = stride_out.len() - half_radius;
-
-        let end_stride = &mut stride_out[edge_len..];
-        let last_item = u32::from(*stride_in.last().unwrap());
-
-        for (data_in, data_out) in stride_in[edge_len..]
-            .iter()
-            .zip(end_stride)
-            .take(half_radius)
-        {
-            accumulator = accumulator.wrapping_sub(u32::from(*data_in));
-            accumulator = accumulator.wrapping_add(last_item);
-
-            *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
+        // pixels to the left of the first one repeat it, those right of the last one repeat that
+        let first = u64::from(u32::from(stride_in[0]));
+        let last = u64::from(u32::from(stride_in[width - 1]));
+        let inside = (radius + 1).min(width);
+
+        // window of the first pixel
+        let mut accumulator = first * radius as u64
+            + stride_in[..inside]
+                .iter()
+                .map(|x| u64::from(u32::from(*x)))
+                .sum::<u64>()
+            + last * (radius + 1 - inside) as u64;
+
+        for (x, data_out) in stride_out.iter_mut().enumerate() {
+            *data_out = divide(accumulator);
+
+            let leaving = stride_in[x.saturating_sub(radius)];
+            let entering = stride_in[(x + radius + 1).min(width - 1)];
+            accumulator += u64::from(u32::from(entering));
+            accumulator -= u64::from(u32::from(leaving));
         }
     }
 }
@@ -303,64 +270,32 @@ where
 pub(crate) fn box_blur_f32_inner(
     in_image: &[f32], out_image: &mut [f32], width: usize, radius: usize
 ) {
+    // larger than any image there is, and the sums below still fit
+    let radius = radius.min(1 << 30);
     let diameter = (radius * 2) + 1;
 
-    if width <= 1 || diameter <= 1 {
-        // repeated here for the optimizer
+    if width == 0 {
         return;
     }
-    let diameter = diameter.min(width);
     let recip = 1.0 / diameter as f32;
 
     for (stride_in, stride_out) in in_image
         .chunks_exact(width)
         .zip(out_image.chunks_exact_mut(width))
     {
-        let half_radius = (diameter + 1) / 2;
-
-        let mut accumulator: f32 = stride_in[..half_radius].iter().copied().sum();
+        let inside = (radius + 1).min(width);
 
-        accumulator += (half_radius - 1) as f32 * stride_in[0];
-
-        for (data_in, data_out) in stride_in[half_radius..]
-            .iter()
-            .zip(stride_out.iter_mut())
-            .take(half_radius - 1)
-        {
-            accumulator += *data_in;
-            accumulator -= stride_in[0];
+        // window of the first pixel
+        let mut accumulator = stride_in[0] * radius as f32
+            + stride_in[..inside].iter().sum::<f32>()
+            + stride_in[width - 1] * (radius + 1 - inside) as f32;
 
+        for (x, data_out) in stride_out.iter_mut().enumerate() {
             *data_out = accumulator * recip;
-        }
-
-        let mut window_slide = stride_in[0];
-
-        for (window_in, data_out) in stride_in[1..]
-            .windows(diameter)
-            .zip(stride_out[half_radius - 1..].iter_mut())
-        {
-            accumulator -= window_slide;
-            accumulator += *window_in.last().unwrap();
-
-            window_slide = window_in[0];
 
-            *data_out = accumulator * recip;
-        }
-
-        let edge_len = stride_out.len() - half_radius;
-
-        let end_stride = &mut stride_out[edge_len..];
-        let last_item = *stride_in.last().unwrap();
-
-        for (data_in, data_out) in stride_in[edge_len..]
-            .iter()
-            .zip(end_stride)
-            .take(half_radius)
-        {
-            accumulator -= *data_in;
-            accumulator += last_item;
-
-            *data_out = accumulator * recip;
+            let leaving = stride_in[x.saturating_sub(radius)];
+            let entering = stride_in[(x + radius + 1).min(width - 1)];
+            accumulator += entering - leaving;
         }
     }
 }
-- 
2.43.0


From 14db0b66510f4dba22c4d7390931ab190a355a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 103/157] fix: zune-imageprocs: gaussian blur: use radii
 matching sigma

---
 crates/zune-imageprocs/src/gaussian_blur.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/zune-imageprocs/src/gaussian_blur.rs b/crates/zune-imageprocs/src/gaussian_blur.rs
index 5263807..5ad8100 100644
--- a/crates/zune-imageprocs/src/gaussian_blur.rs
+++ b/crates/zune-imageprocs/src/gaussian_blur.rs
@@ -167,13 +167,14 @@ impl OperationsTrait for GaussianBlur {
     clippy::cast_precision_loss
 )]
 fn create_box_gauss(sigma: f32) -> [usize; 3] {
-    let mut radii = [1_usize; 3];
+    // widths of the boxes
+    let mut widths = [1_usize; 3];
     if sigma > 0.0 {
         let n_float = 3.0;
 
         // Ideal averaging filter width
-        let w_ideal = (12.0 * sigma * sigma / n_float).sqrt() + 1.0;
-        let mut wl: i32 = w_ideal.floor() as i32;
+        let w_ideal = (12.0 * sigma * sigma / n_float + 1.0).sqrt();
+        let mut wl: i32 = w_ideal.floor().min(1e9) as i32;
 
         if wl % 2 == 0 {
             wl -= 1;
@@ -193,14 +194,14 @@ fn create_box_gauss(sigma: f32) -> [usize; 3] {
 
         for i in 0..3 {
             if i < m {
-                radii[i] = wl as usize;
+                widths[i] = wl as usize;
             } else {
-                radii[i] = wu;
+                widths[i] = wu;
             }
         }
     }
-    // convert even to odd if there exists such values
-    return radii.map(|c| if (c % 2) == 0 { c + 1 } else { c });
+    // the widths are odd, a box covers radius pixels to each side of its middle
+    return widths.map(|c| c / 2);
 }
 
 /// Carry out a gaussian blur on bytes that represent a single image channel
-- 
2.43.0


From 2f137f7383c56a6686d8cedf57e602b72aee81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 104/157] fix: zune-imageprocs: threshold: to zero keeps the
 pixels above the threshold

---
 crates/zune-imageprocs/src/threshold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/threshold.rs b/crates/zune-imageprocs/src/threshold.rs
index 5e7dd13..177abe1 100644
--- a/crates/zune-imageprocs/src/threshold.rs
+++ b/crates/zune-imageprocs/src/threshold.rs
@@ -146,7 +146,7 @@ pub fn threshold<T>(in_channel: &mut [T], threshold: T, method: ThresholdMethod)
             {
                 for x in in_channel.iter_mut()
                 {
-                    *x = if *x > threshold { threshold } else { T::min_val() }
+                    *x = if *x > threshold { *x } else { T::min_val() }
                 }
             }
     }
-- 
2.43.0


From 8f95ecc35c98c4b737738fb08a981a0ee293b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 105/157] fix: zune-imageprocs: stretch contrast linearly

---
 crates/zune-imageprocs/src/stretch_contrast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/stretch_contrast.rs b/crates/zune-imageprocs/src/stretch_contrast.rs
index 69fd8ce..63abd5c 100644
--- a/crates/zune-imageprocs/src/stretch_contrast.rs
+++ b/crates/zune-imageprocs/src/stretch_contrast.rs
@@ -107,7 +107,7 @@ where
         return Err("upper must be strictly greater than lower");
     }
 
-    let len = u32::from(upper.saturating_sub(lower)).saturating_add(1);
+    let len = u32::from(upper.saturating_sub(lower)).max(1);
 
     // using fast division is faster than the other one
     // (weirdly) vectorized one.
@@ -144,7 +144,7 @@ pub fn stretch_contrast_f32(image: &mut [f32], lower: f32, upper: f32) -> Result
         } else if *pixel <= lower {
             *pixel = f32::min_val();
         } else {
-            *pixel = (f32::max_val() - *pixel) * inv_range;
+            *pixel = (*pixel - lower) * inv_range;
         }
     }
 
-- 
2.43.0


From c10b76f555118ebbb33620f16496f3ef748d69f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 106/157] fix: zune-imageprocs: gamma: round to the nearest
 value

---
 crates/zune-imageprocs/src/gamma.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/gamma.rs b/crates/zune-imageprocs/src/gamma.rs
index dc01909..aaf25d9 100644
--- a/crates/zune-imageprocs/src/gamma.rs
+++ b/crates/zune-imageprocs/src/gamma.rs
@@ -51,7 +51,8 @@ fn build_gamma_lut<T: Default + NumOps<T> + Copy>(value: f32, max_value: u16) ->
             new_pix_val = max_value;
         }
 
-        lut[x & lut_mask] = T::from_f32(new_pix_val);
+        // round to the nearest value
+        lut[x & lut_mask] = T::from_f32(new_pix_val + 0.5);
     }
     return lut;
 }
-- 
2.43.0


From e3f3574d3c7227f7080594f3f5fb8bb2ce397080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 107/157] fix: zune-imageprocs: composite: export Gravity

---
 crates/zune-imageprocs/src/composite.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index e371d41..d69fcdb 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -4,7 +4,8 @@ use zune_image::image::Image;
 use zune_image::traits::OperationsTrait;
 
 use crate::traits::NumOps;
-use crate::utils::{calculate_gravity, Gravity};
+use crate::utils::calculate_gravity;
+pub use crate::utils::Gravity;
 
 /// Composite method to use for composing
 ///
-- 
2.43.0


From 13043b10411437ba748441073be6b41cd2bfe0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 108/157] fix: zune-imageprocs: premultiply: divide once

---
 crates/zune-imageprocs/src/premul_alpha.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/zune-imageprocs/src/premul_alpha.rs b/crates/zune-imageprocs/src/premul_alpha.rs
index 4881b49..fdf0c64 100644
--- a/crates/zune-imageprocs/src/premul_alpha.rs
+++ b/crates/zune-imageprocs/src/premul_alpha.rs
@@ -238,12 +238,10 @@ pub fn create_unpremul_table_u16() -> Vec<u128> {
 /// Items in input are modified in place.
 #[allow(clippy::cast_possible_truncation)]
 pub fn premultiply_u8(input: &mut [u8], alpha: &[u8]) {
-    const MAX_VALUE: u16 = 255;
-
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u16::from(*al) * u16::from(*color)) + 0x80;
 
-        *color = ((temp + (temp >> 8)) / MAX_VALUE) as u8;
+        *color = ((temp + (temp >> 8)) >> 8) as u8;
     });
 }
 
@@ -261,7 +259,7 @@ pub fn premultiply_u16(input: &mut [u16], alpha: &[u16]) {
 
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u32::from(*al) * u32::from(*color)) + ((MAX_VALUE + 1) / 2);
-        *color = ((temp + (temp >> 16)) / MAX_VALUE) as u16;
+        *color = ((temp + (temp >> 16)) >> 16) as u16;
     });
 }
 
-- 
2.43.0


From 00a60da8e166646e78f1c68e0f572784a47515d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 109/157] fix: zune-imageprocs: blend: stop after copying the
 source

---
 crates/zune-imageprocs/src/blend.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-imageprocs/src/blend.rs b/crates/zune-imageprocs/src/blend.rs
index d1c435a..00b08ca 100644
--- a/crates/zune-imageprocs/src/blend.rs
+++ b/crates/zune-imageprocs/src/blend.rs
@@ -146,6 +146,7 @@ where
     if src_alpha >= 1.0 {
         // copy source to destination
         dest.copy_from_slice(src);
+        return;
     }
 
     let dest_alpha = 1.0 - src_alpha;
-- 
2.43.0


From 97bd7f51bfaca72a21c4f9c9e8ed276af916f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 110/157] fix: zune-imageprocs: composite: handle alpha as
 documented

---
 crates/zune-imageprocs/src/composite.rs | 50 +++++++++++++++++--------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index d69fcdb..d5b1995 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -137,6 +137,8 @@ impl<'a> OperationsTrait for Composite<'a> {
 
                         let (dst_color_channels, dst_alpha_channel) =
                             dst_frame.separate_color_and_alpha_mut(colorspace).unwrap();
+                        // the color of a pixel depends on the alpha that was there before
+                        let old_dst_alpha = dst_alpha_channel.clone();
 
                         for (src_chan, d_chan) in src_color_channels.iter().zip(dst_color_channels)
                         {
@@ -145,6 +147,7 @@ impl<'a> OperationsTrait for Composite<'a> {
                                     src_chan.reinterpret_as()?,
                                     d_chan.reinterpret_as_mut()?,
                                     src_alpha_channel.reinterpret_as()?,
+                                    old_dst_alpha.reinterpret_as()?,
                                     dims.0,
                                     dims.1,
                                     src_width,
@@ -155,6 +158,7 @@ impl<'a> OperationsTrait for Composite<'a> {
                                     src_chan.reinterpret_as()?,
                                     d_chan.reinterpret_as_mut()?,
                                     src_alpha_channel.reinterpret_as()?,
+                                    old_dst_alpha.reinterpret_as()?,
                                     dims.0,
                                     dims.1,
                                     src_width,
@@ -165,6 +169,7 @@ impl<'a> OperationsTrait for Composite<'a> {
                                     src_chan.reinterpret_as()?,
                                     d_chan.reinterpret_as_mut()?,
                                     src_alpha_channel.reinterpret_as()?,
+                                    old_dst_alpha.reinterpret_as()?,
                                     dims.0,
                                     dims.1,
                                     src_width,
@@ -282,18 +287,20 @@ impl<'a> OperationsTrait for Composite<'a> {
 
 #[allow(clippy::too_many_arguments)]
 fn composite_alpha<T>(
-    src: &[T], dest: &mut [T], src_alpha: &[T], start_x: usize, start_y: usize, width_src: usize,
-    width_dest: usize, method: CompositeMethod
+    src: &[T], dest: &mut [T], src_alpha: &[T], dst_alpha: &[T], start_x: usize, start_y: usize,
+    width_src: usize, width_dest: usize, method: CompositeMethod
 ) where
     T: Copy + NumOps<T>,
     f32: From<T>
 {
     if method == CompositeMethod::Over {
         composite_over_alpha(
-            src, dest, src_alpha, start_x, start_y, width_src, width_dest
+            src, dest, src_alpha, dst_alpha, start_x, start_y, width_src, width_dest
         );
     } else {
-        unreachable!()
+        composite(
+            src, dest, start_x, start_y, width_src, width_dest, method
+        );
     }
 }
 fn composite_alpha_channel<T>(
@@ -318,14 +325,16 @@ fn composite_alpha_channel<T>(
                 for (src_p, dst) in src_width[..min_width].iter().zip(slice.iter_mut()) {
                     // formula : a_o = a_x + a_y(1-a_x)
                     let src_normalized = (f32::from(*src_p) * max_v).clamp(0.0, 1.0);
-                    let dst_alpha = 1.0 - src_normalized;
+                    let dst_weight = 1.0 - src_normalized;
 
-                    *dst = T::from_f32(
-                        (src_normalized * f32::from(*src_p)) + (dst_alpha * f32::from(*dst))
-                    );
+                    *dst = T::from_f32(f32::from(*src_p) + (dst_weight * f32::from(*dst)));
                 }
             }
         }
+    } else {
+        composite(
+            alpha_src, dst_alpha, start_x, start_y, width_src, width_dest, method
+        );
     }
 }
 fn composite<T: Copy + NumOps<T>>(
@@ -369,31 +378,42 @@ fn composite_over<T: Copy>(
 }
 
 fn composite_over_alpha<T>(
-    src: &[T], dest: &mut [T], src_alpha: &[T], start_x: usize, start_y: usize, width_src: usize,
-    width_dest: usize
+    src: &[T], dest: &mut [T], src_alpha: &[T], dst_alpha: &[T], start_x: usize, start_y: usize,
+    width_src: usize, width_dest: usize
 ) where
     T: Copy + NumOps<T>,
     f32: From<T>
 {
     let max_v = 1.0 / f32::from(T::max_val());
 
-    for ((dst_width, src_width), src_width_alpha) in dest
+    for (((dst_width, dst_width_alpha), src_width), src_width_alpha) in dest
         .chunks_exact_mut(width_dest)
+        .zip(dst_alpha.chunks_exact(width_dest))
         .skip(start_y)
         .zip(src.chunks_exact(width_src))
         .zip(src_alpha.chunks_exact(width_src))
     {
-        if let Some(slice) = dst_width.get_mut(start_x..) {
+        if let (Some(slice), Some(slice_alpha)) =
+            (dst_width.get_mut(start_x..), dst_width_alpha.get(start_x..))
+        {
             // get the minimum width to remove out of bounds panics
             let min_width = slice.len().min(src_width.len());
 
-            for ((src_p, src_alpha), dst) in src_width[..min_width]
+            for (((src_p, src_alpha), dst), dst_alpha) in src_width[..min_width]
                 .iter()
                 .zip(src_width_alpha[..min_width].iter())
                 .zip(slice.iter_mut())
+                .zip(slice_alpha.iter())
             {
-                let src_normalized = (f32::from(*src_alpha) * max_v).clamp(0.0, 1.0);
-                let dst_alpha = 1.0 - src_normalized;
+                let src_alpha = (f32::from(*src_alpha) * max_v).clamp(0.0, 1.0);
+                let dst_alpha = (f32::from(*dst_alpha) * max_v).clamp(0.0, 1.0) * (1.0 - src_alpha);
+                let out_alpha = src_alpha + dst_alpha;
+
+                if out_alpha <= 0.0 {
+                    continue;
+                }
+                let src_normalized = src_alpha / out_alpha;
+                let dst_alpha = dst_alpha / out_alpha;
                 *dst = T::from_f32(
                     (src_normalized * f32::from(*src_p)) + (dst_alpha * f32::from(*dst))
                 );
-- 
2.43.0


From b3430c79c0f0a027c5535d1af0f61c8dd63b27ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 111/157] fix: zune-imageprocs: composite: report the method
 that is not implemented

---
 crates/zune-imageprocs/src/composite.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index d5b1995..25df35a 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -274,7 +274,9 @@ impl<'a> OperationsTrait for Composite<'a> {
                 }
             }
             CompositeMethodType::AlphaChannel => {
-                // we need
+                return Err(ImageErrors::GenericStr(
+                    "The composite method is not implemented"
+                ));
             }
         }
         Ok(())
-- 
2.43.0


From d3d8437bf7b789fe7e142a33b2778c2515cf809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 112/157] fix: zune-imageprocs: affine: allocate channels in
 bytes

---
 crates/zune-imageprocs/src/affine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/affine.rs b/crates/zune-imageprocs/src/affine.rs
index 7dcb7b3..a95baad 100644
--- a/crates/zune-imageprocs/src/affine.rs
+++ b/crates/zune-imageprocs/src/affine.rs
@@ -137,6 +137,7 @@ impl OperationsTrait for AffineTransform {
         let (w, h) = image.dimensions();
         let depth = image.depth().bit_type();
         let (new_w, new_h) = get_affine_output_dimensions(w, h, self);
+        let new_length = new_w * new_h * image.depth().size_of();
 
         // Get inverse transform for reverse mapping
         match self.inverse() {
@@ -147,7 +148,7 @@ impl OperationsTrait for AffineTransform {
             } // Degenerate transform
         };
         let affine_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
-            let mut new_channel = Channel::new_with_bit_type(new_w * new_h, depth);
+            let mut new_channel = Channel::new_with_bit_type(new_length, depth);
 
             match depth {
                 BitType::U8 => affine_transform_channel::<u8>(
-- 
2.43.0


From 68d399d74122ad6e8d6113960d2f9b786db50625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 113/157] fix: zune-imageprocs: affine and rotate: keep the
 last row and column

---
 crates/zune-imageprocs/src/affine.rs | 16 ++++++++--------
 crates/zune-imageprocs/src/rotate.rs | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/zune-imageprocs/src/affine.rs b/crates/zune-imageprocs/src/affine.rs
index a95baad..8b4bd86 100644
--- a/crates/zune-imageprocs/src/affine.rs
+++ b/crates/zune-imageprocs/src/affine.rs
@@ -283,14 +283,14 @@ pub fn affine_transform_channel<T: Copy + Default + NumOps<T>>(
 
             // Bilinear interpolation
             if src_x >= 0.0
-                && src_x < (in_width - 1) as f32
+                && src_x <= (in_width - 1) as f32
                 && src_y >= 0.0
-                && src_y < (in_height - 1) as f32
+                && src_y <= (in_height - 1) as f32
             {
                 let x0 = src_x.floor() as usize;
                 let y0 = src_y.floor() as usize;
-                let x1 = x0 + 1;
-                let y1 = y0 + 1;
+                let x1 = (x0 + 1).min(in_width - 1);
+                let y1 = (y0 + 1).min(in_height - 1);
 
                 let fx = src_x - x0 as f32;
                 let fy = src_y - y0 as f32;
@@ -300,10 +300,10 @@ pub fn affine_transform_channel<T: Copy + Default + NumOps<T>>(
                 let p01 = in_channel[y1 * in_width + x0].to_f32();
                 let p11 = in_channel[y1 * in_width + x1].to_f32();
 
-                let result = p00 * (1.0 - fx) * (1.0 - fy)
-                    + p10 * fx * (1.0 - fy)
-                    + p01 * (1.0 - fx) * fy
-                    + p11 * fx * fy;
+                // in this form equal pixels give exactly their value
+                let top = p00 + (p10 - p00) * fx;
+                let bottom = p01 + (p11 - p01) * fx;
+                let result = top + (bottom - top) * fy;
 
                 out_channel[out_y * out_width + out_x] = T::from_f32(result);
             }
diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index 4f922d6..804168c 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -190,14 +190,14 @@ fn rotate_arbitrary<T: Copy + Default + NumOps<T>>(
 
             // Check bounds and interpolate
             if src_x >= 0.0
-                && src_x < (in_width - 1) as f32
+                && src_x <= (in_width - 1) as f32
                 && src_y >= 0.0
-                && src_y < (in_height - 1) as f32
+                && src_y <= (in_height - 1) as f32
             {
                 let x0 = src_x.floor() as usize;
                 let y0 = src_y.floor() as usize;
-                let x1 = x0 + 1;
-                let y1 = y0 + 1;
+                let x1 = (x0 + 1).min(in_width - 1);
+                let y1 = (y0 + 1).min(in_height - 1);
 
                 let fx = src_x - x0 as f32;
                 let fy = src_y - y0 as f32;
@@ -207,10 +207,10 @@ fn rotate_arbitrary<T: Copy + Default + NumOps<T>>(
                 let p01 = in_image[y1 * in_width + x0].to_f32();
                 let p11 = in_image[y1 * in_width + x1].to_f32();
 
-                let result = p00 * (1.0 - fx) * (1.0 - fy)
-                    + p10 * fx * (1.0 - fy)
-                    + p01 * (1.0 - fx) * fy
-                    + p11 * fx * fy;
+                // in this form equal pixels give exactly their value
+                let top = p00 + (p10 - p00) * fx;
+                let bottom = p01 + (p11 - p01) * fx;
+                let result = top + (bottom - top) * fy;
 
                 out_image[out_y * out_width + out_x] = T::from_f32(result);
             }
-- 
2.43.0


From f781911e712a720e5a5cafe339ed8c8f7354fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 114/157] fix: zune-imageprocs: resize: an image already in
 linear light stays in it

---
 crates/zune-imageprocs/src/resize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index bd3c5c0..e91c58b 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -90,7 +90,8 @@ impl OperationsTrait for Resize {
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         // For any resize always convert gamma to linear.
         // But check if that is the current image format
-        let is_image_linear = image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
+        let is_image_linear = image.metadata().is_linear()
+            || image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
 
         let transfer_function = image
             .metadata()
-- 
2.43.0


From aaf8f21b708afe85070fd2c35b76de95ed44cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 115/157] fix: zune-imageprocs: resize: handle sizes of zero
 and unchanged sizes

---
 crates/zune-imageprocs/src/resize.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index e91c58b..df31a81 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -88,6 +88,14 @@ impl OperationsTrait for Resize {
 
     #[allow(clippy::too_many_lines)]
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
+        if self.new_width == 0 || self.new_height == 0 {
+            return Err(ImageErrors::GenericStr(
+                "Cannot resize an image to a width or height of zero"
+            ));
+        }
+        if image.dimensions() == (self.new_width, self.new_height) {
+            return Ok(());
+        }
         // For any resize always convert gamma to linear.
         // But check if that is the current image format
         let is_image_linear = image.metadata().is_linear()
-- 
2.43.0


From 4963bb5c5e3cd477f109edca9279b0f5acc50906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 116/157] fix: zune-imageprocs: resize: work in floating point

---
 crates/zune-imageprocs/src/resize.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index df31a81..d31cb12 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -106,6 +106,10 @@ impl OperationsTrait for Resize {
             .color_trc()
             .unwrap_or(ColorCharacteristics::sRGB);
 
+        // whole numbers would lose color in linear light and when premultiplied
+        let original_depth = image.depth();
+        image.convert_depth(BitDepth::Float32)?;
+
         if !is_image_linear {
             let start = Instant::now();
             trace!("Converting image to linear along resize method");
@@ -123,10 +127,7 @@ impl OperationsTrait for Resize {
         // if alpha is present premultiply
         let is_premultiplied = image.metadata().is_premultiplied_alpha();
         let has_alpha = image.colorspace().has_alpha();
-        let original_depth = image.depth();
         if !is_premultiplied && has_alpha {
-            // pre multiply looses color if its in u8
-            image.convert_depth(BitDepth::Float32)?;
             trace!("Premultiplying alpha along resize method");
             let start = Instant::now();
             PremultiplyAlpha::new(AlphaState::PreMultiplied).execute_impl(image)?;
@@ -200,8 +201,6 @@ impl OperationsTrait for Resize {
             trace!("Un-premultiplying alpha along resize method");
             let start = Instant::now();
             PremultiplyAlpha::new(AlphaState::NonPreMultiplied).execute_impl(image)?;
-            // return the depth originally there
-            image.convert_depth(original_depth)?;
             let duration = start.elapsed();
             trace!("Un-premultiply successfully completed in {:.2?}", duration);
         }
@@ -220,6 +219,8 @@ impl OperationsTrait for Resize {
                 duration
             );
         }
+        // return the depth originally there
+        image.convert_depth(original_depth)?;
 
         Ok(())
     }
-- 
2.43.0


From ad7ab93ff18b5d50d989fbd74af3dbae7763c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 117/157] fix: return the encoded bytes from
 EncoderTrait::encode_to_result

---
 crates/zune-image/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/traits.rs b/crates/zune-image/src/traits.rs
index 3f74b0f..13929fd 100644
--- a/crates/zune-image/src/traits.rs
+++ b/crates/zune-image/src/traits.rs
@@ -386,10 +386,10 @@ pub trait EncoderTrait {
     /// and format in `EncodeResult`
     fn encode_to_result(&mut self, image: &Image) -> Result<EncodeResult, ImageErrors> {
         let mut sink = vec![];
-        let data = self.encode(image, &mut sink)?;
+        self.encode(image, &mut sink)?;
 
         Ok(EncodeResult {
-            data:   vec![],
+            data:   sink,
             format: self.format()
         })
     }
-- 
2.43.0


From 7d49564cd6d8544dd67b3f1f6350c3cf62b3f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 118/157] fix: keep the alpha channel of ARGB and BGRA images
 when saving PNG, PPM and JPEG XL

---
 crates/zune-image/src/codecs/jpeg_xl.rs | 9 +++++++++
 crates/zune-image/src/codecs/png.rs     | 9 +++++++++
 crates/zune-image/src/codecs/ppm.rs     | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/crates/zune-image/src/codecs/jpeg_xl.rs b/crates/zune-image/src/codecs/jpeg_xl.rs
index 7d5d1f4..910c8ce 100644
--- a/crates/zune-image/src/codecs/jpeg_xl.rs
+++ b/crates/zune-image/src/codecs/jpeg_xl.rs
@@ -106,6 +106,15 @@ impl EncoderTrait for JxlEncoder {
         }
     }
 
+    fn default_colorspace(&self, colorspace: ColorSpace) -> ColorSpace {
+        // preserve the alpha channel if the image has one
+        if colorspace.has_alpha() {
+            ColorSpace::RGBA
+        } else {
+            ColorSpace::RGB
+        }
+    }
+
     fn set_options(&mut self, options: EncoderOptions) {
         self.options = Some(options)
     }
diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index 789200c..7aca308 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -263,6 +263,15 @@ impl EncoderTrait for PngEncoder {
             _ => BitDepth::Eight
         }
     }
+    fn default_colorspace(&self, colorspace: ColorSpace) -> ColorSpace {
+        // preserve the alpha channel if the image has one
+        if colorspace.has_alpha() {
+            ColorSpace::RGBA
+        } else {
+            ColorSpace::RGB
+        }
+    }
+
     fn set_options(&mut self, opts: EncoderOptions) {
         self.options = Some(opts)
     }
diff --git a/crates/zune-image/src/codecs/ppm.rs b/crates/zune-image/src/codecs/ppm.rs
index f72e728..69a06e9 100644
--- a/crates/zune-image/src/codecs/ppm.rs
+++ b/crates/zune-image/src/codecs/ppm.rs
@@ -84,6 +84,15 @@ impl EncoderTrait for PPMEncoder {
             _ => BitDepth::Eight
         }
     }
+    fn default_colorspace(&self, colorspace: ColorSpace) -> ColorSpace {
+        // preserve the alpha channel if the image has one
+        if colorspace.has_alpha() {
+            ColorSpace::RGBA
+        } else {
+            ColorSpace::RGB
+        }
+    }
+
     fn set_options(&mut self, opts: EncoderOptions) {
         self.options = Some(opts)
     }
-- 
2.43.0


From 7ec989cdd26d0c14697ac82906935ba6c064f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 119/157] fix: set the format in the metadata of decoded HDR
 images

---
 crates/zune-image/src/codecs/hdr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zune-image/src/codecs/hdr.rs b/crates/zune-image/src/codecs/hdr.rs
index b6aa05c..041b68b 100644
--- a/crates/zune-image/src/codecs/hdr.rs
+++ b/crates/zune-image/src/codecs/hdr.rs
@@ -29,7 +29,12 @@ where
         let (width, height) = self.dimensions().unwrap();
         let colorspace = self.get_colorspace().unwrap();
 
-        Ok(Image::from_f32(&bytes, width, height, colorspace))
+        let mut image = Image::from_f32(&bytes, width, height, colorspace);
+
+        // set metadata details
+        image.metadata.format = Some(ImageFormat::HDR);
+
+        Ok(image)
     }
 
     fn dimensions(&self) -> Option<(usize, usize)> {
-- 
2.43.0


From 9b2608f02f07bc734bd123d713deb5f1c10c5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 120/157] fix: keep the format and ICC profile of decoded BMP
 images

---
 crates/zune-image/src/codecs/bmp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/zune-image/src/codecs/bmp.rs b/crates/zune-image/src/codecs/bmp.rs
index f63f511..5cb8586 100644
--- a/crates/zune-image/src/codecs/bmp.rs
+++ b/crates/zune-image/src/codecs/bmp.rs
@@ -31,7 +31,13 @@ where
         let (width, height) = self.dimensions().unwrap();
         let colorspace = self.colorspace().unwrap();
 
-        Ok(Image::from_u8(&pixels, width, height, colorspace))
+        let mut image = Image::from_u8(&pixels, width, height, colorspace);
+
+        // set metadata details
+        image.metadata.format = Some(ImageFormat::BMP);
+        image.metadata.icc_chunk = self.icc_profile().cloned();
+
+        Ok(image)
     }
 
     fn dimensions(&self) -> Option<(usize, usize)> {
-- 
2.43.0


From 200072c881000b6c702da98d94bf9f5ae493634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 121/157] fix: write EXIF to JPEG files unless metadata is
 stripped

---
 crates/zune-image/src/codecs/jpeg.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/zune-image/src/codecs/jpeg.rs b/crates/zune-image/src/codecs/jpeg.rs
index 98a8fcb..68534c9 100644
--- a/crates/zune-image/src/codecs/jpeg.rs
+++ b/crates/zune-image/src/codecs/jpeg.rs
@@ -175,22 +175,23 @@ impl EncoderTrait for JpegEncoder {
             {
                 use exif::experimental::Writer;
 
-                if !options.strip_metadata() {
+                if options.strip_metadata() {
                     // explicit :)
                 } else if let Some(metadata) = &image.metadata.exif {
                     let mut writer = Writer::new();
-                    // write first tags for exif
-                    let mut buf = std::io::Cursor::new(b"Exif\x00\x00".to_vec());
-                    // set buffer position to be bytes written, to ensure we don't overwrite anything
-                    buf.set_position(6);
+                    // the writer starts at offset zero of its buffer and offsets in exif are
+                    // relative to the tiff header, so the exif prefix is added afterwards
+                    let mut buf = std::io::Cursor::new(vec![]);
 
                     for metadatum in metadata {
                         writer.push_field(metadatum);
                     }
                     let result = writer.write(&mut buf, false);
                     if result.is_ok() {
+                        let mut segment = b"Exif\x00\x00".to_vec();
+                        segment.extend_from_slice(buf.get_ref());
                         // add the exif tag to APP1 segment
-                        encoder.add_app_segment(1, buf.get_ref())?;
+                        encoder.add_app_segment(1, &segment)?;
                     } else {
                         warn!("Writing exif failed {:?}", result);
                     }
-- 
2.43.0


From f13478dfabd8183e1338b1af2e9107d830ffde27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 122/157] fix: write the ICC profile to JPEG files

---
 crates/zune-image/src/codecs/jpeg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zune-image/src/codecs/jpeg.rs b/crates/zune-image/src/codecs/jpeg.rs
index 68534c9..6b75ca4 100644
--- a/crates/zune-image/src/codecs/jpeg.rs
+++ b/crates/zune-image/src/codecs/jpeg.rs
@@ -198,6 +198,12 @@ impl EncoderTrait for JpegEncoder {
                 }
             }
 
+            if !options.strip_metadata() {
+                if let Some(icc) = image.metadata.icc_chunk() {
+                    encoder.add_icc_profile(icc)?;
+                }
+            }
+
             encoder.encode(pixels, width as u16, height as u16, colorspace)?;
 
             Ok(writer.bytes_written())
-- 
2.43.0


From 2de609ce94daeb918a81e7e096cb3ae13489d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 123/157] fix: write the ICC profile to PNG files

---
 crates/zune-image/src/codecs/png.rs    |  5 +++++
 crates/zune-png/src/encoder.rs         | 13 +++++++++++--
 crates/zune-png/src/headers/writers.rs | 12 ++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index 7aca308..3fa4611 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -235,6 +235,11 @@ impl EncoderTrait for PngEncoder {
                 }
             }
         }
+        if !options.strip_metadata() {
+            if let Some(icc) = image.metadata.icc_chunk() {
+                encoder.add_icc_profile(icc);
+            }
+        }
         encoder
             .encode(sink)
             .map_err(|e| ImageErrors::EncodeErrors(ImageEncodeErrors(format!("{:?}", e))))
diff --git a/crates/zune-png/src/encoder.rs b/crates/zune-png/src/encoder.rs
index 4f3f78a..1408948 100644
--- a/crates/zune-png/src/encoder.rs
+++ b/crates/zune-png/src/encoder.rs
@@ -15,7 +15,7 @@ use crate::decoder::PngChunk;
 use crate::enums::{FilterMethod, PngChunkType};
 use crate::filters::{choose_compression_filter, filter_scanline};
 use crate::headers::writers::{
-    write_chunk, write_exif, write_gamma, write_header_fn, write_iend, write_ihdr
+    write_chunk, write_exif, write_gamma, write_header_fn, write_iccp, write_iend, write_ihdr
 };
 
 #[derive(Default)]
@@ -26,7 +26,8 @@ pub struct PngEncoder<'a> {
     pub(crate) encoded_chunks:  Vec<u8>,
     pub(crate) filter_scanline: Vec<u8>,
     pub(crate) gamma:           Option<f32>,
-    pub(crate) exif:            Option<&'a [u8]>
+    pub(crate) exif:            Option<&'a [u8]>,
+    pub(crate) icc_profile:     Option<&'a [u8]>
 }
 
 impl<'a> PngEncoder<'a> {
@@ -51,6 +52,11 @@ impl<'a> PngEncoder<'a> {
         self.exif = Some(exif);
     }
 
+    /// Add an ICC profile which will be encoded
+    pub fn add_icc_profile(&mut self, icc_profile: &'a [u8]) {
+        self.icc_profile = Some(icc_profile);
+    }
+
     pub fn encode_headers<T: ZByteWriterTrait>(
         &self, writer: &mut ZWriter<T>
     ) -> Result<(), ZByteIoError> {
@@ -62,6 +68,9 @@ impl<'a> PngEncoder<'a> {
         // extra headers
         // need to check their existence because  write_header_fn will do
         // some writing even if they don't exist
+        if self.icc_profile.is_some() {
+            write_header_fn(self, writer, b"iCCP", write_iccp)?;
+        }
         if self.exif.is_some() {
             write_header_fn(self, writer, b"eXIf", write_exif)?;
         }
diff --git a/crates/zune-png/src/headers/writers.rs b/crates/zune-png/src/headers/writers.rs
index 1be3973..07fe024 100644
--- a/crates/zune-png/src/headers/writers.rs
+++ b/crates/zune-png/src/headers/writers.rs
@@ -8,6 +8,7 @@ use alloc::vec::Vec;
 
 use zune_core::bytestream::{ZByteIoError, ZByteWriterTrait, ZWriter};
 use zune_core::colorspace::ColorSpace;
+use zune_inflate::DeflateEncoder;
 
 use crate::crc::{calc_crc, calc_crc_with_bytes};
 use crate::decoder::PngChunk;
@@ -52,6 +53,17 @@ pub fn write_gamma(ctx: &PngEncoder, writer: &mut ZWriter<&mut Vec<u8>>) {
     }
 }
 
+/// Write the iCCP chunk, keyword, null separator, compression method and the
+/// zlib compressed profile
+pub fn write_iccp(ctx: &PngEncoder, writer: &mut ZWriter<&mut Vec<u8>>) {
+    if let Some(icc) = ctx.icc_profile {
+        writer.write_all(b"ICC Profile\0\0").unwrap();
+        writer
+            .write_all(&DeflateEncoder::new(icc).encode_zlib())
+            .unwrap();
+    }
+}
+
 // iend is a no-op
 pub fn write_iend(_: &PngEncoder, _: &mut ZWriter<&mut Vec<u8>>) {}
 
-- 
2.43.0


From 89d53f1cbadbcf5a22bc43bdfef3621323a07a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 124/157] fix: read EXIF and the ICC profile of WebP images

---
 crates/zune-image/src/codecs/webp.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/zune-image/src/codecs/webp.rs b/crates/zune-image/src/codecs/webp.rs
index 6046e11..af36e40 100644
--- a/crates/zune-image/src/codecs/webp.rs
+++ b/crates/zune-image/src/codecs/webp.rs
@@ -38,7 +38,9 @@ impl<T: BufRead + Seek> DecoderTrait for ZuneWebpDecoder<T> {
             .map_err(|e| ImageErrors::ImageDecodeErrors(e.to_string()))?;
 
         let mut img = Image::from_u8(&raw_pixels, w, h, self.out_colorspace());
-        img.metadata.format = Some(ImageFormat::WEBP);
+        if let Some(metadata) = self.read_headers()? {
+            img.metadata = metadata;
+        }
 
         Ok(img)
     }
@@ -63,7 +65,8 @@ impl<T: BufRead + Seek> DecoderTrait for ZuneWebpDecoder<T> {
     }
     fn read_headers(&mut self) -> Result<Option<ImageMetadata>, ImageErrors> {
         let (w, h) = self.dimensions().expect("Failed to determine dimensions");
-        return Ok(Some(ImageMetadata {
+        #[allow(unused_mut)]
+        let mut metadata = ImageMetadata {
             color_trc:     None,
             default_gamma: None,
             width:         w,
@@ -74,8 +77,23 @@ impl<T: BufRead + Seek> DecoderTrait for ZuneWebpDecoder<T> {
             alpha:         AlphaState::NonPreMultiplied,
             #[cfg(feature = "metadata")]
             exif:          None,
-            icc_chunk:     None,
+            icc_chunk:     self
+                .inner
+                .icc_profile()
+                .map_err(|e| ImageErrors::ImageDecodeErrors(e.to_string()))?,
             is_linear:     false
-        }));
+        };
+        #[cfg(feature = "metadata")]
+        {
+            let exif = self
+                .inner
+                .exif_metadata()
+                .map_err(|e| ImageErrors::ImageDecodeErrors(e.to_string()))?;
+
+            if let Some(exif) = exif {
+                metadata.parse_raw_exif(&exif)
+            }
+        }
+        Ok(Some(metadata))
     }
 }
-- 
2.43.0


From 53d2aea6c6c3b641caf2a1984407a8e3e8edd52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:20 +0000
Subject: [PATCH 125/157] fix: auto orient: store the new orientation as a
 SHORT

---
 crates/zune-imageprocs/src/auto_orient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/auto_orient.rs b/crates/zune-imageprocs/src/auto_orient.rs
index d99bd82..6b75f5e 100644
--- a/crates/zune-imageprocs/src/auto_orient.rs
+++ b/crates/zune-imageprocs/src/auto_orient.rs
@@ -106,7 +106,7 @@ impl OperationsTrait for AutoOrient {
                 for field in data {
                     // set orientation to do nothing
                     if field.tag == Tag::Orientation {
-                        field.value = Value::Byte(vec![1]);
+                        field.value = Value::Short(vec![1]);
                     }
                 }
             }
-- 
2.43.0


From fb2f7008f6f870cd96522f3a0edd2dd4750e807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 126/157] fix: do not read CMYK JPEG files as their negative

---
 crates/zune-image/src/codecs/jpeg.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/codecs/jpeg.rs b/crates/zune-image/src/codecs/jpeg.rs
index 6b75ca4..dd79f16 100644
--- a/crates/zune-image/src/codecs/jpeg.rs
+++ b/crates/zune-image/src/codecs/jpeg.rs
@@ -142,7 +142,15 @@ impl EncoderTrait for JpegEncoder {
             "Unsupported bit depth{:?}",
             image.depth()
         );
-        let pixels = &image.flatten_frames::<u8>()[0];
+        let mut pixels = image.flatten_frames::<u8>().swap_remove(0);
+
+        if image.colorspace() == ColorSpace::CMYK {
+            // zero is full ink in our cmyk, as it is in a jpeg file, but the encoder
+            // expects zero to be no ink and inverts the samples it is given
+            for sample in &mut pixels {
+                *sample = 255 - *sample;
+            }
+        }
 
         if let Some(colorspace) = match_colorspace_to_colortype(image.colorspace()) {
             let max_dims = usize::from(u16::MAX);
@@ -204,7 +212,7 @@ impl EncoderTrait for JpegEncoder {
                 }
             }
 
-            encoder.encode(pixels, width as u16, height as u16, colorspace)?;
+            encoder.encode(&pixels, width as u16, height as u16, colorspace)?;
 
             Ok(writer.bytes_written())
         } else {
-- 
2.43.0


From b015de93e8b614f9be8efcc7abaea967e9405280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 127/157] fix: colour transform: set the ICC profile of the
 result

---
 crates/zune-imageprocs/src/color_transform.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-imageprocs/src/color_transform.rs b/crates/zune-imageprocs/src/color_transform.rs
index 283c0ae..ac31d29 100644
--- a/crates/zune-imageprocs/src/color_transform.rs
+++ b/crates/zune-imageprocs/src/color_transform.rs
@@ -198,6 +198,11 @@ impl OperationsTrait for ColorTransform {
                     ))
                 }
             }
+            // the samples are now in the destination profile
+            let icc = dest_color_profile
+                .encode()
+                .map_err(|e| ImageErrors::GenericString(e.to_string()))?;
+            image.metadata_mut().set_icc_chunk(icc);
         } else {
             info!("No ICC chunk present, no transform will be done");
         }
-- 
2.43.0


From 0c1f23f4e9494f10daad298baf3c9b1dd3f78f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 128/157] fix: Run a pipeline whose images were added without a
 decoder

---
 crates/zune-image/src/pipelines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-image/src/pipelines.rs b/crates/zune-image/src/pipelines.rs
index 435991f..f6e2541 100644
--- a/crates/zune-image/src/pipelines.rs
+++ b/crates/zune-image/src/pipelines.rs
@@ -160,7 +160,7 @@ impl Pipeline {
                     // do the actual decode
                     if self.decode.is_none() {
                         // we have an image, no need to decode a new one
-                        if self.image.is_empty() {
+                        if !self.image.is_empty() {
                             trace!("Image already present, no need to decode");
                             // move to the next state
                             self.state = state.next();
-- 
2.43.0


From 499c59f97def69a1637b88cfe2acf4d85d11069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 129/157] fix: Only strip metadata and encode progressively
 when asked to

---
 crates/zune-bin/src/cmd_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers.rs b/crates/zune-bin/src/cmd_parsers.rs
index c31635c..233f3a3 100644
--- a/crates/zune-bin/src/cmd_parsers.rs
+++ b/crates/zune-bin/src/cmd_parsers.rs
@@ -38,8 +38,8 @@ pub fn encoder_options(options: &ArgMatches) -> EncoderOptions {
     let quality = *options.get_one::<u8>("quality").unwrap();
     let encode_threads = *options.get_one::<u8>("encode-threads").unwrap();
     let effort = *options.get_one::<u8>("effort").unwrap();
-    let progressive = options.contains_id("progressive");
-    let strip_metadata = options.contains_id("strip");
+    let progressive = options.get_flag("progressive");
+    let strip_metadata = options.get_flag("strip");
 
     EncoderOptions::default()
         .set_quality(quality)
-- 
2.43.0


From ec01aeb4c60c80ed7700c8e993756fc3015be56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 130/157] fix: Apply --stretch-contrast

---
 crates/zune-bin/src/cmd_parsers/operations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/cmd_parsers/operations.rs b/crates/zune-bin/src/cmd_parsers/operations.rs
index 893bf1a..27388dc 100644
--- a/crates/zune-bin/src/cmd_parsers/operations.rs
+++ b/crates/zune-bin/src/cmd_parsers/operations.rs
@@ -114,7 +114,7 @@ pub fn parse_options(
             "Added threshold operation with mode {:?}  and value {:?}",
             thresh_mode, radius
         )
-    } else if argument == "stretch-contrast" {
+    } else if argument == "stretch_contrast" {
         let values = args
             .get_many::<f32>(argument)
             .unwrap()
-- 
2.43.0


From c5e16d2fdeaa5ee7c1c9af05bc781b3db5549c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 131/157] fix: Accept the documented forms of --crop and
 --threshold

---
 crates/zune-bin/src/cmd_args.rs               | 5 +++++
 crates/zune-bin/src/cmd_parsers/operations.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/crates/zune-bin/src/cmd_args.rs b/crates/zune-bin/src/cmd_args.rs
index 4e61f42..6bb87e1 100644
--- a/crates/zune-bin/src/cmd_args.rs
+++ b/crates/zune-bin/src/cmd_args.rs
@@ -278,12 +278,17 @@ fn add_operations() -> (Vec<Arg>, ArgGroup) {
             .long("crop")
             .help_heading(HELP_HEADING)
             .value_names(["width", "height", "x", "y"])
+            .num_args(1..=4)
+            .value_delimiter(':')
+            .value_parser(value_parser!(usize))
             .help("Crop an image ")
             .long_help(CROP_HELP)
             .group(GROUP),
         Arg::new("threshold")
             .long("threshold")
             .value_names(["threshold", "mode"])
+            .num_args(1..=2)
+            .value_delimiter(':')
             .help_heading(HELP_HEADING)
             .help("Replace pixels in an image depending on intensity of the pixel.")
             .long_help(THRESHOLD_HELP)
diff --git a/crates/zune-bin/src/cmd_parsers/operations.rs b/crates/zune-bin/src/cmd_parsers/operations.rs
index 27388dc..6c119c0 100644
--- a/crates/zune-bin/src/cmd_parsers/operations.rs
+++ b/crates/zune-bin/src/cmd_parsers/operations.rs
@@ -92,6 +92,10 @@ pub fn parse_options(
             .unwrap()
             .collect::<Vec<&usize>>();
 
+        if crop_args.len() != 4 {
+            return Err(format!("Invalid crop length: {}", crop_args.len()));
+        }
+
         let crop = Crop::new(*crop_args[0], *crop_args[1], *crop_args[2], *crop_args[3]);
 
         debug!(
@@ -103,6 +107,10 @@ pub fn parse_options(
     } else if argument == "threshold" {
         let val: Vec<&String> = args.get_many::<String>(argument).unwrap().collect();
 
+        if val.len() != 2 {
+            return Err(format!("Invalid threshold length: {}", val.len()));
+        }
+
         // parse first one as radius
         let radius = str::parse::<f32>(val[0]).map_err(|x| x.to_string())?;
         let thresh_mode = ThresholdMethod::from_string_result(val[1])?;
-- 
2.43.0


From 6c71940d2c902d7ebc46f3f9a3e039a436c30972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 132/157] fix: Transform to BT.2020 when that is asked for

---
 crates/zune-bin/src/cmd_parsers/filters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/cmd_parsers/filters.rs b/crates/zune-bin/src/cmd_parsers/filters.rs
index 610ff77..62b4f4c 100644
--- a/crates/zune-bin/src/cmd_parsers/filters.rs
+++ b/crates/zune-bin/src/cmd_parsers/filters.rs
@@ -87,7 +87,7 @@ pub fn parse_options(
             "rgb" => ColorProfiles::sRGB,
             "adobe-rgb" => ColorProfiles::AdobeRgb,
             "display-p3" => ColorProfiles::DisplayP3,
-            "bt-2020" => ColorProfiles::DisplayP3,
+            "bt-2020" => ColorProfiles::Bt2020,
             _ => Err(format!("Unknown color profile: {}", value))?
         };
         trace!("Added color transform operation");
-- 
2.43.0


From 50b92893bd7066c0314be64acb5a537219df9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 133/157] fix: Interpret --brighten in its documented range

---
 crates/zune-bin/src/cmd_parsers/operations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/cmd_parsers/operations.rs b/crates/zune-bin/src/cmd_parsers/operations.rs
index 6c119c0..b8a59b4 100644
--- a/crates/zune-bin/src/cmd_parsers/operations.rs
+++ b/crates/zune-bin/src/cmd_parsers/operations.rs
@@ -85,7 +85,8 @@ pub fn parse_options(
     } else if argument == "brighten" {
         let value = *args.get_one::<f32>(argument).unwrap();
         debug!("Added brighten operation with {:?}", value);
-        workflow.chain_operations(Box::new(Brighten::new(value)));
+        // the command line works in eight bit steps, the operation in fractions of the maximum
+        workflow.chain_operations(Box::new(Brighten::new(value / 255.0)));
     } else if argument == "crop" {
         let crop_args = args
             .get_many::<usize>(argument)
-- 
2.43.0


From 2e8f82aff5738061b81702d15106fb022845405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 134/157] fix: Refuse a --resize that gives no width and height

---
 crates/zune-bin/src/cmd_parsers/operations.rs | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers/operations.rs b/crates/zune-bin/src/cmd_parsers/operations.rs
index b8a59b4..b295a7c 100644
--- a/crates/zune-bin/src/cmd_parsers/operations.rs
+++ b/crates/zune-bin/src/cmd_parsers/operations.rs
@@ -155,19 +155,19 @@ pub fn parse_options(
             .unwrap_or(ResizeMethod::Bicubic);
 
         // split on width x height
-        if values.contains("x") {
-            let split: Vec<&str> = values.split('x').collect();
-
-            let width = str::parse::<usize>(split[0]).map_err(|x| x.to_string())?;
-            let height = str::parse::<usize>(split[1]).map_err(|x| x.to_string())?;
-
-            let func = Resize::new(width, height, resizing_method);
-            debug!(
-                "Added resize operation with width:{}, height:{},using resizing method=>{:?}",
-                width, height, resizing_method,
-            );
-            workflow.chain_operations(Box::new(func));
-        }
+        let (width, height) = values
+            .split_once('x')
+            .ok_or_else(|| format!("Invalid resize value {values:?}, expected [width]x[height]"))?;
+
+        let width = str::parse::<usize>(width).map_err(|x| x.to_string())?;
+        let height = str::parse::<usize>(height).map_err(|x| x.to_string())?;
+
+        let func = Resize::new(width, height, resizing_method);
+        debug!(
+            "Added resize operation with width:{}, height:{},using resizing method=>{:?}",
+            width, height, resizing_method,
+        );
+        workflow.chain_operations(Box::new(func));
     } else if argument == "depth" {
         let value = *args.get_one::<u8>(argument).unwrap();
         let depth = match value {
-- 
2.43.0


From 43a3e68a82e05404494e8f63ca5dd6767c619051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 135/157] fix: Apply operations to an image read from standard
 input

---
 crates/zune-bin/src/workflow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index f7c1504..61430ee 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -59,6 +59,8 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
     for in_file in args.get_raw("in").unwrap() {
         let mut workflow: CmdPipeline = CmdPipeline::new();
 
+        add_operations(args, &mut workflow.inner)?;
+
         if in_file == "-" {
             // handle stdin
             let mut data = Vec::new();
@@ -77,8 +79,6 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
         } else {
             File::open(in_file)?.read(&mut buf)?;
 
-            add_operations(args, &mut workflow.inner)?;
-
             if let Some((format, _)) = ImageFormat::guess_format(std::io::Cursor::new(&buf)) {
                 if format.has_decoder() {
                     workflow.inner.chain_decoder(Box::new(ZuneFile::new(
-- 
2.43.0


From dc2886779e2ed403b3b9313a722816888005bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 136/157] fix: Write every output in its own format, and report
 outputs that cannot be written

---
 crates/zune-bin/src/workflow.rs | 107 ++++++++++++--------------------
 1 file changed, 40 insertions(+), 67 deletions(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 61430ee..94465f9 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -6,6 +6,7 @@
  * You can redistribute it or modify it under terms of the MIT, Apache License or Zlib license
  */
 
+use std::ffi::OsString;
 use std::fs::{File, OpenOptions};
 use std::io::{BufWriter, Read};
 use std::path::Path;
@@ -14,7 +15,7 @@ use std::time::Instant;
 
 use clap::parser::ValueSource::CommandLine;
 use clap::ArgMatches;
-use log::{debug, error, info, trace};
+use log::{debug, info, trace};
 use zune_image::codecs::ImageFormat;
 use zune_image::errors::ImageErrors;
 use zune_image::pipelines::Pipeline;
@@ -28,13 +29,14 @@ use crate::show_gui::open_in_default_app;
 
 struct CmdPipeline {
     inner:   Pipeline,
-    formats: Vec<ImageFormat>
+    /// output files and the format each one is to be written in
+    outputs: Vec<(OsString, ImageFormat)>
 }
 impl CmdPipeline {
     pub fn new() -> CmdPipeline {
         CmdPipeline {
             inner:   Pipeline::new(),
-            formats: vec![]
+            outputs: vec![]
         }
     }
 }
@@ -98,20 +100,23 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
         if let Some(source) = args.value_source("out") {
             if source == CommandLine {
                 for out_file in args.get_raw("out").unwrap() {
-                    if let Some(ext) = Path::new(out_file).extension() {
-                        if let Some(encode_type) =
-                            ImageFormat::encoder_for_extension(ext.to_str().unwrap())
-                        {
-                            debug!("Treating {:?} as a {:?} format", out_file, encode_type);
-                            workflow.formats.push(encode_type);
-                        } else {
-                            error!("Unknown or unsupported format {:?}", out_file)
+                    let encode_type = if out_file == "-" {
+                        match args.get_one::<CmdImageFormats>("output-format") {
+                            Some(CmdImageFormats::Format(format)) => *format,
+                            None => return Err(ImageErrors::GenericStr("You must specify the image format to be used while using output as '-' via the --output-format flag"))
                         }
                     } else {
-                        if out_file != "-" {
-                            error!("Could not determine extension from {:?}", out_file);
-                        }
-                    }
+                        Path::new(out_file)
+                            .extension()
+                            .and_then(|ext| ImageFormat::encoder_for_extension(ext.to_str()?))
+                            .ok_or_else(|| {
+                                ImageErrors::GenericString(format!(
+                                    "Unknown or unsupported format {out_file:?}"
+                                ))
+                            })?
+                    };
+                    debug!("Treating {:?} as a {:?} format", out_file, encode_type);
+                    workflow.outputs.push((out_file.to_os_string(), encode_type));
                 }
             }
         }
@@ -122,58 +127,26 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
 
         //  We support multiple format writes per invocation
         // i.e it's perfectly valid to do -o a.ppm , -o a.png
-        if let Some(source) = args.value_source("out") {
-            if source == CommandLine {
-                for out_file in args.get_raw("out").unwrap() {
-                    if out_file == "-" {
-                        if let Some(cmd_format) = args.get_one::<CmdImageFormats>("output-format") {
-                            // test on jpeg only
-                            let mut out_file = std::io::stdout();
-
-                            let CmdImageFormats::Format(format) = cmd_format;
-                            for image in workflow.inner.images() {
-                                format.encode(image, options, &mut out_file)?;
-                            }
-                        } else {
-                            error!("You must specify the image format to be used while using output as '-` via the --output-format flag ");
-                        }
-                    } else {
-                        //write to file
-                        if let Some(ext) = Path::new(out_file).extension() {
-                            for format in &workflow.formats {
-                                if format.has_encoder() {
-                                    for image in workflow.inner.images() {
-                                        let fd = OpenOptions::new()
-                                            .create(true)
-                                            .write(true)
-                                            .truncate(true)
-                                            .open(out_file);
-                                        match fd {
-                                            Ok(file) => {
-                                                let mut file_c = BufWriter::new(file);
-                                                let start = Instant::now();
-                                                let bytes =
-                                                    format.encode(image, options, &mut file_c)?;
-                                                let end = Instant::now();
-                                                trace!(
-                                                    "Took {:?} to encode {} bytes to {:?}",
-                                                    end - start,
-                                                    bytes,
-                                                    out_file
-                                                );
-                                            }
-                                            Err(e) => {
-                                                error!(
-                                                    "Cannot encode to file, error opening {:?}",
-                                                    e
-                                                );
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                    }
+        for (out_file, format) in &workflow.outputs {
+            for image in workflow.inner.images() {
+                if out_file == "-" {
+                    format.encode(image, options, &mut std::io::stdout())?;
+                } else {
+                    let file = OpenOptions::new()
+                        .create(true)
+                        .write(true)
+                        .truncate(true)
+                        .open(out_file)?;
+                    let mut file_c = BufWriter::new(file);
+                    let start = Instant::now();
+                    let bytes = format.encode(image, options, &mut file_c)?;
+                    let end = Instant::now();
+                    trace!(
+                        "Took {:?} to encode {} bytes to {:?}",
+                        end - start,
+                        bytes,
+                        out_file
+                    );
                 }
             }
         }
-- 
2.43.0


From dde588e76cd221e77718c206a33066e0ac0215ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 137/157] fix: Report files that cannot be probed

---
 crates/zune-bin/src/probe_files.rs | 50 +++++++++++++++---------------
 crates/zune-bin/src/workflow.rs    |  3 +-
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/crates/zune-bin/src/probe_files.rs b/crates/zune-bin/src/probe_files.rs
index 5f3f6a9..91b8aa3 100644
--- a/crates/zune-bin/src/probe_files.rs
+++ b/crates/zune-bin/src/probe_files.rs
@@ -8,43 +8,43 @@
 
 use std::fs::File;
 use std::io::BufReader;
-use std::path::PathBuf;
 
 use clap::parser::ValueSource::CommandLine;
 use clap::ArgMatches;
 use zune_core::options::DecoderOptions;
+use zune_image::codecs::ImageFormat;
+use zune_image::errors::ImageErrors;
 
 use crate::serde::Metadata;
 
 /// Probe input files, extract metadata, and print to standard output.
-pub fn probe_input_files(args: &ArgMatches) {
+pub fn probe_input_files(args: &ArgMatches) -> Result<(), ImageErrors> {
     if let Some(view) = args.value_source("probe") {
         if view == CommandLine {
             for in_file in args.get_raw("in").unwrap() {
-                if PathBuf::from(in_file).exists() {
-                    let file = BufReader::new(File::open(in_file).unwrap());
-
-                    if let Some((format, contents)) =
-                        zune_image::codecs::ImageFormat::guess_format(file)
-                    {
-                        let size = contents.get_ref().metadata().unwrap().len();
-                        // set to high to remove restrictions.
-                        // We'll just be reading headers so it doesn't matter
-                        let options = DecoderOptions::new_cmd()
-                            .set_max_height(usize::MAX)
-                            .set_max_width(usize::MAX);
-
-                        let mut decoder = format.decoder_with_options(contents, options).unwrap();
-
-                        if let Ok(Some(metadata)) = decoder.read_headers() {
-                            let real_metadata =
-                                Metadata::new(in_file.to_os_string(), size, &metadata);
-
-                            println!("{}", serde_json::to_string_pretty(&real_metadata).unwrap());
-                        }
-                    }
-                }
+                let file = BufReader::new(File::open(in_file)?);
+
+                let (format, contents) = ImageFormat::guess_format(file).ok_or(
+                    ImageErrors::ImageDecoderNotIncluded(ImageFormat::Unknown)
+                )?;
+                let size = contents.get_ref().metadata()?.len();
+                // set to high to remove restrictions.
+                // We'll just be reading headers so it doesn't matter
+                let options = DecoderOptions::new_cmd()
+                    .set_max_height(usize::MAX)
+                    .set_max_width(usize::MAX);
+
+                let mut decoder = format.decoder_with_options(contents, options)?;
+
+                let metadata = decoder
+                    .read_headers()?
+                    .ok_or(ImageErrors::GenericStr("The file has no readable headers"))?;
+
+                let real_metadata = Metadata::new(in_file.to_os_string(), size, &metadata);
+
+                println!("{}", serde_json::to_string_pretty(&real_metadata).unwrap());
             }
         }
     }
+    Ok(())
 }
diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 94465f9..0f77ddd 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -48,8 +48,7 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
 ) -> Result<(), ImageErrors> {
     if let Some(view) = args.value_source("probe") {
         if view == CommandLine {
-            probe_input_files(args);
-            return Ok(());
+            return probe_input_files(args);
         }
     }
 
-- 
2.43.0


From 5cb6ce841aeeb02b6b1e5b152e4edaabc791cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 138/157] fix: Refuse a JPEG XL file without a complete frame

---
 crates/zune-image/src/codecs/jpeg_xl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-image/src/codecs/jpeg_xl.rs b/crates/zune-image/src/codecs/jpeg_xl.rs
index 910c8ce..6c0f170 100644
--- a/crates/zune-image/src/codecs/jpeg_xl.rs
+++ b/crates/zune-image/src/codecs/jpeg_xl.rs
@@ -212,6 +212,11 @@ impl DecoderTrait for JxlDecoder {
             let frame = Frame::new(frame_v);
             total_frames.push(frame);
         }
+        if total_frames.is_empty() {
+            return Err(ImageErrors::ImageDecodeErrors(
+                "The image ends before its first frame".to_string()
+            ));
+        }
         // then create a new image
         let mut image = Image::new_frames(total_frames, BitDepth::Float32, w, h, color);
         if let Some(im_metadata) = metadata {
-- 
2.43.0


From cf30b99d7b38d125e352f7bab65d507a900a55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 139/157] fix: free the message of a C status once

---
 crates/zune-capi/src/errno.rs | 36 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/crates/zune-capi/src/errno.rs b/crates/zune-capi/src/errno.rs
index 274d251..54be7b3 100644
--- a/crates/zune-capi/src/errno.rs
+++ b/crates/zune-capi/src/errno.rs
@@ -60,11 +60,16 @@ impl ZStatus {
     where
         T: Into<Vec<u8>>
     {
-        let msg = CString::new(message).unwrap();
+        // the message is a C string, it can't contain a nul
+        let mut bytes: Vec<u8> = message.into();
+        bytes.retain(|x| *x != 0);
+        let msg = CString::new(bytes).unwrap_or_default();
         let mem = unsafe { zil_malloc(msg.as_bytes_with_nul().len()) };
         // copy to memory
-        unsafe {
-            libc::strcpy(mem.cast(), msg.as_ptr());
+        if !mem.is_null() {
+            unsafe {
+                libc::strcpy(mem.cast(), msg.as_ptr());
+            }
         }
 
         ZStatus {
@@ -80,7 +85,9 @@ impl ZStatus {
 
 impl Drop for ZStatus {
     fn drop(&mut self) {
-        unsafe { zil_free(self.message.cast()) };
+        if !self.message.is_null() {
+            unsafe { zil_free(self.message.cast()) };
+        }
     }
 }
 /// \brief Check if image operation succeeded
@@ -104,23 +111,13 @@ pub extern "C" fn zil_status_ok(status: *const ZStatus) -> bool {
 /// Remember to free it with `zil_status_free`
 #[no_mangle]
 pub unsafe extern "C" fn zil_status_new() -> *mut ZStatus {
-    let ptr = zil_malloc(size_of::<ZStatus>());
+    let ptr = zil_malloc(size_of::<ZStatus>()).cast::<ZStatus>();
 
-    let msg = CString::new("").unwrap();
-    let mem = unsafe { zil_malloc(msg.as_bytes_with_nul().len()) };
-    if mem.is_null() {
-        return ptr::null_mut();
-    }
-    // copy to memory
-    unsafe {
-        libc::strcpy(mem.cast(), msg.as_ptr());
-    }
     if !ptr.is_null() {
-        (*ptr.cast::<ZStatus>()).message = mem.cast();
-        (*ptr.cast::<ZStatus>()).status = ZStatusType::ZilOk;
+        // the memory is uninitialized, there is nothing to drop
+        ptr.write(ZStatus::new("", ZStatusType::ZilOk));
     }
-    // make pointer
-    ptr.cast()
+    ptr
 }
 
 /// Return the status code contained in the ZImStatus
@@ -160,8 +157,7 @@ pub extern "C" fn zil_status_message(status: *const ZStatus) -> *const c_char {
 #[no_mangle]
 pub extern "C" fn zil_status_free(status: *mut ZStatus) {
     if !status.is_null() {
-        unsafe { zil_free((*status).message.cast()) }
-        // free object
+        // free object, including its message
         unsafe { status.drop_in_place() }
 
         // free memory holding it
-- 
2.43.0


From 556e97ea6824aec2e99d36c32462c9f1d04815bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 140/157] fix: do not drop uninitialised memory in zil_zimg_new

---
 crates/zune-capi/src/image.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 1cd9d41..e75b4fe 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -156,8 +156,11 @@ pub extern "C" fn zil_zimg_write_to_output(
 /// This is the preferred way to initialize this, not via memset or malloc+sizeof
 #[no_mangle]
 pub extern "C" fn zil_zimg_new() -> *mut ZImage {
-    let ptr = unsafe { libc::malloc(std::mem::size_of::<ZImage>()) }.cast();
-    unsafe { *ptr = ZImage::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown) };
+    let ptr: *mut ZImage = unsafe { libc::malloc(std::mem::size_of::<ZImage>()) }.cast();
+    if !ptr.is_null() {
+        // the memory is uninitialized, an assignment would drop whatever it holds
+        unsafe { ptr.write(ZImage::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown)) };
+    }
     ptr
 }
 /// Free an image
-- 
2.43.0


From 30c245a28bbedec2cf4c5a05f54bcd7a2a421f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 141/157] fix: count elements in zil_zimg_from_u16 and
 zil_zimg_from_f32

---
 crates/zune-capi/src/image.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index e75b4fe..2f2ff2b 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -368,7 +368,7 @@ pub extern "C" fn zil_zimg_from_u8(
         1,
         colorspace.to_colorspace().num_components()
     ) {
-        if size <= length {
+        if size != 0 && size <= length {
             let pix = &pixels[..size];
             let img = zil_zimg_new();
             if img.is_null() {
@@ -401,10 +401,10 @@ pub extern "C" fn zil_zimg_from_u16(
     if let Some(size) = checked_mul(
         width,
         height,
-        2,
+        1,
         colorspace.to_colorspace().num_components()
     ) {
-        if size <= length {
+        if size != 0 && size <= length {
             let pix = &pixels[..size];
             let img = zil_zimg_new();
             if img.is_null() {
@@ -437,10 +437,10 @@ pub extern "C" fn zil_zimg_from_f32(
     if let Some(size) = checked_mul(
         width,
         height,
-        4,
+        1,
         colorspace.to_colorspace().num_components()
     ) {
-        if size <= length {
+        if size != 0 && size <= length {
             let pix = &pixels[..size];
             let img = zil_zimg_new();
             if img.is_null() {
-- 
2.43.0


From 9bcf643d33b6ddf7463c3b8668a422861fee15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 142/157] fix: check the size of the buffer in
 zil_zimg_write_to_output

---
 crates/zune-capi/src/image.rs | 61 ++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 2f2ff2b..ad85f12 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -105,13 +105,52 @@ pub extern "C" fn zil_zimg_write_to_output(
         return 0;
     }
 
-    let output_array = unsafe { std::slice::from_raw_parts_mut(output, output_size) };
-
     let image = unsafe { &*image };
+
+    let needed = zil_zimg_get_out_buffer_size(ptr::from_ref(image).cast_mut(), status);
+
+    if output.is_null() || output_size < needed {
+        if !status.is_null() {
+            let msg = format!("Expected buffer of size {needed},but found {output_size}");
+            unsafe { *status = ZStatus::new(msg, ZStatusType::ZilNotEnoughSpaceInDest) };
+        }
+        return 0;
+    }
+    // only the bytes of the picture are written
+    let output_array = unsafe { std::slice::from_raw_parts_mut(output, needed) };
+
+    match write_interleaved(image, output_array) {
+        Ok(bytes) => {
+            if !status.is_null() {
+                unsafe { *status = ZStatus::okay() };
+            }
+            bytes
+        }
+        Err(err) => {
+            if !status.is_null() {
+                unsafe {
+                    *status = ZStatus::new(err.to_string(), ZStatusType::ZilImageOperationError)
+                }
+            }
+            0
+        }
+    }
+}
+
+/// Write the first frame of an image to a buffer of exactly its size
+///
+/// Returns the number of bytes written
+pub(crate) fn write_interleaved(
+    image: &ZImage, output_array: &mut [u8]
+) -> Result<usize, ImageErrors> {
     let image_colorspace = image.colorspace();
-    let channels = image.frames_ref()[0].channels_ref(image_colorspace, false);
+    let channels = image
+        .frames_ref()
+        .first()
+        .ok_or(ImageErrors::GenericStr("Image has no frames"))?
+        .channels_ref(image_colorspace, false);
 
-    let result = match image.depth() {
+    let samples = match image.depth() {
         BitDepth::Eight => zune_image::utils::swizzle_channels(channels, output_array)
             .map_err(|e| ImageErrors::ChannelErrors(e)),
         BitDepth::Sixteen => {
@@ -135,18 +174,8 @@ pub extern "C" fn zil_zimg_write_to_output(
             }
         }
         _ => Err(ImageErrors::GenericStr("Unknown depth"))
-    };
-    match result {
-        Ok(bytes) => bytes * image.depth().size_of(),
-        Err(err) => {
-            if !status.is_null() {
-                unsafe {
-                    *status = ZStatus::new(err.to_string(), ZStatusType::ZilImageOperationError)
-                }
-            }
-            0
-        }
-    }
+    }?;
+    Ok(samples * image.depth().size_of())
 }
 
 /// Create an empty dummy image struct
-- 
2.43.0


From 1d664d7667aa254b707f378914f18cd266086f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 143/157] fix: report success after an earlier failure in the C
 interface

---
 crates/zune-capi/src/image.rs  | 26 ++++++++++++++++++--------
 crates/zune-capi/src/improc.rs | 10 +++++-----
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index ad85f12..69cb3fe 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -227,6 +227,9 @@ pub extern "C" fn zil_zimg_open(file: *const c_char, image: *mut ZImage, status:
         Ok(bytes) => match ZImage::open(bytes) {
             Ok(im) => {
                 unsafe { *image = im };
+                if !status.is_null() {
+                    unsafe { *status = ZStatus::okay() };
+                }
             }
             Err(err) => {
                 if !status.is_null() {
@@ -265,6 +268,9 @@ pub extern "C" fn zil_zimg_read_from_memory(
     match ZImage::read(buffer, DecoderOptions::new_fast()) {
         Ok(im) => {
             unsafe { *image = im };
+            if !status.is_null() {
+                unsafe { *status = ZStatus::okay() };
+            }
         }
         Err(err) => {
             if !status.is_null() {
@@ -299,10 +305,12 @@ pub extern "C" fn zil_zimg_write_to_disk(
     let image = unsafe { &*image };
     match std::str::from_utf8(c_str) {
         Ok(bytes) => {
-            if let Err(e) = image.save(bytes) {
-                if !status.is_null() {
-                    unsafe { *status = ZStatus::new(e.to_string(), ZilDecodeErrors) };
-                }
+            let result = match image.save(bytes) {
+                Ok(_) => ZStatus::okay(),
+                Err(e) => ZStatus::new(e.to_string(), ZilDecodeErrors)
+            };
+            if !status.is_null() {
+                unsafe { *status = result };
             }
         }
         Err(err) => {
@@ -340,10 +348,12 @@ pub extern "C" fn zil_zimg_write_to_disk_with_format(
     let image = unsafe { &*image };
     match std::str::from_utf8(c_str) {
         Ok(bytes) => {
-            if let Err(e) = image.save_to(bytes, format.to_format()) {
-                if !status.is_null() {
-                    unsafe { *status = ZStatus::new(e.to_string(), ZilDecodeErrors) };
-                }
+            let result = match image.save_to(bytes, format.to_format()) {
+                Ok(_) => ZStatus::okay(),
+                Err(e) => ZStatus::new(e.to_string(), ZilDecodeErrors)
+            };
+            if !status.is_null() {
+                unsafe { *status = result };
             }
         }
         Err(err) => {
diff --git a/crates/zune-capi/src/improc.rs b/crates/zune-capi/src/improc.rs
index ad449b1..aa7c586 100644
--- a/crates/zune-capi/src/improc.rs
+++ b/crates/zune-capi/src/improc.rs
@@ -39,11 +39,11 @@ where
     }
     let image = unsafe { &mut *image };
 
-    if let Err(err) = filter.execute_impl(image) {
-        unsafe {
-            *status = ZStatus::new(err.to_string(), ZStatusType::ZilImageOperationError);
-        }
-    }
+    let result = match filter.execute_impl(image) {
+        Ok(()) => ZStatus::okay(),
+        Err(err) => ZStatus::new(err.to_string(), ZStatusType::ZilImageOperationError)
+    };
+    unsafe { *status = result };
 }
 
 /// Adjust the contrast of an image in place
-- 
2.43.0


From b80126eabc7dd23d7eda9bc8ee8b031258216692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 144/157] fix: check images before processing them in the C
 interface

---
 crates/zune-capi/src/improc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/improc.rs b/crates/zune-capi/src/improc.rs
index aa7c586..abfbaad 100644
--- a/crates/zune-capi/src/improc.rs
+++ b/crates/zune-capi/src/improc.rs
@@ -39,7 +39,7 @@ where
     }
     let image = unsafe { &mut *image };
 
-    let result = match filter.execute_impl(image) {
+    let result = match filter.execute(image) {
         Ok(()) => ZStatus::okay(),
         Err(err) => ZStatus::new(err.to_string(), ZStatusType::ZilImageOperationError)
     };
-- 
2.43.0


From 9453cd0c95c38fb7b2aaa71bd6154d89ee95fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 145/157] fix: declare the flip functions the C library exports

---
 crates/zune-capi/include/zil.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/include/zil.h b/crates/zune-capi/include/zil.h
index 0b860a1..35283f3 100644
--- a/crates/zune-capi/include/zil.h
+++ b/crates/zune-capi/include/zil.h
@@ -502,7 +502,7 @@ void zil_imgproc_exposure(ZImage *image, float exposure, float black_point, stru
  * \param image: Image to flip
  * \param status: Image execution reporter
  */
-void zil_imgproc_flip(ZImage *image, struct ZStatus *status);
+void zil_imgproc_flip_mirror_x_axis(ZImage *image, struct ZStatus *status);
 
 /**
  * Flop an image by reflecting pixels on its y-axis
@@ -519,7 +519,7 @@ void zil_imgproc_flip(ZImage *image, struct ZStatus *status);
  * \param image: Image to flop
  * \param status: Image execution reporter
  */
-void zil_imgproc_flop(ZImage *image, struct ZStatus *status);
+void zil_imgproc_flip_horizontal(ZImage *image, struct ZStatus *status);
 
 /**
  * Gamma adjust an image
-- 
2.43.0


From 6ca6a507a2f82ccec2a3acf4f8c3768bf93e6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 146/157] fix: decode in the C interface the way the library
 does

---
 crates/zune-capi/src/imread.rs | 397 ++++++++-------------------------
 1 file changed, 87 insertions(+), 310 deletions(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index edd5217..10dbe93 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -1,23 +1,16 @@
 use std::ffi::{c_char, CStr};
 use std::ptr;
 
-use zune_core::bit_depth::{BitDepth, ByteEndian};
-use zune_core::bytestream::{ZByteReaderTrait, ZCursor, ZReader};
-use zune_core::result::DecodingResult;
-use zune_image::codecs::bmp::BmpDecoder;
-use zune_image::codecs::farbfeld::FarbFeldDecoder;
-use zune_image::codecs::hdr::HdrDecoder;
-use zune_image::codecs::jpeg::JpegDecoder;
-use zune_image::codecs::png::PngDecoder;
-use zune_image::codecs::ppm::PPMDecoder;
-use zune_image::codecs::psd::PSDDecoder;
+use zune_core::bytestream::ZCursor;
+use zune_core::options::DecoderOptions;
 use zune_image::codecs::ImageFormat;
-use zune_image::errors::ImageErrors;
 
 use crate::enums::{ZImageColorspace, ZImageDepth, ZImageFormat};
 use crate::errno::{zil_status_ok, ZStatus, ZStatusType};
+use crate::image::write_interleaved;
 use crate::structs::ZImageMetadata;
-use crate::utils::zil_malloc;
+use crate::utils::{zil_free, zil_malloc};
+use crate::ZImage;
 
 /// Read image contents of a file and return a pointer to the decoded bytes
 ///
@@ -49,57 +42,28 @@ pub extern "C" fn zil_imread(
     file: *const c_char, width: *mut usize, height: *mut usize, depth: *mut ZImageDepth,
     channels: *mut usize, status: *mut ZStatus
 ) -> *const c_char {
+    if status.is_null() {
+        return ptr::null();
+    }
     // safety: The caller is supposed to uphold this
     let binding = unsafe { CStr::from_ptr(file) }.to_string_lossy();
     let file_cstr = binding.as_ref();
 
     match std::fs::read(file_cstr) {
-        Ok(data) => {
-            if let Some(im_metadata) = zune_image::utils::decode_info(ZCursor::new(&data)) {
-                // allocate a space big enough
-                let (w, h) = im_metadata.dimensions();
-                let colorspace = im_metadata.colorspace().num_components();
-                let im_depth = im_metadata.depth().size_of();
-
-                let new_size = w * h * colorspace * im_depth;
-
-                let output = unsafe { zil_malloc(new_size) };
-                if output.is_null() {
-                    unsafe {
-                        *status = ZStatus::new(
-                            format!("Malloc failed to allocate buffer with size of {}", new_size),
-                            ZStatusType::ZilMallocFailed
-                        )
-                    };
-                    return ptr::null();
-                }
-                zil_imdecode_into(
-                    data.as_ptr(),
-                    data.len(),
-                    output.cast(),
-                    new_size,
-                    width,
-                    height,
-                    depth,
-                    channels,
-                    status
-                );
-                if zil_status_ok(status) {
-                    return output.cast();
-                }
-            } else {
-                unsafe {
-                    *status = ZStatus::new("ZilUnknownDepth image format", ZStatusType::ZilGeneric)
-                };
-                return ptr::null();
-            }
-        }
+        Ok(data) => zil_imdecode(
+            data.as_ptr(),
+            data.len(),
+            width,
+            height,
+            depth,
+            channels,
+            status
+        ),
         Err(e) => {
             unsafe { *status = ZStatus::new(e.to_string(), ZStatusType::ZilIoErrors) };
-            return ptr::null();
+            ptr::null()
         }
     }
-    ptr::null()
 }
 
 ///\brief Load an image from a file and return it's contents
@@ -244,47 +208,36 @@ pub extern "C" fn zil_imdecode(
     }
     let contents = unsafe { std::slice::from_raw_parts(input, input_size) };
 
-    match zune_image::utils::decode_info(ZCursor::new(contents)) {
-        None => {
-            let msg = "Could not decode headers".to_string();
+    let image = match ZImage::read(ZCursor::new(contents), DecoderOptions::default()) {
+        Ok(image) => image,
+        Err(e) => {
             // safety: We checked above if status is null
-            unsafe { *status = ZStatus::new(msg, ZStatusType::ZilDecodeErrors) };
+            unsafe { *status = ZStatus::new(e.to_string(), ZStatusType::ZilDecodeErrors) };
             return ptr::null();
         }
-        Some(metadata) => {
-            let (w, h) = metadata.dimensions();
-            let im_depth = metadata.depth();
-            let colorspace = metadata.colorspace();
-            let size = w * h * im_depth.size_of() * colorspace.num_components();
+    };
+    let size = output_size_of(&image);
+
+    let output = unsafe { zil_malloc(size) };
+    if output.is_null() {
+        unsafe {
+            *status = ZStatus::new(
+                format!("Malloc failed to allocate buffer with size of {}", size),
+                ZStatusType::ZilMallocFailed
+            )
+        };
+        return ptr::null();
+    }
+    // safety: the buffer was allocated with this size above
+    let buf = unsafe { std::slice::from_raw_parts_mut(output.cast(), size) };
 
-            let output = unsafe { zil_malloc(size) };
-            if output.is_null() {
-                unsafe {
-                    *status = ZStatus::new(
-                        format!("Malloc failed to allocate buffer with size of {}", size),
-                        ZStatusType::ZilMallocFailed
-                    )
-                };
-                return ptr::null();
-            }
-            zil_imdecode_into(
-                input,
-                input_size,
-                output.cast(),
-                size,
-                width,
-                height,
-                depth,
-                channels,
-                status
-            );
+    write_image(&image, buf, width, height, depth, channels, status);
 
-            if zil_status_ok(status) {
-                return output.cast();
-            }
-        }
+    if !zil_status_ok(status) {
+        unsafe { zil_free(output) };
+        return ptr::null();
     }
-    ptr::null()
+    output.cast()
 }
 
 /// Decode from a byte array in memory and write pixels to `output`
@@ -314,232 +267,56 @@ pub extern "C" fn zil_imdecode_into(
     // Safety the caller is supposed to uphold this
     let buf = unsafe { std::slice::from_raw_parts_mut(output, output_size) };
 
-    match zune_image::utils::decode_info(ZCursor::new(contents)) {
-        None => {
-            let msg = "Could not decode headers".to_string();
-            // safety: We checked above if status is null
-            unsafe { *status = ZStatus::new(msg, ZStatusType::ZilDecodeErrors) };
-        }
-        Some(metadata) => {
-            let (w, h) = metadata.dimensions();
-            let im_depth = metadata.depth();
-            let colorspace = metadata.colorspace();
-            let size = w * h * im_depth.size_of() * colorspace.num_components();
-
-            // the buffer has to be that big
-            if buf.len() < size {
-                let msg = format!("Expected buffer of size {},but found {}", size, buf.len());
-                // safety, we checked above if status is null
-                unsafe { *status = ZStatus::new(msg, ZStatusType::ZilNotEnoughSpaceInDest) };
-                return;
-            }
-
-            if let Err(e) = imdecode_inner(ZCursor::new(contents), buf) {
-                unsafe { *status = ZStatus::new(e.to_string(), ZStatusType::ZilDecodeErrors) };
-                return;
-            }
-            // write parameters
-            if !width.is_null() {
-                unsafe { *width = w };
-            }
-            if !height.is_null() {
-                unsafe { *height = h };
-            }
-            if !depth.is_null() {
-                unsafe { *depth = ZImageDepth::from(im_depth) };
-            }
-            if !channels.is_null() {
-                unsafe { *channels = colorspace.num_components() };
-            }
-
-            // safety, we checked above if the status is null
-            unsafe { (*status).status = ZStatusType::ZilOk }
+    match ZImage::read(ZCursor::new(contents), DecoderOptions::default()) {
+        Ok(image) => write_image(&image, buf, width, height, depth, channels, status),
+        // safety, we checked above if status is null
+        Err(e) => unsafe {
+            *status = ZStatus::new(e.to_string(), ZStatusType::ZilDecodeErrors)
         }
     }
 }
 
-fn imdecode_inner<T>(data: T, output: &mut [u8]) -> Result<(), ImageErrors>
-where
-    T: ZByteReaderTrait
-{
-    if let Some((im_format, data)) = zune_image::codecs::guess_format(data) {
-        match im_format {
-            ImageFormat::JPEG => {
-                // just write into buffer
-                let mut decoder = JpegDecoder::new(data);
+/// Number of bytes a single interleaved frame of an image takes
+fn output_size_of(image: &ZImage) -> usize {
+    let (w, h) = image.dimensions();
 
-                decoder.decode_into(output)?;
-            }
-            ImageFormat::PNG => {
-                // note: PNG has 8 bit and 16 bit images, it's a common format so we have to do some optimizations
-                //
-                // we don't strip 16 bit to 8 bit automatically, so we need to  handle that path
-                // but we have `decode_into` only taking &[u8] slices, and making it generic and sucks
-                //
-                // so we branch on the depth, cheat a bit on 16 bit and return whatever we can
-                // we expect the caller to have appropriately taken care of allocating enough to hold 16 bit
-                //
-                let mut decoder = PngDecoder::new(data);
-
-                match decoder.depth().unwrap() {
-                    BitDepth::Eight => {
-                        decoder.decode_into(output)?;
-
-                        return Ok(());
-                    }
-                    BitDepth::Sixteen => {
-                        // safety:
-                        // we can alias strong types to weak types, e.g u16->u8 works, we only care
-                        // about alignment so it should be fine
-                        //
-                        // Reason:
-                        // Saves us an unnecessary image allocation which is expensive
-                        // set sample endianness to match platform
-                        #[cfg(target_endian = "little")]
-                        {
-                            let options = decoder.options().set_byte_endian(ByteEndian::LE);
-                            decoder.set_options(options);
-                        }
-                        #[cfg(target_endian = "big")]
-                        {
-                            let options = decoder.get_options().set_byte_endian(ByteEndian::BE);
-                            decoder.set_options(options);
-                        }
-
-                        decoder.decode_into(output)?;
-                    }
-                    _ => unreachable!()
-                }
-            }
-            ImageFormat::PPM => {
-                let mut decoder = PPMDecoder::new(data);
-                decoder.decode_headers()?;
-                let (w, h) = decoder.dimensions().unwrap();
-                let color = decoder.colorspace().unwrap();
-                let depth = decoder.bit_depth().unwrap().size_of();
-                let size = w * h * color.num_components() * depth;
-
-                if output.len() < size {
-                    return Err(ImageErrors::GenericString(format!(
-                        "Too small of output buffer, expected {} but found {} ",
-                        size,
-                        output.len()
-                    )));
-                }
-
-                match decoder.decode()? {
-                    DecodingResult::U8(bytes) => output[..size].copy_from_slice(&bytes[..]),
-                    DecodingResult::U16(bytes) => {
-                        // alias u16 to u8
-                        // SAFETY: u8 can alias everything
-                        let (_, b, _) = unsafe { bytes.align_to::<u8>() };
-                        output[..size].copy_from_slice(&b[..size]);
-                    }
-                    DecodingResult::F32(bytes) => {
-                        // alias u16 to u8
-                        // SAFETY: u8 can alias everything
-                        let (_, b, _) = unsafe { bytes.align_to::<u8>() };
-                        output[..size].copy_from_slice(&b[..size]);
-                    }
-                    _ => unreachable!()
-                }
-            }
-            ImageFormat::PSD => {
-                let mut decoder = PSDDecoder::new(data);
-                decoder.decode_headers()?;
-                let (w, h) = decoder.dimensions().unwrap();
-                let color = decoder.colorspace().unwrap();
-                let depth = decoder.bit_depth().unwrap().size_of();
-                let size = w * h * color.num_components() * depth;
-
-                if output.len() < size {
-                    return Err(ImageErrors::GenericString(format!(
-                        "Too small of output buffer, expected {} but found {} ",
-                        size,
-                        output.len()
-                    )));
-                }
-
-                match decoder.decode()? {
-                    DecodingResult::U8(bytes) => output[..size].copy_from_slice(&bytes[..]),
-                    DecodingResult::U16(bytes) => {
-                        // alias u16 to u8
-                        // SAFETY: u8 can alias everything
-                        let (_, b, _) = unsafe { bytes.align_to::<u8>() };
-                        output[..size].copy_from_slice(&b[..size]);
-                    }
-                    DecodingResult::F32(bytes) => {
-                        // alias u16 to u8
-                        // SAFETY: u8 can alias everything
-                        let (_, b, _) = unsafe { bytes.align_to::<u8>() };
-                        output[..size].copy_from_slice(&b[..size]);
-                    }
-                    _ => unreachable!()
-                }
-            }
-            ImageFormat::Farbfeld => {
-                let mut decoder = FarbFeldDecoder::new(data);
-
-                let (a, output_buf, c) = unsafe { output.align_to_mut() };
-
-                if !a.is_empty() || !c.is_empty() {
-                    // misalignment
-                    return Err(ImageErrors::GenericStr("Buffer misalignment"));
-                }
-                decoder
-                    .decode_into(output_buf)
-                    .map_err(|x| ImageErrors::GenericString(format!("{:?}", x)))?;
-            }
-            ImageFormat::QOI => {
-                // just write into buffer
-                let mut decoder = JpegDecoder::new(data);
-
-                decoder.decode_into(output)?;
-            }
-            ImageFormat::JPEG_XL => {
-                let decoder = zune_image::codecs::jpeg_xl::jxl_oxide::JxlImage::builder()
-                    .read(ZReader::new(data))
-                    .map_err(|x| ImageErrors::GenericString(x.to_string()))?;
-
-                let render = decoder
-                    .render_frame(0)
-                    .map_err(|x| ImageErrors::GenericString(x.to_string()))?;
-
-                let (a, f32_buf, c) = unsafe { output.align_to_mut() };
-
-                if !(a.is_empty() && c.is_empty()) {
-                    // misalignment
-                    return Err(ImageErrors::GenericStr("Buffer misalignment"));
-                }
-
-                let im_plannar = render.image_all_channels();
-                let buf_len = im_plannar.buf().len();
-
-                if buf_len > f32_buf.len() {
-                    return Err(ImageErrors::GenericStr(
-                        "Too small of a buffer for jxl output"
-                    ));
-                }
-                f32_buf[..buf_len].copy_from_slice(im_plannar.buf())
-            }
-            ImageFormat::HDR => {
-                let mut decoder = HdrDecoder::new(data);
-
-                let (a, f32_buf, c) = unsafe { output.align_to_mut() };
-
-                if !(a.is_empty() && c.is_empty()) {
-                    // misalignment
-                    return Err(ImageErrors::GenericStr("Buffer misalignment"));
-                }
-                decoder.decode_into(f32_buf)?
-            }
-            ImageFormat::BMP => {
-                let mut decoder = BmpDecoder::new(data);
+    w * h * image.depth().size_of() * image.colorspace().num_components()
+}
 
-                decoder.decode_into(output)?
-            }
-            _ => {}
-        }
+/// Write the pixels of a decoded image and what describes them
+///
+/// `status` must not be null
+fn write_image(
+    image: &ZImage, buf: &mut [u8], width: *mut usize, height: *mut usize,
+    depth: *mut ZImageDepth, channels: *mut usize, status: *mut ZStatus
+) {
+    let (w, h) = image.dimensions();
+    let size = output_size_of(image);
+
+    // the buffer has to be that big
+    if buf.len() < size {
+        let msg = format!("Expected buffer of size {},but found {}", size, buf.len());
+        // safety, the caller checked if status is null
+        unsafe { *status = ZStatus::new(msg, ZStatusType::ZilNotEnoughSpaceInDest) };
+        return;
+    }
+    if let Err(e) = write_interleaved(image, &mut buf[..size]) {
+        unsafe { *status = ZStatus::new(e.to_string(), ZStatusType::ZilDecodeErrors) };
+        return;
+    }
+    // write parameters
+    if !width.is_null() {
+        unsafe { *width = w };
+    }
+    if !height.is_null() {
+        unsafe { *height = h };
+    }
+    if !depth.is_null() {
+        unsafe { *depth = ZImageDepth::from(image.depth()) };
+    }
+    if !channels.is_null() {
+        unsafe { *channels = image.colorspace().num_components() };
     }
-    Ok(())
+    // safety, the caller checked if status is null
+    unsafe { *status = ZStatus::okay() }
 }
-- 
2.43.0


From cf717c12333de5e68be9cc24d220ca3eefe346d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 147/157] fix: describe a dummy image in the C interface

---
 crates/zune-capi/src/image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 69cb3fe..7b5bd3b 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -79,6 +79,10 @@ extern "C" fn zil_zimg_get_out_buffer_size(image: *mut ZImage, status: *mut ZSta
     }
     let image = unsafe { &*image };
 
+    if image.depth() == BitDepth::Unknown {
+        // a dummy image, there are no pixels
+        return 0;
+    }
     let (w, h) = image.dimensions();
     let colorspace = image.colorspace().num_components();
     let depth = image.depth().size_of();
-- 
2.43.0


From 3417fa364a9e6d73624689c8836d8b8bca0182c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 148/157] fix: refuse images of unknown depth

---
 crates/zune-image/src/traits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-image/src/traits.rs b/crates/zune-image/src/traits.rs
index 13929fd..c03233a 100644
--- a/crates/zune-image/src/traits.rs
+++ b/crates/zune-image/src/traits.rs
@@ -233,6 +233,9 @@ fn confirm_invariants(image: &Image) -> Result<(), ImageErrors> {
         }
     }
 
+    if image.depth() == BitDepth::Unknown {
+        return Err(ImageErrors::GenericStr("Image has an unknown bit depth"));
+    }
     let (width, height) = image.dimensions();
     // check the number of channels match the length
 
-- 
2.43.0


From 4d958b6c64d81b6f2afd9982a47e213d626a57c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 149/157] fix: refuse to crop an image to nothing

---
 crates/zune-imageprocs/src/crop.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-imageprocs/src/crop.rs b/crates/zune-imageprocs/src/crop.rs
index 5687c03..40e28c5 100644
--- a/crates/zune-imageprocs/src/crop.rs
+++ b/crates/zune-imageprocs/src/crop.rs
@@ -125,6 +125,11 @@ impl OperationsTrait for Crop {
     }
 
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
+        if self.width == 0 || self.height == 0 {
+            return Err(ImageErrors::GenericStr(
+                "Cannot crop an image to a width or height of zero"
+            ));
+        }
         let new_dims = self.width * self.height * image.depth().size_of();
         let (old_width, _) = image.dimensions();
         let depth = image.depth().bit_type();
-- 
2.43.0


From 1553f0f193405ddb53f640b3bef068a0b810a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 150/157] fix: report errors in writing the last bytes of a
 saved image

---
 crates/zune-image/src/codecs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-image/src/codecs.rs b/crates/zune-image/src/codecs.rs
index 23bbb3d..e374dd4 100644
--- a/crates/zune-image/src/codecs.rs
+++ b/crates/zune-image/src/codecs.rs
@@ -31,7 +31,7 @@
 //!
 #![allow(unused_imports, unused_variables, non_camel_case_types, dead_code)]
 
-use std::io::{BufRead, Cursor, Seek};
+use std::io::{BufRead, Cursor, Seek, Write};
 use std::path::Path;
 
 use zune_core::bytestream::{ZByteReaderTrait, ZByteWriterTrait, ZCursor, ZReader};
@@ -513,6 +513,8 @@ impl Image {
                 .open(file)?
         );
         self.encode(format, &mut file)?;
+        // dropping the writer would hide errors in writing the last bytes
+        file.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 015900103037f0c51c2348bd5c42f35129e6e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 151/157] fix: zune-bin: report errors in writing the last
 bytes of an output

---
 crates/zune-bin/src/workflow.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 0f77ddd..fc696c5 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -8,7 +8,7 @@
 
 use std::ffi::OsString;
 use std::fs::{File, OpenOptions};
-use std::io::{BufWriter, Read};
+use std::io::{BufWriter, Read, Write};
 use std::path::Path;
 use std::string::String;
 use std::time::Instant;
@@ -129,7 +129,9 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
         for (out_file, format) in &workflow.outputs {
             for image in workflow.inner.images() {
                 if out_file == "-" {
-                    format.encode(image, options, &mut std::io::stdout())?;
+                    let mut stdout = std::io::stdout();
+                    format.encode(image, options, &mut stdout)?;
+                    stdout.flush()?;
                 } else {
                     let file = OpenOptions::new()
                         .create(true)
@@ -139,6 +141,8 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                     let mut file_c = BufWriter::new(file);
                     let start = Instant::now();
                     let bytes = format.encode(image, options, &mut file_c)?;
+                    // dropping the writer would hide errors in writing the last bytes
+                    file_c.flush()?;
                     let end = Instant::now();
                     trace!(
                         "Took {:?} to encode {} bytes to {:?}",
-- 
2.43.0


From 92a2282ee2e63c5daaab9dcab4ead8211bec5a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 152/157] fix: keep log messages out of the image written to
 stdout

---
 .../src/cmd_parsers/global_options.rs         | 36 +++++++++++++++++--
 crates/zune-bin/src/lib.rs                    |  4 +--
 crates/zune-image/src/pipelines.rs            |  4 +--
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers/global_options.rs b/crates/zune-bin/src/cmd_parsers/global_options.rs
index 8992e45..9d75883 100644
--- a/crates/zune-bin/src/cmd_parsers/global_options.rs
+++ b/crates/zune-bin/src/cmd_parsers/global_options.rs
@@ -9,7 +9,7 @@
 use clap::parser::ValueSource;
 use clap::parser::ValueSource::CommandLine;
 use clap::ArgMatches;
-use log::{info, Level};
+use log::{info, Level, Log, Metadata, Record};
 
 use crate::cmd_args::MmapOptions;
 
@@ -63,6 +63,28 @@ pub fn parse_options(options: &ArgMatches) -> CmdOptions {
     cmd_options
 }
 
+/// A logger that writes to stderr, used when stdout carries the output image
+struct StderrLogger(Level);
+
+impl Log for StderrLogger {
+    fn enabled(&self, metadata: &Metadata) -> bool {
+        metadata.level() <= self.0
+    }
+
+    fn log(&self, record: &Record) {
+        if self.enabled(record.metadata()) {
+            eprintln!(
+                "{:<5} [{}] {}",
+                record.level(),
+                record.target(),
+                record.args()
+            );
+        }
+    }
+
+    fn flush(&self) {}
+}
+
 /// Set up logging options
 pub fn setup_logger(options: &ArgMatches) {
     if !options.get_one::<bool>("no-log").unwrap() {
@@ -80,7 +102,17 @@ pub fn setup_logger(options: &ArgMatches) {
             log_level = Level::Warn;
         }
 
-        simple_logger::init_with_level(log_level).unwrap();
+        let to_stdout = options
+            .get_raw("out")
+            .is_some_and(|mut outs| outs.any(|out| out == "-"));
+
+        if to_stdout {
+            // stdout carries the image, log messages must not be mixed with it
+            log::set_max_level(log_level.to_level_filter());
+            log::set_boxed_logger(Box::new(StderrLogger(log_level))).unwrap();
+        } else {
+            simple_logger::init_with_level(log_level).unwrap();
+        }
 
         info!("Initialized logger");
         info!("Log level :{}", log_level);
diff --git a/crates/zune-bin/src/lib.rs b/crates/zune-bin/src/lib.rs
index a970243..bd4eb2c 100644
--- a/crates/zune-bin/src/lib.rs
+++ b/crates/zune-bin/src/lib.rs
@@ -32,13 +32,13 @@ pub fn main() {
     let result = create_and_exec_workflow_from_cmd(&options, &parsed_opts);
 
     if result.is_err() {
-        println!();
+        eprintln!();
         error!(
             " Could not complete workflow, reason {:?}",
             result.err().unwrap()
         );
 
-        println!();
+        eprintln!();
         exit(-1);
     }
 }
diff --git a/crates/zune-image/src/pipelines.rs b/crates/zune-image/src/pipelines.rs
index f6e2541..e2f14bb 100644
--- a/crates/zune-image/src/pipelines.rs
+++ b/crates/zune-image/src/pipelines.rs
@@ -171,7 +171,7 @@ impl Pipeline {
                     }
 
                     if log_enabled!(Trace) {
-                        println!();
+                        eprintln!();
                         trace!("Current state: {:?}\n", state);
                     }
 
@@ -193,7 +193,7 @@ impl Pipeline {
                     }
 
                     if log_enabled!(Trace) && !self.operations.is_empty() {
-                        println!();
+                        eprintln!();
                         trace!("Current state: {:?}\n", state);
                     }
 
-- 
2.43.0


From 4986f30114b23a12dce654d4b5387c2e1ee5dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 153/157] fix: bmp: use each mask's own shift when blue comes
 first

---
 crates/zune-bmp/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index da5956f..80af3ae 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -834,9 +834,9 @@ where
                                 // Anonymous conversion function
                                 let conv_function = |v: u32, a: &mut [u8]| {
                                     if PRESERVE_BGRA {
-                                        a[0] = shift_signed(v & mb, rshift, rcount) as u8;
+                                        a[0] = shift_signed(v & mb, bshift, bcount) as u8;
                                         a[1] = shift_signed(v & mg, gshift, gcount) as u8;
-                                        a[2] = shift_signed(v & mr, bshift, bcount) as u8;
+                                        a[2] = shift_signed(v & mr, rshift, rcount) as u8;
                                     } else {
                                         a[0] = shift_signed(v & mr, rshift, rcount) as u8;
                                         a[1] = shift_signed(v & mg, gshift, gcount) as u8;
-- 
2.43.0


From 091ffb65af4729f79330eb2321d71735460a9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 154/157] fix: zune-image: use vector deinterleavers only where
 the processor has their instructions

---
 crates/zune-image/src/deinterleave/deinterleave_impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/deinterleave/deinterleave_impls.rs b/crates/zune-image/src/deinterleave/deinterleave_impls.rs
index dffc2fe..cf00416 100644
--- a/crates/zune-image/src/deinterleave/deinterleave_impls.rs
+++ b/crates/zune-image/src/deinterleave/deinterleave_impls.rs
@@ -25,7 +25,7 @@ pub fn de_interleave_three_channels_u8(source: &[u8], c1: &mut [u8], c2: &mut [u
         {
             use crate::deinterleave::sse41::de_interleave_three_channels_sse3_u8;
 
-            if is_x86_feature_detected!("sse3") {
+            if is_x86_feature_detected!("sse4.1") {
                 unsafe {
                     return de_interleave_three_channels_sse3_u8(source, c1, c2, c3);
                 }
@@ -78,7 +78,7 @@ pub fn deinterleave_four_channels_u8(
         #[cfg(feature = "simd")]
         {
             use crate::deinterleave::avx2::de_interleave_four_channels_avx2;
-            if is_x86_feature_detected!("sse4.1") {
+            if is_x86_feature_detected!("avx2") {
                 unsafe {
                     return de_interleave_four_channels_avx2(source, c1, c2, c3, c4);
                 }
-- 
2.43.0


From d552b394638d48cbe4eb22ca36d63fc626abd1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 155/157] fix: unsharpen: don't wrap thresholds over 255
 without threads

---
 crates/zune-imageprocs/src/unsharpen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/unsharpen.rs b/crates/zune-imageprocs/src/unsharpen.rs
index ae0fde5..68524e1 100644
--- a/crates/zune-imageprocs/src/unsharpen.rs
+++ b/crates/zune-imageprocs/src/unsharpen.rs
@@ -89,7 +89,7 @@ impl OperationsTrait for Unsharpen {
                             &mut blur_buffer,
                             &mut blur_scratch,
                             self.sigma,
-                            self.threshold as u8,
+                            u8::try_from(self.threshold.clamp(0, 255)).unwrap_or(u8::MAX),
                             self.percentage,
                             width,
                             height
-- 
2.43.0


From 9ceb28c6306661b0240adb3ac28f84519a4ee966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 156/157] fix: zune-png: refuse colourspaces and depths PNG
 can't hold

---
 crates/zune-png/src/encoder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/zune-png/src/encoder.rs b/crates/zune-png/src/encoder.rs
index 1408948..f0c5f14 100644
--- a/crates/zune-png/src/encoder.rs
+++ b/crates/zune-png/src/encoder.rs
@@ -6,7 +6,9 @@
 
 use alloc::vec::Vec;
 
+use zune_core::bit_depth::BitDepth;
 use zune_core::bytestream::{ZByteIoError, ZByteWriterTrait, ZWriter};
+use zune_core::colorspace::ColorSpace;
 use zune_core::options::EncoderOptions;
 use zune_inflate::DeflateEncoder;
 
@@ -91,6 +93,15 @@ impl<'a> PngEncoder<'a> {
             .checked_mul(self.options.colorspace().num_components())
             .ok_or(ZByteIoError::Generic("Overflow"))?;
 
+        if !matches!(
+            self.options.colorspace(),
+            ColorSpace::Luma | ColorSpace::LumaA | ColorSpace::RGB | ColorSpace::RGBA
+        ) {
+            return Err(ZByteIoError::Generic("Unsupported colorspace for PNG"));
+        }
+        if !matches!(self.options.depth(), BitDepth::Eight | BitDepth::Sixteen) {
+            return Err(ZByteIoError::Generic("Unsupported bit depth for PNG"));
+        }
         if self.data.len() != expected_data_size {
             return Err(ZByteIoError::NotEnoughBytes(
                 expected_data_size,
-- 
2.43.0


From 3f1a89f0c662aff39fa9f9a9ca5e43076dd37cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 157/157] fix: zune-image: load whole chunks in the SSE4.1
 four-channel deinterleaver

---
 crates/zune-image/src/deinterleave/sse41.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-image/src/deinterleave/sse41.rs b/crates/zune-image/src/deinterleave/sse41.rs
index e60eaf7..d01ac0c 100644
--- a/crates/zune-image/src/deinterleave/sse41.rs
+++ b/crates/zune-image/src/deinterleave/sse41.rs
@@ -133,9 +133,9 @@ pub unsafe fn de_interleave_four_channels_sse41(
         // We load 64 bytes to ensure that when we write, we do a write of 16 which
         // fits nicely into a sse register.
         let t1 = _mm_loadu_si128(source_chunk[00..].as_ptr().cast());
-        let t2 = _mm_loadu_si128(source_chunk[08..].as_ptr().cast());
-        let t3 = _mm_loadu_si128(source_chunk[16..].as_ptr().cast());
-        let t4 = _mm_loadu_si128(source_chunk[24..].as_ptr().cast());
+        let t2 = _mm_loadu_si128(source_chunk[16..].as_ptr().cast());
+        let t3 = _mm_loadu_si128(source_chunk[32..].as_ptr().cast());
+        let t4 = _mm_loadu_si128(source_chunk[48..].as_ptr().cast());
 
         // convert data into
         // rrrr,gggg,bbbb,aaaa
-- 
2.43.0

