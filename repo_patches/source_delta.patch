From 178e9b929e961b72808edaf39a16a2a186d63b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 01/28] fix: version 1 RGB decompressor keeps bits of the
 previous upper byte

The decoded upper byte was or-ed into the previous color instead of
replacing its upper byte.
---
 src/las/rgb.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index bf4ffc1..a1a0315 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -263,12 +263,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_red_byte_changed() {
-                self.last.red |= (self.decompress_byte(
+                let new_upper_red = self.decompress_byte(
                     decoder,
                     UPPER_RED_BYTE_CONTEXT,
                     upper_byte(self.last.red),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.red = (new_upper_red as u16) << 8 | self.last.red & 0x00FF;
             }
 
             if color_diff.lower_green_byte_changed() {
@@ -281,12 +281,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_green_byte_changed() {
-                self.last.green |= (self.decompress_byte(
+                let new_upper_green = self.decompress_byte(
                     decoder,
                     UPPER_GREEN_BYTE_CONTEXT,
                     upper_byte(self.last.green),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.green = (new_upper_green as u16) << 8 | self.last.green & 0x00FF;
             }
 
             if color_diff.lower_blue_byte_changed() {
@@ -299,12 +299,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_blue_byte_changed() {
-                self.last.blue |= (self.decompress_byte(
+                let new_upper_blue = self.decompress_byte(
                     decoder,
                     UPPER_BLUE_BYTE_CONTEXT,
                     upper_byte(self.last.blue),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.blue = (new_upper_blue as u16) << 8 | self.last.blue & 0x00FF;
             }
             self.last.pack_into(buf);
             Ok(())
-- 
2.43.0


From e23b888e0f5b1a0f1eb3d5703cea20ac7f112610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 02/28] fix: version 1 RGB compressor codes the upper blue byte
 in the green context

The decompressor reads it with the upper blue byte's own context.
---
 src/las/rgb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index a1a0315..941d968 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -387,7 +387,7 @@ pub mod v1 {
                     &mut encoder,
                     i32::from(upper_byte(self.last.blue)),
                     i32::from(upper_byte(current_point.blue)),
-                    UPPER_GREEN_BYTE_CONTEXT,
+                    UPPER_BLUE_BYTE_CONTEXT,
                 )?;
             }
             self.last = current_point;
-- 
2.43.0


From 68effe2fac9bad7957ddb512a3d32c639b37be63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 03/28] fix: wavepacket compressor treats a negative offset
 difference as the packet size

Packet sizes of 2^31 and more became negative when compared as i32, while
the decompressor adds the unsigned size.
---
 src/las/wavepacket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 583c8a5..9218771 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -291,7 +291,7 @@ pub mod v1 {
 
                 let new_syn_offset_diff = if offset_diff_32 == 0 {
                     0
-                } else if offset_diff_32 == self.last_wavepacket.size as i32 {
+                } else if offset_diff_64 == i64::from(self.last_wavepacket.size) {
                     1
                 } else {
                     2
-- 
2.43.0


From 47e9eaf9268f368a494df6a434fe406f584638fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 04/28] fix: LazVlr::items_size sums item sizes in 16 bits and
 overflows

---
 src/laszip/vlr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index 3c2d58c..ab1c76a 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -513,7 +513,7 @@ impl LazVlr {
     /// expected size of points (uncompressed).
     #[inline]
     pub fn items_size(&self) -> u64 {
-        u64::from(self.items.iter().map(|item| item.size).sum::<u16>())
+        self.items.iter().map(|item| u64::from(item.size)).sum()
     }
 
     /// returns how many bytes a decompressed chunk contains
-- 
2.43.0


From 16e399c21f8b7a502d37e4cf16e15cb73665fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:44 +0000
Subject: [PATCH 05/28] fix: point 14 compressor took -0.0 and 0.0 for the same
 GPS time, losing the sign

---
 src/las/point6.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index 87424e0..0105eda 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -1665,7 +1665,9 @@ mod v3_v4 {
 
             // determine changed attributes
             let point_source_changed = last_point.point_source_id != current_point.point_source_id;
-            let gps_time_changed = last_point.gps_time != current_point.gps_time;
+            // compare bits: 0.0 and -0.0 are equal but are not the same bytes
+            let gps_time_changed =
+                last_point.gps_time.to_bits() != current_point.gps_time.to_bits();
             let scan_angle_changed = last_point.scan_angle_rank != current_point.scan_angle_rank;
 
             // get last and current return counts
-- 
2.43.0


From 741aa8a3577977798682a5125ff28b7929047218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:51 +0000
Subject: [PATCH 06/28] fix: layered wavepacket compressor took -0.0 and 0.0
 for unchanged values, losing the sign

---
 src/las/wavepacket.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 9218771..120203c 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -613,7 +613,6 @@ mod v3_v4 {
             current_point: &[u8],
             context: &mut usize,
         ) -> std::io::Result<()> {
-            let current_wavepacket = LasWavepacket::unpack_from(current_point);
             // Index of the last item used as prediction
             let mut last_idx = self.last_context;
 
@@ -632,7 +631,10 @@ mod v3_v4 {
                 }
             }
 
-            if self.last_wavepackets[last_idx] != current_wavepacket {
+            // compare bytes: 0.0 and -0.0 are equal but are not the same bytes
+            let mut last_bytes = [0u8; LasWavepacket::SIZE];
+            self.last_wavepackets[last_idx].pack_into(&mut last_bytes);
+            if last_bytes[..] != current_point[..LasWavepacket::SIZE] {
                 self.has_changed = true;
             }
 
-- 
2.43.0


From d1dcc763e477cbc33ae05ba9cfc698d945a77913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 07/28] fix: appender must not count the kept chunks in the
 size of its first chunk

---
 src/laszip/sequential/appender.rs    | 4 +++-
 src/laszip/sequential/compression.rs | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index d4366a8..0b6d0e4 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -120,13 +120,15 @@ where
 {
     /// data must be positioned at the start of point data
     pub fn new(data: W, vlr: LazVlr, point_count: u64) -> crate::Result<Self> {
-        let (compressor, chunk_table) = prepare_compressor_for_appending(
+        let (mut compressor, chunk_table) = prepare_compressor_for_appending(
             data,
             vlr,
             point_count,
             LasZipCompressor::new,
             LasZipCompressor::get_mut,
         )?;
+        // The first new chunk starts after the bytes of the chunks that are kept
+        compressor.move_chunk_start(chunk_table.chunk_position(chunk_table.len()).unwrap());
 
         Ok(Self {
             saved_chunk_table: chunk_table,
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 192a88b..63ab732 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -206,6 +206,11 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         self.start_pos as i64
     }
 
+    /// Moves the start of the current chunk `num_bytes` forward
+    pub(crate) fn move_chunk_start(&mut self, num_bytes: u64) {
+        self.chunk_start_pos += num_bytes;
+    }
+
     /// Returns the current chunk table
     pub(crate) fn chunk_table(&self) -> &ChunkTable {
         &self.chunk_table
-- 
2.43.0


From 5b977e04b24db51e1c60794e70da62208b3b5d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 08/28] fix: appending to a file without points must not
 underflow

---
 src/laszip/sequential/appender.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index 0b6d0e4..da100e5 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -42,7 +42,7 @@ where
     let mut data_to_recompress = vec![];
     if !chunk_table.is_empty() {
         let (chunk_index, chunk_start_pos) = chunk_table
-            .chunk_of_point(point_count - 1)
+            .chunk_of_point(point_count.saturating_sub(1))
             .unwrap_or_else(|| {
                 (
                     chunk_table.len() - 1,
-- 
2.43.0


From 33df5ba1f68290ea7e7927393216de2e235a2eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 09/28] fix: parallel appender must handle variable-size chunks

---
 src/laszip/parallel/appender.rs   | 7 +++++++
 src/laszip/sequential/appender.rs | 7 +++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index 1d1fd01..90e22b3 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -22,6 +22,13 @@ where
             point_count,
             ParLasZipCompressor::new,
             ParLasZipCompressor::get_mut,
+            |compressor, points| {
+                if compressor.vlr().uses_variable_size_chunks() {
+                    compressor.compress_chunks(vec![points])
+                } else {
+                    compressor.compress_many(points)
+                }
+            },
         )?;
 
         Ok(Self {
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index da100e5..c247a3e 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -15,17 +15,19 @@ use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 /// * If `point_count` is greater than the actual number of points,
 ///   the function will stop at when we know for sure no other points
 ///   could be present
-pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
+pub(crate) fn prepare_compressor_for_appending<W, F, F2, F3, Compressor>(
     mut data: W,
     vlr: LazVlr,
     point_count: u64,
     compressor_creator: F,
     get_mut_dest_of_compressor: F2,
+    recompress: F3,
 ) -> crate::Result<(Compressor, ChunkTable)>
 where
     W: Write + Read + Seek + Sync,
     F: FnOnce(W, LazVlr) -> crate::Result<Compressor>,
     F2: FnOnce(&mut Compressor) -> &mut W,
+    F3: FnOnce(&mut Compressor, &[u8]) -> std::io::Result<()>,
     Compressor: LazCompressor,
 {
     // Technically we could support PointWise compressor
@@ -102,7 +104,7 @@ where
     get_mut_dest_of_compressor(&mut compressor).seek(SeekFrom::Current(last_chunk_pos as i64))?;
     // Rewrite the last chunk we read
     if !data_to_recompress.is_empty() {
-        compressor.compress_many(&data_to_recompress)?;
+        recompress(&mut compressor, &data_to_recompress)?;
     }
 
     Ok((compressor, chunk_table))
@@ -126,6 +128,7 @@ where
             point_count,
             LasZipCompressor::new,
             LasZipCompressor::get_mut,
+            LasZipCompressor::compress_many,
         )?;
         // The first new chunk starts after the bytes of the chunks that are kept
         compressor.move_chunk_start(chunk_table.chunk_position(chunk_table.len()).unwrap());
-- 
2.43.0


From 1231359cc14f112036c0ff6a840ad01f72829839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 10/28] fix: par_decompress_buffer must give all the point
 bytes to par_decompress

---
 src/laszip/parallel/decompression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 29c1eaa..8fdf5d3 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -323,7 +323,9 @@ pub fn par_decompress_buffer(
         .map(|entry| entry.byte_count as usize)
         .sum::<usize>();
 
-    let compressed_points = &compressed_points_data[std::mem::size_of::<i64>()..num_point_bytes];
+    let start_of_points = std::mem::size_of::<i64>();
+    let compressed_points =
+        &compressed_points_data[start_of_points..start_of_points + num_point_bytes];
     par_decompress(
         compressed_points,
         decompressed_points,
-- 
2.43.0


From 07b902e5188c2e6835630e9543f636607ae2afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 11/28] fix: par_decompress must not expect the last chunk to
 be complete

---
 src/laszip/parallel/decompression.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 8fdf5d3..3b23651 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -349,9 +349,15 @@ pub fn par_decompress_selective(
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
     let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
-    let counts = chunk_table
-        .iter()
-        .map(|entry| (entry.point_count * laz_vlr.items_size()) as usize);
+    // With fixed-size chunks, the last chunk may contain less points than
+    // its entry says, there are never more points than the output can hold.
+    let mut num_bytes_left = decompressed_points.len();
+    let counts = chunk_table.iter().map(move |entry| {
+        let num_bytes = (entry.point_count * laz_vlr.items_size()) as usize;
+        let num_bytes = num_bytes.min(num_bytes_left);
+        num_bytes_left -= num_bytes;
+        num_bytes
+    });
     let input_chunks_iter = ChunksIrregular::new(compressed_points, sizes);
     let output_chunks_iter = ChunksIrregularMut::new(decompressed_points, counts);
 
-- 
2.43.0


From b4ba0e3b372d64b187eb7fe4f597f4ad82da47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 12/28] fix: seek must count the points of the previous
 variable-size chunks

---
 src/laszip/sequential/decompression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 34653c6..c06559e 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -202,7 +202,11 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
 
         if let Some((chunk_of_point, start_of_chunk)) = chunk_info {
             self.current_chunk = chunk_of_point as usize;
-            let delta = point_idx % chunk_table[self.current_chunk].point_count;
+            let num_points_before_chunk = chunk_table[..self.current_chunk]
+                .iter()
+                .map(|entry| entry.point_count)
+                .sum::<u64>();
+            let delta = point_idx - num_points_before_chunk;
             let seeked_point_belong_to_last_chunk = chunk_of_point == (chunk_table.len() - 1);
             // When the index of the point belongs to the last chunk
             // we try to be careful as that point may not exist, and there may be a
-- 
2.43.0


From 35fa0f86d91c9cf5603bd1caf22816e8cfbf18e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 13/28] fix: parallel seek must count the points of the
 previous variable-size chunks

---
 src/laszip/parallel/decompression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 3b23651..917ddfc 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -234,6 +234,12 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             .resize(self.chunk_table[chunk_of_point].byte_count as usize, 0u8);
         self.source.read(&mut self.internal_buffer)?;
 
+        let num_points_before_chunk = self.chunk_table[..chunk_of_point]
+            .iter()
+            .map(|entry| entry.point_count)
+            .sum::<u64>();
+        let pos_in_chunk = index - num_points_before_chunk;
+
         // Completely decompress the chunk
         let num_bytes = match self.vlr.num_bytes_in_decompressed_chunk() {
             crate::laszip::vlr::DecompressedChunkSize::Fixed { num_bytes } => num_bytes,
@@ -251,7 +257,6 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             let num_bytes_decompressed =
                 decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
             let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
-            let pos_in_chunk = index % self.vlr.chunk_size() as u64;
             if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
                 // Make the rest appear as fully consumed to
                 // force EOF error on next decompression
@@ -263,7 +268,6 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
         // This effectively discard points that were
         // before the one we just seeked to
-        let pos_in_chunk = index % self.vlr.chunk_size() as u64;
         self.rest.set_position(pos_in_chunk * self.vlr.items_size());
         self.last_chunk_read = chunk_of_point as isize;
         Ok(())
-- 
2.43.0


From 9ea0c58b7ea64c3cfabb952ed56c1f3a56ebd40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 14/28] fix: parallel seek must keep the selection of the
 fields

---
 src/laszip/parallel/decompression.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 917ddfc..00e6e9b 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -252,6 +252,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
         )?;
+        decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
         if is_last_chunk {
             let num_bytes_decompressed =
-- 
2.43.0


From 6e53198b18857f1a4f46bee34ead8e715f21af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 15/28] fix: parallel seek must read the whole chunk

---
 src/laszip/parallel/decompression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 00e6e9b..d7f0c56 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -232,7 +232,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
         self.internal_buffer
             .resize(self.chunk_table[chunk_of_point].byte_count as usize, 0u8);
-        self.source.read(&mut self.internal_buffer)?;
+        self.source.read_exact(&mut self.internal_buffer)?;
 
         let num_points_before_chunk = self.chunk_table[..chunk_of_point]
             .iter()
-- 
2.43.0


From 3b8ada1c8ef66fb9567bd6ec653890f94318d8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 16/28] fix: parallel seek in the last chunk must not leave
 points that do not exist

---
 src/laszip/parallel/decompression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index d7f0c56..c36fd98 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -248,6 +248,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             } => num_bytes_per_point * self.chunk_table[chunk_of_point].point_count as usize,
         };
         self.rest.get_mut().resize(num_bytes, 0u8);
+        self.last_chunk_read = chunk_of_point as isize;
         let mut decompressor = record_decompressor_from_laz_items(
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
@@ -257,6 +258,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         if is_last_chunk {
             let num_bytes_decompressed =
                 decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
+            self.rest.get_mut().truncate(num_bytes_decompressed);
             let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
             if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
                 // Make the rest appear as fully consumed to
@@ -270,7 +272,6 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         // This effectively discard points that were
         // before the one we just seeked to
         self.rest.set_position(pos_in_chunk * self.vlr.items_size());
-        self.last_chunk_read = chunk_of_point as isize;
         Ok(())
     }
 
-- 
2.43.0


From 909a0d01bf2b85bb2b029319c06709e0e1ad8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 17/28] fix: layered record decompressor must give the point
 count of the chunk

---
 src/record.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/record.rs b/src/record.rs
index da13149..032d1cb 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -350,6 +350,9 @@ pub struct LayeredPointRecordDecompressor<'a, R: Read + Seek> {
     is_first_decompression: bool,
     fields_sizes: Vec<usize>,
     record_size: usize,
+    // Number of points in the current chunk,
+    // known once the first point has been decompressed
+    record_count: u64,
     context: usize,
 }
 
@@ -363,6 +366,7 @@ impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
             is_first_decompression: true,
             fields_sizes: vec![],
             record_size: 0,
+            record_count: 0,
             context: 0,
         }
     }
@@ -454,6 +458,10 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.record_size
     }
 
+    fn record_count(&self) -> u64 {
+        self.record_count
+    }
+
     fn decompress_next(&mut self, out: &mut [u8]) -> std::io::Result<()> {
         let decompressors_and_data =
             self.field_decompressors
@@ -472,7 +480,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
                 )?;
             }
 
-            let _count = self.input.read_u32::<LittleEndian>()?;
+            self.record_count = u64::from(self.input.read_u32::<LittleEndian>()?);
             for field in &mut self.field_decompressors {
                 field.read_layers_sizes(&mut self.input)?;
             }
@@ -493,6 +501,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.is_first_decompression = true;
         self.field_decompressors.clear();
         self.record_size = 0;
+        self.record_count = 0;
         self.fields_sizes.clear();
     }
 
-- 
2.43.0


From 62e6a08b9839377d7c0fa962271926e5e4c58a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 18/28] fix: decompressing after a seek past the end must not
 go on with the previous chunk

---
 src/laszip/sequential/decompression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index c06559e..c3c55b0 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -236,6 +236,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
 
                     if current_pos >= offset_to_chunk_table {
                         self.get_mut().seek(SeekFrom::End(0))?;
+                        self.reset_for_new_chunk();
                         return Ok(());
                     }
                 }
@@ -255,6 +256,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             // Seek to the end so that the next call to decompress causes en error
             // like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
             self.record_decompressor.get_mut().seek(SeekFrom::End(0))?;
+            self.reset_for_new_chunk();
         }
         Ok(())
     }
-- 
2.43.0


From f8ac7076f453d0a795374f3f4779a21dbc47e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 19/28] fix: reading without a chunk table must start at the
 first point

---
 src/laszip/sequential/decompression.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index c3c55b0..1f98184 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -74,6 +74,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         vlr: LazVlr,
         selection: DecompressionSelection,
     ) -> crate::Result<Self> {
+        let start_of_data = source.seek(SeekFrom::Current(0));
         // The chunk table is not always mandatory when just reading data.
         let seek_info = match vlr.compressor {
             CompressorType::PointWise => {
@@ -90,6 +91,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         // So we _may_ still be at the start of point data,
                         // we need to skip the chunk table offset otherwise
                         // decompression won't be correct.
+                        if let Ok(pos) = start_of_data {
+                            source.seek(SeekFrom::Start(pos))?;
+                        }
                         let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
                         source.read_exact(&mut tmp)?;
                         None
@@ -108,6 +112,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 let seek_info = SeekInfo::read_from(&mut source, &vlr).ok();
                 if seek_info.is_none() {
                     // Same as in PointWiseChunked
+                    if let Ok(pos) = start_of_data {
+                        source.seek(SeekFrom::Start(pos))?;
+                    }
                     let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
                     source.read_exact(&mut tmp)?;
                 }
-- 
2.43.0


From 000669f7019b8861a32aa20ffef73b3ada2b30ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 20/28] fix: do not write chunks without points

---
 src/laszip/parallel/compression.rs   |  2 ++
 src/laszip/sequential/compression.rs | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 49369f8..f5fc36b 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -331,6 +331,8 @@ where
 
     let chunks = chunks
         .into_par_iter()
+        // A chunk without points cannot be read back
+        .filter(|data| !data.as_ref().is_empty())
         .map(|data| {
             let slc = data.as_ref();
             let mut output = Cursor::new(Vec::<u8>::new());
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 63ab732..0999fed 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -138,8 +138,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         if self.chunk_start_pos == 0 {
             self.reserve_offset_to_chunk_table()?;
         }
-        self.record_compressor.done()?;
-        self.update_chunk_table()?;
+        if self.current_chunk_entry.point_count != 0 {
+            self.record_compressor.done()?;
+            self.update_chunk_table()?;
+        }
         let stream = self.record_compressor.get_mut();
         chunk_table::update_chunk_table_offset(stream, SeekFrom::Start(self.start_pos))?;
         self.chunk_table.write_to(stream, &self.vlr)?;
@@ -230,6 +232,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
 
     #[inline]
     fn finish_current_chunk_impl(&mut self) -> std::io::Result<()> {
+        if self.current_chunk_entry.point_count == 0 {
+            // A chunk without points cannot be read back
+            return Ok(());
+        }
         self.record_compressor.done()?;
         self.record_compressor.reset();
         self.record_compressor
-- 
2.43.0


From 091ff6be35e6d254ef9fe0076c8102548667caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 21/28] fix: parallel compression must report unsupported items
 instead of panicking

---
 src/laszip/parallel/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index f5fc36b..1e396fc 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -368,7 +368,8 @@ fn compress_one_chunk<W: Write + Seek + Send + Sync>(
 ) -> std::io::Result<u64> {
     let start = dest.seek(SeekFrom::Current(0))?;
     {
-        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest).unwrap();
+        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest)
+            .map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
         compressor.compress_many(chunk_data)?;
         compressor.done()?;
     }
-- 
2.43.0


From 946e174b92d68ea83e615deae656adcd06d114d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 22/28] fix: seek must not stop early when the last bytes of
 the last chunk are loaded

---
 src/laszip/sequential/decompression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 1f98184..d0038bc 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -241,7 +241,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                     self.decompress_one(&mut tmp_out)?;
                     let current_pos = self.get_mut().seek(SeekFrom::Current(0))?;
 
-                    if current_pos >= offset_to_chunk_table {
+                    if current_pos > offset_to_chunk_table {
                         self.get_mut().seek(SeekFrom::End(0))?;
                         self.reset_for_new_chunk();
                         return Ok(());
-- 
2.43.0


From bf0b186e6f8d855ff9f163c2c3efb52b2e25e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 23/28] fix: chunk table entries of 2 GiB and more must be read
 back as positive

---
 src/laszip/chunk_table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index a9c5b96..cad07fa 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -163,13 +163,13 @@ impl ChunkTable {
                     &mut decoder,
                     previous_entry.point_count as i32,
                     POINT_COUNT_CONTEXT,
-                )? as u64);
+                )? as u32 as u64);
             }
             current_entry.byte_count = u64::from_le(decompressor.decompress(
                 &mut decoder,
                 previous_entry.byte_count as i32,
                 BYTE_COUNT_CONTEXT,
-            )? as u64);
+            )? as u32 as u64);
 
             chunk_table.0.push(current_entry);
             previous_entry = current_entry;
-- 
2.43.0


From b898aae68559ce17a5a26249eed3a0d0f3333b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 24/28] fix: point 0 (version 1) coordinates far apart must not
 overflow

---
 src/las/point0.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/las/point0.rs b/src/las/point0.rs
index ebab126..213191e 100644
--- a/src/las/point0.rs
+++ b/src/las/point0.rs
@@ -431,8 +431,8 @@ pub mod v1 {
             let median_x = median_diff(&self.last_x_diffs);
             let median_y = median_diff(&self.last_y_diffs);
 
-            let x_diff = current_point.x() - self.last_point.x();
-            let y_diff = current_point.y() - self.last_point.y();
+            let x_diff = current_point.x().wrapping_sub(self.last_point.x());
+            let y_diff = current_point.y().wrapping_sub(self.last_point.y());
 
             self.ic_dx
                 .compress(encoder, median_x, x_diff, DEFAULT_COMPRESS_CONTEXTS)?;
@@ -545,7 +545,7 @@ pub mod v1 {
             let x_diff =
                 self.ic_dx
                     .decompress(&mut decoder, median_x, DEFAULT_DECOMPRESS_CONTEXTS)?;
-            self.last_point.x += x_diff;
+            self.last_point.x = self.last_point.x.wrapping_add(x_diff);
             // we use the number k of bits corrector bits to switch contexts
             let k_bits = self.ic_dx.k();
             let y_diff = self.ic_dy.decompress(
@@ -553,7 +553,7 @@ pub mod v1 {
                 median_y,
                 if k_bits < 19 { k_bits } else { 19 },
             )?;
-            self.last_point.y += y_diff;
+            self.last_point.y = self.last_point.y.wrapping_add(y_diff);
             let k_bits = (k_bits + self.ic_dy.k()) / 2;
             self.last_point.z = self.ic_dz.decompress(
                 &mut decoder,
-- 
2.43.0


From dacc40e134651eb61157e7238d7730cd80a54bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 25/28] fix: GPS times far apart must not overflow (versions 1
 and 2)

---
 src/las/gps.rs | 67 +++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index df371b5..68be49c 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -85,7 +85,7 @@ impl Add<f64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: f64) -> Self::Output {
-        Self::from(self.value + rhs.to_bits() as i64)
+        Self::from(self.value.wrapping_add(rhs.to_bits() as i64))
     }
 }
 
@@ -93,19 +93,19 @@ impl Add<i64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: i64) -> Self::Output {
-        Self::from(self.value + rhs)
+        Self::from(self.value.wrapping_add(rhs))
     }
 }
 
 impl AddAssign<f64> for GpsTime {
     fn add_assign(&mut self, rhs: f64) {
-        self.value += rhs.to_bits() as i64;
+        self.value = self.value.wrapping_add(rhs.to_bits() as i64);
     }
 }
 
 impl AddAssign<i64> for GpsTime {
     fn add_assign(&mut self, rhs: i64) {
-        self.value += rhs;
+        self.value = self.value.wrapping_add(rhs);
     }
 }
 
@@ -265,7 +265,8 @@ pub mod v1 {
                 if current_gps_time_value == self.last_gps {
                     encoder.encode_symbol(&mut self.gps_time_0_diff_model, 0)?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -293,7 +294,8 @@ pub mod v1 {
                         LASZIP_GPS_TIME_MULTI_MAX - 1,
                     )?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -331,21 +333,21 @@ pub mod v1 {
                         } else if multi < 10 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 3,
                             )?;
                         } else if multi < 50 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 4,
                             )?;
                         } else {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 5,
                             )?;
@@ -395,7 +397,9 @@ pub mod v1 {
                 if multi == 1 {
                     // the difference can be represented with 32 bits
                     self.last_gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                    self.last_gps += i64::from(self.last_gps_time_diff);
+                    self.last_gps = self
+                        .last_gps
+                        .wrapping_add(i64::from(self.last_gps_time_diff));
                 } else if multi == 2 {
                     // the difference is huge,
                     // the gps was written as is
@@ -436,7 +440,7 @@ pub mod v1 {
 
                         gps_time_diff = self.ic_gps_time.decompress(
                             &mut decoder,
-                            self.last_gps_time_diff * multi as i32,
+                            self.last_gps_time_diff.wrapping_mul(multi as i32),
                             context,
                         )?;
 
@@ -448,7 +452,7 @@ pub mod v1 {
                             }
                         }
                     }
-                    self.last_gps += i64::from(gps_time_diff);
+                    self.last_gps = self.last_gps.wrapping_add(i64::from(gps_time_diff));
                 } else if multi < LASZIP_GPS_TIME_MULTI_MAX - 1 {
                     self.last_gps = decoder.read_int_64()? as i64;
                 }
@@ -578,12 +582,12 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self
-                                        .common
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common
                                         .last_gps_times
                                         .get_unchecked((self.common.last + i) & 3)
-                                        .value;
+                                        .value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -644,12 +648,12 @@ pub mod v2 {
                         )?;
                     } else {
                         // the last integer difference was *not* zero
-                        let curr_gps_time_diff_64 = this_val.value
-                            - self
-                                .common
+                        let curr_gps_time_diff_64 = this_val.value.wrapping_sub(
+                            self.common
                                 .last_gps_times
                                 .get_unchecked(self.common.last)
-                                .value;
+                                .value,
+                        );
                         let curr_gps_time_diff_32 = curr_gps_time_diff_64 as i32;
 
                         // if the current gps time difference can be represented with 32 bits
@@ -784,8 +788,9 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self.common.last_gps_times[(self.common.last + i) & 3].value;
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common.last_gps_times[(self.common.last + i) & 3].value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -889,10 +894,10 @@ pub mod v2 {
                             .last_gps_time_diffs
                             .get_unchecked_mut(self.common.last) =
                             self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             *self
                                 .common
                                 .last_gps_time_diffs
@@ -947,10 +952,10 @@ pub mod v2 {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
 
                     if multi == 1 {
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             self.ic_gps_time.decompress(
                                 &mut decoder,
                                 *self
@@ -1089,10 +1094,10 @@ pub mod v2 {
                                 }
                             }
                         }
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(gps_time_diff);
+                            .get_unchecked_mut(self.common.last) += i64::from(gps_time_diff);
                     } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
                         self.common.next = (self.common.next + 1) & 3;
                         self.common
-- 
2.43.0


From e42cce0a41275b4f87d985c56e257a70591ef9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 26/28] fix: GPS times far apart must not overflow (versions 3
 and 4)

---
 src/las/point6.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index 0105eda..f4f72f7 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -796,9 +796,10 @@ mod v3_v4 {
                     } else if multi == LASZIP_GPS_TIME_MULTI {
                         gps_time_diff = the_context.decompressors.gps_time.decompress(
                             &mut self.decoders.gps_time,
-                            LASZIP_GPS_TIME_MULTI
-                                * the_context.gps_sequences.last_gps_diffs
+                            LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                the_context.gps_sequences.last_gps_diffs
                                     [the_context.gps_sequences.last],
+                            ),
                             4,
                         )?;
                         the_context.gps_sequences.multi_extreme_counter
@@ -1443,10 +1444,9 @@ mod v3_v4 {
                 }
             } else {
                 // the last integer difference was *not* zero
-                let curr_gps_time_diff_64 = i64::from(gps_time)
-                    - i64::from(
-                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
-                    );
+                let curr_gps_time_diff_64 = i64::from(gps_time).wrapping_sub(i64::from(
+                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
+                ));
                 let curr_gps_time_diff = curr_gps_time_diff_64 as i32;
 
                 if curr_gps_time_diff_64 == i64::from(curr_gps_time_diff) {
@@ -1495,9 +1495,10 @@ mod v3_v4 {
                             )?;
                             the_context.compressors.gps_time.compress(
                                 &mut self.encoders.gps_time,
-                                LASZIP_GPS_TIME_MULTI
-                                    * the_context.gps_sequences.last_gps_diffs
+                                LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                    the_context.gps_sequences.last_gps_diffs
                                         [the_context.gps_sequences.last],
+                                ),
                                 curr_gps_time_diff,
                                 4,
                             )?;
-- 
2.43.0


From 8325a8cfbe8daac128254af719ed40cd5f0ad539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 27/28] fix: wave packet offsets far apart must not overflow

---
 src/las/wavepacket.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 120203c..2ebf137 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -166,8 +166,10 @@ pub mod v1 {
                     current_wavepacket.offset = self.last_wavepacket.offset;
                 }
                 1 => {
-                    current_wavepacket.offset =
-                        self.last_wavepacket.offset + u64::from(self.last_wavepacket.size);
+                    current_wavepacket.offset = self
+                        .last_wavepacket
+                        .offset
+                        .wrapping_add(u64::from(self.last_wavepacket.size));
                 }
                 2 => {
                     self.last_offset_diff =
@@ -283,7 +285,8 @@ pub mod v1 {
                 u32::from(current_item.descriptor_index),
             )?;
 
-            let offset_diff_64 = current_item.offset as i64 - self.last_wavepacket.offset as i64;
+            let offset_diff_64 =
+                (current_item.offset as i64).wrapping_sub(self.last_wavepacket.offset as i64);
             let offset_diff_32 = offset_diff_64 as i32;
 
             if offset_diff_64 == offset_diff_32 as i64 {
-- 
2.43.0


From 28b0209991975348290f4b78fbe4d363c89b7579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 28/28] fix: the extra bytes of every point format must be
 known, compressed or not

---
 src/las/file.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index 49e3aa0..de64605 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -57,14 +57,19 @@ impl QuickHeader {
     }
 
     pub fn num_extra_bytes(&self) -> u16 {
-        let point_size_wo_extra = match self.point_format_id {
+        let point_format_id = point_format_id_compressed_to_uncompressd(self.point_format_id);
+        let point_size_wo_extra = match point_format_id {
             0 => 20,
             1 => 28,
             2 => 26,
             3 => 34,
+            4 => 57,
+            5 => 63,
             6 => 30,
             7 => 36,
             8 => 38,
+            9 => 59,
+            10 => 67,
             _ => panic!("Unknown fmt id"),
         };
 
-- 
2.43.0

