From c7d94cd16916da18c7bf3e2379566ae5be6d6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 1/8] fix: finishing a writer with 255 index levels overflowed
 the level count

---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index ba45e39..1c5b401 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -289,7 +289,7 @@ impl<W: io::Write> Writer<W> {
             index_block_offset,
             compression_type: self.compression_type,
             entries_count: self.entries_count,
-            index_levels: self.index_block_writers.len() as u8 - 1,
+            index_levels: (self.index_block_writers.len() - 1) as u8,
         };
 
         metadata.write_into(&mut self.writer)?;
-- 
2.43.0


From 231d7da5f4d9c1e49e9e07c1c80d49775235564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 2/8] fix: keep the recorded offset of an index block in sync
 when a relative move reloads it

---
 src/reader/reader_cursor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/reader_cursor.rs b/src/reader/reader_cursor.rs
index 94d6326..6282b09 100644
--- a/src/reader/reader_cursor.rs
+++ b/src/reader/reader_cursor.rs
@@ -350,7 +350,7 @@ impl IndexBlockCursor {
             FN: FnMut(&mut BlockCursor<Block>) -> Option<(&[u8], &[u8])>,
         {
             match blocks.split_last_mut() {
-                Some(((_offset, cursor), head)) => {
+                Some(((block_offset, cursor), head)) => {
                     match (mov)(cursor) {
                         Some((_key, _offset)) => Ok(cursor.current()),
                         None => {
@@ -365,6 +365,7 @@ impl IndexBlockCursor {
                                     reader.seek(SeekFrom::Start(offset))?;
                                     *cursor = Block::new(reader, compression_type)
                                         .map(Block::into_cursor)?;
+                                    *block_offset = offset;
 
                                     // We return the result of the call has is. If it returns None
                                     // it means we are not able to execute the `mov` function.
-- 
2.43.0


From caf9b137fa3f253375b7cb78627c2f2699de7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 3/8] fix: do not panic when converting an invalid format
 version error

---
 src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4933c30..d751f30 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,7 +19,8 @@ impl<U> Error<U> {
         match self {
             Error::Io(io) => Error::Io(io),
             Error::InvalidCompressionType => Error::InvalidCompressionType,
-            _ => panic!("cannot convert a merge error"),
+            Error::InvalidFormatVersion => Error::InvalidFormatVersion,
+            Error::Merge(_) => panic!("cannot convert a merge error"),
         }
     }
 }
-- 
2.43.0


From 401535af0d6164c850c99d88afe8a4bdfab8c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 4/8] fix: report source errors that the lz4 decoder mistakes
 for the end of the frame

---
 src/compression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 3575070..82b92ea 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -202,9 +202,13 @@ fn zstd_compress(_data: &[u8], _level: u32) -> io::Result<Cow<[u8]>> {
 // --------- lz4 ---------
 
 #[cfg(feature = "lz4")]
-fn lz4_decompress<R: io::Read>(data: R, out: &mut Vec<u8>) -> io::Result<()> {
+fn lz4_decompress<R: io::Read>(mut data: R, out: &mut Vec<u8>) -> io::Result<()> {
     use io::Read;
-    lz4_flex::frame::FrameDecoder::new(data).read_to_end(out).map(drop)
+    // The frame decoder takes an `UnexpectedEof` error of its source for the end of the frame,
+    // we must read the source ourselves to be able to report it.
+    let mut input = Vec::new();
+    data.read_to_end(&mut input)?;
+    lz4_flex::frame::FrameDecoder::new(&input[..]).read_to_end(out).map(drop)
 }
 
 #[cfg(not(feature = "lz4"))]
-- 
2.43.0


From 12bea6fdb599a1b4ad1a6520905226b5fecc9750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 5/8] fix: cap the zlib compression level to the best one
 instead of panicking

---
 src/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index 82b92ea..8719e5c 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -110,7 +110,8 @@ fn zlib_decompress<R: io::Read>(_data: R, _out: &mut Vec<u8>) -> io::Result<()>
 #[cfg(feature = "zlib")]
 fn zlib_compress(data: &[u8], level: u32) -> io::Result<Cow<[u8]>> {
     use std::io::Write;
-    let compression = flate2::Compression::new(level);
+    // Higher levels than the best one make the compression panic.
+    let compression = flate2::Compression::new(level.min(flate2::Compression::best().level()));
     let mut encoder = flate2::write::ZlibEncoder::new(Vec::new(), compression);
     encoder.write_all(data)?;
     encoder.finish().map(Cow::Owned)
-- 
2.43.0


From a8b3b9021fd822820364fe3616665a4ee8198e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 6/8] verif: small sorter thresholds and a re-export of the
 length codec, behind --cfg grenad_verif

---
 src/lib.rs    | 10 ++++++++++
 src/sorter.rs |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8897178..11c8c4b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -188,6 +188,9 @@
 //! # Ok(()) }
 //! ```
 
+// `--cfg grenad_verif` enables the verification hooks.
+#![allow(unexpected_cfgs)]
+
 #[cfg(test)]
 #[macro_use]
 extern crate quickcheck;
@@ -220,6 +223,13 @@ pub use self::sorter::{
 };
 pub use self::writer::{Writer, WriterBuilder};
 
+/// Private items needed by the verification machinery.
+#[cfg(grenad_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::varint::{varint_decode32, varint_encode32};
+}
+
 pub type Result<T, U = Infallible> = std::result::Result<T, Error<U>>;
 
 /// Sometimes we need to use an unsafe trick to make the compiler happy.
diff --git a/src/sorter.rs b/src/sorter.rs
index 8a36dd6..c1f107e 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -14,9 +14,15 @@ use bytemuck::{cast_slice, cast_slice_mut, Pod, Zeroable};
 
 use crate::count_write::CountWrite;
 
+#[cfg(not(grenad_verif))]
 const INITIAL_SORTER_VEC_SIZE: usize = 131_072; // 128KB
+#[cfg(grenad_verif)]
+const INITIAL_SORTER_VEC_SIZE: usize = 128;
 const DEFAULT_SORTER_MEMORY: usize = 1_073_741_824; // 1GB
+#[cfg(not(grenad_verif))]
 const MIN_SORTER_MEMORY: usize = 10_485_760; // 10MB
+#[cfg(grenad_verif)]
+const MIN_SORTER_MEMORY: usize = 1024;
 
 const DEFAULT_NB_CHUNKS: usize = 25;
 const MIN_NB_CHUNKS: usize = 1;
-- 
2.43.0


From f81a4905266fa8d02f7175379c07c4fbb1539e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:00 +0000
Subject: [PATCH 7/8] verif: let the length codec re-export be left out

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 11c8c4b..9505da8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -224,7 +224,7 @@ pub use self::sorter::{
 pub use self::writer::{Writer, WriterBuilder};
 
 /// Private items needed by the verification machinery.
-#[cfg(grenad_verif)]
+#[cfg(all(grenad_verif, not(grenad_verif_novarint)))]
 #[doc(hidden)]
 pub mod verif {
     pub use crate::varint::{varint_decode32, varint_encode32};
-- 
2.43.0


From 69a5ae5aab61c024efbfae5d7607257a52ffcfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:02 +0000
Subject: [PATCH 8/8] fix: a sorter budget near usize::MAX without reallocation
 overflowed the buffer size

---
 src/sorter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorter.rs b/src/sorter.rs
index c1f107e..160c75b 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -392,7 +392,9 @@ impl EntryBoundAlignedBuffer {
     /// Allocates a new buffer of the given size, it is correctly aligned to store `EntryBound`s.
     fn new(size: usize) -> EntryBoundAlignedBuffer {
         let entry_bound_size = size_of::<EntryBound>();
-        let size = size.div_ceil(entry_bound_size) * entry_bound_size;
+        let size = size
+            .checked_next_multiple_of(entry_bound_size)
+            .expect("the requested buffer size exceeds the address space");
         let layout = Layout::from_size_align(size, align_of::<EntryBound>()).unwrap();
         let ptr = unsafe { alloc(layout) };
         let Some(ptr) = NonNull::new(ptr) else {
-- 
2.43.0

