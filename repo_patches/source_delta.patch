From b67e4b1ad6a39f3ff190261b30526430b6ab74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 1/8] fix: do not overflow when writing the trailer of a 255
 index levels file

`len() as u8 - 1` wraps the length (256) to 0 before subtracting one and
panics in overflow-checked builds.
---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index ba45e39..1c5b401 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -289,7 +289,7 @@ impl<W: io::Write> Writer<W> {
             index_block_offset,
             compression_type: self.compression_type,
             entries_count: self.entries_count,
-            index_levels: self.index_block_writers.len() as u8 - 1,
+            index_levels: (self.index_block_writers.len() - 1) as u8,
         };
 
         metadata.write_into(&mut self.writer)?;
-- 
2.43.0


From 19830c60dc72a722da73d9a5649bea0a36cd5cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 2/8] fix: keep the recorded offset of the index blocks in sync
 with the loaded block

Relative moves reload the child index block of an exhausted one but kept
the offset of the previous block; a later absolute move jumping to that
stale offset then reused the wrong block. The initial load recorded the
offset of the child block instead of the loaded block.
---
 src/reader/reader_cursor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader/reader_cursor.rs b/src/reader/reader_cursor.rs
index 94d6326..d09d8e6 100644
--- a/src/reader/reader_cursor.rs
+++ b/src/reader/reader_cursor.rs
@@ -350,7 +350,7 @@ impl IndexBlockCursor {
             FN: FnMut(&mut BlockCursor<Block>) -> Option<(&[u8], &[u8])>,
         {
             match blocks.split_last_mut() {
-                Some(((_offset, cursor), head)) => {
+                Some(((block_offset, cursor), head)) => {
                     match (mov)(cursor) {
                         Some((_key, _offset)) => Ok(cursor.current()),
                         None => {
@@ -365,6 +365,7 @@ impl IndexBlockCursor {
                                     reader.seek(SeekFrom::Start(offset))?;
                                     *cursor = Block::new(reader, compression_type)
                                         .map(Block::into_cursor)?;
+                                    *block_offset = offset;
 
                                     // We return the result of the call has is. If it returns None
                                     // it means we are not able to execute the `mov` function.
@@ -415,8 +416,8 @@ impl IndexBlockCursor {
             match (mov)(&mut cursor) {
                 Some((_key, offset_bytes)) => {
                     let offset = offset_bytes.try_into().map(u64::from_be_bytes).unwrap();
-                    jump_to_offset = offset;
                     inner.push((jump_to_offset, cursor));
+                    jump_to_offset = offset;
                 }
                 None => return Ok(None),
             }
-- 
2.43.0


From 48eb34acf56d355b5945b9caee24604991dc85f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 3/8] fix: convert invalid format version errors instead of
 panicking

A chunk creator returning this error, or a chunk that gets its trailer
corrupted, made the sorter panic instead of returning the error.
---
 src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4933c30..d751f30 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,7 +19,8 @@ impl<U> Error<U> {
         match self {
             Error::Io(io) => Error::Io(io),
             Error::InvalidCompressionType => Error::InvalidCompressionType,
-            _ => panic!("cannot convert a merge error"),
+            Error::InvalidFormatVersion => Error::InvalidFormatVersion,
+            Error::Merge(_) => panic!("cannot convert a merge error"),
         }
     }
 }
-- 
2.43.0


From 1afbb780ad09ea15bdf9556bfee1e684f3e08e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 4/8] fix: keep block cursors on the last entry when there is
 no next one

ReaderCursor::current must keep returning the last returned entry once
move_on_next returned None, it was returning None instead.
---
 src/block.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index b7ded34..8666fa7 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -164,6 +164,8 @@ impl<B: Borrow<Block>> BlockCursor<B> {
     pub fn move_on_next(&mut self) -> Option<(&[u8], &[u8])> {
         match self.current_offset.map(|off| self.block.borrow().entry_at(off)) {
             Some(Some((_, _, next))) => {
+                // We stay on the last entry when there is no next one.
+                self.block.borrow().entry_at(next)?;
                 self.current_offset = Some(next);
                 self.current()
             }
-- 
2.43.0


From 6ab959ff85dd543773d19c03e9fb06b96f8d535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 5/8] fix: do not wrap the size of the sorter buffer when
 rounding it up

With a dump threshold near usize::MAX and no reallocation the rounded size
was wrapping to zero in release builds, leading to a zero-sized allocation.
---
 src/sorter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sorter.rs b/src/sorter.rs
index 8a36dd6..ec9441d 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -386,7 +386,10 @@ impl EntryBoundAlignedBuffer {
     /// Allocates a new buffer of the given size, it is correctly aligned to store `EntryBound`s.
     fn new(size: usize) -> EntryBoundAlignedBuffer {
         let entry_bound_size = size_of::<EntryBound>();
-        let size = size.div_ceil(entry_bound_size) * entry_bound_size;
+        let size = size
+            .div_ceil(entry_bound_size)
+            .checked_mul(entry_bound_size)
+            .expect("the size of the buffer must not overflow");
         let layout = Layout::from_size_align(size, align_of::<EntryBound>()).unwrap();
         let ptr = unsafe { alloc(layout) };
         let Some(ptr) = NonNull::new(ptr) else {
-- 
2.43.0


From 45201c2f0f4cd62bec1ed5f69b5387d1cfb9dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 6/8] verif hook: small sorter budgets and length codec
 re-export under cfg(grenad_verif)

---
 src/lib.rs    |  7 +++++++
 src/sorter.rs | 20 ++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8897178..9f4f37d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -220,6 +220,13 @@ pub use self::sorter::{
 };
 pub use self::writer::{Writer, WriterBuilder};
 
+/// Verification only: re-exports of the private length codec.
+#[allow(unexpected_cfgs)]
+#[cfg(grenad_verif)]
+pub mod verif {
+    pub use crate::varint::{varint_decode32, varint_encode32};
+}
+
 pub type Result<T, U = Infallible> = std::result::Result<T, Error<U>>;
 
 /// Sometimes we need to use an unsafe trick to make the compiler happy.
diff --git a/src/sorter.rs b/src/sorter.rs
index ec9441d..be1539d 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -682,6 +682,26 @@ where
     }
 }
 
+/// Verification only: small budgets, to reach spills and reallocations with small inputs.
+#[allow(unexpected_cfgs)]
+#[cfg(grenad_verif)]
+impl<MF, CC> SorterBuilder<MF, CC> {
+    pub fn verif_dump_threshold(&mut self, memory: usize) -> &mut Self {
+        self.dump_threshold = memory;
+        self
+    }
+}
+
+/// Verification only: small initial buffers, must be called before any insertion.
+#[allow(unexpected_cfgs)]
+#[cfg(grenad_verif)]
+impl<MF, CC: ChunkCreator> Sorter<MF, CC> {
+    pub fn verif_initial_capacity(mut self, capacity: usize) -> Self {
+        self.entries = Entries::with_capacity(capacity);
+        self
+    }
+}
+
 impl<MF, CC: ChunkCreator> Debug for Sorter<MF, CC> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("Sorter")
-- 
2.43.0


From 3a30606b0aa00d1b3f24c0030e10ea8dca3c753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:24 +0000
Subject: [PATCH 7/8] fix: clamp the zlib compression level to the maximum
 supported one

---
 src/compression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compression.rs b/src/compression.rs
index 3575070..e9089fd 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -110,6 +110,8 @@ fn zlib_decompress<R: io::Read>(_data: R, _out: &mut Vec<u8>) -> io::Result<()>
 #[cfg(feature = "zlib")]
 fn zlib_compress(data: &[u8], level: u32) -> io::Result<Cow<[u8]>> {
     use std::io::Write;
+    // The highest level that is supported by all of the flate2 backends.
+    let level = level.min(flate2::Compression::best().level());
     let compression = flate2::Compression::new(level);
     let mut encoder = flate2::write::ZlibEncoder::new(Vec::new(), compression);
     encoder.write_all(data)?;
-- 
2.43.0


From 4cee40c05af5283b38634846e064bc8823e53d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:24 +0000
Subject: [PATCH 8/8] fix: do not let the lz4 decoder mishandle interruptions
 and errors of the source

---
 src/compression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index e9089fd..213aa7d 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -204,9 +204,13 @@ fn zstd_compress(_data: &[u8], _level: u32) -> io::Result<Cow<[u8]>> {
 // --------- lz4 ---------
 
 #[cfg(feature = "lz4")]
-fn lz4_decompress<R: io::Read>(data: R, out: &mut Vec<u8>) -> io::Result<()> {
+fn lz4_decompress<R: io::Read>(mut data: R, out: &mut Vec<u8>) -> io::Result<()> {
     use io::Read;
-    lz4_flex::frame::FrameDecoder::new(data).read_to_end(out).map(drop)
+    // The decoder loses track of the frame when a read is interrupted in the frame
+    // header and takes the errors of kind `UnexpectedEof` for the end of the frame.
+    let mut input = Vec::new();
+    data.read_to_end(&mut input)?;
+    lz4_flex::frame::FrameDecoder::new(&input[..]).read_to_end(out).map(drop)
 }
 
 #[cfg(not(feature = "lz4"))]
-- 
2.43.0

