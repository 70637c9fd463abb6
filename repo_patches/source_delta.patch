From ca632532541c970c4c7fe100db1c24caacfde2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 1/8] verification hooks behind --cfg grenad_verif (codec
 re-export, small sorter buffers)

---
 src/lib.rs    |  5 +++++
 src/sorter.rs | 12 ++++++++++++
 src/verif.rs  | 23 +++++++++++++++++++++++
 3 files changed, 40 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 8897178..9ffe07e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -188,6 +188,8 @@
 //! # Ok(()) }
 //! ```
 
+#![allow(unexpected_cfgs)] // `grenad_verif` is only set by external verification harnesses
+
 #[cfg(test)]
 #[macro_use]
 extern crate quickcheck;
@@ -205,6 +207,9 @@ mod metadata;
 mod reader;
 mod sorter;
 mod varint;
+#[cfg(grenad_verif)]
+#[doc(hidden)]
+pub mod verif;
 mod writer;
 
 pub use self::compression::CompressionType;
diff --git a/src/sorter.rs b/src/sorter.rs
index 8a36dd6..df56f69 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -176,11 +176,23 @@ impl<MF, CC> SorterBuilder<MF, CC> {
     }
 }
 
+#[cfg(grenad_verif)]
+impl<MF, CC> SorterBuilder<MF, CC> {
+    /// Sets the dump threshold without clamping it to the minimum (verification only).
+    #[doc(hidden)]
+    pub fn verif_dump_threshold(&mut self, memory: usize) -> &mut Self {
+        self.dump_threshold = memory;
+        self
+    }
+}
+
 impl<MF, CC: ChunkCreator> SorterBuilder<MF, CC> {
     /// Creates the [`Sorter`] configured by this builder.
     pub fn build(self) -> Sorter<MF, CC> {
         let capacity =
             if self.allow_realloc { INITIAL_SORTER_VEC_SIZE } else { self.dump_threshold };
+        #[cfg(grenad_verif)]
+        let capacity = crate::verif::sorter_initial_capacity(self.allow_realloc, capacity);
 
         Sorter {
             chunks: Vec::new(),
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..e3c3adb
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,23 @@
+//! Hooks for external verification harnesses, only compiled with `--cfg grenad_verif`.
+
+use std::cell::Cell;
+
+pub use crate::varint::{varint_decode32, varint_encode32};
+
+thread_local! {
+    static SORTER_INITIAL_CAPACITY: Cell<Option<usize>> = const { Cell::new(None) };
+}
+
+/// Overrides, on this thread, the initial buffer size of the sorters
+/// that are allowed to reallocate. `None` restores the default.
+pub fn set_sorter_initial_capacity(capacity: Option<usize>) {
+    SORTER_INITIAL_CAPACITY.with(|c| c.set(capacity));
+}
+
+pub(crate) fn sorter_initial_capacity(allow_realloc: bool, default: usize) -> usize {
+    if allow_realloc {
+        SORTER_INITIAL_CAPACITY.with(Cell::get).unwrap_or(default)
+    } else {
+        default
+    }
+}
-- 
2.43.0


From 8c5b5e7ac464414dcb5069215f7d2eccff3ce21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 2/8] fix: do not overflow when finishing a file with 255 index
 levels

---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index ba45e39..1c5b401 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -289,7 +289,7 @@ impl<W: io::Write> Writer<W> {
             index_block_offset,
             compression_type: self.compression_type,
             entries_count: self.entries_count,
-            index_levels: self.index_block_writers.len() as u8 - 1,
+            index_levels: (self.index_block_writers.len() - 1) as u8,
         };
 
         metadata.write_into(&mut self.writer)?;
-- 
2.43.0


From f1b771335c395207ffa25edd95036695c53416f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 3/8] fix: clamp the zlib compression level to the levels
 flate2 accepts

---
 src/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index 3575070..f6c83b2 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -110,7 +110,8 @@ fn zlib_decompress<R: io::Read>(_data: R, _out: &mut Vec<u8>) -> io::Result<()>
 #[cfg(feature = "zlib")]
 fn zlib_compress(data: &[u8], level: u32) -> io::Result<Cow<[u8]>> {
     use std::io::Write;
-    let compression = flate2::Compression::new(level);
+    // The levels above 9 are not valid zlib levels, use the best compression for them.
+    let compression = flate2::Compression::new(level.min(9));
     let mut encoder = flate2::write::ZlibEncoder::new(Vec::new(), compression);
     encoder.write_all(data)?;
     encoder.finish().map(Cow::Owned)
-- 
2.43.0


From bddf00e0614f1c0245e91d4a918b6350c4b3b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 4/8] fix: keep the cursor on the last entry when move_on_next
 reaches the end

BlockCursor::move_on_next moved past the last entry, so that current returned
None while the last returned entry is the last one of the file.
---
 src/block.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b7ded34..b7cdf0c 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -164,8 +164,14 @@ impl<B: Borrow<Block>> BlockCursor<B> {
     pub fn move_on_next(&mut self) -> Option<(&[u8], &[u8])> {
         match self.current_offset.map(|off| self.block.borrow().entry_at(off)) {
             Some(Some((_, _, next))) => {
-                self.current_offset = Some(next);
-                self.current()
+                // We only move if there is an entry to move on, this way the cursor
+                // stays on the last entry when we reach the end of the block.
+                if self.block.borrow().entry_at(next).is_some() {
+                    self.current_offset = Some(next);
+                    self.current()
+                } else {
+                    None
+                }
             }
             Some(None) => None,
             None => self.move_on_first(),
-- 
2.43.0


From c11413df084e0d6ca8bb7033893f97e9ff0c39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 5/8] fix: record the offset of the index blocks loaded by
 relative moves

With two index levels or more, the blocks loaded when next and prev cross an
index block kept the offset of the block they replaced. A later absolute move
that had to go back to this offset reused the wrong block.
---
 src/reader/reader_cursor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader/reader_cursor.rs b/src/reader/reader_cursor.rs
index 94d6326..6282b09 100644
--- a/src/reader/reader_cursor.rs
+++ b/src/reader/reader_cursor.rs
@@ -350,7 +350,7 @@ impl IndexBlockCursor {
             FN: FnMut(&mut BlockCursor<Block>) -> Option<(&[u8], &[u8])>,
         {
             match blocks.split_last_mut() {
-                Some(((_offset, cursor), head)) => {
+                Some(((block_offset, cursor), head)) => {
                     match (mov)(cursor) {
                         Some((_key, _offset)) => Ok(cursor.current()),
                         None => {
@@ -365,6 +365,7 @@ impl IndexBlockCursor {
                                     reader.seek(SeekFrom::Start(offset))?;
                                     *cursor = Block::new(reader, compression_type)
                                         .map(Block::into_cursor)?;
+                                    *block_offset = offset;
 
                                     // We return the result of the call has is. If it returns None
                                     // it means we are not able to execute the `mov` function.
-- 
2.43.0


From e9ba8234734bd432badf39248833106d2a42e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:59 +0000
Subject: [PATCH 6/8] fix: convert InvalidFormatVersion errors instead of
 panicking

A chunk creator failing with Error::InvalidFormatVersion, or a chunk that is
not a grenad file, made the sorter panic.
---
 src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4933c30..d751f30 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,7 +19,8 @@ impl<U> Error<U> {
         match self {
             Error::Io(io) => Error::Io(io),
             Error::InvalidCompressionType => Error::InvalidCompressionType,
-            _ => panic!("cannot convert a merge error"),
+            Error::InvalidFormatVersion => Error::InvalidFormatVersion,
+            Error::Merge(_) => panic!("cannot convert a merge error"),
         }
     }
 }
-- 
2.43.0


From 7c7f94cbbd90ff1af701d6673763893e10190497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:51 +0000
Subject: [PATCH 7/8] fix: read the whole block before decoding it with lz4

The lz4 frame decoder fails when a read of the frame header is interrupted
and takes an UnexpectedEof error of the source for the end of the data.
---
 src/compression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index f6c83b2..ce4673e 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -203,9 +203,13 @@ fn zstd_compress(_data: &[u8], _level: u32) -> io::Result<Cow<[u8]>> {
 // --------- lz4 ---------
 
 #[cfg(feature = "lz4")]
-fn lz4_decompress<R: io::Read>(data: R, out: &mut Vec<u8>) -> io::Result<()> {
+fn lz4_decompress<R: io::Read>(mut data: R, out: &mut Vec<u8>) -> io::Result<()> {
     use io::Read;
-    lz4_flex::frame::FrameDecoder::new(data).read_to_end(out).map(drop)
+    // The frame decoder does not support interrupted reads and considers
+    // an unexpected end of file as the end of the data, so read the input first.
+    let mut input = Vec::new();
+    data.read_to_end(&mut input)?;
+    lz4_flex::frame::FrameDecoder::new(&input[..]).read_to_end(out).map(drop)
 }
 
 #[cfg(not(feature = "lz4"))]
-- 
2.43.0


From 8dd666459d4910db590f98fcc43373cba355f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:24 +0000
Subject: [PATCH 8/8] fix: do not overflow when rounding up a huge sorter
 buffer size

---
 src/sorter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sorter.rs b/src/sorter.rs
index df56f69..7f4ecbe 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -398,7 +398,13 @@ impl EntryBoundAlignedBuffer {
     /// Allocates a new buffer of the given size, it is correctly aligned to store `EntryBound`s.
     fn new(size: usize) -> EntryBoundAlignedBuffer {
         let entry_bound_size = size_of::<EntryBound>();
-        let size = size.div_ceil(entry_bound_size) * entry_bound_size;
+        // The size rounded up to a multiple of the size of an `EntryBound` can overflow.
+        let Some(size) = size.checked_next_multiple_of(entry_bound_size) else {
+            panic!(
+                "the allocator is unable to allocate that much memory ({} bytes requested)",
+                size
+            );
+        };
         let layout = Layout::from_size_align(size, align_of::<EntryBound>()).unwrap();
         let ptr = unsafe { alloc(layout) };
         let Some(ptr) = NonNull::new(ptr) else {
-- 
2.43.0

