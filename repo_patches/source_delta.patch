From db3dfb763d408d6763a20ad12d7b73412b7a9653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 01/21] hook: export Stream and ResourceHandle under
 cfg(flatdata_verif)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 65eaa6d..ca10fc6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -45,6 +45,7 @@
 
 #![deny(missing_docs, missing_debug_implementations, warnings)]
 // #![allow(intra_doc_link_resolution_failure)]
+#![allow(unexpected_cfgs)]
 
 extern crate diff;
 extern crate memmap;
@@ -85,3 +86,8 @@ pub use crate::storage::{
 };
 pub use crate::structbuf::StructBuf;
 pub use crate::vector::*;
+
+// Verification hook: lets harnesses implement `ResourceStorage`.
+#[cfg(flatdata_verif)]
+#[allow(missing_docs)]
+pub use crate::storage::{ResourceHandle, Stream};
-- 
2.43.0


From 0ab8fed08ce05a3a49d77bcc515c46f440c49b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 02/21] fix: read_bytes! reads the ninth byte of a field at the
 wrong address

The pointer is already advanced by the byte offset of the field; adding the
byte offset again reads an unrelated byte, possibly outside of the buffer.
---
 src/bytereader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytereader.rs b/src/bytereader.rs
index b8238e5..cace152 100644
--- a/src/bytereader.rs
+++ b/src/bytereader.rs
@@ -39,7 +39,7 @@ macro_rules! read_bytes {
             result >>= bit_offset;
 
             if num_bytes * 8 - bit_offset < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << (num_bytes * 8 - bit_offset) % (num_bytes * 8);
             }
             result = masked!(result, $num_bits);
-- 
2.43.0


From 9d71e6f1e3c80bb2c48fba00d50ac687caff39d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 03/21] fix: write_bytes! writes the ninth byte of a field at
 the wrong address

The index of the extra byte did not include the byte offset of the field.
---
 src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 5c50dfb..7184fd7 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -63,7 +63,7 @@ macro_rules! write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes!($offset, $num_bits) * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes!($offset, $num_bits)] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes!($offset, $num_bits)] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             value_mask >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             unsafe {
-- 
2.43.0


From 111cb40270cbb95eee6d8812238b0c4271739785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 04/21] fix: write_bytes! lets unsigned values wider than the
 field corrupt neighbours

Only signed values were reduced to the width of the field.
---
 src/bytewriter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 7184fd7..0522431 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -29,9 +29,7 @@ macro_rules! write_bytes {
         let bit_offset = $offset % 8;
 
         let mut value_to_store = $value as u64;
-        if <$T as $crate::helper::Int>::IS_SIGNED {
-            value_to_store = masked!(value_to_store, $num_bits);
-        }
+        value_to_store = masked!(value_to_store, $num_bits);
         let mut value_mask = masked!(u64::max_value(), $num_bits);
         let mut value: u64 = 0;
 
-- 
2.43.0


From b675722f578f66320496520905d7605237f519e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 05/21] fix: check the index in Vector::at and at_mut

---
 src/vector.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 3300250..32bf155 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -141,15 +141,25 @@ where
 
     /// Return an accessor handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at(&self, index: usize) -> <T as Struct>::Item {
+        assert!(index < self.len());
         T::create(&self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
     /// Return a mutable handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at_mut(&mut self, index: usize) -> <T as Struct>::ItemMut {
+        assert!(index < self.len());
         T::create_mut(&mut self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
-- 
2.43.0


From 1f12e7381a315b6202e7b7a37253ef308d666a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 06/21] fix: bounds checks of ArrayView must not overflow

Multiplying or incrementing a huge index wrapped around in release builds,
so that at() and slice() returned records for indices outside of the view.
---
 src/arrayview.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 4caa21c..3be9f7b 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -89,8 +89,8 @@ where
     ///
     /// Panics if index is greater than or equal to `ArrayView::len()`.
     pub fn at(&self, index: usize) -> <T as Struct<'a>>::Item {
+        assert!(index < self.len());
         let index = self.data_index(index);
-        assert!(index + <T as Struct>::SIZE_IN_BYTES <= self.data.len());
         T::create(&self.data[index..])
     }
 
@@ -102,11 +102,11 @@ where
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let data_start = match range.start_bound() {
             Bound::Included(&idx) => self.data_index(idx),
-            Bound::Excluded(&idx) => self.data_index(idx + 1),
+            Bound::Excluded(&idx) => self.data_end(idx),
             Bound::Unbounded => 0,
         };
         let data_end = match range.end_bound() {
-            Bound::Included(&idx) => self.data_index(idx + 1),
+            Bound::Included(&idx) => self.data_end(idx),
             Bound::Excluded(&idx) => self.data_index(idx),
             Bound::Unbounded => self.data.len(),
         };
@@ -123,9 +123,18 @@ where
         self.data
     }
 
+    // Position in bytes of the beginning of the element at `index`, which may be
+    // one past the last element.
     fn data_index(&self, index: usize) -> usize {
+        assert!(index <= self.len());
         index * <T as Struct>::SIZE_IN_BYTES
     }
+
+    // Position in bytes of the end of the element at `index`.
+    fn data_end(&self, index: usize) -> usize {
+        assert!(index < self.len());
+        (index + 1) * <T as Struct>::SIZE_IN_BYTES
+    }
 }
 
 impl<'a, T> From<&'a Vector<T>> for ArrayView<'a, T>
-- 
2.43.0


From 9b145e6af4ca8a96f229de98eb7c420ca42211b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 07/21] fix: exact size hints of array view and multi array
 view iterators

Both are ExactSizeIterators, whose size_hint must be exact; adapters like zip
panicked when asked for their length.
---
 src/arrayview.rs      | 4 ++++
 src/multiarrayview.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 3be9f7b..9708037 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -235,6 +235,10 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.view.len(), Some(self.view.len()))
+    }
 }
 
 impl<'a, T> iter::ExactSizeIterator for ArrayViewIter<'a, T>
diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index ddedab0..5fa7fac 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -240,6 +240,10 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.view.len(), Some(self.view.len()))
+    }
 }
 
 impl<'a, Idx, Ts: 'a> iter::DoubleEndedIterator for MultiArrayViewIter<'a, Idx, Ts>
-- 
2.43.0


From ee1998823b91066ad39e7b9f48d6efef2d5936b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 08/21] fix: out of range slices of MultiArrayView must panic

Reversed ranges and ranges just past the end yielded views of negative length,
huge bounds wrapped around in release builds, and the length of a view over an
empty index underflowed.
---
 src/multiarrayview.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index 5fa7fac..577c518 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -1,6 +1,7 @@
 use crate::archive::{IndexStruct, VariadicRef, VariadicStruct};
 use crate::arrayview::ArrayView;
 
+use std::cmp;
 use std::fmt;
 use std::iter;
 use std::marker;
@@ -45,7 +46,7 @@ where
     /// the array. An item may be also empty.
     pub fn len(&self) -> usize {
         // last index element is a sentinel
-        self.index.len() - 1
+        self.index.len().saturating_sub(1)
     }
 
     /// Returns `true` if no item is stored in the array.
@@ -74,18 +75,20 @@ where
     ///
     /// Panics if the range is outside of bounds of array view.
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
-        let index_start = match range.start_bound() {
+        let start = match range.start_bound() {
             Bound::Included(&idx) => idx,
-            Bound::Excluded(&idx) => idx + 1,
+            Bound::Excluded(&idx) => idx.checked_add(1).expect("range out of bounds"),
             Bound::Unbounded => 0,
         };
-        // include one more element (sentinel)
-        let index_end = match range.end_bound() {
-            Bound::Included(&idx) => idx + 2,
-            Bound::Excluded(&idx) => idx + 1,
-            Bound::Unbounded => self.index.len(),
+        let end = match range.end_bound() {
+            Bound::Included(&idx) => idx.checked_add(1).expect("range out of bounds"),
+            Bound::Excluded(&idx) => idx,
+            Bound::Unbounded => self.len(),
         };
-        Self::new(self.index.slice(index_start..index_end), self.data)
+        assert!(start <= end && end <= self.len(), "range out of bounds");
+        // include one more element (sentinel), which only an empty index lacks
+        let index_end = cmp::min(end + 1, self.index.len());
+        Self::new(self.index.slice(start..index_end), self.data)
     }
 
     /// Returns an iterator through the indexed items of the array.
-- 
2.43.0


From 38d73c0350790faee6dc425eed0c730bb35af1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 09/21] fix: a corrupt size header must not overflow the size
 check

A stored size close to the maximum panicked in debug builds when the resource
was opened.
---
 src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index bda364f..b9ad6f9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -108,7 +108,7 @@ pub trait ResourceStorage {
         }
 
         let size = read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From f3ecfa0ddf7a9948409be87fd4d7e2cf3cbb9c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 10/21] fix: read empty files from FileResourceStorage

Empty files cannot be mapped, so a resource with an empty schema was written
but could never be opened.
---
 src/filestorage.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 971cc93..3661035 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -20,6 +20,11 @@ impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
         if !self.maps.borrow().contains_key(path) {
             let file = File::open(path)?;
+            let metadata = file.metadata()?;
+            if metadata.is_file() && metadata.len() == 0 {
+                // An empty file cannot be mapped
+                return Ok(&[]);
+            }
             let file_mmap = unsafe { Mmap::map(&file)? };
             self.maps.borrow_mut().insert(path.into(), file_mmap);
         }
-- 
2.43.0


From 7da3eb47b523a0738146d5296f98b0b112029ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 11/21] fix: a resource that was not finished must not open as
 an empty one

---
 src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index b9ad6f9..190da0e 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -283,10 +283,11 @@ impl<'a> ResourceHandle<'a> {
         stream: Rc<RefCell<Stream>>,
     ) -> io::Result<Self> {
         // Reserve space for size in the beginning of the stream, which will be updated
-        // later.
+        // later. The placeholder is not a valid size, such that an unfinished resource
+        // cannot be opened.
         {
             let mut mut_stream = stream.borrow_mut();
-            write_size(0u64, mut_stream.deref_mut())?;
+            write_size(u64::max_value(), mut_stream.deref_mut())?;
         }
         Ok(Self {
             stream: Some(stream),
-- 
2.43.0


From 278801ed1205a91d469ead4e194368a1ad3b707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 12/21] fix: a failing writer must report the error instead of
 panicking on drop

---
 src/multivector.rs | 38 +++++++++++++++++++++++++--------
 src/storage.rs     | 53 +++++++++++++++++++++++++++++-----------------
 src/vector.rs      |  5 +++++
 3 files changed, 68 insertions(+), 28 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index e0f576e..0579afb 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -174,9 +174,15 @@ where
     ///
     /// Only data is flushed.
     fn flush(&mut self) -> io::Result<()> {
-        self.data_handle
+        let res = self
+            .data_handle
             .borrow_mut()
-            .write(&self.data[..self.data.len() - memory::PADDING_SIZE])?;
+            .write(&self.data[..self.data.len() - memory::PADDING_SIZE]);
+        if res.is_err() {
+            // without the data the index cannot be completed either
+            self.index.abandon();
+        }
+        res?;
         self.size_flushed += self.data.len() - memory::PADDING_SIZE;
         self.data.clear();
         self.data.resize(memory::PADDING_SIZE, 0);
@@ -184,12 +190,20 @@ where
     }
 
     fn add_to_index(&mut self) -> io::Result<()> {
-        let idx_mut = self.index.grow()?;
-        <Idx as IndexStruct>::set_index(
-            idx_mut,
-            self.size_flushed + self.data.len() - memory::PADDING_SIZE,
-        );
-        Ok(())
+        match self.index.grow() {
+            Ok(idx_mut) => {
+                <Idx as IndexStruct>::set_index(
+                    idx_mut,
+                    self.size_flushed + self.data.len() - memory::PADDING_SIZE,
+                );
+                Ok(())
+            }
+            Err(e) => {
+                // without the index the data cannot be completed either
+                self.data_handle.abandon();
+                Err(e)
+            }
+        }
     }
 
     /// Flushes the remaining not yet flushed elements in this multivector and
@@ -201,7 +215,13 @@ where
         let into_storage_error = |e| ResourceStorageError::from_io_error(e, name.clone());
         self.add_to_index().map_err(into_storage_error)?; // sentinel for last item
         self.flush().map_err(into_storage_error)?;
-        let index_view = self.index.close()?;
+        let index_view = match self.index.close() {
+            Ok(view) => view,
+            Err(e) => {
+                self.data_handle.abandon();
+                return Err(e);
+            }
+        };
         let data = self.data_handle.close()?;
         Ok(MultiArrayView::new(index_view, data))
     }
diff --git a/src/storage.rs b/src/storage.rs
index 190da0e..1af7452 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -172,18 +172,25 @@ where
     // create index
     let index_name = format!("{}_index", resource_name);
     let index_schema = format!("index({})", schema);
-    let index = create_external_vector(storage, &index_name, &index_schema)?;
+    let mut index = create_external_vector(storage, &index_name, &index_schema)?;
 
-    // write schema
-    let schema_name = format!("{}.schema", resource_name);
-    let stream = storage.create_output_stream(&schema_name)?;
-    stream.borrow_mut().write_all(schema.as_bytes())?;
-
-    // create multi vector
-    let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
-    Ok(MultiVector::new(index, handle))
+    let create_data_handle = || {
+        // write schema
+        let schema_name = format!("{}.schema", resource_name);
+        let stream = storage.create_output_stream(&schema_name)?;
+        stream.borrow_mut().write_all(schema.as_bytes())?;
+
+        // create multi vector
+        let data_writer = storage.create_output_stream(resource_name)?;
+        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)
+    };
+    match create_data_handle() {
+        Ok(handle) => Ok(MultiVector::new(index, handle)),
+        Err(e) => {
+            index.abandon();
+            Err(e)
+        }
+    }
 }
 
 /// Creates a new archive in resource storage.
@@ -304,27 +311,36 @@ impl<'a> ResourceHandle<'a> {
     }
 
     /// Writes data to the underlying stream.
+    ///
+    /// If this fails, the resource cannot be completed any more and the handle
+    /// is not open afterwards.
     pub fn write(&mut self, data: &[u8]) -> io::Result<()> {
         let stream = self
             .stream
-            .as_ref()
+            .take()
             .ok_or_else(|| io::Error::new(io::ErrorKind::UnexpectedEof, "stream closed"))?;
 
-        let res = stream.borrow_mut().write_all(data);
-        if res.is_ok() {
-            self.size_in_bytes += data.len();
-        }
-        res
+        stream.borrow_mut().write_all(data)?;
+        self.size_in_bytes += data.len();
+        self.stream = Some(stream);
+        Ok(())
+    }
+
+    /// Gives up writing; the resource stays unfinished and cannot be opened.
+    pub(crate) fn abandon(&mut self) {
+        self.stream = None;
     }
 
     /// Close the underlying stream and write the header containing the size in
     /// bytes of written data.
+    ///
+    /// The handle is not open afterwards, even if this fails.
     pub fn close(&mut self) -> Result<&'a [u8], ResourceStorageError> {
         {
             let resource_name = self.name.clone();
             let into_storage_error =
                 |e| ResourceStorageError::from_io_error(e, resource_name.clone());
-            let stream = self.stream.as_ref().ok_or_else(|| {
+            let stream = self.stream.take().ok_or_else(|| {
                 into_storage_error(io::Error::new(
                     io::ErrorKind::UnexpectedEof,
                     "stream closed",
@@ -341,7 +357,6 @@ impl<'a> ResourceHandle<'a> {
             write_size(self.size_in_bytes as u64, mut_stream.deref_mut())
                 .map_err(into_storage_error)?;
         }
-        self.stream = None;
         // return underlying memory descriptor to the written data
         self.storage.read(&self.name, &self.schema)
     }
diff --git a/src/vector.rs b/src/vector.rs
index 32bf155..b231c38 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -339,6 +339,11 @@ where
         self.resource_handle.borrow().is_open()
     }
 
+    /// Gives up writing this vector; its resource stays unfinished.
+    pub(crate) fn abandon(&mut self) {
+        self.resource_handle.abandon();
+    }
+
     /// Flushes the remaining not yet flushed elements in this vector and
     /// finalizes the data inside the storage.
     ///
-- 
2.43.0


From 3981d06e02336860cc907a091c9e097fc313aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 13/21] fix: a subdirectory of a MemoryResourceStorage must
 share its resources

---
 src/memstorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index a48dc26..7fad8d8 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -33,7 +33,8 @@ impl fmt::Debug for MemoryStorage {
 /// Resource storage in memory.
 #[derive(Debug)]
 pub struct MemoryResourceStorage {
-    storage: MemoryStorage,
+    // Shared with the storages of subdirectories.
+    storage: Rc<MemoryStorage>,
     path: PathBuf,
 }
 
@@ -45,7 +46,7 @@ impl MemoryResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryStorage::default(),
+            storage: Rc::default(),
             path: path.into(),
         })
     }
@@ -55,7 +56,10 @@ impl Stream for Cursor<Vec<u8>> {}
 
 impl ResourceStorage for MemoryResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-- 
2.43.0


From a9cf7a3c1f7ecbb4e49c5e7e05eed3323fd7af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 14/21] fix: creating a resource of MemoryResourceStorage again
 must replace it

---
 src/memstorage.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index 7fad8d8..3188e52 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -100,13 +100,12 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        // Replaces the content of a resource that was created before
+        let stream: MemoryStorageStream = Rc::default();
+        self.storage
             .streams
             .borrow_mut()
-            .entry(resource_path)
-            .or_insert_with(|| Rc::new(RefCell::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path, stream.clone());
         Ok(stream)
     }
 }
-- 
2.43.0


From 3760eaaffa9e0886d76c2f4506be967235fe4688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 15/21] fix: FileResourceStorage must create the directories of
 slash-separated keys

---
 src/filestorage.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 3661035..22ef77b 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -84,10 +84,13 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-        if !self.path.exists() {
-            fs::create_dir_all(self.path.clone())?;
-        }
         let resource_path = self.path.join(resource_name);
+        // The key can be slash-separated, i.e. be in a directory below `path`
+        if let Some(dir) = resource_path.parent() {
+            if !dir.exists() {
+                fs::create_dir_all(dir)?;
+            }
+        }
         let file = File::create(resource_path)?;
         Ok(Rc::new(RefCell::new(file)))
     }
-- 
2.43.0


From 824d18ae14a4e07d1d03613e400be5e2db0e4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 16/21] fix: the default MemoryDescriptor must denote an empty
 chunk of memory

---
 src/storage.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 1af7452..391cb0e 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -9,7 +9,6 @@ use std::fmt;
 use std::io::{self, Seek, Write};
 use std::mem;
 use std::ops::DerefMut;
-use std::ptr;
 use std::rc::Rc;
 use std::slice;
 use std::str;
@@ -235,10 +234,8 @@ pub struct MemoryDescriptor {
 
 impl Default for MemoryDescriptor {
     fn default() -> MemoryDescriptor {
-        MemoryDescriptor {
-            ptr: ptr::null(),
-            size: 0,
-        }
+        // The bytes of a descriptor must not be a null pointer
+        MemoryDescriptor::new(&[])
     }
 }
 
-- 
2.43.0


From 31a5ae2bfad4a237468a673fa09eda7c307976ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 17/21] fix: a struct resource that is too small must not open

---
 src/archive.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index de87727..9dbcd59 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -602,7 +602,15 @@ macro_rules! define_archive {
                             &*storage,
                             stringify!($struct_resource),
                             $struct_schema
-                        ), $is_optional_struct);
+                        ).and_then(|mem_desc: $crate::MemoryDescriptor| {
+                            // a reference to the struct reads that many bytes
+                            let size = unsafe { mem_desc.as_bytes() }.len();
+                            if size < <$struct_type as $crate::Struct>::SIZE_IN_BYTES {
+                                Err($crate::ResourceStorageError::UnexpectedDataSize)
+                            } else {
+                                Ok(mem_desc)
+                            }
+                        }), $is_optional_struct);
                     )*
 
                     $($vector_resource = check_resource!(
-- 
2.43.0


From 5bf24444258bc779471d20a813ce80d426d8da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:34 +0000
Subject: [PATCH 18/21] fix: write_bytes! without an offset did not compile

---
 src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 0522431..593161e 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -76,7 +76,7 @@ macro_rules! write_bytes {
         write_bytes!($T; $value, $data, $offset, ::std::mem::size_of::<$T>() * 8)
     };
     ($T:tt; $value:expr, $data:expr) => {
-        write_bytes!($T, $value, $data, 0, ::std::mem::size_of::<$T>() * 8)
+        write_bytes!($T; $value, $data, 0, ::std::mem::size_of::<$T>() * 8)
     };
 }
 
-- 
2.43.0


From c0723cf6271fa8131662d3c28b6d2e7511e6c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:36 +0000
Subject: [PATCH 19/21] fix: a Vector of more records than can exist must
 panic, not wrap around

---
 src/vector.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index b231c38..894d0f0 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -113,8 +113,7 @@ where
     /// if capacity is already sufficient.
     #[inline]
     pub fn reserve(&mut self, additional: usize) {
-        let additional_bytes = Self::calc_size(self.len() + additional) - self.size_in_bytes();
-        self.data.reserve(additional_bytes)
+        self.data.reserve(Self::calc_size(additional))
     }
 
     /// Returns an `ArrayView` to this vector.
@@ -165,9 +164,13 @@ where
 
     /// Calculates size in bytes (with padding) needed to store `len` many
     /// elements.
+    ///
+    /// Panics if there cannot be that many elements.
     #[inline]
     fn calc_size(len: usize) -> usize {
-        len * <T as Struct>::SIZE_IN_BYTES + memory::PADDING_SIZE
+        len.checked_mul(<T as Struct>::SIZE_IN_BYTES)
+            .and_then(|size| size.checked_add(memory::PADDING_SIZE))
+            .expect("capacity overflow")
     }
 }
 
-- 
2.43.0


From cfe099beb103403b73dff4dc2c39c588c4db56ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:37 +0000
Subject: [PATCH 20/21] fix: resources below a directory whose name is not
 UTF-8 must be readable

---
 src/filestorage.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 22ef77b..38da9ce 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -6,18 +6,18 @@ use std::cell::RefCell;
 use std::collections::BTreeMap;
 use std::fs::{self, File};
 use std::io;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::slice;
 
 /// Internal storage of data as files.
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
-    maps: RefCell<BTreeMap<String, Mmap>>,
+    maps: RefCell<BTreeMap<PathBuf, Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
-    pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
+    pub fn read(&self, path: &Path) -> Result<&[u8], io::Error> {
         if !self.maps.borrow().contains_key(path) {
             let file = File::open(path)?;
             let metadata = file.metadata()?;
@@ -74,13 +74,7 @@ impl ResourceStorage for FileResourceStorage {
             ));
         }
 
-        match resource_path.to_str() {
-            Some(p) => self.storage.read(p),
-            None => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                String::from(resource_path.to_str().unwrap_or(resource_name)),
-            )),
-        }
+        self.storage.read(&resource_path)
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-- 
2.43.0


From fad4b350dbe51f0a0a3c40153b9ace51d80548ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:37 +0000
Subject: [PATCH 21/21] fix: a new resource must not be found with the schema
 of an earlier version, nor the other way round

---
 src/storage.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 391cb0e..7b22c7c 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -40,15 +40,17 @@ pub trait ResourceStorage {
     /// The schema will be stored as another resource under the name
     /// `{resource_name}.schema`.
     fn write(&self, resource_name: &str, schema: &str, data: &[u8]) -> io::Result<()> {
-        // write data
-        let stream = self.create_output_stream(resource_name)?;
-        let mut mut_stream = stream.borrow_mut();
-        write_to_stream(data, mut_stream.deref_mut())?;
+        // create the resource first: what was stored under this name before must
+        // not be found with the new schema, nor the new data with the old schema
+        let data_stream = self.create_output_stream(resource_name)?;
         // write schema
         let schema_name = format!("{}.schema", resource_name);
         let stream = self.create_output_stream(&schema_name)?;
         let mut mut_stream = stream.borrow_mut();
-        write_schema(schema, mut_stream.deref_mut())
+        write_schema(schema, mut_stream.deref_mut())?;
+        // write data
+        let mut mut_stream = data_stream.borrow_mut();
+        write_to_stream(data, mut_stream.deref_mut())
     }
 
     //
@@ -142,13 +144,16 @@ pub fn create_external_vector<'a, T>(
 where
     T: for<'b> Struct<'b>,
 {
+    // create the resource first: what was stored under this name before must not
+    // be found with the new schema
+    let data_writer = storage.create_output_stream(resource_name)?;
+
     // write schema
     let schema_name = format!("{}.schema", resource_name);
     let stream = storage.create_output_stream(&schema_name)?;
     stream.borrow_mut().write_all(schema.as_bytes())?;
 
     // create external vector
-    let data_writer = storage.create_output_stream(resource_name)?;
     let handle =
         ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
     Ok(ExternalVector::new(handle))
@@ -174,13 +179,16 @@ where
     let mut index = create_external_vector(storage, &index_name, &index_schema)?;
 
     let create_data_handle = || {
+        // create the resource first: what was stored under this name before must
+        // not be found with the new schema
+        let data_writer = storage.create_output_stream(resource_name)?;
+
         // write schema
         let schema_name = format!("{}.schema", resource_name);
         let stream = storage.create_output_stream(&schema_name)?;
         stream.borrow_mut().write_all(schema.as_bytes())?;
 
         // create multi vector
-        let data_writer = storage.create_output_stream(resource_name)?;
         ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)
     };
     match create_data_handle() {
-- 
2.43.0

