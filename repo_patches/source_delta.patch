From b47c64c8b7f9071931e0a6031d6fd21ec54731f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 01/12] fix: write absolute field id in long form field headers

The long form was used with the delta instead of the field id, and field ids
that are not larger than the previous one were encoded in the short form.
---
 runtime/src/protocol.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 9eaaeb5..14ebee6 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -260,11 +260,12 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
 pub(crate) fn write_field_header<T: CompactThriftOutput>(output: &mut T, field_type: u8, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
     let field_delta = field_id.wrapping_sub(*last_field_id);
 
-    if field_delta > 15 {
-        output.write_byte(field_type)?;
-        output.write_i16(field_delta)?
-    } else {
+    if field_delta > 0 && field_delta <= 15 {
         output.write_byte(field_type | ((field_delta as u8) << 4))?;
+    } else {
+        // the long form contains the absolute field id
+        output.write_byte(field_type)?;
+        output.write_i16(field_id)?
     }
     *last_field_id = field_id;
     Ok(())
-- 
2.43.0


From d5bc661f25e467299ee53d6ce6b007ec2b2857be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 02/12] fix: do not panic on field id overflow in field headers

---
 runtime/src/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 14ebee6..8e00d2d 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -101,7 +101,7 @@ pub trait CompactThriftInput<'i> {
         let field_type = field_header & 0x0F;
         let field_delta = field_header >> 4;
         if field_delta != 0 {
-            *last_field_id += field_delta as i16;
+            *last_field_id = last_field_id.wrapping_add(field_delta as i16);
         } else {
             *last_field_id = read_full_field_id(self)?;
         }
-- 
2.43.0


From d318063a8f7295bf81c7dd32bdac00b6e61124a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 03/12] fix: do not panic on shift overflow in very long uleb
 sequences

---
 runtime/src/uleb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index d06211d..eb6aec6 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -10,7 +10,7 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
 
         // overlong sequences are not treated as an error for performance reasons
         value |= ((byte & 0x7F) as u64).wrapping_shl(shift);
-        shift += 7;
+        shift = shift.wrapping_add(7);
 
         if (byte & 0x80) == 0 {
             return Ok(value);
-- 
2.43.0


From 16999e15c2ee23660ca5393105f134fa1c28283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 04/12] fix: skipping truncated or overlong integers in slice
 input

Truncated integers caused a panic, integers of more than 16 bytes were skipped
by 17 bytes, potentially going past the end of the slice.
---
 runtime/src/protocol.rs | 14 +++++++++-----
 runtime/src/uleb.rs     | 14 +++++++++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 8e00d2d..1a5c743 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -362,12 +362,16 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
     #[cfg(target_feature = "sse2")]
     fn skip_integer(&mut self) -> Result<(), ThriftError> {
         if self.0.len() >= 16 {
-            self.0 = unsafe { skip_uleb_sse2(self.0) };
-            Ok(())
-        } else {
-            self.0 = skip_uleb_fallback(self.0);
-            Ok(())
+            let rest = unsafe { skip_uleb_sse2(self.0) };
+            let skipped = self.0.len() - rest.len();
+            if (self.0[skipped - 1] & 0x80) == 0 {
+                self.0 = rest;
+                return Ok(());
+            }
         }
+        // close to the end of input or overlong sequence
+        self.0 = skip_uleb_fallback(self.0)?;
+        Ok(())
     }
 
     fn skip_binary(&mut self) -> Result<(), ThriftError> {
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index eb6aec6..6e7cf83 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -1,3 +1,5 @@
+use std::io::ErrorKind;
+
 use crate::CompactThriftInput;
 use crate::CompactThriftOutput;
 use crate::ThriftError;
@@ -18,6 +20,8 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
     }
 }
 
+/// Skips to the end of the sequence, or by 16 bytes if those do not contain the end of the sequence.
+///
 /// Safety: `input` needs to contain at least 16 bytes
 #[cfg(target_feature = "sse2")]
 #[inline]
@@ -26,17 +30,21 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
     debug_assert!(input.len() >= 16);
     let chunk = _mm_loadu_si128(input.as_ptr().cast());
     let mask = !_mm_movemask_epi8(chunk);
-    let len = (mask << 1).trailing_zeros() as usize;
+    // limit the length to the loaded chunk, if none of the bytes terminates the sequence
+    let len = ((mask << 1) | (1 << 16)).trailing_zeros() as usize;
     input.get_unchecked(len..)
 }
 
 #[inline(never)]
-pub(crate) fn skip_uleb_fallback(input: &[u8]) -> &[u8] {
+pub(crate) fn skip_uleb_fallback(input: &[u8]) -> Result<&[u8], ThriftError> {
     let mut i = 0_usize;
     while i < input.len() && (input[i] & 0x80) != 0 {
         i += 1;
     }
-    &input[i+1..]
+    if i >= input.len() {
+        return Err(ThriftError::from(ErrorKind::UnexpectedEof));
+    }
+    Ok(&input[i+1..])
 }
 
 pub(crate) fn encode_uleb<O: CompactThriftOutput + ?Sized>(output: &mut O, mut value: u64) -> Result<(), ThriftError> {
-- 
2.43.0


From 7106277c436d54bd44877ffa6a419efb65f82b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 05/12] fix: reject bool fields with a non-boolean field type

---
 runtime/src/types.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 76c05ac..48097fc 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -33,6 +33,9 @@ impl <'i> CompactThriftProtocol<'i> for bool {
 
     #[inline]
     fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, _input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        if field_type != 1 && field_type != 2 {
+            return Err(ThriftError::InvalidType);
+        }
         *self = field_type == 1;
         Ok(())
     }
-- 
2.43.0


From b2c839662c73adbfb9bcb4a06218ca79ff87b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 06/12] fix: check the field type of union variants

Boolean variants store their value inside the field header and could not be
read before.
---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 7dce2bd..c5c918b 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -158,7 +158,7 @@ macro_rules! thrift_union {
                         *self = Self::$field_name(Default::default());
                         #[allow(unreachable_patterns)]
                         match self {
-                            Self::$field_name(inner) => inner.fill_thrift(input)?,
+                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,
                             _ => unsafe { std::hint::unreachable_unchecked() },
                         }
                     }),*
-- 
2.43.0


From 755c9a34ea3979d01aea284047c94a3a304c1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 07/12] fix: use name of the union in error for unknown
 variants

---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index c5c918b..f101ec5 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -163,7 +163,7 @@ macro_rules! thrift_union {
                         }
                     }),*
                     _ => {
-                        return Err($crate::ThriftError::MissingField(concat!(stringify!($struct_name), "\0").into()))
+                        return Err($crate::ThriftError::MissingField(concat!(stringify!($identifier), "\0").into()))
                     }
                 }
                 let stop = input.read_byte()?;
-- 
2.43.0


From d0dc985a2476471d04c015c003e9fc3622086240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 08/12] fix: delegate field handling of Box, Rc and Arc to the
 contained type

Boolean fields wrapped in a Box were written with an additional value byte.
---
 runtime/src/types.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 48097fc..52f93de 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -291,10 +291,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Box::as_mut(self).fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Box::as_mut(self).fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Box::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Box::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Rc<P> {
@@ -305,10 +315,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Rc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Rc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Arc<P> {
@@ -319,10 +339,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Arc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Arc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i> CompactThriftProtocol<'i> for Box<str> {
-- 
2.43.0


From 2eb60638e3bf7032e067b9e262803d74a0624a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 09/12] fix: limit recursion when skipping nested fields

Deeply nested data in unknown fields could overflow the stack.
---
 runtime/src/error.rs    |  1 +
 runtime/src/protocol.rs | 35 +++++++++++++++++++++++++----------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/runtime/src/error.rs b/runtime/src/error.rs
index 1d002eb..db62d08 100644
--- a/runtime/src/error.rs
+++ b/runtime/src/error.rs
@@ -19,6 +19,7 @@ pub enum ThriftError {
     DuplicateField,
     InvalidType,
     ReserveError,
+    NestingTooDeep,
     IO(ErrorKind)
 }
 
diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 1a5c743..6321468 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -12,6 +12,8 @@ use crate::uleb::*;
 
 pub const MAX_BINARY_LEN: usize = 16*1024*1024;
 pub const MAX_COLLECTION_LEN: usize = 10_000_000;
+/// Limits the recursion when skipping nested structs and collections.
+pub const MAX_SKIP_DEPTH: usize = 64;
 
 #[inline(never)] // full field ids are uncommon and inlining this bloats the code
 fn read_full_field_id<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<i16, ThriftError> {
@@ -145,7 +147,10 @@ pub fn read_map_len_and_types<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mu
     Ok((len as u32, key_type, val_type))
 }
 
-fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: usize) -> Result<(), ThriftError> {
+    if depth >= MAX_SKIP_DEPTH {
+        return Err(ThriftError::NestingTooDeep);
+    }
     let (len, element_type) = read_collection_len_and_type(input)?;
     match element_type {
         1..=3 => {
@@ -176,18 +181,18 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
         9 | 10 => {
             // list | set
             for _ in 0..len {
-                skip_collection(input)?;
+                skip_collection(input, depth + 1)?;
             }
         }
         11 => {
             // map
             for _ in 0..len {
-                skip_map(input)?;
+                skip_map(input, depth + 1)?;
             }
         }
         12 => {
             for _ in 0..len {
-                skip_field(input, 12, false)?;
+                skip_nested_field(input, 12, false, depth + 1)?;
             }
         }
         _ => {
@@ -197,16 +202,23 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
     Ok(())
 }
 
-fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: usize) -> Result<(), ThriftError> {
+    if depth >= MAX_SKIP_DEPTH {
+        return Err(ThriftError::NestingTooDeep);
+    }
     let (len, key_type, val_type) = read_map_len_and_types(input)?;
     for _ in 0..len {
-        skip_field(input, key_type, true)?;
-        skip_field(input, val_type, true)?;
+        skip_nested_field(input, key_type, true, depth + 1)?;
+        skip_nested_field(input, val_type, true, depth + 1)?;
     }
     Ok(())
 }
 
 pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool) -> Result<(), ThriftError> {
+    skip_nested_field(input, field_type, inside_collection, 0)
+}
+
+fn skip_nested_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool, depth: usize) -> Result<(), ThriftError> {
     match field_type {
         1..=2 => {
             // boolean stored inside the field header outside of collections
@@ -232,21 +244,24 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
         }
         9 | 10 => {
             // list | set
-            skip_collection(input)?;
+            skip_collection(input, depth)?;
         }
         11 => {
             // map
-            skip_map(input)?;
+            skip_map(input, depth)?;
         }
         12 => {
             // struct | union
+            if depth >= MAX_SKIP_DEPTH {
+                return Err(ThriftError::NestingTooDeep);
+            }
             let mut last_field_id = 0_i16;
             loop {
                 let field_type = input.read_field_header(&mut last_field_id)?;
                 if field_type == 0 {
                     break;
                 }
-                skip_field(input, field_type, false)?;
+                skip_nested_field(input, field_type, false, depth + 1)?;
             }
         }
         _ => {
-- 
2.43.0


From 7112b796753a9f6c676664954eb9f90d362b4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 10/12] fix: do not panic if the page index range is too large
 to be allocated

---
 parquet/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index c90ee50..e682818 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -89,7 +89,8 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     if let Some(range) = get_page_index_range(file_metadata)? {
         input.seek(SeekFrom::Start(range.start as u64))?;
 
-        let mut buf = Vec::with_capacity(range.len());
+        let mut buf = Vec::new();
+        buf.try_reserve_exact(range.len()).map_err(|_| ThriftError::ReserveError)?;
         // Safety: Readers should not look at uninitialized bytes, only write into the slice
         unsafe {
             buf.set_len(range.len());
-- 
2.43.0


From ab71dbfb3513feefa1a68bdb66c3d8602585fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 11/12] fix: do not panic on invalid page index locations

Locations outside of the chunk, or columns with only one of the two indexes, caused a panic.
---
 parquet/src/lib.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index e682818..8640411 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -104,21 +104,24 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     }
 }
 
+/// Returns the part of `chunk` that corresponds to the given location inside the file.
+fn get_index_bytes(chunk: &[u8], chunk_offset: usize, offset: i64, length: i32) -> Result<&[u8], ParquetError> {
+    if offset < 0 || length <= 0 || (offset as usize) < chunk_offset {
+        return Err(ParquetError::InvalidOffset);
+    }
+    let start = offset as usize - chunk_offset;
+    let length = length as usize;
+    if start > chunk.len() || length > chunk.len() - start {
+        return Err(ParquetError::InvalidOffset);
+    }
+    Ok(&chunk[start..start + length])
+}
+
 fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_chunks: &[ColumnChunk]) -> Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError> {
     column_chunks.iter().map(|cc| {
-        let offset_index_range = if let (Some(offset), Some(length)) = (cc.offset_index_offset, cc.offset_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
-        } else {
-            return Ok(None)
-        };
-        let column_index_range = if let (Some(offset), Some(length)) = (cc.column_index_offset, cc.column_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
+        // this needs to skip the same columns as `get_page_index_range`
+        let (offset_index_bytes, column_index_bytes) = if let (Some(oo), Some(ol), Some(co), Some(cl)) = (cc.offset_index_offset, cc.offset_index_length, cc.column_index_offset, cc.column_index_length) {
+            (get_index_bytes(chunk, chunk_offset, oo, ol)?, get_index_bytes(chunk, chunk_offset, co, cl)?)
         } else {
             return Ok(None)
         };
@@ -127,8 +130,8 @@ fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_ch
 
         match &mut res {
             Ok(Some((offset_index, column_index))) => {
-                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[offset_index_range]))?;
-                column_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[column_index_range]))?;
+                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(offset_index_bytes))?;
+                column_index.fill_thrift(&mut CompactThriftInputSlice::new(column_index_bytes))?;
             }
             _ => unsafe { unreachable_unchecked() }
         }
-- 
2.43.0


From 06c90ef8617b9386527985d1121f67bbe31c02dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 12/12] fix: repeated fields also increase the definition level

---
 parquet/src/bin/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parquet/src/bin/schema.rs b/parquet/src/bin/schema.rs
index cfe36c9..e24f84b 100644
--- a/parquet/src/bin/schema.rs
+++ b/parquet/src/bin/schema.rs
@@ -556,7 +556,7 @@ fn convert_schema_inner<'schema>(
         .repetition_type
         .unwrap_or(FieldRepetitionType::REQUIRED);
     // cannot overflow because nesting level has a lower limit than u8::MAX
-    let def_level = def_level + (repetition_type == FieldRepetitionType::OPTIONAL) as u8;
+    let def_level = def_level + (repetition_type != FieldRepetitionType::REQUIRED) as u8;
     let rep_level = rep_level + (repetition_type == FieldRepetitionType::REPEATED) as u8;
 
     let mut current = field_from_schema_element(
-- 
2.43.0

