From 1c88600981803f5d34b69019e2beea62b192cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 1/9] fix: WriteWriter must handle short and interrupted writes

std::io::Write::write() may accept only part of the buffer or return
Interrupted. WriteWriter reported UnableToWriteData after part of the tag was
already sent, breaking the all-or-nothing contract of Writer on pipes, sockets
and any other sink that splits writes.
---
 src/io/std_io/mod.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index f853b52..9b0cea3 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -142,20 +142,23 @@ impl<'a> WriteWriter<'a> {
 
 impl<'a> Writer for WriteWriter<'a> {
     fn write(&mut self, value: u8) -> Result<()> {
-        let tmp: [u8; 1] = [value];
-        match self.dest.write(&tmp) {
-            Ok(1) => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
-            Err(e) => Err(ErrorKind::IOError(e)),
-        }
+        self.write_all(&[value])
     }
 
     fn write_all(&mut self, buff: &[u8]) -> Result<()> {
-        match self.dest.write(&buff) {
-            Ok(n) if n == buff.len() => Ok(()),
-            Ok(_) => Err(ErrorKind::UnableToWriteData),
-            Err(e) => Err(ErrorKind::IOError(e)),
+        // std::io::Write::write() is allowed to accept only part of the
+        // buffer or to be interrupted, so it must be called until all bytes
+        // are accepted.
+        let mut remaining = buff;
+        while !remaining.is_empty() {
+            match self.dest.write(remaining) {
+                Ok(0) => return Err(ErrorKind::UnableToWriteData),
+                Ok(n) => remaining = &remaining[n..],
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
+                Err(e) => return Err(ErrorKind::IOError(e)),
+            }
         }
+        Ok(())
     }
 
     fn as_writer(&mut self) -> &mut dyn Writer {
-- 
2.43.0


From 3c76869840cad35bdbab2b72d25023feb80cce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 2/9] fix: ILTag::size() is exponential in the nesting depth

size() evaluated value_size() twice and the value_size() of the containers
calls size() on each child, so every nesting level doubled the work: a tag of
100 bytes with 40 nested sequences could not be serialized in practice.
---
 src/tags/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tags/mod.rs b/src/tags/mod.rs
index 58d116c..8c018b1 100644
--- a/src/tags/mod.rs
+++ b/src/tags/mod.rs
@@ -196,11 +196,12 @@ pub trait ILTag: Any + Send + Sync {
 
     /// Returns the total size of the tag in bytes.
     fn size(&self) -> u64 {
+        let value_size = self.value_size();
         let mut size: u64 = encoded_size(self.id()) as u64;
         if !self.is_implicity() {
-            size += encoded_size(self.value_size()) as u64;
+            size += encoded_size(value_size) as u64;
         }
-        size + self.value_size()
+        size + value_size
     }
 
     /// Serializes the payload of this tag.
-- 
2.43.0


From 2948327102ed5a533a1612b2d7de9ca4cd790639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 3/9] fix: LimitedReader::skip() consumes data when it fails

The default skip() works in 512 byte chunks, so a skip beyond the limit took
all complete chunks from the inner reader before failing although LimitedReader
promises to test the limit before touching the source.
---
 src/io/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index 2c19e58..1445ff1 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -293,4 +293,13 @@ impl<'a> Reader for LimitedReader<'a> {
         }
         ret
     }
+
+    fn skip(&mut self, count: usize) -> Result<()> {
+        self.can_read(count)?;
+        let ret = self.source.skip(count);
+        if ret.is_ok() {
+            self.available -= count;
+        }
+        ret
+    }
 }
-- 
2.43.0


From 37e9b2081b3a8b8fa5e596a8f0b7e53e030c769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 4/9] fix: failed skip on Read + Seek must not move the stream

A skip beyond the end left the stream at its end instead of where it was, and
a count close to u64::MAX overflowed: a panic with overflow checks and a
successful backward seek without them.
---
 src/io/std_io/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index 9b0cea3..e74cfbf 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -195,17 +195,17 @@ where
         if count == 0 {
             Ok(())
         } else {
-            let curr_pos = self.seek(std::io::SeekFrom::Current(0))?;
-            let end_pos = self.seek(std::io::SeekFrom::End(0))?;
+            let curr_pos = self.offset()?;
+            let end_pos = self.len()?;
             if curr_pos == end_pos {
                 Err(ErrorKind::EndOfData)
             } else {
-                let new_pos = curr_pos + count;
-                if new_pos <= end_pos {
-                    self.seek(std::io::SeekFrom::Start(new_pos))?;
-                    Ok(())
-                } else {
-                    Err(ErrorKind::UnableToReadData)
+                match curr_pos.checked_add(count) {
+                    Some(new_pos) if new_pos <= end_pos => {
+                        self.seek(std::io::SeekFrom::Start(new_pos))?;
+                        Ok(())
+                    }
+                    _ => Err(ErrorKind::UnableToReadData),
                 }
             }
         }
-- 
2.43.0


From 47b8b792f5f5e59f19d565715299cdc0ad6c3534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 5/9] fix: SizedSeek::available() underflows beyond the end of
 the stream

Seeking beyond the end is allowed by std::io::Seek. There is nothing available
at such positions.
---
 src/io/std_io/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/std_io/mod.rs b/src/io/std_io/mod.rs
index e74cfbf..44aff29 100644
--- a/src/io/std_io/mod.rs
+++ b/src/io/std_io/mod.rs
@@ -66,7 +66,8 @@ pub trait SizedSeek {
     fn offset(&mut self) -> Result<u64>;
     /// Returns the number of bytes available for reading.
     fn available(&mut self) -> Result<u64> {
-        Ok(self.len()? - self.offset()?)
+        // The offset may be beyond the end of the data
+        Ok(self.len()?.saturating_sub(self.offset()?))
     }
 }
 
-- 
2.43.0


From cdd8070b29ae1b84ce14090344ba231ca4f80d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 6/9] fix: RawTagScanner reports wrong offsets for non-minimal
 ILInts

The decoder accepts ids and sizes that are not encoded in the fewest bytes but
the scanner computed the header size from the minimal encoding, so the extents
of that tag and of all following tags did not match the stream.
---
 src/tags/raw/mod.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 2769d90..28e7107 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -41,7 +41,6 @@
 #[cfg(test)]
 mod tests;
 use crate::io::Reader;
-use crate::tags::serialization::*;
 use crate::tags::standard::constants::*;
 use crate::tags::{is_implicit_tag, ErrorKind, Result};
 
@@ -221,9 +220,9 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
 
     /// Returns the information about the next tag.
     pub fn next_tag(&mut self) -> Result<Option<RawTagOffset>> {
-        let id: u64 = self.reader.deserialize_ilint()?;
+        let (id, id_size) = self.read_ilint_with_size()?;
         let size_info = self.extract_tag_size(id)?;
-        let header_size: u64 = crate::ilint::encoded_size(id) as u64 + size_info.0;
+        let header_size: u64 = id_size + size_info.0;
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
@@ -272,15 +271,24 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
                 }
             }
         } else {
-            let value_size = self.reader.deserialize_ilint()?;
-            (
-                crate::ilint::encoded_size(value_size) as u64,
-                value_size,
-                value_size,
-            )
+            let (value_size, size_size) = self.read_ilint_with_size()?;
+            (size_size, value_size, value_size)
         })
     }
 
+    /// Reads an ILInt and returns its value and the number of bytes it really
+    /// takes, which may be larger than the size of its shortest encoding.
+    fn read_ilint_with_size(&mut self) -> Result<(u64, u64)> {
+        let mut tmp: [u8; 9] = [0; 9];
+        tmp[0] = self.reader.read()?;
+        let size = crate::ilint::decoded_size(tmp[0]);
+        self.reader.read_all(&mut tmp[1..size])?;
+        match crate::ilint::decode_from_bytes(&tmp[..size]) {
+            Ok((value, _)) => Ok((value, size as u64)),
+            Err(_) => Err(ErrorKind::IOError(crate::io::ErrorKind::CorruptedData)),
+        }
+    }
+
     /// Extracts the size of an implicit ILInt tag from the reader.
     ///
     /// Returns (u64, u64, u64) where:
-- 
2.43.0


From 447d27fa98966338ba056a52810a423c53345792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 7/9] fix: RawTagScanner overflows on huge value sizes

A corrupted size close to u64::MAX overflowed the offset before the skip could
fail.
---
 src/tags/raw/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tags/raw/mod.rs b/src/tags/raw/mod.rs
index 28e7107..cb3541f 100644
--- a/src/tags/raw/mod.rs
+++ b/src/tags/raw/mod.rs
@@ -226,8 +226,15 @@ impl<'a, T: Reader> RawTagScanner<'a, T> {
         let value_size: u64 = size_info.1;
         let bytes_to_skip: u64 = size_info.2;
         let offset = self.offset;
-        self.offset += header_size + value_size;
+        let next_offset = match header_size
+            .checked_add(value_size)
+            .and_then(|size| offset.checked_add(size))
+        {
+            Some(v) => v,
+            None => return Err(ErrorKind::CorruptedData),
+        };
         self.reader.skip_u64(bytes_to_skip)?;
+        self.offset = next_offset;
         Ok(Some(RawTagOffset {
             id,
             offset,
-- 
2.43.0


From 91e34687dad1c20ff087c25152f67901994670b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 8/9] fix: array tags must not reserve memory for entries that
 may not exist

The entry count is only checked against the declared value size (up to 512MB),
so a 12 byte input made ILILIntArrayTag reserve 4GB and ILTagArrayTag 8GB,
aborting the process where that is not available.
---
 src/tags/standard/explicit/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tags/standard/explicit/mod.rs b/src/tags/standard/explicit/mod.rs
index ce92b0a..840c7c0 100644
--- a/src/tags/standard/explicit/mod.rs
+++ b/src/tags/standard/explicit/mod.rs
@@ -41,8 +41,14 @@ use crate::tags::serialization::*;
 use crate::tags::util::limited_reader_ensure_empty;
 use crate::tags::{tag_size_to_usize, ILRawTag};
 use ::std::any::Any;
+use ::std::cmp::min;
 use ::std::collections::HashMap;
 
+/// Maximum number of entries reserved upfront by the deserialization of arrays.
+/// The number of entries comes from the data and cannot be trusted until the
+/// entries are actually read.
+const MAX_RESERVED_ENTRIES: usize = 1024;
+
 /// This macro defines the methods for tags that uses an ILRawTag as
 /// its inner implementation.
 ///
@@ -534,7 +540,7 @@ impl ILTag for ILILIntArrayTag {
             return Err(ErrorKind::CorruptedData);
         }
         self.value.clear();
-        self.value.reserve(count as usize);
+        self.value.reserve(min(count as usize, MAX_RESERVED_ENTRIES));
         for _i in 0..count {
             self.value.push(lreader.deserialize_ilint()?);
         }
@@ -686,7 +692,9 @@ impl ILTag for ILTagArrayTag {
             return Err(ErrorKind::CorruptedData);
         }
         self.inner.value.clear();
-        self.inner.value.reserve(count as usize);
+        self.inner
+            .value
+            .reserve(min(count as usize, MAX_RESERVED_ENTRIES));
         for _i in 0..count {
             self.inner.value.push(factory.deserialize(&mut lreader)?);
         }
-- 
2.43.0


From 33ac21b2e7e5fc8d3f5799d3d379a24faf1d7c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 9/9] fix: BorrowedVecWriter::bytes_written() underflows

set_offset() accepts positions before the initial offset.
---
 src/io/array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/array/mod.rs b/src/io/array/mod.rs
index dfb734f..9b21170 100644
--- a/src/io/array/mod.rs
+++ b/src/io/array/mod.rs
@@ -446,7 +446,7 @@ impl<'a> BorrowedVecWriter<'a> {
 
     /// Returns the number of bytes actually written.
     pub fn bytes_written(&self) -> usize {
-        self.offset - self.initial_offset
+        self.offset.saturating_sub(self.initial_offset)
     }
 }
 
-- 
2.43.0

