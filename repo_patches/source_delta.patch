From f718c6cfcd390e14d581091d9e8647b58ce4baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 01/11] fix: do not panic when reporting the offset of the hive
 signature

The signature is the first field of the base block, so its offset is 0.
---
 src/hive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index a6db2db..9aeca0c 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -176,7 +176,7 @@ where
         let field_address = field as *const T as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
-        assert!(field_address > base_address);
+        assert!(field_address >= base_address);
         field_address - base_address
     }
 
-- 
2.43.0


From fac5a6de8c3aecb0cf6aba6821d3b8370174a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 02/11] fix: report invalid references instead of panicking

A hive may hold a NIL (0xFFFFFFFF) offset anywhere. Treat it like any other
offset outside the hive data, and do not overflow on 32-bit platforms.
---
 src/hive.rs            | 5 +----
 src/key_values_list.rs | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 9aeca0c..458b6af 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -113,9 +113,6 @@ where
     }
 
     pub(crate) fn cell_range_from_data_offset(&self, data_offset: u32) -> Result<Range<usize>> {
-        // Only valid data offsets are accepted here.
-        assert!(data_offset != u32::MAX);
-
         // Accept only u32 data offsets, but convert them into usize right away for
         // slice range operations and fearless calculations.
         let data_offset = data_offset as usize;
@@ -182,7 +179,7 @@ where
 
     /// Calculate a data offset's offset from the very beginning of the hive bytes.
     pub(crate) fn offset_of_data_offset(&self, data_offset: usize) -> usize {
-        data_offset + mem::size_of::<HiveBaseBlock>()
+        data_offset.saturating_add(mem::size_of::<HiveBaseBlock>())
     }
 
     /// Returns the major version of this hive.
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index 0db5d85..7461c89 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -58,7 +58,7 @@ impl KeyValuesListItemRanges {
         count_field_offset: usize,
         cell_range: Range<usize>,
     ) -> Result<Self> {
-        let byte_count = count as usize * mem::size_of::<KeyValuesListItem>();
+        let byte_count = (count as usize).saturating_mul(mem::size_of::<KeyValuesListItem>());
 
         let items_range = byte_subrange(&cell_range, byte_count).ok_or_else(|| {
             NtHiveError::InvalidSizeField {
-- 
2.43.0


From ac414a27213fe413471dfb3f658aae8486c44040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 03/11] fix: reject cells with a size of zero

Subtracting the size of the cell header from it underflowed.
---
 src/hive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 458b6af..d1ff4a3 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -131,8 +131,8 @@ where
         let header = Ref::<&[u8], CellHeader>::from_bytes(&self.data[header_range]).unwrap();
         let cell_size = header.size.get();
 
-        // A cell with size > 0 is unallocated and shouldn't be processed any further by us.
-        if cell_size > 0 {
+        // A cell with size >= 0 is unallocated and shouldn't be processed any further by us.
+        if cell_size >= 0 {
             return Err(NtHiveError::UnallocatedCell {
                 offset: self.offset_of_data_offset(data_offset),
                 size: cell_size,
-- 
2.43.0


From e9b768903756c4a3944a46b97cc9cd9277c6b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 04/11] fix: return an error when a value name cannot be read

KeyNode::value returned the value with the unreadable name instead.
---
 src/key_node.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/key_node.rs b/src/key_node.rs
index 4d604e5..5bcc9f9 100644
--- a/src/key_node.rs
+++ b/src/key_node.rs
@@ -357,21 +357,19 @@ impl KeyNodeItemRange {
     where
         B: SplitByteSlice,
     {
-        let mut values = iter_try!(self.values(hive)?);
+        let values = iter_try!(self.values(hive)?);
 
         // Key Values are not sorted, so we can only iterate until we find a match.
-        values.find(|key_value| {
-            let key_value = match key_value {
-                Ok(key_value) => key_value,
-                Err(_) => return true,
-            };
-            let key_value_name = match key_value.name() {
-                Ok(name) => name,
-                Err(_) => return true,
-            };
-
-            key_value_name == name
-        })
+        for key_value in values {
+            let key_value = iter_try!(key_value);
+            let key_value_name = iter_try!(key_value.name());
+
+            if key_value_name == name {
+                return Some(Ok(key_value));
+            }
+        }
+
+        None
     }
 
     fn values<'h, B>(&self, hive: &'h Hive<B>) -> Option<Result<KeyValues<'h, B>>>
-- 
2.43.0


From c9091cac53a03415eeac85560964032f87e8c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 05/11] fix: report the file offset of DWORD and QWORD data of
 the wrong size

The offset was calculated from the address of the slice reference on the
stack, which was meaningless or panicked.
---
 src/hive.rs      | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index d1ff4a3..c6f722c 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -169,8 +169,8 @@ where
     /// Note that this function primarily exists to provide absolute hive file offsets when reporting errors.
     /// It cannot be used to index into the hive bytes, because they are initially split into `base_block`
     /// and `data`.
-    pub(crate) fn offset_of_field<T>(&self, field: &T) -> usize {
-        let field_address = field as *const T as usize;
+    pub(crate) fn offset_of_field<T: ?Sized>(&self, field: &T) -> usize {
+        let field_address = field as *const T as *const u8 as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
         assert!(field_address >= base_address);
diff --git a/src/key_value.rs b/src/key_value.rs
index 1cde3b9..d54fb10 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -267,7 +267,7 @@ where
             // DWORD data must be exactly 4 bytes long.
             if data.len() != mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u32>(),
                     actual: data.len(),
                 });
@@ -329,7 +329,7 @@ where
             // QWORD data must be exactly 8 bytes long.
             if data.len() != mem::size_of::<u64>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u64>(),
                     actual: data.len(),
                 });
-- 
2.43.0


From 5433d158c3f075347db6e846ee33d61ae7178d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 06/11] fix: exhaust iterators when skipping more items than
 representable

nth with a huge distance returned None, but left the iterator where it was.
---
 src/big_data.rs        | 6 +++---
 src/index_root.rs      | 4 ++--
 src/key_values_list.rs | 8 ++++----
 src/leaf.rs            | 8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index a015deb..850f094 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -169,8 +169,8 @@ impl Iterator for BigDataListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<BigDataListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<BigDataListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -267,7 +267,7 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(BIG_DATA_SEGMENT_SIZE)?;
+        let bytes_to_skip = n.saturating_mul(BIG_DATA_SEGMENT_SIZE);
         self.bytes_left = self.bytes_left.saturating_sub(bytes_to_skip);
         if self.bytes_left == 0 {
             return None;
diff --git a/src/index_root.rs b/src/index_root.rs
index c93682c..9ca2a12 100644
--- a/src/index_root.rs
+++ b/src/index_root.rs
@@ -97,8 +97,8 @@ impl Iterator for IndexRootItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<IndexRootItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<IndexRootItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index 7461c89..f416314 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -98,8 +98,8 @@ impl Iterator for KeyValuesListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -172,12 +172,12 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
         self.key_values_list_item_ranges.items_range.start = self
             .key_values_list_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/leaf.rs b/src/leaf.rs
index b347910..88f41cb 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -205,8 +205,8 @@ impl Iterator for LeafItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_type.item_size())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(self.leaf_type.item_size());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -287,12 +287,12 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_item_ranges.leaf_type.item_size())?;
+        let bytes_to_skip = n.saturating_mul(self.leaf_item_ranges.leaf_type.item_size());
         self.leaf_item_ranges.items_range.start = self
             .leaf_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
-- 
2.43.0


From 2b844eca6abc511b78931ed9c012df34472608d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 07/11] fix: report the number of big data slices that are
 really returned

Surplus segments were counted, which also made last() return None.
---
 src/big_data.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index 850f094..bf19326 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -253,7 +253,8 @@ where
     }
 
     fn count(self) -> usize {
-        self.big_data_list_item_ranges.count()
+        let (size, _) = self.size_hint();
+        size
     }
 
     fn last(mut self) -> Option<Self::Item> {
@@ -281,7 +282,9 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.big_data_list_item_ranges.size_hint()
+        // There may be more segments than needed for the remaining bytes.
+        let size = self.bytes_left.div_ceil(BIG_DATA_SEGMENT_SIZE);
+        (size, Some(size))
     }
 }
 
-- 
2.43.0


From ec3842c50dfdfbe329e71b350736d60ef77a068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 08/11] fix: decode strings across big data segments as a whole

A surrogate pair split over two segments was decoded as two unpaired surrogates.
---
 src/key_value.rs | 79 +++++++++++++++++++-----------------------------
 1 file changed, 31 insertions(+), 48 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index d54fb10..9a5dd8c 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -23,7 +23,6 @@ use crate::string::NtHiveNameString;
 use {
     alloc::{string::String, vec::Vec},
     core::{
-        char::{self, DecodeUtf16, DecodeUtf16Error},
         iter::{self, FusedIterator, Map},
         slice::ChunksExact,
     },
@@ -206,37 +205,30 @@ where
     where
         I: Iterator<Item = Result<&'h [u8]>>,
     {
-        let mut string = String::new();
+        let mut code_units = Vec::new();
 
         // A very long REG_SZ / REG_EXPAND_SZ value may be split over several Big Data segments.
-        // Transparently concatenate them in the output string.
-        for slice_data in iter {
+        // Transparently concatenate them before decoding, as a segment may end in the middle of a surrogate pair.
+        'outer_loop: for slice_data in iter {
             let slice_data = slice_data?;
 
             let u16_iter = slice_data
                 .chunks_exact(2)
                 .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
 
-            // You hardly find emojis or other characters outside the UTF-16 Basic Multilingual Plane in registry data.
-            // Hence, the count of UTF-16 code points is a good estimate for the final string length.
-            string.reserve(u16_iter.len());
-
-            // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
-            let char_iter =
-                char::decode_utf16(u16_iter).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
-
-            for c in char_iter {
+            for code_unit in u16_iter {
                 // Some applications erroneously store NUL-terminated strings in the registry.
                 // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
-                if c == '\0' {
-                    return Ok(string);
+                if code_unit == 0 {
+                    break 'outer_loop;
                 } else {
-                    string.push(c);
+                    code_units.push(code_unit);
                 }
             }
         }
 
-        Ok(string)
+        // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
+        Ok(String::from_utf16_lossy(&code_units))
     }
 
     /// Checks if this is a `REG_SZ` or `REG_EXPAND_SZ` Key Value
@@ -428,10 +420,7 @@ where
 impl<B> Eq for KeyValue<'_, B> where B: SplitByteSlice {}
 
 #[cfg(feature = "alloc")]
-type RegMultiSZCharIter<'h> = Map<
-    DecodeUtf16<Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>>,
-    fn(Result<char, DecodeUtf16Error>) -> char,
->;
+type RegMultiSZCodeUnitIter<'h> = Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>;
 
 #[cfg(feature = "alloc")]
 #[derive(Clone)]
@@ -439,7 +428,7 @@ pub struct RegMultiSZStrings<'h, B>
 where
     B: SplitByteSlice + 'h,
 {
-    char_iter: Option<RegMultiSZCharIter<'h>>,
+    code_unit_iter: Option<RegMultiSZCodeUnitIter<'h>>,
     big_iter: Option<BigDataSlices<'h, B>>,
 }
 
@@ -450,34 +439,27 @@ where
 {
     fn small(data: &'h [u8]) -> Self {
         Self {
-            char_iter: Some(Self::make_char_iter(data)),
+            code_unit_iter: Some(Self::make_code_unit_iter(data)),
             big_iter: None,
         }
     }
 
     fn big(iter: BigDataSlices<'h, B>) -> Self {
         Self {
-            char_iter: None,
+            code_unit_iter: None,
             big_iter: Some(iter),
         }
     }
 
-    fn make_char_iter(slice_data: &'h [u8]) -> RegMultiSZCharIter<'h> {
-        let u16_iter = slice_data
+    fn make_code_unit_iter(slice_data: &'h [u8]) -> RegMultiSZCodeUnitIter<'h> {
+        slice_data
             .chunks_exact(2)
-            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16);
-        char::decode_utf16(u16_iter).map(
-            Self::unwrap_or_replacement_character as fn(Result<char, DecodeUtf16Error>) -> char,
-        )
+            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16)
     }
 
     fn u16_from_le_bytes(two_bytes: &[u8]) -> u16 {
         u16::from_le_bytes(two_bytes.try_into().unwrap())
     }
-
-    fn unwrap_or_replacement_character(input: Result<char, DecodeUtf16Error>) -> char {
-        input.unwrap_or(char::REPLACEMENT_CHARACTER)
-    }
 }
 
 #[cfg(feature = "alloc")]
@@ -488,11 +470,11 @@ where
     type Item = Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let mut string = String::new();
+        let mut code_units = Vec::new();
 
         'outer_loop: loop {
-            let char_iter = match self.char_iter.as_mut() {
-                Some(char_iter) => char_iter,
+            let code_unit_iter = match self.code_unit_iter.as_mut() {
+                Some(code_unit_iter) => code_unit_iter,
                 None => {
                     let big_iter = match self.big_iter.as_mut() {
                         Some(big_iter) => big_iter,
@@ -503,34 +485,35 @@ where
                         Some(Err(e)) => return Some(Err(e)),
                         None => break 'outer_loop,
                     };
-                    let char_iter = Self::make_char_iter(slice_data);
-                    self.char_iter = Some(char_iter);
+                    let code_unit_iter = Self::make_code_unit_iter(slice_data);
+                    self.code_unit_iter = Some(code_unit_iter);
                     continue 'outer_loop;
                 }
             };
 
-            for c in char_iter {
+            for code_unit in code_unit_iter {
                 // REG_MULTI_SZ data consists of multiple strings each terminated by a NUL character.
                 // The final string has a double-NUL termination.
                 //
                 // However, we will happily accept data without terminating NUL characters as well.
-                if c == '\0' {
+                if code_unit == 0 {
                     break 'outer_loop;
                 } else {
-                    string.push(c);
+                    code_units.push(code_unit);
                 }
             }
 
-            // We have fully iterated all characters of this slice.
-            // Get a new `char_iter` in the next iteration of the outer loop, and concatenate characters
-            // to our `string` until we find a NUL or no more data.
-            self.char_iter = None;
+            // We have fully iterated all code units of this slice.
+            // Get a new `code_unit_iter` in the next iteration of the outer loop, and append its code units
+            // to ours until we find a NUL or no more data.
+            self.code_unit_iter = None;
         }
 
-        if string.is_empty() {
+        if code_units.is_empty() {
             None
         } else {
-            Some(Ok(string))
+            // Decode all code units at once, as a segment may end in the middle of a surrogate pair.
+            Some(Ok(String::from_utf16_lossy(&code_units)))
         }
     }
 }
-- 
2.43.0


From b60ac9c3f16933e4fda4ec880588cc8f41e831c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 09/11] fix: keep RegMultiSZStrings at its end

Strings after the terminating empty string were returned when iterating on.
---
 src/key_value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key_value.rs b/src/key_value.rs
index 9a5dd8c..f0db0c9 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -510,6 +510,9 @@ where
         }
 
         if code_units.is_empty() {
+            // This is the end, whatever data may follow.
+            self.code_unit_iter = None;
+            self.big_iter = None;
             None
         } else {
             // Decode all code units at once, as a segment may end in the middle of a surrogate pair.
-- 
2.43.0


From a6cd49d3ef23c23d6a2d67e43c89955aa33a6566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 10/11] fix: do not swap expected and actual values in errors

The checksum in the base block is the stored one, and a size field specifies
the (expected) bytes of which only the actual ones are available.
---
 src/big_data.rs  | 4 ++--
 src/hive.rs      | 4 ++--
 src/key_value.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index bf19326..ea7656e 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -101,8 +101,8 @@ impl BigDataListItemRanges {
         if data_size > max_data_size {
             return Err(NtHiveError::InvalidSizeField {
                 offset: data_size_field_offset,
-                expected: max_data_size,
-                actual: data_size,
+                expected: data_size,
+                actual: max_data_size,
             });
         }
 
diff --git a/src/hive.rs b/src/hive.rs
index c6f722c..031674e 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -243,8 +243,8 @@ where
             Ok(())
         } else {
             Err(NtHiveError::InvalidChecksum {
-                expected: checksum,
-                actual: calculated_checksum,
+                expected: calculated_checksum,
+                actual: checksum,
             })
         }
     }
diff --git a/src/key_value.rs b/src/key_value.rs
index f0db0c9..68624bd 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -157,8 +157,8 @@ where
             if data_size > mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidSizeField {
                     offset: self.hive.offset_of_field(&header.data_size),
-                    expected: mem::size_of::<u32>(),
-                    actual: data_size,
+                    expected: data_size,
+                    actual: mem::size_of::<u32>(),
                 });
             }
 
-- 
2.43.0


From abbd9a15b8f720b797b9b9d4470b9f8474bf680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 11/11] fix: read data of any size from a single cell in old
 hives

Big Data structures only exist since minor version 4.
---
 src/hive.rs      | 6 ++++++
 src/key_value.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index 031674e..4f2ca9c 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -203,6 +203,12 @@ where
         KeyNode::from_cell_range(self, cell_range)
     }
 
+    /// Returns whether this hive uses Big Data structures for data not fitting into a single segment.
+    /// Older hives store data of any size in a single cell.
+    pub(crate) fn supports_big_data(&self) -> bool {
+        self.minor_version() >= HiveMinorVersion::WindowsXPBeta as u32
+    }
+
     /// Performs basic validations on the header of this hive.
     ///
     /// If you read the hive via [`Hive::new`], these validations have already been performed.
diff --git a/src/key_value.rs b/src/key_value.rs
index 68624bd..ff5c825 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -166,7 +166,7 @@ where
             let data_end = data_start + data_size;
 
             Ok(KeyValueData::Small(&self.hive.data[data_start..data_end]))
-        } else if data_size <= BIG_DATA_SEGMENT_SIZE {
+        } else if data_size <= BIG_DATA_SEGMENT_SIZE || !self.hive.supports_big_data() {
             // The entire data is stored in a single cell referenced by `data_offset`.
             let cell_range = self
                 .hive
-- 
2.43.0

