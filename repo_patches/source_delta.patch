From 85ebe139a52beba1c4845be4f8956583f7248a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 01/74] fix: compare FLOAT with DECIMAL at full precision in >=
 and <=

---
 src/types_db/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 66ea03f..418a9e7 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1503,7 +1503,7 @@ impl Type for Value {
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a <= *b as f32),
             (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f32),
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a <= *b as f32),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) <= *b),
             (Val::Decimal(a), Val::Integer(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::BigInt(b)) => CmpBool::from(*a <= *b as f64),
             (Val::Decimal(a), Val::Float(b)) => CmpBool::from(*a <= *b as f64),
@@ -1616,7 +1616,7 @@ impl Type for Value {
             (Val::Float(a), Val::SmallInt(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::Integer(b)) => CmpBool::from(*a >= *b as f32),
             (Val::Float(a), Val::BigInt(b)) => CmpBool::from(*a >= *b as f32),
-            (Val::Float(a), Val::Decimal(b)) => CmpBool::from(*a >= *b as f32),
+            (Val::Float(a), Val::Decimal(b)) => CmpBool::from((*a as f64) >= *b),
             (Val::Float(a), Val::Float(b)) => CmpBool::from(*a >= *b),
             _ => {
                 // Check if types match before comparing values
-- 
2.43.0


From 5dcbdaacbac919cc43734750eb63513b5a32bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 02/74] fix: report integer and interval overflow in Value
 arithmetic instead of wrapping or aborting

---
 src/types_db/value.rs | 127 ++++++++++++++++++++++++++++++------------
 1 file changed, 92 insertions(+), 35 deletions(-)

diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 418a9e7..5dfe81b 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -1304,6 +1304,10 @@ impl Value {
     }
 }
 
+fn arithmetic_overflow() -> String {
+    "Arithmetic overflow".to_string()
+}
+
 impl Type for Value {
     fn get_type_id(&self) -> TypeId {
         self.type_id_
@@ -1635,44 +1639,60 @@ impl Type for Value {
         }
 
         match (&self.value_, &other.value_) {
-            (Val::Integer(a), Val::Integer(b)) => {
-                Ok(Value::new_with_type(Val::Integer(a + b), TypeId::Integer))
-            },
-            (Val::BigInt(a), Val::BigInt(b)) => {
-                Ok(Value::new_with_type(Val::BigInt(a + b), TypeId::BigInt))
-            },
+            (Val::Integer(a), Val::Integer(b)) => Ok(Value::new_with_type(
+                Val::Integer(a.checked_add(*b).ok_or_else(arithmetic_overflow)?),
+                TypeId::Integer,
+            )),
+            (Val::BigInt(a), Val::BigInt(b)) => Ok(Value::new_with_type(
+                Val::BigInt(a.checked_add(*b).ok_or_else(arithmetic_overflow)?),
+                TypeId::BigInt,
+            )),
             (Val::Integer(a), Val::BigInt(b)) => Ok(Value::new_with_type(
-                Val::BigInt(*a as i64 + b),
+                Val::BigInt(
+                    (*a as i64)
+                        .checked_add(*b)
+                        .ok_or_else(arithmetic_overflow)?,
+                ),
                 TypeId::BigInt,
             )),
             (Val::BigInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::BigInt(a + *b as i64),
+                Val::BigInt(a.checked_add(*b as i64).ok_or_else(arithmetic_overflow)?),
                 TypeId::BigInt,
             )),
             (Val::Decimal(a), Val::Decimal(b)) => {
                 Ok(Value::new_with_type(Val::Decimal(a + b), TypeId::Decimal))
             },
-            (Val::SmallInt(a), Val::SmallInt(b)) => {
-                Ok(Value::new_with_type(Val::SmallInt(a + b), TypeId::SmallInt))
-            },
-            (Val::TinyInt(a), Val::TinyInt(b)) => {
-                Ok(Value::new_with_type(Val::TinyInt(a + b), TypeId::TinyInt))
-            },
+            (Val::SmallInt(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
+                Val::SmallInt(a.checked_add(*b).ok_or_else(arithmetic_overflow)?),
+                TypeId::SmallInt,
+            )),
+            (Val::TinyInt(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
+                Val::TinyInt(a.checked_add(*b).ok_or_else(arithmetic_overflow)?),
+                TypeId::TinyInt,
+            )),
             // Promote smaller types to larger ones
             (Val::TinyInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
+                Val::Integer(
+                    (*a as i32)
+                        .checked_add(*b)
+                        .ok_or_else(arithmetic_overflow)?,
+                ),
                 TypeId::Integer,
             )),
             (Val::Integer(a), Val::TinyInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
+                Val::Integer(a.checked_add(*b as i32).ok_or_else(arithmetic_overflow)?),
                 TypeId::Integer,
             )),
             (Val::SmallInt(a), Val::Integer(b)) => Ok(Value::new_with_type(
-                Val::Integer(*a as i32 + b),
+                Val::Integer(
+                    (*a as i32)
+                        .checked_add(*b)
+                        .ok_or_else(arithmetic_overflow)?,
+                ),
                 TypeId::Integer,
             )),
             (Val::Integer(a), Val::SmallInt(b)) => Ok(Value::new_with_type(
-                Val::Integer(a + *b as i32),
+                Val::Integer(a.checked_add(*b as i32).ok_or_else(arithmetic_overflow)?),
                 TypeId::Integer,
             )),
 
@@ -1683,9 +1703,10 @@ impl Type for Value {
             (Val::Timestamp(_), _) => Err("Cannot add Timestamp values".to_string()),
             (Val::Date(_), _) => Err("Cannot add Date values".to_string()),
             (Val::Time(_), _) => Err("Cannot add Time values".to_string()),
-            (Val::Interval(a), Val::Interval(b)) => {
-                Ok(Value::new_with_type(Val::Interval(a + b), TypeId::Interval))
-            },
+            (Val::Interval(a), Val::Interval(b)) => Ok(Value::new_with_type(
+                Val::Interval(a.checked_add(*b).ok_or_else(arithmetic_overflow)?),
+                TypeId::Interval,
+            )),
             (Val::VarLen(a), Val::VarLen(b)) => Ok(Value::new_with_type(
                 Val::VarLen(a.clone() + b),
                 TypeId::VarChar,
@@ -1726,22 +1747,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a - b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(a.checked_sub(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a - b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(a.checked_sub(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a - b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(a.checked_sub(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a - b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(a.checked_sub(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1769,7 +1802,7 @@ impl Type for Value {
                 let b = other.get_val();
                 if let (Val::Interval(a_val), Val::Interval(b_val)) = (a, b) {
                     Ok(Value::new_with_type(
-                        Val::Interval(a_val - b_val),
+                        Val::Interval(a_val.checked_sub(*b_val).ok_or_else(arithmetic_overflow)?),
                         TypeId::Interval,
                     ))
                 } else {
@@ -1800,22 +1833,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a * b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(a.checked_mul(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a * b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(a.checked_mul(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a * b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(a.checked_mul(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a * b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(a.checked_mul(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1866,22 +1911,34 @@ impl Type for Value {
             (TypeId::Integer, TypeId::Integer) => {
                 let a = self.as_integer()?;
                 let b = other.as_integer()?;
-                Ok(Value::new_with_type(Val::Integer(a / b), TypeId::Integer))
+                Ok(Value::new_with_type(
+                    Val::Integer(a.checked_div(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::Integer,
+                ))
             },
             (TypeId::BigInt, TypeId::BigInt) => {
                 let a = self.as_bigint()?;
                 let b = other.as_bigint()?;
-                Ok(Value::new_with_type(Val::BigInt(a / b), TypeId::BigInt))
+                Ok(Value::new_with_type(
+                    Val::BigInt(a.checked_div(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::BigInt,
+                ))
             },
             (TypeId::SmallInt, TypeId::SmallInt) => {
                 let a = self.as_smallint()?;
                 let b = other.as_smallint()?;
-                Ok(Value::new_with_type(Val::SmallInt(a / b), TypeId::SmallInt))
+                Ok(Value::new_with_type(
+                    Val::SmallInt(a.checked_div(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::SmallInt,
+                ))
             },
             (TypeId::TinyInt, TypeId::TinyInt) => {
                 let a = self.as_tinyint()?;
                 let b = other.as_tinyint()?;
-                Ok(Value::new_with_type(Val::TinyInt(a / b), TypeId::TinyInt))
+                Ok(Value::new_with_type(
+                    Val::TinyInt(a.checked_div(b).ok_or_else(arithmetic_overflow)?),
+                    TypeId::TinyInt,
+                ))
             },
             (TypeId::Decimal, TypeId::Decimal) => {
                 let a = self.as_decimal()?;
@@ -1934,7 +1991,7 @@ impl Type for Value {
         match (self.get_type_id(), other.get_type_id()) {
             (TypeId::Integer, TypeId::Integer) => {
                 if let (Ok(a), Ok(b)) = (self.as_integer(), other.as_integer()) {
-                    Value::new_with_type(Val::Integer(a % b), TypeId::Integer)
+                    Value::new_with_type(Val::Integer(a.wrapping_rem(b)), TypeId::Integer)
                 } else {
                     Value::new(Val::Null)
                 }
-- 
2.43.0


From 265310c3c53867b280c2f3fc6aa84e88b0a4b556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 03/74] fix: insert table page tuples below the lowest tuple so
 that a grown one is not overwritten

---
 src/storage/page/page_types/table_page.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 7712c2e..28bd84a 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -268,11 +268,14 @@ impl TablePage {
             return None;
         }
 
-        let slot_end_offset = if self.header.num_tuples > 0 {
-            self.tuple_info[self.header.num_tuples as usize - 1].0
-        } else {
-            DB_PAGE_SIZE as u16
-        };
+        // A growing update moves a tuple below the ones inserted after it, so the free space ends
+        // at the lowest tuple rather than at the last one.
+        let slot_end_offset = self
+            .tuple_info
+            .iter()
+            .map(|(offset, _, _)| *offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16);
 
         let tuple_offset = slot_end_offset.saturating_sub(tuple_size);
 
-- 
2.43.0


From eaf2d97e4a7b44e3fb7af4f1d297d994569cd238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 04/74] fix: keep the deleted count of a table page exact when
 tuples are inserted deleted or updated

---
 src/storage/page/page_types/table_page.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 28bd84a..a439ad1 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -314,6 +314,7 @@ impl TablePage {
         // Try to update in place if the new tuple size is smaller than or equal to current size
         if new_size <= current_size {
             // Update metadata in tuple_info
+            self.count_deleted(tuple_id, &meta);
             self.tuple_info[tuple_id].2 = meta;
 
             // Update the size to reflect the actual new size
@@ -366,6 +367,7 @@ impl TablePage {
             }
 
             // Update tuple info with new location
+            self.count_deleted(tuple_id, &meta);
             self.tuple_info[tuple_id] = (new_offset, new_size, meta);
 
             // Write new tuple data
@@ -381,6 +383,17 @@ impl TablePage {
         }
     }
 
+    /// Adjusts the deleted count for slot `tuple_id` taking metadata `new`.
+    fn count_deleted(&mut self, tuple_id: usize, new: &TupleMeta) {
+        match (self.tuple_info[tuple_id].2.is_deleted(), new.is_deleted()) {
+            (false, true) => self.header.num_deleted_tuples += 1,
+            (true, false) => {
+                self.header.num_deleted_tuples = self.header.num_deleted_tuples.saturating_sub(1)
+            },
+            _ => {},
+        }
+    }
+
     /// Updates the metadata of a tuple.
     pub fn update_tuple_meta(&mut self, meta: TupleMeta, rid: &RID) -> Result<(), String> {
         debug!(
@@ -1026,6 +1039,9 @@ impl TablePage {
             self.data[start..end].copy_from_slice(&tuple_data);
             // Update header before returning
             self.header.num_tuples += 1;
+            if meta.is_deleted() {
+                self.header.num_deleted_tuples += 1;
+            }
             self.is_dirty = true;
 
             // Serialize the page to ensure changes are persisted
@@ -1111,6 +1127,9 @@ impl TablePage {
             self.data[start..end].copy_from_slice(&tuple_data);
             // Update header before returning
             self.header.num_tuples += 1;
+            if meta.is_deleted() {
+                self.header.num_deleted_tuples += 1;
+            }
             self.is_dirty = true;
 
             // Serialize the page to ensure changes are persisted
-- 
2.43.0


From a902ccc16b5c166a33affdb524c3c9e13667abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:26 +0000
Subject: [PATCH 05/74] fix: keep the table page image in step with its header
 and slot directory and load both with it

---
 src/storage/page/page_types/table_page.rs | 33 ++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index a439ad1..2f2415f 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -336,6 +336,7 @@ impl TablePage {
                 }
 
                 self.is_dirty = true;
+                self.sync_image();
                 Ok(())
             } else {
                 Err(PageError::TupleInvalid)
@@ -376,6 +377,7 @@ impl TablePage {
             if end <= self.data.len() {
                 self.data[start..end].copy_from_slice(&tuple_data);
                 self.is_dirty = true;
+                self.sync_image();
                 Ok(())
             } else {
                 Err(PageError::TupleInvalid)
@@ -383,6 +385,13 @@ impl TablePage {
         }
     }
 
+    /// Brings the page image, which the buffer pool writes out, in step with the header and the
+    /// slot directory.
+    fn sync_image(&mut self) {
+        let image = self.serialize();
+        self.data.copy_from_slice(&image);
+    }
+
     /// Adjusts the deleted count for slot `tuple_id` taking metadata `new`.
     fn count_deleted(&mut self, tuple_id: usize, new: &TupleMeta) {
         match (self.tuple_info[tuple_id].2.is_deleted(), new.is_deleted()) {
@@ -453,6 +462,7 @@ impl TablePage {
         // Simple copy since TupleMeta is now Copy
         self.tuple_info[tuple_id].2 = meta;
         self.is_dirty = true;
+        self.sync_image();
 
         debug!(
             "Successfully updated tuple meta. Page is now dirty. num_deleted_tuples: {}",
@@ -563,11 +573,13 @@ impl TablePage {
     pub fn set_next_page_id(&mut self, page_id: PageId) {
         self.header.next_page_id = page_id;
         self.is_dirty = true;
+        self.sync_image();
     }
 
     pub fn set_prev_page_id(&mut self, page_id: PageId) {
         self.header.prev_page_id = page_id;
         self.is_dirty = true;
+        self.sync_image();
     }
 
     /// Serializes the page into a fixed-size byte array
@@ -854,9 +866,6 @@ impl TablePage {
         // Get current tuple info
         let (offset, size, _) = self.tuple_info[tuple_id];
 
-        // Update the tuple metadata (simple copy since TupleMeta is Copy)
-        self.tuple_info[tuple_id].2 = meta;
-
         // Write the new tuple data
         let start = offset as usize;
         let end = start + size as usize;
@@ -868,9 +877,20 @@ impl TablePage {
                 self.data.len()
             ));
         }
+        if tuple_data.len() != size as usize {
+            return Err(format!(
+                "Tuple of {} bytes does not fit its slot of {} bytes in place",
+                tuple_data.len(),
+                size
+            ));
+        }
 
+        // Update the tuple metadata (simple copy since TupleMeta is Copy)
+        self.count_deleted(tuple_id, &meta);
+        self.tuple_info[tuple_id].2 = meta;
         self.data[start..end].copy_from_slice(&tuple_data);
         self.is_dirty = true;
+        self.sync_image();
         Ok(())
     }
 
@@ -1227,6 +1247,13 @@ impl PageTrait for TablePage {
             });
         }
         self.data[offset..offset + new_data.len()].copy_from_slice(new_data);
+        // A whole page image carries the header and the slot directory with it.
+        if new_data.len() == self.data.len()
+            && let Ok(loaded) = Self::deserialize(&self.data)
+        {
+            self.header = loaded.header;
+            self.tuple_info = loaded.tuple_info;
+        }
         self.is_dirty = true;
         Ok(())
     }
-- 
2.43.0


From e738fa1553afb17d05c732f3ae743fc0474fbbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 06/74] fix: set aside room in table pages for tuple metadata
 to grow when it commits

---
 src/storage/page/page_types/table_page.rs | 47 ++++++++---------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 2f2415f..955739b 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -64,6 +64,10 @@ use crate::storage::page::{
 };
 use crate::storage::table::tuple::{Tuple, TupleMeta};
 
+/// The most bytes an encoded `TupleMeta` takes: three integers of ten bytes, the tags of two
+/// options and the deleted flag.
+const TUPLE_META_MAX_ENCODED_SIZE: usize = 33;
+
 /// Represents a table page using a slotted page format.
 /// Slotted pages store a forward-growing slot directory and backward-growing tuple bodies
 /// inside a fixed-size buffer, enabling compact packing and stable tuple offsets until
@@ -245,7 +249,7 @@ impl TablePage {
     }
 
     /// Gets the next offset to insert a tuple.
-    pub fn get_next_tuple_offset(&self, meta: &TupleMeta, tuple: &Tuple) -> Option<u16> {
+    pub fn get_next_tuple_offset(&self, _meta: &TupleMeta, tuple: &Tuple) -> Option<u16> {
         // First check if the tuple is too large for any page
         if self.is_tuple_too_large(tuple) {
             debug!("Tuple is too large for any page, rejecting");
@@ -279,7 +283,7 @@ impl TablePage {
 
         let tuple_offset = slot_end_offset.saturating_sub(tuple_size);
 
-        let metadata_footprint = self.metadata_footprint_with_new(meta)?;
+        let metadata_footprint = self.metadata_footprint_with_new();
 
         // Ensure we have enough space for tuple data + metadata region.
         if tuple_offset < metadata_footprint as u16 {
@@ -902,17 +906,13 @@ impl TablePage {
         ) as u16
     }
 
-    /// Returns the encoded size of all tuple-info entries (offset+size + encoded meta).
+    /// Returns the space set aside for all tuple-info entries (offset+size + encoded meta).
+    ///
+    /// The encoded meta of a tuple grows when it commits or gains an undo link, so that the
+    /// largest encoding is set aside for each.
     fn encoded_tuple_info_bytes(&self) -> usize {
-        self.tuple_info
-            .iter()
-            .map(|(_, _, meta)| {
-                // 2 bytes offset + 2 bytes size + encoded meta
-                4 + postcard::to_allocvec(meta)
-                    .expect("TupleMeta encoding should not fail")
-                    .len()
-            })
-            .sum()
+        // 2 bytes offset + 2 bytes size + encoded meta
+        self.tuple_info.len() * (4 + TUPLE_META_MAX_ENCODED_SIZE)
     }
 
     fn metadata_footprint_bytes(&self) -> usize {
@@ -923,17 +923,9 @@ impl TablePage {
             + 4 // end magic
     }
 
-    fn metadata_footprint_with_new(&self, meta: &TupleMeta) -> Option<usize> {
-        let meta_len = postcard::to_allocvec(meta).ok()?.len();
-        Some(
-            1 // page type
-                + TablePageHeader::size()
-                + 4 // start magic
-                + self.encoded_tuple_info_bytes()
-                + 4 // offset+size for new tuple
-                + meta_len
-                + 4, // end magic
-        )
+    fn metadata_footprint_with_new(&self) -> usize {
+        self.metadata_footprint_bytes() + 4 // offset+size for new tuple
+            + TUPLE_META_MAX_ENCODED_SIZE
     }
 
     /// Gets the total size of all tuple data in the page
@@ -977,13 +969,8 @@ impl TablePage {
             Err(_) => return true, // If we can't serialize it, consider it too large
         };
 
-        // Approximate metadata footprint if this tuple were added using a default meta.
-        // TupleMeta encoding is small; use a representative meta to reserve space.
-        let placeholder_meta = TupleMeta::new(0);
-        let meta_overhead = match self.metadata_footprint_with_new(&placeholder_meta) {
-            Some(bytes) => bytes,
-            None => return true,
-        };
+        // Metadata footprint if this tuple were added.
+        let meta_overhead = self.metadata_footprint_with_new();
 
         // Check both the absolute size and relative to page size
         serialized_size > TUPLE_MAX_SERIALIZED_SIZE // hard cap for tuple body
-- 
2.43.0


From dad3124dfa0838cd3bb0acf5c055c729b067fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 07/74] fix: refuse to update a table page tuple to one larger
 than any page holds

---
 src/storage/page/page_types/table_page.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index 955739b..aa25ee3 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -310,6 +310,9 @@ impl TablePage {
 
         // Serialize the new tuple data
         let tuple_data = postcard::to_allocvec(tuple).map_err(|_| PageError::SerializationError)?;
+        if tuple_data.len() > TUPLE_MAX_SERIALIZED_SIZE {
+            return Err(PageError::TupleInvalid);
+        }
         let new_size = tuple_data.len() as u16;
 
         // Get current tuple info
-- 
2.43.0


From 1eecedf4d99886054f0c5248e929dbb10c50701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:46 +0000
Subject: [PATCH 08/74] fix: serve disk reads of pages still in the write
 buffer from it

---
 src/storage/disk/async_disk/manager.rs        | 10 +++++++++
 .../disk/async_disk/memory/write_manager.rs   | 10 +++++++++
 .../async_disk/memory/write_staging_buffer.rs | 22 ++++++++++++++++++-
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 6d9ed74..7f14b31 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -446,6 +446,14 @@ impl AsyncDiskManager {
             return Ok(data);
         }
 
+        // The latest version of the page may not have reached the disk yet
+        if let Some(data) = self.write_manager.get_buffered_page(page_id).await {
+            let elapsed_ns = start_time.elapsed().as_nanos() as u64;
+            self.metrics_collector
+                .record_read(elapsed_ns, data.len() as u64, true);
+            return Ok(data);
+        }
+
         // Page not in cache, schedule read operation
         debug!(
             "Cache miss for page {}, scheduling disk read with priority {:?}",
@@ -741,6 +749,8 @@ impl AsyncDiskManager {
             total_bytes += data.len() as u64;
         }
 
+        self.write_manager.finish_flush(&pages).await;
+
         // Apply durability policy if needed
         debug!("Applying durability policy for {} pages", pages.len());
         self.write_manager.apply_durability(&pages, self).await?;
diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index 4761017..fcfc97e 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -512,6 +512,16 @@ impl WriteManager {
         Ok(pages_to_flush)
     }
 
+    /// Gets the latest data of a page that has not reached the disk yet
+    pub async fn get_buffered_page(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer_manager.lock().await.get(page_id)
+    }
+
+    /// Ends the flush of pages handed out by `buffer_write`, `flush` or `force_flush`
+    pub async fn finish_flush(&self, pages: &[(PageId, Vec<u8>)]) {
+        self.buffer_manager.lock().await.finish_flush(pages);
+    }
+
     /// Checks if a flush should be performed based on current state
     pub async fn should_flush(&self) -> bool {
         let buffer = self.buffer_manager.lock().await;
diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index bd189dc..bc42458 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -268,6 +268,8 @@ pub struct CompressedWriteBuffer {
 #[derive(Debug)]
 pub struct WriteStagingBuffer {
     buffer: CompressedWriteBuffer,
+    /// Pages drained for a flush that has not reached the disk yet
+    in_flight: HashMap<PageId, Vec<u8>>,
 }
 
 impl WriteStagingBuffer {
@@ -283,6 +285,7 @@ impl WriteStagingBuffer {
                 max_buffer_size,
                 compression_ratio: AtomicU64::new(10000), // 100% (no compression initially)
             },
+            in_flight: HashMap::new(),
         }
     }
 
@@ -327,7 +330,8 @@ impl WriteStagingBuffer {
 
     /// Drains all buffered writes and resets buffer state
     pub fn drain_buffer(&mut self) -> Vec<(PageId, Vec<u8>)> {
-        let pages = self.buffer.buffer.drain().collect();
+        let pages: Vec<(PageId, Vec<u8>)> = self.buffer.buffer.drain().collect();
+        self.in_flight.extend(pages.iter().cloned());
 
         // Reset buffer state
         self.buffer.dirty_pages.store(0, Ordering::Relaxed);
@@ -337,6 +341,22 @@ impl WriteStagingBuffer {
         pages
     }
 
+    /// Gets the latest data of a page that has not reached the disk yet
+    pub fn get(&self, page_id: PageId) -> Option<Vec<u8>> {
+        self.buffer
+            .buffer
+            .get(&page_id)
+            .or_else(|| self.in_flight.get(&page_id))
+            .map(|data| self.decompress_data(data))
+    }
+
+    /// Ends the flush of drained pages
+    pub fn finish_flush(&mut self, pages: &[(PageId, Vec<u8>)]) {
+        for (page_id, _) in pages {
+            self.in_flight.remove(page_id);
+        }
+    }
+
     /// Checks if the buffer is empty
     pub fn is_empty(&self) -> bool {
         self.buffer.buffer.is_empty()
-- 
2.43.0


From def5a54513cf156ed14563ee2f8bbe73cefe368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 09/74] fix: keep a page written while the write buffer is full

---
 .../disk/async_disk/memory/write_manager.rs       | 15 +++++++++++++--
 .../async_disk/memory/write_staging_buffer.rs     |  5 +++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index fcfc97e..39284f3 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -316,6 +316,7 @@ impl WriteManager {
         );
 
         // Step 2: Add to buffer manager with compression
+        let mut refused = false;
         let needs_flush = {
             let mut buffer = self.buffer_manager.lock().await;
             let stats_before = buffer.get_stats();
@@ -325,7 +326,8 @@ impl WriteManager {
                 stats_before.buffer_size_bytes
             );
 
-            let buffer_accepted = buffer.buffer_write(page_id, coalesced_data)?;
+            let buffer_accepted = buffer.buffer_write(page_id, coalesced_data.clone())?;
+            refused = !buffer_accepted;
 
             let stats_after = buffer.get_stats();
             log::debug!(
@@ -362,11 +364,20 @@ impl WriteManager {
         // Step 3: Coordinate flush if needed
         let flushed_pages = if needs_flush {
             log::debug!("WriteManager::buffer_write triggering flush");
-            let pages = self.flush(provider).await?;
+            let mut pages = self.flush(provider).await?;
             log::debug!(
                 "WriteManager::buffer_write flush returned {} pages",
                 pages.len()
             );
+            // A page refused by the full buffer goes into the emptied one, or with the flush
+            if refused {
+                let mut buffer = self.buffer_manager.lock().await;
+                if !buffer.buffer_write(page_id, coalesced_data.clone())? {
+                    buffer.add_in_flight(page_id, coalesced_data.clone());
+                    pages.retain(|(id, _)| *id != page_id);
+                    pages.push((page_id, coalesced_data));
+                }
+            }
             if pages.is_empty() { None } else { Some(pages) }
         } else {
             None
diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index bc42458..abaaf71 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -350,6 +350,11 @@ impl WriteStagingBuffer {
             .map(|data| self.decompress_data(data))
     }
 
+    /// Adds a page that does not fit the buffer to the pages being flushed
+    pub fn add_in_flight(&mut self, page_id: PageId, data: Vec<u8>) {
+        self.in_flight.insert(page_id, data);
+    }
+
     /// Ends the flush of drained pages
     pub fn finish_flush(&mut self, pages: &[(PageId, Vec<u8>)]) {
         for (page_id, _) in pages {
-- 
2.43.0


From 17bada0de0ad86e266d1718df97ae038e6c13842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:11 +0000
Subject: [PATCH 10/74] fix: keep pages whose flush failed for the next flush

---
 src/storage/disk/async_disk/manager.rs         | 14 ++++++++++----
 .../disk/async_disk/memory/write_manager.rs    | 18 +++++++++++++-----
 .../async_disk/memory/write_staging_buffer.rs  | 14 +++++++++++---
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 7f14b31..cbcf0ff 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -733,13 +733,21 @@ impl AsyncDiskManager {
 
     /// Writes multiple pages to disk
     async fn write_pages_to_disk(&self, pages: Vec<(PageId, Vec<u8>)>) -> IoResult<()> {
+        let result = self.try_write_pages_to_disk(&pages).await;
+        self.write_manager
+            .finish_flush(&pages, result.is_ok())
+            .await;
+        result
+    }
+
+    async fn try_write_pages_to_disk(&self, pages: &[(PageId, Vec<u8>)]) -> IoResult<()> {
         debug!("Writing {} pages to disk", pages.len());
         let start_time = Instant::now();
         let mut total_bytes = 0;
 
         let io_engine = self.io_engine.read().await;
 
-        for (page_id, data) in &pages {
+        for (page_id, data) in pages {
             trace!(
                 "Writing page {} to disk (size: {} bytes)",
                 page_id,
@@ -749,11 +757,9 @@ impl AsyncDiskManager {
             total_bytes += data.len() as u64;
         }
 
-        self.write_manager.finish_flush(&pages).await;
-
         // Apply durability policy if needed
         debug!("Applying durability policy for {} pages", pages.len());
-        self.write_manager.apply_durability(&pages, self).await?;
+        self.write_manager.apply_durability(pages, self).await?;
 
         // Update metrics
         let elapsed = start_time.elapsed();
diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index 39284f3..bff679f 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -511,10 +511,14 @@ impl WriteManager {
         );
 
         // Step 2: Apply durability guarantees
-        let _durability_result = self
+        if let Err(e) = self
             .durability_manager
             .apply_durability(&pages_to_flush, provider)
-            .await?;
+            .await
+        {
+            self.finish_flush(&pages_to_flush, false).await;
+            return Err(e);
+        }
 
         log::debug!(
             "WriteManager::flush_internal completed successfully with {} pages",
@@ -528,9 +532,13 @@ impl WriteManager {
         self.buffer_manager.lock().await.get(page_id)
     }
 
-    /// Ends the flush of pages handed out by `buffer_write`, `flush` or `force_flush`
-    pub async fn finish_flush(&self, pages: &[(PageId, Vec<u8>)]) {
-        self.buffer_manager.lock().await.finish_flush(pages);
+    /// Ends the flush of pages handed out by `buffer_write`, `flush` or `force_flush`, keeping
+    /// them for the next one if they could not be written
+    pub async fn finish_flush(&self, pages: &[(PageId, Vec<u8>)], written: bool) {
+        self.buffer_manager
+            .lock()
+            .await
+            .finish_flush(pages, written);
     }
 
     /// Checks if a flush should be performed based on current state
diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index abaaf71..bba77be 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -355,10 +355,18 @@ impl WriteStagingBuffer {
         self.in_flight.insert(page_id, data);
     }
 
-    /// Ends the flush of drained pages
-    pub fn finish_flush(&mut self, pages: &[(PageId, Vec<u8>)]) {
-        for (page_id, _) in pages {
+    /// Ends the flush of drained pages; those of a failed flush return to the buffer, unless they
+    /// were written again meanwhile
+    pub fn finish_flush(&mut self, pages: &[(PageId, Vec<u8>)], written: bool) {
+        for (page_id, data) in pages {
             self.in_flight.remove(page_id);
+            if !written && !self.buffer.buffer.contains_key(page_id) {
+                self.buffer.buffer.insert(*page_id, data.clone());
+                self.buffer
+                    .buffer_size_bytes
+                    .fetch_add(data.len(), Ordering::Relaxed);
+                self.buffer.dirty_pages.fetch_add(1, Ordering::Relaxed);
+            }
         }
     }
 
-- 
2.43.0


From a7c05ffdc5e1ac4ad0033da2911ceacf3261ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 11/74] fix: write flushed versions of a page to disk and cache
 in the order they were buffered

---
 src/storage/disk/async_disk/manager.rs | 75 +++++++++++++-------------
 1 file changed, 37 insertions(+), 38 deletions(-)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index cbcf0ff..958f051 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -287,6 +287,10 @@ pub struct AsyncDiskManager {
     // State tracking
     is_shutting_down: Arc<AtomicBool>,
     background_tasks: Mutex<Vec<JoinHandle<()>>>,
+
+    /// Held from draining the write buffer until its pages are on disk, so that an older version
+    /// of a page never reaches the disk or the cache after a newer one
+    flush_order: Mutex<()>,
 }
 
 impl DurabilityProvider for AsyncDiskManager {
@@ -401,6 +405,7 @@ impl AsyncDiskManager {
             metrics_collector,
             is_shutting_down: Arc::new(AtomicBool::new(false)),
             background_tasks: Mutex::new(Vec::new()),
+            flush_order: Mutex::new(()),
         };
 
         info!(
@@ -595,25 +600,7 @@ impl AsyncDiskManager {
 
         // Buffer the write using write manager
         debug!("Buffering write for page {}", page_id);
-        let flushed_pages = self
-            .write_manager
-            .buffer_write(page_id, data.clone(), self)
-            .await?;
-
-        // Update cache if caching is enabled
-        if self.config.cache_size_mb > 0 {
-            trace!("Updating cache for page {}", page_id);
-            self.cache_manager.store_page(page_id, data.clone());
-        }
-
-        // Write any flushed pages to disk
-        if let Some(pages) = flushed_pages {
-            debug!(
-                "Writing {} flushed pages to disk from buffer_write",
-                pages.len()
-            );
-            self.write_pages_to_disk(pages).await?;
-        }
+        self.buffer_page(page_id, &data).await?;
 
         // Update metrics
         let elapsed = start_time.elapsed();
@@ -654,18 +641,45 @@ impl AsyncDiskManager {
         false
     }
 
+    /// Buffers a page, writing out the buffer if that calls for it
+    async fn buffer_page(&self, page_id: PageId, data: &[u8]) -> IoResult<()> {
+        let _order = self.flush_order.lock().await;
+        let flushed_pages = self
+            .write_manager
+            .buffer_write(page_id, data.to_vec(), self)
+            .await;
+
+        // Update cache if caching is enabled
+        if self.config.cache_size_mb > 0 {
+            trace!("Updating cache for page {}", page_id);
+            self.cache_manager.store_page(page_id, data.to_vec());
+        }
+
+        // Write any flushed pages to disk
+        if let Some(pages) = flushed_pages? {
+            debug!(
+                "Writing {} flushed pages to disk from buffer_write",
+                pages.len()
+            );
+            self.write_pages_to_disk(pages).await?;
+        }
+        Ok(())
+    }
+
     /// Flushes all buffered writes to disk and applies durability policies
     pub async fn flush_writes_with_durability(&self) -> IoResult<()> {
         debug!("Flushing writes with durability");
         let start_time = std::time::Instant::now();
 
         // Get buffered pages to flush
+        let order = self.flush_order.lock().await;
         let pages = self.write_manager.force_flush(self).await?;
 
         if !pages.is_empty() {
             debug!("Flushing {} pages to disk", pages.len());
             self.write_pages_to_disk(pages.clone()).await?;
         }
+        drop(order);
 
         // Apply durability based on configuration
         // Note: write_manager.force_flush(self) already applies durability if configured,
@@ -912,25 +926,7 @@ impl AsyncDiskManager {
             for (page_id, data) in chunk {
                 Self::validate_page_data_len(data.len())?;
                 trace!("Buffering page {} in batch write", page_id);
-                let flushed_pages = self
-                    .write_manager
-                    .buffer_write(*page_id, data.clone(), self)
-                    .await?;
-
-                // Write any flushed pages to disk immediately
-                if let Some(pages) = flushed_pages {
-                    debug!(
-                        "Writing {} flushed pages to disk from batch write",
-                        pages.len()
-                    );
-                    self.write_pages_to_disk(pages).await?;
-                }
-
-                // Update cache if caching is enabled
-                if self.config.cache_size_mb > 0 {
-                    self.cache_manager.store_page(*page_id, data.clone());
-                }
-
+                self.buffer_page(*page_id, data).await?;
                 total_bytes += data.len() as u64;
             }
         }
@@ -1061,6 +1057,7 @@ impl AsyncDiskManager {
     /// Forces flush of all pending writes
     pub async fn force_flush_all(&self) -> IoResult<()> {
         warn!("Force flush all requested");
+        let order = self.flush_order.lock().await;
         let pages = self.write_manager.force_flush(self).await?;
 
         if !pages.is_empty() {
@@ -1074,6 +1071,8 @@ impl AsyncDiskManager {
             }
         }
 
+        drop(order);
+
         // Force sync regardless of policy
         debug!("Force syncing to disk");
         self.sync().await?;
-- 
2.43.0


From c4d5954cb131cd3c98a9ceecdedbf249c022e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:25 +0000
Subject: [PATCH 12/74] fix: execute scheduled disk operations, which nothing
 took off the queues

---
 src/storage/disk/async_disk/manager.rs | 45 ++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 958f051..35dc361 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -475,6 +475,48 @@ impl AsyncDiskManager {
         }
     }
 
+    /// Executes scheduled tasks, whoever submitted them, until none is left waiting
+    async fn run_scheduled_tasks(&self) {
+        while let Some(task) = self.next_scheduled_task().await {
+            let result = match task.task_type {
+                IOTaskType::Read(page_id) => self.read_uncached(&[page_id]).await,
+                IOTaskType::BatchRead(page_ids) => self.read_uncached(&page_ids).await,
+                IOTaskType::BatchWrite(pages) => {
+                    self.write_pages_to_disk(pages).await.map(|_| Vec::new())
+                },
+                other => Err(io::Error::new(
+                    io::ErrorKind::Unsupported,
+                    format!("Unsupported scheduled task: {:?}", other),
+                )),
+            };
+            if let Some(callback) = task.completion_callback {
+                let _ = callback.send(result);
+            }
+        }
+    }
+
+    /// Reads pages from the write buffer or the disk, one after another
+    async fn read_uncached(&self, page_ids: &[PageId]) -> IoResult<Vec<u8>> {
+        let mut data = Vec::with_capacity(page_ids.len() * DB_PAGE_SIZE as usize);
+        for page_id in page_ids {
+            match self.write_manager.get_buffered_page(*page_id).await {
+                Some(page) => data.extend(page),
+                None => data.extend(self.io_engine.read().await.read_page(*page_id).await?),
+            }
+        }
+        Ok(data)
+    }
+
+    async fn next_scheduled_task(&self) -> Option<IOTask> {
+        for worker_id in 0..self.config.io_threads {
+            let mut receiver = self.scheduler.get_worker_receiver(worker_id).lock().await;
+            if let Ok(task) = receiver.try_recv() {
+                return Some(task);
+            }
+        }
+        None
+    }
+
     /// Schedules a read operation through the work-stealing scheduler
     async fn schedule_read_operation(
         &self,
@@ -501,6 +543,7 @@ impl AsyncDiskManager {
         }
 
         // Wait for completion
+        self.run_scheduled_tasks().await;
         match receiver.await {
             Ok(Ok(data)) => {
                 let elapsed = start_time.elapsed();
@@ -729,6 +772,7 @@ impl AsyncDiskManager {
         }
 
         // Wait for completion
+        self.run_scheduled_tasks().await;
         match receiver.await {
             Ok(Ok(_)) => {
                 debug!("Scheduled batch write completed for {} pages", pages.len());
@@ -853,6 +897,7 @@ impl AsyncDiskManager {
         }
 
         // Wait for completion
+        self.run_scheduled_tasks().await;
         match receiver.await {
             Ok(Ok(data)) => {
                 debug!(
-- 
2.43.0


From 03c7e48ff880a532db1688c504d8d24ef3289c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:25 +0000
Subject: [PATCH 13/74] fix: drop a needless initial value in the write manager

---
 src/storage/disk/async_disk/memory/write_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/disk/async_disk/memory/write_manager.rs b/src/storage/disk/async_disk/memory/write_manager.rs
index bff679f..5b31905 100644
--- a/src/storage/disk/async_disk/memory/write_manager.rs
+++ b/src/storage/disk/async_disk/memory/write_manager.rs
@@ -316,7 +316,7 @@ impl WriteManager {
         );
 
         // Step 2: Add to buffer manager with compression
-        let mut refused = false;
+        let refused;
         let needs_flush = {
             let mut buffer = self.buffer_manager.lock().await;
             let stats_before = buffer.get_stats();
-- 
2.43.0


From 33850830f272c0985f03d9002c5eba56aaa16f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:22 +0000
Subject: [PATCH 14/74] fix: buffer pool loses, mixes up and deadlocks on pages
 that are fetched, flushed, evicted or deleted

Eviction and loading of a frame now happen under one latch, a page is pinned before it is
handed out, new pages reach the disk even if nothing marks them dirty, a failed write keeps
the page and a failed load gives its frame back, and no pool lock is held while waiting for
a page lock.
---
 src/buffer/buffer_pool_manager_async.rs | 676 ++++++++++++------------
 1 file changed, 338 insertions(+), 338 deletions(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index d9da05d..47e7eba 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -204,14 +204,14 @@
 //! - **Pinning/Unpinning**: Prevents eviction of pages in use by execution threads
 //! - **Replacement Policy**: Uses `LRUKReplacer` for access-frequency-based eviction
 //! - **Cache Coordination**: Manages L1/L2 cache interaction and efficiency
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::fmt::Debug;
 use std::sync::Arc;
 use std::sync::atomic::{AtomicU64, Ordering};
 
 use log::{error, info, trace, warn};
-use parking_lot::{RwLock, RwLockReadGuard};
+use parking_lot::{Mutex, RwLock, RwLockReadGuard};
 
 use crate::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
 use crate::common::config::{DB_PAGE_SIZE, FrameId, INVALID_PAGE_ID, PageId};
@@ -256,6 +256,16 @@ pub struct BufferPoolManager {
     use_disk_manager_cache: bool,
     /// Whether to bypass disk cache for pinned pages.
     bypass_disk_cache_for_pinned: bool,
+    /// Held while a frame is taken for a page, until the page that was in it is written out and,
+    /// when a page is loaded, until it is in the page table. Taken before any other lock of the
+    /// pool and never while waiting for a page lock.
+    frame_latch: Arc<Mutex<()>>,
+    /// One per frame, held while the page in it is flushed, so that two flushes of a page reach
+    /// the disk in the order they read it.
+    flush_latches: Arc<Vec<tokio::sync::Mutex<()>>>,
+    /// Pages created and not yet written to disk, which must reach it even if nothing marks them
+    /// dirty.
+    unsaved: Arc<RwLock<HashSet<PageId>>>,
 }
 
 /// Manual Debug implementation that excludes the `pages` field.
@@ -337,6 +347,9 @@ impl BufferPoolManager {
             disk_manager,
             use_disk_manager_cache,
             bypass_disk_cache_for_pinned,
+            frame_latch: Arc::new(Mutex::new(())),
+            flush_latches: Arc::new((0..pool_size).map(|_| Default::default()).collect()),
+            unsaved: Arc::new(RwLock::new(HashSet::new())),
         })
     }
 
@@ -423,15 +436,17 @@ impl BufferPoolManager {
     pub fn new_page<T: Page>(self: &Arc<Self>) -> Option<PageGuard<T>> {
         trace!("Creating new page of type: {:?}", T::TYPE_ID);
 
-        let frame_id = self.get_available_frame()?;
+        let frame_id = {
+            let _latch = self.frame_latch.lock();
+            self.get_available_frame()?
+        };
         trace!("Got available frame: {}", frame_id);
 
-        self.evict_page_if_necessary(frame_id);
-
         let new_page_id = self.allocate_page_id();
         trace!("Allocated new page ID: {}", new_page_id);
 
         let new_page = self.create_typed_page::<T>(new_page_id);
+        self.unsaved.write().insert(new_page_id);
         self.update_page_metadata(frame_id, new_page_id, &new_page);
 
         trace!("Created new page {} in frame {}", new_page_id, frame_id);
@@ -463,15 +478,17 @@ impl BufferPoolManager {
             T::TYPE_ID
         );
 
-        let frame_id = self.get_available_frame()?;
+        let frame_id = {
+            let _latch = self.frame_latch.lock();
+            self.get_available_frame()?
+        };
         trace!("Got available frame: {}", frame_id);
 
-        self.evict_page_if_necessary(frame_id);
-
         let new_page_id = self.allocate_page_id();
         trace!("Allocated new page ID: {}", new_page_id);
 
         let new_page = self.create_typed_page_with_constructor::<T, F>(new_page_id, constructor);
+        self.unsaved.write().insert(new_page_id);
         self.update_page_metadata(frame_id, new_page_id, &new_page);
 
         trace!(
@@ -495,26 +512,8 @@ impl BufferPoolManager {
     pub fn write_page(&self, page_id: PageId, data: [u8; DB_PAGE_SIZE as usize]) {
         trace!("Writing to page with ID: {}", page_id);
 
-        // Acquire read lock on the page collection
-        let pages = self.pages.read();
-
-        // Find the target page
-        let mut target_page = None;
-        for (i, page_opt) in pages.iter().enumerate() {
-            if let Some(page) = page_opt {
-                let page_data = page.read(); // Acquire read lock on the page
-                if page_data.get_page_id() == page_id {
-                    // Access trait method directly
-                    target_page = Some((page.clone(), i));
-                    break;
-                }
-            }
-        }
-
-        // Drop the read lock before acquiring the write lock on the target page
-        drop(pages);
-
-        if let Some((page, _index)) = target_page {
+        // The page table lock is not held while waiting for the page
+        if let Some(page) = self.get_page_internal(page_id) {
             // Acquire write lock on the target page
             let mut page_data = page.write();
 
@@ -547,55 +546,97 @@ impl BufferPoolManager {
             return None;
         }
 
-        // Check if page is already in memory
-        if let Some(page) = self.get_page_internal(page_id) {
-            // Verify page type
-            let actual_type = {
-                let page_read = page.read();
-                let type_byte = page_read.get_data()[PAGE_TYPE_OFFSET];
-                let page_type = PageType::from_u8(type_byte);
-                trace!(
-                    "Page {} in memory - Type byte: {}, Parsed type: {:?}, Expected: {:?}",
-                    page_id,
-                    type_byte,
-                    page_type,
-                    T::TYPE_ID
-                );
-                page_type
-            };
+        self.pin_or_load::<T>(page_id)
+    }
 
-            if actual_type != Some(T::TYPE_ID) {
-                warn!(
-                    "Page type mismatch: expected {:?}, found {:?}",
-                    T::TYPE_ID,
-                    actual_type
-                );
-                return None;
+    /// Returns a guard of the page, which is loaded from disk if it is not in memory.
+    fn pin_or_load<T: Page + 'static>(self: &Arc<Self>, page_id: PageId) -> Option<PageGuard<T>> {
+        loop {
+            // Check if page is already in memory
+            match self.pin_resident(page_id, Some(T::TYPE_ID)) {
+                Ok(Some(page)) => return Some(self.guard_for_pinned(page_id, page)),
+                Ok(None) => {},
+                Err(()) => return None,
             }
 
-            // Mark frame as non-evictable while pinned and record access.
-            if let Some(&frame_id) = self.page_table.read().get(&page_id) {
-                let mut replacer = self.replacer.write();
-                replacer.record_access(frame_id, AccessType::Unknown);
-                replacer.set_evictable(frame_id, false);
+            // Page not in memory, need to load from disk, unless another thread did so meanwhile
+            let _latch = self.frame_latch.lock();
+            if !self.page_table.read().contains_key(&page_id) {
+                return self.load_page_from_disk::<T>(page_id);
             }
+        }
+    }
 
-            // Create new guard (which will increment pin count)
-            let typed_page = unsafe {
-                let raw = Arc::into_raw(page) as *const RwLock<T>;
-                Arc::from_raw(raw)
+    /// Pins a page that is in the pool, so that it cannot be evicted.
+    ///
+    /// With `expected`, the page must be of that type and the access is recorded; a page of another
+    /// type is an error. Returns `None` if the page is not in the pool.
+    fn pin_resident(
+        &self,
+        page_id: PageId,
+        expected: Option<PageType>,
+    ) -> Result<Option<Arc<RwLock<dyn PageTrait>>>, ()> {
+        while let Some(page) = self.get_page_internal(page_id) {
+            let mut page_write = page.write();
+
+            // The page may have been evicted before its lock was had
+            let Some(frame_id) = self.frame_of(page_id, &page) else {
+                continue;
             };
 
-            let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
-            let unpinner: Arc<dyn PageUnpinner> = unpinner;
-            return Some(PageGuard::new(typed_page, page_id, Some(unpinner)));
+            if let Some(expected) = expected {
+                let type_byte = page_write.get_data()[PAGE_TYPE_OFFSET];
+                let actual_type = PageType::from_u8(type_byte);
+                if actual_type != Some(expected) {
+                    warn!(
+                        "Page type mismatch: expected {:?}, found {:?}",
+                        expected, actual_type
+                    );
+                    return Err(());
+                }
+            }
+
+            // Mark frame as non-evictable while pinned and record access.
+            page_write.increment_pin_count();
+            let mut replacer = self.replacer.write();
+            if expected.is_some() {
+                replacer.record_access(frame_id, AccessType::Unknown);
+            }
+            replacer.set_evictable(frame_id, false);
+            drop(replacer);
+            drop(page_write);
+            return Ok(Some(page));
         }
+        Ok(None)
+    }
 
-        // Page not in memory, need to load from disk
-        self.load_page_from_disk::<T>(page_id)
+    /// Returns the frame that holds this very page, if it still is in the pool.
+    fn frame_of(&self, page_id: PageId, page: &Arc<RwLock<dyn PageTrait>>) -> Option<FrameId> {
+        let page_table = self.page_table.read();
+        let frame_id = *page_table.get(&page_id)?;
+        let pages = self.pages.read();
+        let held = pages.get(frame_id as usize)?.as_ref()?;
+        Arc::ptr_eq(held, page).then_some(frame_id)
+    }
+
+    /// Creates the guard of a page that is pinned already and known to be of type `T`.
+    fn guard_for_pinned<T: Page + 'static>(
+        self: &Arc<Self>,
+        page_id: PageId,
+        page: Arc<RwLock<dyn PageTrait>>,
+    ) -> PageGuard<T> {
+        let typed_page = unsafe {
+            let raw = Arc::into_raw(page) as *const RwLock<T>;
+            Arc::from_raw(raw)
+        };
+        let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
+        let unpinner: Arc<dyn PageUnpinner> = unpinner;
+        PageGuard::new_for_new_page(typed_page, page_id, Some(unpinner))
     }
 
     /// Enhanced page loading with coordinated caching
+    ///
+    /// The caller holds the frame latch.
     fn load_page_from_disk<T: Page + 'static>(
         self: &Arc<Self>,
         page_id: PageId,
@@ -606,9 +647,6 @@ impl BufferPoolManager {
         let frame_id = self.get_available_frame()?;
         trace!("Got available frame: {} for page load", frame_id);
 
-        // Evict if necessary
-        self.evict_page_if_necessary(frame_id);
-
         // Try to get page data using coordinated caching
         let page_data = if self.use_disk_manager_cache {
             self.load_page_with_cache_coordination(page_id)
@@ -620,6 +658,7 @@ impl BufferPoolManager {
             Ok(data) => data,
             Err(e) => {
                 error!("Failed to load page {} : {}", page_id, e);
+                self.free_list.write().push(frame_id);
                 return None;
             },
         };
@@ -633,6 +672,7 @@ impl BufferPoolManager {
             Some(page_guard)
         } else {
             error!("Failed to create page {} from data", page_id);
+            self.free_list.write().push(frame_id);
             None
         }
     }
@@ -709,6 +749,8 @@ impl BufferPoolManager {
                 error!("Failed to set page data for page {}: {:?}", page_id, e);
                 return None;
             }
+            // It is what the disk has
+            page_guard.set_dirty(false);
         }
 
         let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
@@ -742,8 +784,9 @@ impl BufferPoolManager {
         };
         drop(page_table);
 
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
+        // No lock of the pool is held while waiting for the page
+        let page = self.pages.read().get(frame_id as usize).cloned().flatten();
+        if let Some(page) = page {
             let mut page_guard = page.write();
 
             // Update dirty flag
@@ -784,23 +827,40 @@ impl BufferPoolManager {
     pub async fn flush_page_async(&self, page_id: PageId) -> Result<(), String> {
         trace!("Flushing page {} to disk", page_id);
 
-        let frame_id = {
-            let page_table = self.page_table.read();
-            *page_table
-                .get(&page_id)
-                .ok_or_else(|| format!("Page {} not found in page table", page_id))?
-        };
+        let page = self
+            .pin_for_flush(page_id)
+            .ok_or_else(|| format!("Page {} not found in page table", page_id))?;
+        let _order = self.flush_latches[page.frame_id as usize].lock().await;
 
-        let page = {
-            let pages = self.pages.read();
-            pages
-                .get(frame_id as usize)
-                .and_then(|p| p.as_ref())
-                .ok_or_else(|| format!("Page {} not found in pages array", page_id))?
-                .clone()
-        };
+        self.write_page_to_disk_async(page_id, &page.page).await
+    }
 
-        self.write_page_to_disk_async(page_id, &page).await
+    /// Pins a page that is in the pool until it has been flushed.
+    fn pin_for_flush(&self, page_id: PageId) -> Option<FlushPin<'_>> {
+        let page = self.pin_resident(page_id, None).ok().flatten()?;
+        let frame_id = self.frame_of(page_id, &page)?;
+        Some(FlushPin {
+            bpm: self,
+            page,
+            frame_id,
+        })
+    }
+
+    /// As `pin_for_flush`, but `None` as well if the page is locked.
+    fn try_pin_for_flush(&self, page_id: PageId) -> Option<FlushPin<'_>> {
+        let page = self.get_page_internal(page_id)?;
+        let frame_id = {
+            let mut page_guard = page.try_write()?;
+            let frame_id = self.frame_of(page_id, &page)?;
+            page_guard.increment_pin_count();
+            self.replacer.write().set_evictable(frame_id, false);
+            frame_id
+        };
+        Some(FlushPin {
+            bpm: self,
+            page,
+            frame_id,
+        })
     }
 
     /// Flushes all pages to disk asynchronously.
@@ -869,23 +929,37 @@ impl BufferPoolManager {
     pub fn delete_page(&self, page_id: PageId) -> Result<(), DeletePageError> {
         trace!("Deleting page {}", page_id);
 
-        let frame_id = self.get_frame_id(page_id)?;
-
-        // Check if page is pinned
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
-            let page_guard = page.read();
-            if page_guard.get_pin_count() > 0 {
+        let _latch = self.frame_latch.lock();
+        let frame_id = {
+            let mut page_table = self.page_table.write();
+            let frame_id = *page_table
+                .get(&page_id)
+                .ok_or(DeletePageError::PageNotFound(page_id))?;
+
+            // Check if page is pinned; one that is locked is in use
+            let page = self.pages.read().get(frame_id as usize).cloned().flatten();
+            let pinned = page.is_some_and(|page| match page.try_read() {
+                Some(page_guard) => page_guard.get_pin_count() > 0,
+                None => true,
+            });
+            if pinned {
                 return Err(DeletePageError::PagePinned(page_id));
             }
-        }
-        drop(pages);
+
+            // Remove from page table
+            page_table.remove(&page_id);
+            self.unsaved.write().remove(&page_id);
+            frame_id
+        };
 
         // Reset the frame
         self.reset_frame(frame_id)?;
 
-        // Remove from page table
-        self.remove_page_from_table(page_id);
+        // Remove from replacer
+        {
+            let replacer = self.replacer.write();
+            replacer.remove(frame_id);
+        }
 
         // Add frame to free list
         {
@@ -893,12 +967,6 @@ impl BufferPoolManager {
             free_list.push(frame_id);
         }
 
-        // Remove from replacer
-        {
-            let replacer = self.replacer.write();
-            replacer.remove(frame_id);
-        }
-
         trace!("Successfully deleted page {}", page_id);
         Ok(())
     }
@@ -926,15 +994,6 @@ impl BufferPoolManager {
     // Private Helper Methods
     // =========================================================================
 
-    /// Looks up the frame ID for a given page ID in the page table.
-    fn get_frame_id(&self, page_id: PageId) -> Result<FrameId, DeletePageError> {
-        let page_table = self.page_table.read();
-        page_table
-            .get(&page_id)
-            .copied()
-            .ok_or(DeletePageError::PageNotFound(page_id))
-    }
-
     /// Removes a page entry from the page table.
     fn remove_page_from_table(&self, page_id: PageId) {
         let mut page_table = self.page_table.write();
@@ -952,55 +1011,44 @@ impl BufferPoolManager {
         }
     }
 
-    /// Evicts the page in the specified frame if it exists and is unpinned.
-    fn evict_page_if_necessary(&self, frame_id: FrameId) {
-        let pages = self.pages.read();
-        if let Some(Some(page)) = pages.get(frame_id as usize) {
-            let page_guard = page.read();
-            let old_page_id = page_guard.get_page_id();
-            let pin_count = page_guard.get_pin_count();
-            drop(page_guard);
-            drop(pages);
+    /// Evicts the page in the specified frame unless it is in use, flushing to disk if dirty.
+    ///
+    /// Returns whether the frame is empty now. The caller holds the frame latch.
+    fn evict_frame(&self, frame_id: FrameId) -> bool {
+        let page = self.pages.read().get(frame_id as usize).cloned().flatten();
+        let Some(page) = page else {
+            return false;
+        };
 
-            if pin_count == 0 {
-                trace!("Evicting page {} from frame {}", old_page_id, frame_id);
-                self.evict_old_page(frame_id, old_page_id);
-            } else {
-                warn!(
-                    "Cannot evict pinned page {} (pin count: {}) from frame {}",
-                    old_page_id, pin_count, frame_id
-                );
+        // Take the page out of the page table, so that nobody can pin it any more. Whoever wants it
+        // back waits for the frame latch, and so for its write.
+        let (page_id, listed, is_dirty) = {
+            let mut page_table = self.page_table.write();
+            let Some(page_guard) = page.try_read() else {
+                return false;
+            };
+            if page_guard.get_pin_count() > 0 {
+                return false;
             }
-        }
-    }
-
-    /// Evicts a page from the specified frame, flushing to disk if dirty.
-    fn evict_old_page(&self, frame_id: FrameId, old_page_id: PageId) {
-        // Check if page is dirty and flush if necessary
-        let page_to_flush = {
-            let pages = self.pages.read();
-            if let Some(Some(page)) = pages.get(frame_id as usize) {
-                let is_dirty = page.read().is_dirty();
-                if is_dirty { Some(page.clone()) } else { None }
-            } else {
-                None
+            let page_id = page_guard.get_page_id();
+            let listed = page_table.get(&page_id) == Some(&frame_id);
+            if listed {
+                page_table.remove(&page_id);
             }
+            self.replacer.write().set_evictable(frame_id, false);
+            let is_dirty = page_guard.is_dirty() || self.unsaved.read().contains(&page_id);
+            (page_id, listed, is_dirty)
         };
 
-        if let Some(page) = page_to_flush {
-            trace!("Flushing dirty page {} before eviction", old_page_id);
-            if let Err(e) = self.write_page_to_disk_sync(old_page_id, &page) {
-                error!(
-                    "Failed to flush page {} during eviction: {}",
-                    old_page_id, e
-                );
+        if listed && is_dirty {
+            trace!("Flushing dirty page {} before eviction", page_id);
+            if let Err(e) = self.write_page_to_disk_sync(page_id, &page) {
+                error!("Failed to flush page {} during eviction: {}", page_id, e);
+                self.page_table.write().insert(page_id, frame_id);
+                return false;
             }
         }
 
-        // Remove from page table
-        self.remove_page_from_table(old_page_id);
-
-        // Reset frame
         if let Err(e) = self.reset_frame(frame_id) {
             error!(
                 "Failed to reset frame {} during eviction: {:?}",
@@ -1010,14 +1058,16 @@ impl BufferPoolManager {
 
         trace!(
             "Successfully evicted page {} from frame {}",
-            old_page_id, frame_id
+            page_id, frame_id
         );
+        true
     }
 
     /// Gets an available frame, either from the free list or by evicting a page.
     ///
     /// This method first checks the free list for unused frames. If none are
-    /// available, it uses the LRU-K replacer to select a victim for eviction.
+    /// available, it uses the LRU-K replacer to select a victim for eviction. The caller holds the
+    /// frame latch.
     fn get_available_frame(&self) -> Option<FrameId> {
         // Try to get a frame from the free list first
         {
@@ -1030,55 +1080,36 @@ impl BufferPoolManager {
 
         // No free frames, try to evict using LRU-K
         trace!("No free frames, attempting eviction");
-        let mut replacer = self.replacer.write();
-
-        // Try multiple eviction attempts if needed
-        for _ in 0..self.pool_size {
-            if let Some(frame_id) = replacer.evict() {
-                trace!("LRU-K replacer selected frame {} for eviction", frame_id);
-
-                // Find the page_id for this frame
-                let page_id = {
-                    let page_table = self.page_table.read();
-                    let mut victim_page_id = None;
-
-                    for (&pid, &fid) in page_table.iter() {
-                        if fid == frame_id {
-                            victim_page_id = Some(pid);
-                            break;
-                        }
-                    }
-
-                    victim_page_id
-                };
-
-                // If we found a page to evict, do it now
-                if let Some(old_page_id) = page_id {
-                    self.evict_old_page(frame_id, old_page_id);
-                }
-
-                return Some(frame_id);
+        let mut found = None;
+        let mut kept = Vec::new();
+        loop {
+            let Some(frame_id) = self.replacer.write().evict() else {
+                break;
+            };
+            trace!("LRU-K replacer selected frame {} for eviction", frame_id);
+            if self.evict_frame(frame_id) {
+                found = Some(frame_id);
+                break;
             }
+            kept.push(frame_id);
+        }
 
-            // If no frames are evictable, try to make some evictable
-            // Find pages with pin count 0 that aren't marked as evictable
-            let pages = self.pages.read();
-            for (i, page_opt) in pages.iter().enumerate() {
-                if let Some(page) = page_opt {
-                    let page_data = page.read();
-                    if page_data.get_pin_count() == 0 {
-                        // Drop read lock before acquiring write lock
-                        drop(page_data);
-
-                        // Set this frame as evictable
-                        replacer.set_evictable(i as FrameId, true);
-                    }
-                }
+        // Frames that could not be evicted now can be later on
+        for frame_id in kept {
+            let page = self.pages.read().get(frame_id as usize).cloned().flatten();
+            let pinned = page.is_some_and(|page| match page.try_read() {
+                Some(page_guard) => page_guard.get_pin_count() > 0,
+                None => false,
+            });
+            if !pinned {
+                self.replacer.write().set_evictable(frame_id, true);
             }
         }
 
-        warn!("No evictable frames found after multiple attempts");
-        None
+        if found.is_none() {
+            warn!("No evictable frames found");
+        }
+        found
     }
 
     /// Allocates and returns the next available page ID atomically.
@@ -1206,6 +1237,7 @@ impl BufferPoolManager {
             data.copy_from_slice(page_guard.get_data());
             data
         };
+        let written = data_buffer.clone();
 
         // PERFORMANCE OPTIMIZATION: Use native async - no more blocking!
         self.disk_manager
@@ -1213,10 +1245,14 @@ impl BufferPoolManager {
             .await
             .map_err(|e| format!("Failed to write page to disk: {}", e))?;
 
-        // Mark page as clean after successful write
+        self.unsaved.write().remove(&page_id);
+
+        // Mark page as clean after successful write, unless it was written to meanwhile
         {
             let mut page_guard = page.write();
-            page_guard.set_dirty(false);
+            if page_guard.get_data()[..] == written[..] {
+                page_guard.set_dirty(false);
+            }
         }
 
         trace!(
@@ -1250,6 +1286,8 @@ impl BufferPoolManager {
 
         result.map_err(|e| format!("Failed to write page to disk: {}", e))?;
 
+        self.unsaved.write().remove(&page_id);
+
         // Mark page as clean after successful write
         {
             let mut page_guard = page.write();
@@ -1296,103 +1334,28 @@ impl BufferPoolManager {
 
         trace!("Loading {} pages in batch", page_ids.len());
 
-        // Check which pages are already in memory
-        let mut in_memory_pages = Vec::new();
-        let mut pages_to_load = Vec::new();
-
-        for page_id in page_ids {
-            if let Some(page) = self.get_page_internal(page_id) {
-                // Verify type and create guard
-                if let Some(guard) = self.create_guard_from_existing::<T>(page_id, page) {
-                    in_memory_pages.push((page_id, Some(guard)));
-                } else {
-                    in_memory_pages.push((page_id, None));
+        // Have the disk manager read the missing pages in batch, so that it has them cached
+        let mut pages_to_load: Vec<PageId> = Vec::new();
+        {
+            let page_table = self.page_table.read();
+            for page_id in &page_ids {
+                if !page_table.contains_key(page_id) && !pages_to_load.contains(page_id) {
+                    pages_to_load.push(*page_id);
                 }
-            } else {
-                pages_to_load.push(page_id);
             }
         }
-
-        // Load missing pages from disk in batch
-        if !pages_to_load.is_empty() {
-            match self
-                .disk_manager
-                .read_pages_batch(pages_to_load.clone())
-                .await
-            {
-                Ok(pages_data) => {
-                    for (page_id, data) in pages_to_load.into_iter().zip(pages_data) {
-                        if let Some(guard) = self.create_page_from_data::<T>(page_id, data) {
-                            // Get frame and update metadata
-                            if let Some(frame_id) = self.get_available_frame() {
-                                self.evict_page_if_necessary(frame_id);
-                                let page_arc = guard.get_page().clone();
-                                self.update_page_metadata(frame_id, page_id, &page_arc);
-                            }
-                            in_memory_pages.push((page_id, Some(guard)));
-                        } else {
-                            in_memory_pages.push((page_id, None));
-                        }
-                    }
-                },
-                Err(e) => {
-                    error!("Failed to load pages in batch: {}", e);
-                    for page_id in pages_to_load {
-                        in_memory_pages.push((page_id, None));
-                    }
-                },
-            }
+        if !pages_to_load.is_empty()
+            && let Err(e) = self.disk_manager.read_pages_batch(pages_to_load).await
+        {
+            error!("Failed to load pages in batch: {}", e);
         }
 
-        // Sort by original order and return
-        in_memory_pages.sort_by_key(|(page_id, _)| *page_id);
-        in_memory_pages
+        page_ids
             .into_iter()
-            .map(|(_, guard)| guard)
+            .map(|page_id| self.pin_or_load::<T>(page_id))
             .collect()
     }
 
-    /// Creates a guard from an existing page in memory
-    fn create_guard_from_existing<T: Page + 'static>(
-        self: &Arc<Self>,
-        page_id: PageId,
-        page: Arc<RwLock<dyn PageTrait>>,
-    ) -> Option<PageGuard<T>> {
-        // Verify page type
-        let actual_type = {
-            let page_read = page.read();
-            let type_byte = page_read.get_data()[PAGE_TYPE_OFFSET];
-            PageType::from_u8(type_byte)
-        };
-
-        if actual_type != Some(T::TYPE_ID) {
-            warn!(
-                "Page type mismatch for page {}: expected {:?}, found {:?}",
-                page_id,
-                T::TYPE_ID,
-                actual_type
-            );
-            return None;
-        }
-
-        // Mark frame as non-evictable while pinned and record access.
-        if let Some(&frame_id) = self.page_table.read().get(&page_id) {
-            let mut replacer = self.replacer.write();
-            replacer.record_access(frame_id, AccessType::Unknown);
-            replacer.set_evictable(frame_id, false);
-        }
-
-        // Create typed page arc
-        let typed_page = unsafe {
-            let raw = Arc::into_raw(page) as *const RwLock<T>;
-            Arc::from_raw(raw)
-        };
-
-        let unpinner: Arc<BufferPoolManager> = Arc::clone(self);
-        let unpinner: Arc<dyn PageUnpinner> = unpinner;
-        Some(PageGuard::new(typed_page, page_id, Some(unpinner)))
-    }
-
     /// Flushes multiple dirty pages to disk in a single batch operation.
     ///
     /// This method collects dirty pages and writes them using the async disk manager's
@@ -1409,61 +1372,78 @@ impl BufferPoolManager {
             max_pages
         );
 
-        // Collect dirty pages
-        let dirty_pages: Vec<(PageId, Vec<u8>)> = {
-            let pages = self.pages.read();
-            pages
-                .iter()
-                .filter_map(|page_opt| {
-                    if let Some(page) = page_opt {
-                        let page_guard = page.read();
-                        if page_guard.is_dirty() {
-                            let page_id = page_guard.get_page_id();
-                            let data = page_guard.get_data().to_vec();
-                            Some((page_id, data))
-                        } else {
-                            None
-                        }
-                    } else {
-                        None
-                    }
-                })
-                .take(max_pages)
-                .collect()
-        };
+        let page_ids: Vec<PageId> = self.page_table.read().keys().copied().collect();
 
-        if dirty_pages.is_empty() {
-            return Ok(0);
+        // Collect dirty pages; one that is locked or being flushed is not waited for here, with
+        // others taken
+        let mut dirty_pages: Vec<(PageId, Vec<u8>)> = Vec::new();
+        let mut taken = Vec::new();
+        let mut busy = Vec::new();
+        for page_id in page_ids {
+            if dirty_pages.len() + busy.len() >= max_pages {
+                break;
+            }
+            let Some(page) = self.get_page_internal(page_id) else {
+                continue;
+            };
+            let Some(is_dirty) = page.try_read().map(|page_guard| page_guard.is_dirty()) else {
+                busy.push(page_id);
+                continue;
+            };
+            if !is_dirty && !self.unsaved.read().contains(&page_id) {
+                continue;
+            }
+            let Some(page) = self.try_pin_for_flush(page_id) else {
+                busy.push(page_id);
+                continue;
+            };
+            let data = match (
+                self.flush_latches[page.frame_id as usize].try_lock(),
+                page.page.try_read(),
+            ) {
+                (Ok(order), Some(page_guard)) => Some((order, page_guard.get_data().to_vec())),
+                _ => None,
+            };
+            match data {
+                Some((order, data)) => {
+                    dirty_pages.push((page_id, data));
+                    taken.push((page, order));
+                },
+                None => busy.push(page_id),
+            }
         }
 
-        // Write in batch using async disk manager
-        let result = self
-            .disk_manager
-            .write_pages_batch(dirty_pages.clone())
-            .await;
-
-        match result {
-            Ok(()) => {
-                // Mark pages as clean
-                let pages = self.pages.read();
-                for (page_id, _) in &dirty_pages {
-                    if let Some(frame_id) = self.page_table.read().get(page_id)
-                        && let Some(Some(page)) = pages.get(*frame_id as usize)
-                    {
-                        page.write().set_dirty(false);
-                    }
-                }
-                trace!(
-                    "Successfully flushed {} dirty pages in batch",
-                    dirty_pages.len()
-                );
-                Ok(dirty_pages.len())
-            },
-            Err(e) => {
+        let mut flushed = dirty_pages.len();
+        if !dirty_pages.is_empty() {
+            // Write in batch using async disk manager
+            if let Err(e) = self
+                .disk_manager
+                .write_pages_batch(dirty_pages.clone())
+                .await
+            {
                 error!("Failed to flush pages in batch: {}", e);
-                Err(format!("Batch flush failed: {}", e))
-            },
+                return Err(format!("Batch flush failed: {}", e));
+            }
+            // Mark pages as clean, unless they were written to meanwhile
+            for ((page, order), (page_id, data)) in taken.into_iter().zip(&dirty_pages) {
+                self.unsaved.write().remove(page_id);
+                if let Some(mut page_guard) = page.page.try_write()
+                    && page_guard.get_data()[..] == data[..]
+                {
+                    page_guard.set_dirty(false);
+                }
+                drop(order);
+            }
+        }
+        for page_id in busy {
+            match self.flush_page_async(page_id).await {
+                Ok(()) => flushed += 1,
+                Err(_) if !self.page_table.read().contains_key(&page_id) => {},
+                Err(e) => return Err(format!("Batch flush failed: {}", e)),
+            }
         }
+        trace!("Successfully flushed {} dirty pages in batch", flushed);
+        Ok(flushed)
     }
 
     // Cache Coordination Management Methods
@@ -1819,6 +1799,26 @@ impl Clone for BufferPoolManager {
             disk_manager: Arc::clone(&self.disk_manager),
             use_disk_manager_cache: self.use_disk_manager_cache,
             bypass_disk_cache_for_pinned: self.bypass_disk_cache_for_pinned,
+            frame_latch: Arc::clone(&self.frame_latch),
+            flush_latches: Arc::clone(&self.flush_latches),
+            unsaved: Arc::clone(&self.unsaved),
+        }
+    }
+}
+
+/// Keeps a page in the pool while it is flushed, without counting as an access to it.
+struct FlushPin<'a> {
+    bpm: &'a BufferPoolManager,
+    page: Arc<RwLock<dyn PageTrait>>,
+    frame_id: FrameId,
+}
+
+impl Drop for FlushPin<'_> {
+    fn drop(&mut self) {
+        let mut page_guard = self.page.write();
+        page_guard.decrement_pin_count();
+        if page_guard.get_pin_count() == 0 {
+            self.bpm.replacer.write().set_evictable(self.frame_id, true);
         }
     }
 }
-- 
2.43.0


From babe444d871501be056421edebd1487d01ed3ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:23 +0000
Subject: [PATCH 15/74] fix: a page stored in the cache replaces every cached
 version of it

The new version went to one tier, or to none when refused, found to be a duplicate or when
a tier was busy, and older versions in other tiers were served. What a read found on disk
is no longer cached over a version stored meanwhile.
---
 .../disk/async_disk/cache/cache_manager.rs    | 83 ++++++++++++++-----
 src/storage/disk/async_disk/cache/fifo.rs     |  7 ++
 src/storage/disk/async_disk/manager.rs        | 13 ++-
 3 files changed, 80 insertions(+), 23 deletions(-)

diff --git a/src/storage/disk/async_disk/cache/cache_manager.rs b/src/storage/disk/async_disk/cache/cache_manager.rs
index 46699b7..c38330f 100644
--- a/src/storage/disk/async_disk/cache/cache_manager.rs
+++ b/src/storage/disk/async_disk/cache/cache_manager.rs
@@ -235,14 +235,14 @@ use std::sync::Arc;
 use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 use std::time::Instant;
 
-use tokio::sync::RwLock;
+use tokio::sync::{RwLock, RwLockWriteGuard};
 
 use super::fifo::FIFOCache;
 use super::lfu::LFUCache;
 use super::lru_k::LRUKCache;
 use crate::common::config::{DB_PAGE_SIZE, PageId};
 use crate::storage::disk::async_disk::cache::cache_traits::{
-    CoreCache, FIFOCacheTrait, LFUCacheTrait, LRUKCacheTrait,
+    CoreCache, FIFOCacheTrait, LFUCacheTrait, LRUKCacheTrait, MutableCache,
 };
 use crate::storage::disk::async_disk::config::DiskManagerConfig;
 use crate::storage::disk::async_disk::metrics::collector::MetricsCollector;
@@ -839,6 +839,9 @@ pub struct CacheManager {
     /// Deduplication engine for detecting and avoiding duplicate page storage.
     dedup_engine: Arc<RwLock<DeduplicationEngine>>,
 
+    /// Number of pages stored by `store_page`.
+    store_epoch: AtomicU64,
+
     /// Count of pages promoted to hotter tiers (cold→warm, warm→hot).
     promotion_count: AtomicU64,
     /// Count of pages evicted or demoted.
@@ -948,6 +951,7 @@ impl CacheManager {
             admission_controller,
             hot_data_tracker,
             dedup_engine,
+            store_epoch: AtomicU64::new(0),
             promotion_count: AtomicU64::new(0),
             demotion_count: AtomicU64::new(0),
             prefetch_accuracy: AtomicU64::new(0),
@@ -1223,6 +1227,49 @@ impl CacheManager {
     /// }
     /// ```
     pub fn store_page(&self, page_id: PageId, data: Vec<u8>) {
+        self.store(page_id, data, None);
+    }
+
+    /// Stores a page that was read from disk, unless a page was stored by [`Self::store_page`]
+    /// since `epoch` was taken: what was read may be older.
+    pub fn store_read_page(&self, page_id: PageId, data: Vec<u8>, epoch: u64) {
+        self.store(page_id, data, Some(epoch));
+    }
+
+    /// Counts the pages stored by [`Self::store_page`]. Taken before a page is read, for
+    /// [`Self::store_read_page`].
+    pub fn store_epoch(&self) -> u64 {
+        self.store_epoch.load(Ordering::SeqCst)
+    }
+
+    /// Takes a tier for an update that must not be skipped. Tiers are held only for a moment.
+    fn lock_tier<T>(tier: &RwLock<T>) -> RwLockWriteGuard<'_, T> {
+        loop {
+            if let Ok(guard) = tier.try_write() {
+                return guard;
+            }
+            std::thread::yield_now();
+        }
+    }
+
+    fn store(&self, page_id: PageId, data: Vec<u8>, read_epoch: Option<u64>) {
+        let mut hot_cache = Self::lock_tier(&self.hot_cache);
+        let mut warm_cache = Self::lock_tier(&self.warm_cache);
+        let mut cold_cache = Self::lock_tier(&self.cold_cache);
+
+        match read_epoch {
+            Some(epoch) if epoch != self.store_epoch() => return,
+            Some(_) => {},
+            None => {
+                self.store_epoch.fetch_add(1, Ordering::SeqCst);
+            },
+        }
+
+        // Whether or not this version is kept, no tier may keep the one it replaces
+        hot_cache.remove(&page_id);
+        warm_cache.remove(&page_id);
+        cold_cache.invalidate(&page_id);
+
         // Check admission controller first
         if !self.should_admit_page(page_id, &data) {
             return;
@@ -1250,13 +1297,11 @@ impl CacheManager {
 
         match temperature {
             DataTemperature::Hot => {
-                if let Ok(mut cache) = self.hot_cache.try_write() {
-                    <LRUKCache<PageId, Arc<Vec<u8>>> as CoreCache<PageId, Arc<Vec<u8>>>>::insert(
-                        &mut cache,
-                        page_id,
-                        Arc::clone(&data_arc),
-                    );
-                }
+                <LRUKCache<PageId, Arc<Vec<u8>>> as CoreCache<PageId, Arc<Vec<u8>>>>::insert(
+                    &mut hot_cache,
+                    page_id,
+                    Arc::clone(&data_arc),
+                );
             },
             DataTemperature::Warm => {
                 let page_data = PageData {
@@ -1265,11 +1310,11 @@ impl CacheManager {
                     access_count: 1,
                     temperature: temperature.clone(),
                 };
-                if let Ok(mut cache) = self.warm_cache.try_write() {
-                    <LFUCache<PageId, PageData> as CoreCache<PageId, PageData>>::insert(
-                        &mut cache, page_id, page_data,
-                    );
-                }
+                <LFUCache<PageId, PageData> as CoreCache<PageId, PageData>>::insert(
+                    &mut warm_cache,
+                    page_id,
+                    page_data,
+                );
             },
             _ => {
                 let page_data = PageData {
@@ -1278,11 +1323,11 @@ impl CacheManager {
                     access_count: 1,
                     temperature: temperature.clone(),
                 };
-                if let Ok(mut cache) = self.cold_cache.try_write() {
-                    <FIFOCache<PageId, PageData> as CoreCache<PageId, PageData>>::insert(
-                        &mut cache, page_id, page_data,
-                    );
-                }
+                <FIFOCache<PageId, PageData> as CoreCache<PageId, PageData>>::insert(
+                    &mut cold_cache,
+                    page_id,
+                    page_data,
+                );
             },
         }
 
diff --git a/src/storage/disk/async_disk/cache/fifo.rs b/src/storage/disk/async_disk/cache/fifo.rs
index 26d229f..6dffaed 100644
--- a/src/storage/disk/async_disk/cache/fifo.rs
+++ b/src/storage/disk/async_disk/cache/fifo.rs
@@ -355,6 +355,13 @@ where
         self.insertion_order.capacity()
     }
 
+    /// Takes a key out of the cache, wherever it is in the queue
+    pub fn invalidate(&mut self, key: &K) -> Option<Arc<V>> {
+        let value = self.cache.remove(key)?;
+        self.insertion_order.retain(|queued| queued.as_ref() != key);
+        Some(value)
+    }
+
     /// Evicts the oldest valid entry from the cache.
     /// Skips over any stale entries (keys that were lazily deleted).
     fn evict_oldest(&mut self) {
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 35dc361..15a1db7 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -431,6 +431,7 @@ impl AsyncDiskManager {
     ) -> IoResult<Vec<u8>> {
         trace!("Reading page: {} with priority: {:?}", page_id, priority);
         let start_time = Instant::now();
+        let epoch = self.cache_manager.store_epoch();
 
         // Try to get page from cache if enabled
         if self.config.cache_size_mb > 0
@@ -467,11 +468,11 @@ impl AsyncDiskManager {
 
         // Use scheduler if work-stealing is enabled
         if self.config.work_stealing_enabled {
-            self.schedule_read_operation(page_id, priority, start_time)
+            self.schedule_read_operation(page_id, epoch, priority, start_time)
                 .await
         } else {
             // Direct read without scheduling
-            self.direct_read_operation(page_id, start_time).await
+            self.direct_read_operation(page_id, epoch, start_time).await
         }
     }
 
@@ -521,6 +522,7 @@ impl AsyncDiskManager {
     async fn schedule_read_operation(
         &self,
         page_id: PageId,
+        epoch: u64,
         priority: IOPriority,
         start_time: Instant,
     ) -> IoResult<Vec<u8>> {
@@ -560,7 +562,8 @@ impl AsyncDiskManager {
                 // Store in cache for future reads if caching is enabled
                 if self.config.cache_size_mb > 0 {
                     trace!("Storing page {} in cache", page_id);
-                    self.cache_manager.store_page(page_id, data.clone());
+                    self.cache_manager
+                        .store_read_page(page_id, data.clone(), epoch);
                 }
 
                 Ok(data)
@@ -580,6 +583,7 @@ impl AsyncDiskManager {
     async fn direct_read_operation(
         &self,
         page_id: PageId,
+        epoch: u64,
         start_time: Instant,
     ) -> IoResult<Vec<u8>> {
         let data = self.io_engine.read().await.read_page(page_id).await?;
@@ -599,7 +603,8 @@ impl AsyncDiskManager {
         // Store in cache for future reads if caching is enabled
         if self.config.cache_size_mb > 0 {
             trace!("Storing page {} in cache", page_id);
-            self.cache_manager.store_page(page_id, data.clone());
+            self.cache_manager
+                .store_read_page(page_id, data.clone(), epoch);
         }
 
         Ok(data)
-- 
2.43.0


From cb4f8eccfdc12214846abd412b1443f41fcf2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 16/74] fix: a heap LFU cache of capacity 0 holds nothing

---
 src/storage/disk/async_disk/cache/heap_lfu.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storage/disk/async_disk/cache/heap_lfu.rs b/src/storage/disk/async_disk/cache/heap_lfu.rs
index c621f22..153f069 100644
--- a/src/storage/disk/async_disk/cache/heap_lfu.rs
+++ b/src/storage/disk/async_disk/cache/heap_lfu.rs
@@ -375,6 +375,10 @@ where
             return Some(std::mem::replace(old_value, value));
         }
 
+        if self.capacity == 0 {
+            return None;
+        }
+
         // Ensure we have capacity (may evict LFU item)
         self.ensure_capacity();
 
-- 
2.43.0


From 6f89a12679eaa8743bdd807ab484b7994d0f9dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:50 +0000
Subject: [PATCH 17/74] fix: subscribe to completions before checking for them
 so that none is missed

---
 src/storage/disk/async_disk/io/completion.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage/disk/async_disk/io/completion.rs b/src/storage/disk/async_disk/io/completion.rs
index 5005114..3a52d42 100644
--- a/src/storage/disk/async_disk/io/completion.rs
+++ b/src/storage/disk/async_disk/io/completion.rs
@@ -548,6 +548,9 @@ impl CompletionTracker {
         op_id: OperationId,
         wait_timeout: Duration,
     ) -> Result<OperationResult, String> {
+        // Subscribe before looking at the status, so that a completion in between is not missed
+        let mut event_receiver = self.event_sender.subscribe();
+
         // First check if the operation is already completed
         {
             let operations = self.operations.read().await;
@@ -567,9 +570,6 @@ impl CompletionTracker {
             }
         }
 
-        // Subscribe to operation completion events
-        let mut event_receiver = self.event_sender.subscribe();
-
         // Use tokio::select to wait for either the operation completion or timeout
         tokio::select! {
             // Wait for operation completion event
@@ -805,6 +805,9 @@ impl CompletionTracker {
             return Ok(Vec::new());
         }
 
+        // Subscribe before looking at the statuses, so that a completion in between is not missed
+        let mut event_receiver = self.event_sender.subscribe();
+
         let mut results = Vec::new();
         let mut remaining_ids: std::collections::HashSet<OperationId> =
             op_ids.iter().copied().collect();
@@ -839,9 +842,6 @@ impl CompletionTracker {
             return Ok(results);
         }
 
-        // Subscribe to events for remaining operations
-        let mut event_receiver = self.event_sender.subscribe();
-
         tokio::select! {
             // Wait for all remaining operations
             _ = async {
-- 
2.43.0


From e17ae758e407c49555c7307514a652811aa22d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:50 +0000
Subject: [PATCH 18/74] fix: shrink the staged size when a page is staged again
 with less data

---
 .../disk/async_disk/memory/write_staging_buffer.rs     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/storage/disk/async_disk/memory/write_staging_buffer.rs b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
index bba77be..be02291 100644
--- a/src/storage/disk/async_disk/memory/write_staging_buffer.rs
+++ b/src/storage/disk/async_disk/memory/write_staging_buffer.rs
@@ -89,7 +89,7 @@
 //!   ┌────────────────────────────────────────────────────────────────────────┐
 //!   │ Step 2: CAPACITY CHECK                                                 │
 //!   │                                                                        │
-//!   │   current_size + size_delta > max_buffer_size?                         │
+//!   │   current_size - old_size + new_size > max_buffer_size?                │
 //!   │        │                                                               │
 //!   │        ├── Yes: Return Ok(false) ← Backpressure signal                 │
 //!   │        │                                                               │
@@ -106,7 +106,7 @@
 //!   │        │                                                               │
 //!   │        └── Existing page: dirty_pages unchanged (overwrite)            │
 //!   │                                                                        │
-//!   │   buffer_size_bytes += size_delta                                      │
+//!   │   buffer_size_bytes += new_size - old_size                             │
 //!   │   Return Ok(true) ← Successfully buffered                              │
 //!   └────────────────────────────────────────────────────────────────────────┘
 //! ```
@@ -306,11 +306,11 @@ impl WriteStagingBuffer {
             .map(|d| d.len())
             .unwrap_or(0);
         let new_size = final_data.len();
-        let size_delta = new_size.saturating_sub(old_size);
 
         // Check if adding this write would exceed buffer capacity
         let current_size = self.buffer.buffer_size_bytes.load(Ordering::Relaxed);
-        if current_size + size_delta > self.buffer.max_buffer_size {
+        let staged_size = current_size - old_size + new_size;
+        if staged_size > self.buffer.max_buffer_size {
             return Ok(false); // Buffer full, needs flush
         }
 
@@ -319,7 +319,7 @@ impl WriteStagingBuffer {
         self.buffer.buffer.insert(page_id, final_data);
         self.buffer
             .buffer_size_bytes
-            .fetch_add(size_delta, Ordering::Relaxed);
+            .store(staged_size, Ordering::Relaxed);
 
         if was_new {
             self.buffer.dirty_pages.fetch_add(1, Ordering::Relaxed);
-- 
2.43.0


From 51207e1e95d4bfea6ab2e3f080c2eb31b317f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 19/74] fix: store uncompressed data so that decompression
 restores it

---
 src/storage/disk/async_disk/compression.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/storage/disk/async_disk/compression.rs b/src/storage/disk/async_disk/compression.rs
index 2b6e05f..526e0ca 100644
--- a/src/storage/disk/async_disk/compression.rs
+++ b/src/storage/disk/async_disk/compression.rs
@@ -65,7 +65,7 @@ impl CompressionEngine {
         let original_size = data.len() as u64;
 
         let compressed = match algorithm {
-            CompressionAlgorithm::None => data.to_vec(),
+            CompressionAlgorithm::None => self.store_uncompressed(data),
             CompressionAlgorithm::LZ4 => self.compress_lz4(data),
             CompressionAlgorithm::Zstd => self.compress_zstd(data, level),
         };
@@ -83,6 +83,20 @@ impl CompressionEngine {
         compressed
     }
 
+    /// Stores data as it is, except for what decompression would read as something else: a leading
+    /// magic byte becomes a run of one, and every 0xFF is escaped
+    fn store_uncompressed(&self, data: &[u8]) -> Vec<u8> {
+        let mut result = Vec::with_capacity(data.len());
+        for (i, &byte) in data.iter().enumerate() {
+            match byte {
+                MAGIC_LZ4 | MAGIC_ZSTD if i == 0 => result.extend_from_slice(&[0xFF, 0x01, byte]),
+                0xFF => result.extend_from_slice(&[0xFF, 0x00]),
+                _ => result.push(byte),
+            }
+        }
+        result
+    }
+
     /// LZ4 compression for high-speed compression
     fn compress_lz4(&self, data: &[u8]) -> Vec<u8> {
         if data.is_empty() {
-- 
2.43.0


From 945767ef74a5a55b370dfb494807a85f55223adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:31 +0000
Subject: [PATCH 20/74] fix: a buffer pool on an existing file knows its pages
 and does not reuse their ids

---
 src/buffer/buffer_pool_manager_async.rs |  2 +-
 src/storage/disk/async_disk/manager.rs  | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/buffer/buffer_pool_manager_async.rs b/src/buffer/buffer_pool_manager_async.rs
index 47e7eba..47535b4 100644
--- a/src/buffer/buffer_pool_manager_async.rs
+++ b/src/buffer/buffer_pool_manager_async.rs
@@ -339,7 +339,7 @@ impl BufferPoolManager {
 
         Ok(Self {
             pool_size,
-            next_page_id: AtomicU64::new(0),
+            next_page_id: AtomicU64::new(disk_manager.pages_at_open()),
             pages: Arc::new(RwLock::new(vec![None; pool_size])),
             page_table: Arc::new(RwLock::new(HashMap::new())),
             replacer,
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 15a1db7..050664a 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -291,6 +291,9 @@ pub struct AsyncDiskManager {
     /// Held from draining the write buffer until its pages are on disk, so that an older version
     /// of a page never reaches the disk or the cache after a newer one
     flush_order: Mutex<()>,
+
+    /// Number of pages the database file held when it was opened
+    pages_at_open: u64,
 }
 
 impl DurabilityProvider for AsyncDiskManager {
@@ -344,6 +347,7 @@ impl AsyncDiskManager {
             true,
             &db_direct_io_config,
         )?;
+        let pages_at_open = db_file_std.metadata()?.len().div_ceil(DB_PAGE_SIZE);
         let db_file = Arc::new(Mutex::new(File::from_std(db_file_std)));
 
         debug!(
@@ -406,6 +410,7 @@ impl AsyncDiskManager {
             is_shutting_down: Arc::new(AtomicBool::new(false)),
             background_tasks: Mutex::new(Vec::new()),
             flush_order: Mutex::new(()),
+            pages_at_open,
         };
 
         info!(
@@ -1428,6 +1433,11 @@ impl AsyncDiskManager {
         &self.config
     }
 
+    /// Returns the number of pages the database file held when it was opened
+    pub fn pages_at_open(&self) -> u64 {
+        self.pages_at_open
+    }
+
     /// Gets the current size of the database file in bytes
     pub async fn get_db_file_size(&self) -> IoResult<u64> {
         debug!("Getting database file size");
-- 
2.43.0


From b607fd0e6b7b712387b13a731b6bf4486172418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:31 +0000
Subject: [PATCH 21/74] fix: stop flushing the log after a failed flush so that
 no record after a gap counts as persistent

---
 src/recovery/log_manager.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index fc85bc8..758423c 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -324,8 +324,12 @@ impl LogManager {
                 }
 
                 if !records_to_flush.is_empty() {
-                    Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
-                        .await;
+                    // Records after a gap must not be taken for persistent
+                    if !Self::perform_flush(&state, records_to_flush, max_lsn_in_batch, "periodic")
+                        .await
+                    {
+                        return;
+                    }
                 }
             }
 
@@ -370,9 +374,9 @@ impl LogManager {
         records: Vec<Arc<LogRecord>>,
         max_lsn: Lsn,
         flush_reason: &str,
-    ) {
+    ) -> bool {
         if records.is_empty() {
-            return;
+            return true;
         }
 
         let disk_manager = Arc::clone(&state.disk_manager);
@@ -397,6 +401,7 @@ impl LogManager {
                         flush_reason, max_lsn
                     );
                 }
+                true
             },
             Err(e) => {
                 error!(
@@ -406,6 +411,7 @@ impl LogManager {
                 // Fail closed: stop the flush thread to avoid giving a false durability signal.
                 // Callers waiting on commit will notice stop_flag and stop waiting.
                 state.stop_flag.store(true, Ordering::SeqCst);
+                false
             },
         }
     }
-- 
2.43.0


From 5ba3a682223ad31047b0e524373a27dfadd423fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:31 +0000
Subject: [PATCH 22/74] fix: recovery repeats rollbacks, keeps committed tuples
 and continues the LSNs of the log

---
 src/recovery/log_manager.rs  |  11 +++
 src/recovery/log_recovery.rs | 133 ++++++++++++++++++++++++++++-------
 2 files changed, 117 insertions(+), 27 deletions(-)

diff --git a/src/recovery/log_manager.rs b/src/recovery/log_manager.rs
index 758423c..99488a4 100644
--- a/src/recovery/log_manager.rs
+++ b/src/recovery/log_manager.rs
@@ -537,6 +537,17 @@ impl LogManager {
         lsn
     }
 
+    /// Continues the numbering of log records after those found in the log
+    ///
+    /// # Parameters
+    /// - `lsn`: The highest LSN in the log
+    pub fn resume_after(&mut self, lsn: Lsn) {
+        self.state.next_lsn.fetch_max(lsn + 1, Ordering::SeqCst);
+        if self.get_persistent_lsn() == INVALID_LSN || self.get_persistent_lsn() < lsn {
+            self.set_persistent_lsn(lsn);
+        }
+    }
+
     /// Sets the persistent log sequence number (LSN).
     ///
     /// # Parameters
diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index 6155949..c334ec7 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -348,11 +348,6 @@ impl LogRecoveryManager {
         // Phase 3: Undo - rollback uncommitted transactions
         self.undo_log(&txn_table).await?;
 
-        // Update the log manager's persistent LSN
-        let mut log_manager = self.log_manager.write();
-        let lsn = log_manager.get_next_lsn();
-        log_manager.set_persistent_lsn(lsn);
-
         info!("Database recovery completed successfully");
         Ok(())
     }
@@ -370,6 +365,7 @@ impl LogRecoveryManager {
         let mut txn_table = TxnTable::new();
         let mut dirty_page_table = DirtyPageTable::new();
         let mut start_redo_lsn = INVALID_LSN;
+        let mut max_lsn = None;
 
         // Create a log iterator to safely read through the log
         let mut log_iterator = LogIterator::new(self.disk_manager.clone());
@@ -378,6 +374,7 @@ impl LogRecoveryManager {
         while let Some(log_record) = log_iterator.next().await {
             let lsn = log_record.get_lsn();
             let txn_id = log_record.get_txn_id();
+            max_lsn = max_lsn.max(Some(lsn));
 
             // Initialize start_redo_lsn on first record
             if start_redo_lsn == INVALID_LSN {
@@ -424,6 +421,11 @@ impl LogRecoveryManager {
             }
         }
 
+        // New records are numbered after those in the log
+        if let Some(lsn) = max_lsn {
+            self.log_manager.write().resume_after(lsn);
+        }
+
         debug!(
             "Analysis complete: {} active txns, {} dirty pages, start redo LSN: {}",
             txn_table.get_active_txns().len(),
@@ -454,6 +456,9 @@ impl LogRecoveryManager {
         // Create a log iterator to safely read through the log
         let mut log_iterator = LogIterator::new(self.disk_manager.clone());
 
+        // Changes of transactions whose outcome has not been reached yet
+        let mut changes: HashMap<TxnId, Vec<LogRecord>> = HashMap::new();
+
         // Process each log record
         while let Some(log_record) = log_iterator.next().await {
             let lsn = log_record.get_lsn();
@@ -491,6 +496,26 @@ impl LogRecoveryManager {
                 debug!("Redoing operation at LSN {}", lsn);
                 self.redo_record(&log_record)?;
             }
+
+            // Repeat what happened when the transaction ended: a rollback logs no records of its
+            // own, and later transactions may have changed the same tuples
+            let txn_id = log_record.get_txn_id();
+            match log_record.get_log_record_type() {
+                LogRecordType::Commit => {
+                    for change in changes.remove(&txn_id).unwrap_or_default() {
+                        self.redo_commit(&change);
+                    }
+                },
+                LogRecordType::Abort => {
+                    for change in changes.remove(&txn_id).unwrap_or_default().iter().rev() {
+                        self.undo_record(change)?;
+                    }
+                },
+                LogRecordType::Begin => {
+                    changes.remove(&txn_id);
+                },
+                _ => changes.entry(txn_id).or_default().push(log_record),
+            }
         }
 
         info!("Redo phase complete");
@@ -539,22 +564,7 @@ impl LogRecoveryManager {
                                     debug!("Reached BEGIN record for transaction {}", txn_id);
                                     break;
                                 },
-                                LogRecordType::Insert => {
-                                    // Undo insert by deleting
-                                    self.undo_insert(&log_record)?;
-                                },
-                                LogRecordType::Update => {
-                                    // Undo update by restoring old value
-                                    self.undo_update(&log_record)?;
-                                },
-                                LogRecordType::MarkDelete => {
-                                    // Undo delete by restoring tuple
-                                    self.undo_delete(&log_record)?;
-                                },
-                                LogRecordType::NewPage => {
-                                    // Don't need to undo new page creation
-                                },
-                                _ => {}, // Ignore other record types for undo
+                                _ => self.undo_record(&log_record)?,
                             }
 
                             // Move to previous LSN
@@ -574,9 +584,17 @@ impl LogRecoveryManager {
                 }
             }
 
-            // Write an ABORT record for this transaction
+            // Write an ABORT record for this transaction, so that it is not undone again after
+            // later transactions have changed the same tuples
             debug!("Writing ABORT record for transaction {}", txn_id);
-            // In a real implementation, we would create and append an actual ABORT record
+            let abort_record = LogRecord::new_transaction_record(
+                txn_id,
+                txn_table.get_prev_lsn(txn_id).unwrap_or(INVALID_LSN),
+                LogRecordType::Abort,
+            );
+            self.log_manager
+                .write()
+                .append_log_record(Arc::new(abort_record));
         }
 
         info!("Undo phase complete");
@@ -649,7 +667,12 @@ impl LogRecoveryManager {
                         let mut page = page_guard.write();
                         let meta = TupleMeta::new(record.get_txn_id());
                         if let Some(tuple) = record.get_insert_tuple() {
-                            let _ = page.insert_tuple_with_rid(&meta, tuple, *rid);
+                            // The page may have reached the disk with the tuple in it
+                            if rid.get_slot_num() < u32::from(page.get_num_tuples()) {
+                                let _ = page.update_tuple(meta, tuple, *rid);
+                            } else {
+                                let _ = page.insert_tuple_with_rid(&meta, tuple, *rid);
+                            }
                             page.set_dirty(true);
                         }
                     }
@@ -698,11 +721,28 @@ impl LogRecoveryManager {
                     }
                 }
             },
+            LogRecordType::RollbackDelete => {
+                if let Some(rid) = record.get_delete_rid() {
+                    debug!("Redoing ROLLBACK_DELETE for RID {:?}", rid);
+                    if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
+                        let mut page = page_guard.write();
+                        if let Ok((mut meta, tuple)) = page.get_tuple(rid, true) {
+                            meta.set_deleted(false);
+                            let _ = page.update_tuple(meta, &tuple, *rid);
+                            page.set_dirty(true);
+                        }
+                    }
+                }
+            },
             LogRecordType::NewPage => {
                 if let Some(page_id) = record.get_page_id() {
                     debug!("Redoing NEW_PAGE for page {}", page_id);
-                    if self.bpm.fetch_page::<TablePage>(*page_id).is_none() {
-                        let _ = self.bpm.new_page::<TablePage>();
+                    // Pages before this one may be missing too
+                    while self.bpm.fetch_page::<TablePage>(*page_id).is_none() {
+                        match self.bpm.new_page::<TablePage>() {
+                            Some(page_guard) if page_guard.get_page_id() < *page_id => {},
+                            _ => break,
+                        }
                     }
                 }
             },
@@ -711,6 +751,43 @@ impl LogRecoveryManager {
         Ok(())
     }
 
+    /// Marks the tuple changed by a record of a committed transaction as committed, since before
+    /// every transaction that begins after recovery
+    ///
+    /// # Parameters
+    /// - `record`: The log record of the change
+    fn redo_commit(&self, record: &LogRecord) {
+        let rid = record
+            .get_insert_rid()
+            .or(record.get_update_rid())
+            .or(record.get_delete_rid());
+        if let Some(rid) = rid
+            && let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id())
+        {
+            let mut page = page_guard.write();
+            if let Ok((mut meta, _)) = page.get_tuple(rid, true)
+                && !meta.is_committed()
+            {
+                meta.set_commit_timestamp(0);
+                let _ = page.update_tuple_meta(meta, rid);
+                page.set_dirty(true);
+            }
+        }
+    }
+
+    /// Undo a single log record
+    ///
+    /// # Parameters
+    /// - `record`: The log record to undo
+    fn undo_record(&self, record: &LogRecord) -> Result<(), String> {
+        match record.get_log_record_type() {
+            LogRecordType::Insert => self.undo_insert(record),
+            LogRecordType::Update => self.undo_update(record),
+            LogRecordType::MarkDelete => self.undo_delete(record),
+            _ => Ok(()), // Other record types need no undo
+        }
+    }
+
     /// Undo an insert operation
     ///
     /// # Parameters
@@ -742,7 +819,8 @@ impl LogRecoveryManager {
             if let Some(page_guard) = self.bpm.fetch_page::<TablePage>(rid.get_page_id()) {
                 let mut page = page_guard.write();
                 if let Some(original) = record.get_original_tuple() {
-                    let meta = TupleMeta::new(record.get_txn_id());
+                    let mut meta = TupleMeta::new(record.get_txn_id());
+                    meta.set_commit_timestamp(0);
                     let _ = page.update_tuple(meta, original, *rid);
                     page.set_dirty(true);
                 }
@@ -763,6 +841,7 @@ impl LogRecoveryManager {
                 if let Some(tuple) = record.get_delete_tuple() {
                     let mut meta = TupleMeta::new(record.get_txn_id());
                     meta.set_deleted(false);
+                    meta.set_commit_timestamp(0);
                     let _ = page.update_tuple(meta, tuple, *rid);
                     page.set_dirty(true);
                 }
-- 
2.43.0


From 8bef133206c457ced119e69fe557a013636f8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:39 +0000
Subject: [PATCH 23/74] fix: recovery cuts a torn record off the log, which hid
 the records appended after it

---
 src/recovery/log_recovery.rs              | 8 ++++++++
 src/storage/disk/async_disk/io/io_impl.rs | 7 +++++++
 src/storage/disk/async_disk/manager.rs    | 5 +++++
 3 files changed, 20 insertions(+)

diff --git a/src/recovery/log_recovery.rs b/src/recovery/log_recovery.rs
index c334ec7..b29b157 100644
--- a/src/recovery/log_recovery.rs
+++ b/src/recovery/log_recovery.rs
@@ -366,6 +366,7 @@ impl LogRecoveryManager {
         let mut dirty_page_table = DirtyPageTable::new();
         let mut start_redo_lsn = INVALID_LSN;
         let mut max_lsn = None;
+        let mut log_end = 0;
 
         // Create a log iterator to safely read through the log
         let mut log_iterator = LogIterator::new(self.disk_manager.clone());
@@ -375,6 +376,7 @@ impl LogRecoveryManager {
             let lsn = log_record.get_lsn();
             let txn_id = log_record.get_txn_id();
             max_lsn = max_lsn.max(Some(lsn));
+            log_end = log_iterator.get_offset();
 
             // Initialize start_redo_lsn on first record
             if start_redo_lsn == INVALID_LSN {
@@ -421,6 +423,12 @@ impl LogRecoveryManager {
             }
         }
 
+        // What follows the last record was torn by a crash and would hide records appended to it
+        self.disk_manager
+            .truncate_log(log_end)
+            .await
+            .map_err(|e| format!("Failed to truncate the log: {e}"))?;
+
         // New records are numbered after those in the log
         if let Some(lsn) = max_lsn {
             self.log_manager.write().resume_after(lsn);
diff --git a/src/storage/disk/async_disk/io/io_impl.rs b/src/storage/disk/async_disk/io/io_impl.rs
index 1773e43..7a4ab11 100644
--- a/src/storage/disk/async_disk/io/io_impl.rs
+++ b/src/storage/disk/async_disk/io/io_impl.rs
@@ -466,6 +466,13 @@ impl AsyncIOEngine {
         Ok(u64::from_le_bytes(offset_bytes))
     }
 
+    /// Cuts the log file off at `size`, so that the next record appended follows there
+    pub async fn truncate_log(&self, size: u64) -> IoResult<()> {
+        let log_file = self.executor.log_file();
+        let file = log_file.lock().await;
+        file.set_len(size).await
+    }
+
     /// Syncs the WAL/log file by executing directly on the caller task.
     ///
     /// This bypasses the queue/worker pipeline for the same reason as `append_log_direct`:
diff --git a/src/storage/disk/async_disk/manager.rs b/src/storage/disk/async_disk/manager.rs
index 050664a..f76f6d7 100644
--- a/src/storage/disk/async_disk/manager.rs
+++ b/src/storage/disk/async_disk/manager.rs
@@ -1428,6 +1428,11 @@ impl AsyncDiskManager {
         Ok(offset)
     }
 
+    /// Cuts the log off at `size`, so that the next record appended follows there
+    pub async fn truncate_log(&self, size: u64) -> IoResult<()> {
+        self.io_engine.read().await.truncate_log(size).await
+    }
+
     /// Gets configuration information
     pub fn get_config(&self) -> &DiskManagerConfig {
         &self.config
-- 
2.43.0


From ac782addee93f7df7f6735958da0531656df8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 24/74] fix: lock manager grants, upgrades, releases and
 waits-for edges

Releasing a lock somebody waited for locked the queue against itself, an
upgrade from IS or IX looked only at one holder and gave up the lock it
held while it waited, a downgrade lost the stronger lock, a repeated
request left a second entry behind, force_release left requests in the
queue, row locks were recorded under the page id, and edges of requests
that no longer waited produced deadlocks that were none.
---
 src/concurrency/lock_manager.rs | 428 ++++++++++++++------------------
 1 file changed, 189 insertions(+), 239 deletions(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index 3b0d102..b14f902 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -263,6 +263,8 @@ pub struct LockStateManager {
     row_locks: Mutex<HashMap<RID, Arc<Mutex<LockRequestQueue>>>>,
     /// Maps transaction ID to its current lock holdings.
     txn_lock_sets: Mutex<HashMap<TxnId, TxnLockState>>,
+    /// Waits-for graph, shared with the deadlock detector.
+    waits_for: Arc<Mutex<HashMap<TxnId, Vec<TxnId>>>>,
 }
 
 /// Validates lock requests against isolation level and transaction state rules.
@@ -381,101 +383,58 @@ impl LockRequestQueue {
 
     /// Checks if a new lock request is compatible with existing granted locks.
     pub fn compatible_with_existing_locks(&self, request: &LockRequest) -> bool {
-        let txn_id = request.get_txn_id();
-        let new_mode = request.get_lock_mode();
+        self.is_compatible(request.get_txn_id(), request.get_lock_mode())
+    }
 
-        // If there's an upgrading transaction, no other locks can be granted
+    /// Checks if a lock mode is compatible with the locks granted to other transactions.
+    fn is_compatible(&self, txn_id: TxnId, lock_mode: LockMode) -> bool {
+        // If there's an ongoing upgrade by another transaction, deny new locks
         if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
             return false;
         }
 
-        // Check existing locks by this transaction
-        let has_lock = false;
-        for existing_req in &self.request_queue {
+        self.request_queue.iter().all(|existing_req| {
             let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                //has_lock = true;
-                // Check if this is a valid lock upgrade
-                return match (existing.get_lock_mode(), new_mode) {
-                    // IS -> [S, X, IX, SIX]
-                    (LockMode::IntentionShared, _) => true,
-                    // S -> [X, SIX]
-                    (
-                        LockMode::Shared,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // IX -> [X, SIX]
-                    (
-                        LockMode::IntentionExclusive,
-                        LockMode::Exclusive | LockMode::SharedIntentionExclusive,
-                    ) => true,
-                    // SIX -> [X]
-                    (LockMode::SharedIntentionExclusive, LockMode::Exclusive) => true,
-                    // Same mode - already granted
-                    (mode1, mode2) if mode1 == mode2 => true,
-                    // Invalid upgrade
-                    _ => false,
-                };
-            }
-        }
-
-        // If this transaction doesn't have a lock yet, check compatibility with all granted locks
-        if !has_lock {
-            for existing_req in &self.request_queue {
-                let existing = existing_req.lock();
-                if existing.is_granted()
-                    && !LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), new_mode)
-                {
-                    return false;
-                }
-            }
-        }
-        true
+            !existing.is_granted()
+                || existing.get_txn_id() == txn_id
+                || LockCompatibilityChecker::are_compatible(existing.get_lock_mode(), lock_mode)
+        })
     }
 
     /// Attempts to grant a lock request.
+    ///
+    /// An upgrade is granted beside the locks the transaction holds already; while it waits, the
+    /// transaction keeps them.
     pub fn grant_lock(&mut self, request: Arc<Mutex<LockRequest>>) -> bool {
         let txn_id = request.lock().get_txn_id();
         let lock_mode = request.lock().get_lock_mode();
 
-        // Check for existing locks by this transaction
-        let mut existing_lock = None;
+        // Check for existing locks and requests of this transaction
+        let mut holds_lock = false;
+        let mut waiting = None;
         for (i, existing_req) in self.request_queue.iter().enumerate() {
             let existing = existing_req.lock();
-            if existing.is_granted() && existing.get_txn_id() == txn_id {
-                if existing.get_lock_mode() == lock_mode {
+            if existing.get_txn_id() == txn_id {
+                if !existing.is_granted() {
+                    waiting = Some(i);
+                } else if existing.get_lock_mode().covers(lock_mode) {
                     return true; // Already have this lock
+                } else {
+                    holds_lock = true;
                 }
-                existing_lock = Some((i, existing.get_lock_mode()));
-                break;
             }
         }
 
-        // Handle lock upgrade if needed
-        if let Some((i, old_mode)) = existing_lock {
-            // Check if upgrade is allowed
-            match (old_mode, lock_mode) {
-                // Keep both locks for valid combinations
-                (LockMode::IntentionShared, LockMode::Shared)
-                | (LockMode::IntentionExclusive, LockMode::Exclusive) => {
-                    // Don't remove the intention lock, just add the new lock
-                },
-                // For other upgrades, remove the old lock
-                _ => {
-                    if self.upgrading != INVALID_TXN_ID && self.upgrading != txn_id {
-                        return false; // Another transaction is upgrading
-                    }
-                    self.upgrading = txn_id;
-                    self.request_queue.remove(i);
-                },
-            }
+        // A transaction waits for one lock at a time
+        if let Some(i) = waiting {
+            self.request_queue.remove(i);
         }
 
         // Check compatibility with existing locks
-        if self.compatible_with_existing_locks(&request.lock()) {
+        if self.is_compatible(txn_id, lock_mode) {
             // Grant the new lock
-            self.request_queue.push_back(request.clone());
             request.lock().granted = true;
+            self.request_queue.push_back(request);
             if self.upgrading == txn_id {
                 self.upgrading = INVALID_TXN_ID;
             }
@@ -484,9 +443,65 @@ impl LockRequestQueue {
         }
 
         // Add request to queue but don't grant it yet
+        if holds_lock && self.upgrading == INVALID_TXN_ID {
+            self.upgrading = txn_id;
+        }
         self.request_queue.push_back(request);
         false
     }
+
+    /// Removes the locks and requests of a transaction.
+    fn remove_txn(&mut self, txn_id: TxnId) {
+        self.request_queue
+            .retain(|req| req.lock().get_txn_id() != txn_id);
+        if self.upgrading == txn_id {
+            self.upgrading = INVALID_TXN_ID;
+        }
+    }
+
+    /// Grants the waiting requests that have become compatible and returns their transactions.
+    fn grant_waiting(&mut self) -> Vec<TxnId> {
+        let mut granted = Vec::new();
+        for i in 0..self.request_queue.len() {
+            let (txn_id, lock_mode, is_granted) = {
+                let request = self.request_queue[i].lock();
+                (request.txn_id, request.lock_mode, request.granted)
+            };
+            if !is_granted && self.is_compatible(txn_id, lock_mode) {
+                self.request_queue[i].lock().granted = true;
+                if self.upgrading == txn_id {
+                    self.upgrading = INVALID_TXN_ID;
+                }
+                granted.push(txn_id);
+            }
+        }
+        self.cv.notify_all();
+        granted
+    }
+
+    /// Transactions with locks granted, other than `txn_id`.
+    fn other_holders(&self, txn_id: TxnId) -> Vec<TxnId> {
+        self.request_queue
+            .iter()
+            .map(|req| req.lock())
+            .filter(|req| req.is_granted() && req.get_txn_id() != txn_id)
+            .map(|req| req.get_txn_id())
+            .collect()
+    }
+}
+
+impl LockMode {
+    /// Whether holding this mode makes `other` needless.
+    fn covers(self, other: LockMode) -> bool {
+        use LockMode::*;
+        match self {
+            Exclusive => true,
+            SharedIntentionExclusive => other != Exclusive,
+            Shared => matches!(other, Shared | IntentionShared),
+            IntentionExclusive => matches!(other, IntentionExclusive | IntentionShared),
+            IntentionShared => other == IntentionShared,
+        }
+    }
 }
 
 impl Default for DeadlockDetector {
@@ -641,6 +656,24 @@ impl LockStateManager {
             table_lock_map: Mutex::new(HashMap::new()),
             row_locks: Mutex::new(HashMap::new()),
             txn_lock_sets: Mutex::new(HashMap::new()),
+            waits_for: Arc::new(Mutex::new(HashMap::new())),
+        }
+    }
+
+    /// Brings the waits-for graph up to date with a queue, in which `granted` were granted locks.
+    fn update_waits(&self, queue: &LockRequestQueue, granted: &[TxnId]) {
+        let mut waits_for = self.waits_for.lock();
+        for txn_id in granted {
+            waits_for.remove(txn_id);
+        }
+        for request in &queue.request_queue {
+            let (txn_id, is_granted) = {
+                let request = request.lock();
+                (request.txn_id, request.granted)
+            };
+            if !is_granted {
+                waits_for.insert(txn_id, queue.other_holders(txn_id));
+            }
         }
     }
 
@@ -669,6 +702,9 @@ impl LockStateManager {
                 row_locks: HashSet::new(),
             });
             lock_state.table_locks.insert(oid);
+            self.update_waits(&queue_guard, &[txn_id]);
+        } else {
+            self.update_waits(&queue_guard, &[]);
         }
 
         // Drop locks in reverse order to avoid deadlock
@@ -682,19 +718,23 @@ impl LockStateManager {
     ///
     /// # Returns
     /// `true` if the lock was granted, `false` if it must wait.
-    pub fn grant_row_lock(&self, txn_id: TxnId, lock_mode: LockMode, rid: RID) -> bool {
+    pub fn grant_row_lock(
+        &self,
+        txn_id: TxnId,
+        lock_mode: LockMode,
+        oid: TableOidT,
+        rid: RID,
+    ) -> bool {
         let mut row_locks = self.row_locks.lock();
         let queue = row_locks
             .entry(rid)
             .or_insert_with(|| Arc::new(Mutex::new(LockRequestQueue::new())));
 
         let request = Arc::new(Mutex::new(LockRequest::new_row_request(
-            txn_id,
-            lock_mode,
-            rid.get_page_id(),
-            rid,
+            txn_id, lock_mode, oid, rid,
         )));
-        let granted = queue.lock().grant_lock(request.clone());
+        let mut queue_guard = queue.lock();
+        let granted = queue_guard.grant_lock(request);
 
         if granted {
             // Update transaction's lock set
@@ -703,7 +743,10 @@ impl LockStateManager {
                 table_locks: HashSet::new(),
                 row_locks: HashSet::new(),
             });
-            lock_state.row_locks.insert((rid.get_page_id(), rid));
+            lock_state.row_locks.insert((oid, rid));
+            self.update_waits(&queue_guard, &[txn_id]);
+        } else {
+            self.update_waits(&queue_guard, &[]);
         }
 
         granted
@@ -713,38 +756,15 @@ impl LockStateManager {
     pub fn release_table_lock(&self, txn_id: TxnId, oid: TableOidT) -> Result<(), LockError> {
         let table_locks = self.table_lock_map.lock();
 
-        if let Some(queue) = table_locks.get(&oid) {
-            let mut queue_guard = queue.lock();
-
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
-                // Remove the lock request
-                queue_guard.request_queue.remove(pos);
-
-                // Update transaction's lock set
-                let mut txn_locks = self.txn_lock_sets.lock();
-                if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
-                    lock_state.table_locks.remove(&oid);
-                }
-
-                // Try to grant waiting locks
-                let mut i = 0;
-                while i < queue_guard.request_queue.len() {
-                    let request = queue_guard.request_queue[i].clone();
-                    if !request.lock().is_granted()
-                        && queue_guard.compatible_with_existing_locks(&request.lock())
-                    {
-                        request.lock().granted = true;
-                    }
-                    i += 1;
-                }
-                queue_guard.cv.notify_all();
-
-                return Ok(());
+        if let Some(queue) = table_locks.get(&oid)
+            && self.release_lock(queue, txn_id)
+        {
+            // Update transaction's lock set
+            let mut txn_locks = self.txn_lock_sets.lock();
+            if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
+                lock_state.table_locks.remove(&oid);
             }
+            return Ok(());
         }
 
         Err(LockError::NoLockHeld)
@@ -754,69 +774,56 @@ impl LockStateManager {
     pub fn release_row_lock(&self, txn_id: TxnId, rid: RID) -> Result<(), LockError> {
         let row_locks = self.row_locks.lock();
 
-        if let Some(queue) = row_locks.get(&rid) {
-            let mut queue_guard = queue.lock();
-
-            // Find and remove the lock request
-            if let Some(pos) = queue_guard.request_queue.iter().position(|req| {
-                let req = req.lock();
-                req.get_txn_id() == txn_id && req.is_granted()
-            }) {
-                queue_guard.request_queue.remove(pos);
-
-                // Update transaction's lock set
-                let mut txn_locks = self.txn_lock_sets.lock();
-                if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
-                    lock_state.row_locks.remove(&(rid.get_page_id(), rid));
-                }
-
-                // Try to grant waiting locks
-                self.grant_waiting_locks(&mut queue_guard);
-                return Ok(());
+        if let Some(queue) = row_locks.get(&rid)
+            && self.release_lock(queue, txn_id)
+        {
+            // Update transaction's lock set
+            let mut txn_locks = self.txn_lock_sets.lock();
+            if let Some(lock_state) = txn_locks.get_mut(&txn_id) {
+                lock_state.row_locks.retain(|(_, locked)| *locked != rid);
             }
+            return Ok(());
         }
 
         Err(LockError::NoLockHeld)
     }
 
-    /// Force releases all locks held by the given transaction without mutating the transaction state.
+    /// Releases what a transaction holds in a queue and grants waiting locks.
+    ///
+    /// # Returns
+    /// Whether the transaction held a lock.
+    fn release_lock(&self, queue: &Mutex<LockRequestQueue>, txn_id: TxnId) -> bool {
+        let mut queue = queue.lock();
+        let held = queue.request_queue.iter().any(|req| {
+            let req = req.lock();
+            req.get_txn_id() == txn_id && req.is_granted()
+        });
+        if held {
+            queue.remove_txn(txn_id);
+            self.grant_waiting_locks(&mut queue);
+        }
+        held
+    }
+
+    /// Forcefully releases all locks held by a transaction.
+    ///
+    /// Used during transaction abort or commit to clean up all held locks,
+    /// including requests still waiting and locks granted to them meanwhile.
     pub fn force_release_txn(&self, txn_id: TxnId) -> Result<(), LockError> {
-        // Snapshot locks held by the transaction.
-        let (table_locks, row_locks_for_txn) = {
-            let txn_locks = self.txn_lock_sets.lock();
-            if let Some(state) = txn_locks.get(&txn_id) {
-                (state.table_locks.clone(), state.row_locks.clone())
-            } else {
-                return Ok(()); // Nothing to release
-            }
-        };
+        self.waits_for.lock().remove(&txn_id);
 
         // Release row locks first to avoid table-lock ordering issues.
-        {
-            let row_locks = self.row_locks.lock();
-            for (_, rid) in row_locks_for_txn.iter() {
-                if let Some(queue) = row_locks.get(rid) {
-                    let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
-                }
-            }
+        for queue in self.row_locks.lock().values() {
+            let mut queue_guard = queue.lock();
+            queue_guard.remove_txn(txn_id);
+            self.grant_waiting_locks(&mut queue_guard);
         }
 
         // Release table locks.
-        {
-            let table_locks_map = self.table_lock_map.lock();
-            for oid in table_locks.iter() {
-                if let Some(queue) = table_locks_map.get(oid) {
-                    let mut queue_guard = queue.lock();
-                    queue_guard
-                        .request_queue
-                        .retain(|req| req.lock().get_txn_id() != txn_id);
-                    self.grant_waiting_locks(&mut queue_guard);
-                }
-            }
+        for queue in self.table_lock_map.lock().values() {
+            let mut queue_guard = queue.lock();
+            queue_guard.remove_txn(txn_id);
+            self.grant_waiting_locks(&mut queue_guard);
         }
 
         // Remove transaction lock state entry.
@@ -828,18 +835,8 @@ impl LockStateManager {
 
     /// Attempts to grant locks to waiting transactions
     fn grant_waiting_locks(&self, queue: &mut MutexGuard<RawMutex, LockRequestQueue>) {
-        let mut i = 0;
-        while i < queue.request_queue.len() {
-            let request = queue.request_queue[i].clone();
-            if !request.lock().is_granted() && queue.compatible_with_existing_locks(&request.lock())
-            {
-                request.lock().granted = true;
-                // Don't increment i since we want to check the next request
-            } else {
-                i += 1;
-            }
-        }
-        queue.cv.notify_all();
+        let granted = queue.grant_waiting();
+        self.update_waits(queue, &granted);
     }
 
     /// Checks if a transaction has a lock on a table
@@ -1017,10 +1014,12 @@ impl LockManager {
     pub fn new() -> Self {
         let mut detector = DeadlockDetector::new();
         detector.start_detection();
+        let mut lock_state_manager = LockStateManager::new();
+        lock_state_manager.waits_for = Arc::clone(&detector.waits_for);
 
         Self {
             deadlock_detector: detector,
-            lock_state_manager: LockStateManager::new(),
+            lock_state_manager,
             lock_validator: LockValidator::new(),
         }
     }
@@ -1047,47 +1046,14 @@ impl LockManager {
         // 1. Validate the lock request
         self.lock_validator.validate_lock_request(&txn, lock_mode)?;
 
-        // 2. Create lock request
-        let request = Arc::new(Mutex::new(LockRequest::new_table_request(
-            txn.get_transaction_id(),
-            lock_mode,
-            oid,
-        )));
-
-        // 3. Get or create lock queue for this table
-        let mut table_locks = self.lock_state_manager.table_lock_map.lock();
-        let queue = table_locks
-            .entry(oid)
-            .or_insert_with(|| Arc::new(Mutex::new(LockRequestQueue::new())));
-
-        // 4. Try to grant the lock
-        let mut queue_guard = queue.lock();
-        let granted = queue_guard.grant_lock(request.clone());
-
-        // 5. If granted, update transaction's lock set
-        if granted {
-            let mut txn_locks = self.lock_state_manager.txn_lock_sets.lock();
-            let lock_state = txn_locks
-                .entry(txn.get_transaction_id())
-                .or_insert_with(|| TxnLockState {
-                    table_locks: HashSet::new(),
-                    row_locks: HashSet::new(),
-                });
-            lock_state.table_locks.insert(oid);
-        } else {
-            // 6. If not granted, add edge to waits-for graph
-            for existing_req in &queue_guard.request_queue {
-                let existing = existing_req.lock();
-                if existing.granted {
-                    self.deadlock_detector
-                        .add_edge(txn.get_transaction_id(), existing.txn_id);
-                }
-            }
+        // 2. Try to grant the lock, or wait for its holders
+        let granted =
+            self.lock_state_manager
+                .grant_table_lock(txn.get_transaction_id(), lock_mode, oid);
 
-            // 7. Check for deadlock
-            if self.check_deadlock(txn.clone())? {
-                return Ok(false);
-            }
+        // 3. Check for deadlock
+        if !granted && self.check_deadlock(txn.clone())? {
+            return Ok(false);
         }
 
         Ok(granted)
@@ -1216,12 +1182,13 @@ impl LockManager {
                                     | LockMode::IntentionExclusive
                                     | LockMode::SharedIntentionExclusive
                             ),
-                            // For S lock on row, need S, IS, or SIX on table
+                            // For S lock on row, need S, IS, SIX or X on table
                             (_, LockMode::Shared) => matches!(
                                 req.lock_mode,
                                 LockMode::Shared
                                     | LockMode::IntentionShared
                                     | LockMode::SharedIntentionExclusive
+                                    | LockMode::Exclusive
                             ),
                             _ => false,
                         }
@@ -1239,26 +1206,11 @@ impl LockManager {
         // 4. Try to grant the lock
         let granted =
             self.lock_state_manager
-                .grant_row_lock(txn.get_transaction_id(), lock_mode, rid);
+                .grant_row_lock(txn.get_transaction_id(), lock_mode, oid, rid);
 
-        if !granted {
-            // 5. If not granted, add edge to waits-for graph
-            let row_locks = self.lock_state_manager.row_locks.lock();
-            if let Some(queue) = row_locks.get(&rid) {
-                let queue_guard = queue.lock();
-                for request in &queue_guard.request_queue {
-                    let req = request.lock();
-                    if req.granted {
-                        self.deadlock_detector
-                            .add_edge(txn.get_transaction_id(), req.txn_id);
-                    }
-                }
-            }
-
-            // 6. Check for deadlock
-            if self.check_deadlock(txn.clone())? {
-                return Ok(false);
-            }
+        // 5. Check for deadlock
+        if !granted && self.check_deadlock(txn.clone())? {
+            return Ok(false);
         }
 
         Ok(granted)
@@ -1330,10 +1282,7 @@ impl LockManager {
 
     /// Releases all locks from all transactions (for testing/reset).
     pub fn unlock_all(&self) -> Result<bool, LockError> {
-        // 1. Get all lock sets
-        let mut txn_locks = self.lock_state_manager.txn_lock_sets.lock();
-
-        // 2. Clear all lock queues
+        // 1. Clear all lock queues
         {
             let mut table_locks = self.lock_state_manager.table_lock_map.lock();
             table_locks.clear();
@@ -1343,10 +1292,10 @@ impl LockManager {
             row_locks.clear();
         }
 
-        // 3. Clear transaction lock sets
-        txn_locks.clear();
+        // 2. Clear transaction lock sets
+        self.lock_state_manager.txn_lock_sets.lock().clear();
 
-        // 4. Clear deadlock detection graph
+        // 3 4. Clear deadlock detection graph
         {
             let mut waits_for = self.deadlock_detector.waits_for.lock();
             waits_for.clear();
@@ -1413,6 +1362,7 @@ impl Clone for LockManager {
                 table_lock_map: Mutex::new(self.lock_state_manager.table_lock_map.lock().clone()),
                 row_locks: Mutex::new(self.lock_state_manager.row_locks.lock().clone()),
                 txn_lock_sets: Mutex::new(self.lock_state_manager.txn_lock_sets.lock().clone()),
+                waits_for: Arc::clone(&self.lock_state_manager.waits_for),
             },
             lock_validator: LockValidator {},
         }
-- 
2.43.0


From ed627cb75066518ca7f27182b9582712c1f7fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:01 +0000
Subject: [PATCH 25/74] fix: no locks for transactions that ended, and
 two-phase locking under Serializable

A committed, aborted or tainted transaction could still take locks, and
Serializable allowed any lock after a release.
---
 src/concurrency/lock_manager.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/concurrency/lock_manager.rs b/src/concurrency/lock_manager.rs
index b14f902..f87ec48 100644
--- a/src/concurrency/lock_manager.rs
+++ b/src/concurrency/lock_manager.rs
@@ -928,11 +928,20 @@ impl LockValidator {
         txn: &Transaction,
         lock_mode: LockMode,
     ) -> Result<(), LockError> {
+        // A transaction that has ended takes no locks
+        match txn.get_state() {
+            TransactionState::Aborted | TransactionState::Tainted => {
+                return Err(LockError::TransactionAborted);
+            },
+            TransactionState::Committed => return Err(LockError::TransactionCommitted),
+            _ => {},
+        }
+
         match txn.get_isolation_level() {
             IsolationLevel::ReadUncommitted => self.validate_read_uncommitted(txn, lock_mode),
             IsolationLevel::ReadCommitted => self.validate_read_committed(txn, lock_mode),
             IsolationLevel::RepeatableRead => self.validate_repeatable_read(txn, lock_mode),
-            IsolationLevel::Serializable => Ok(()),
+            IsolationLevel::Serializable => self.validate_repeatable_read(txn, lock_mode),
             IsolationLevel::Snapshot => self.validate_snapshot(txn, lock_mode),
         }
     }
-- 
2.43.0


From b980b04d7834abb4d26ef30054682f53969367e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:40 +0000
Subject: [PATCH 26/74] fix: a table scan tells the id of the tuple it returned

After skipping an invisible tuple the iterators reported the id of the
skipped one.
---
 src/storage/table/table_iterator.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/storage/table/table_iterator.rs b/src/storage/table/table_iterator.rs
index cadab87..96d2721 100644
--- a/src/storage/table/table_iterator.rs
+++ b/src/storage/table/table_iterator.rs
@@ -422,7 +422,6 @@ impl Iterator for TableScanIterator {
             return None;
         }
 
-        let current_rid = self.inner.get_rid();
         let result = self.inner.next();
 
         // Update end status
@@ -430,7 +429,7 @@ impl Iterator for TableScanIterator {
             self.is_end = true;
             self.last_rid = None;
         } else {
-            self.last_rid = Some(current_rid);
+            self.last_rid = self.inner.get_last_rid();
         }
 
         result
@@ -441,10 +440,9 @@ impl Iterator for TableIterator {
     type Item = (Arc<TupleMeta>, Arc<Tuple>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Capture the RID we are about to return; `advance` will move to the next slot.
-        let current_rid = self.current_rid;
-
         while !self.is_end() {
+            // Capture the RID we may return; `advance` will move to the next slot.
+            let current_rid = self.current_rid;
             debug!("Attempting to get tuple with RID: {:?}", self.current_rid);
 
             let result = if let Some(txn_ctx) = &self.txn_ctx {
-- 
2.43.0


From adb2eb5e23e0a486ab6c607be79713a516cbaed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:40 +0000
Subject: [PATCH 27/74] fix: write conflicts, rollback and visibility of tuple
 versions

A snapshot transaction overwrote changes committed since its snapshot; an
update checked the caller's metadata instead of the transaction, so a
transaction could not update its own tuples through the executors and any
could overwrite those of transaction 0; check and write were two steps, as
were reading a version and its chain; a rollback undid only the last change
of a tuple and gave the restored version a wrong creator and undo log; a
read-committed reader missed versions committed after its start while
another transaction was changing the tuple; a failed update left its link
in the chain; garbage collection dropped versions still needed.
---
 src/concurrency/transaction_manager.rs        | 245 +++++++-----------
 src/storage/table/table_heap.rs               |   9 +
 src/storage/table/transactional_table_heap.rs |  73 ++++--
 3 files changed, 152 insertions(+), 175 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 5c33bdf..8274143 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -637,158 +637,7 @@ impl TransactionManager {
                 rid
             );
             if let Some(table_heap) = self.get_table_heap(table_oid) {
-                log::debug!("ABORT: Found table heap for table_oid={}", table_oid);
-                if let Some(undo_link) = self.get_undo_link(rid) {
-                    log::debug!(
-                        "ABORT: Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    log::debug!(
-                        "Found undo link for RID {:?}: prev_txn={}, prev_log_idx={}",
-                        rid,
-                        undo_link.prev_txn,
-                        undo_link.prev_log_idx
-                    );
-                    // Get the undo log
-                    let undo_log = match self.get_undo_log(undo_link.clone()) {
-                        Ok(log) => log,
-                        Err(e) => {
-                            log::error!(
-                                "ABORT: Undo log not found for RID {:?} (txn={}, idx={}): {}",
-                                rid,
-                                undo_link.prev_txn,
-                                undo_link.prev_log_idx,
-                                e
-                            );
-                            continue;
-                        },
-                    };
-
-                    // Check if this was a deleted tuple that needs to be restored
-                    // If the original_rid is present, it means this was a delete operation
-                    if let Some(original_rid) = undo_log.original_rid {
-                        log::debug!(
-                            "ABORT: Restoring deleted tuple with original RID {:?}",
-                            original_rid
-                        );
-
-                        // Create metadata for the restored tuple
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(false); // Explicitly set to false for restored tuples
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during restore: {}", e))
-                            .unwrap();
-
-                        // For deleted tuples, we need a different approach
-                        // First get the page directly to bypass the deletion check
-                        if let Some(page_guard) = table_heap
-                            .get_table_heap()
-                            .get_bpm()
-                            .fetch_page::<TablePage>(original_rid.get_page_id())
-                        {
-                            // First update the metadata to unmark the deletion
-                            {
-                                let mut page = page_guard.write();
-                                if let Err(e) = page.update_tuple_meta(meta, &original_rid) {
-                                    log::error!(
-                                        "Failed to update tuple metadata during restore: {}",
-                                        e
-                                    );
-                                    continue;
-                                }
-                                log::debug!(
-                                    "Successfully updated tuple metadata to unmark deletion"
-                                );
-                            }
-
-                            // Now that the tuple is no longer marked as deleted, we can restore its data
-                            if let Err(e) = table_heap.rollback_tuple(
-                                Arc::from(meta),
-                                &undo_log.tuple,
-                                original_rid,
-                            ) {
-                                log::error!("Failed to restore deleted tuple data: {}", e);
-                            } else {
-                                log::debug!(
-                                    "Successfully restored deleted tuple at RID {:?}",
-                                    original_rid
-                                );
-                            }
-                        } else {
-                            log::error!(
-                                "Failed to fetch page for deleted tuple restoration: page_id={}",
-                                original_rid.get_page_id()
-                            );
-                        }
-                    } else {
-                        // Regular update rollback
-                        // Restore the previous version
-                        let mut meta = TupleMeta::new(undo_link.prev_txn);
-                        if undo_log.ts == INVALID_TS {
-                            meta.set_commit_timestamp_opt(None);
-                        } else {
-                            meta.set_commit_timestamp(undo_log.ts);
-                        }
-                        meta.set_deleted(undo_log.is_deleted);
-                        meta.set_undo_log_idx(undo_link.prev_log_idx)
-                            .map_err(|e| format!("Invalid undo log index during rollback: {}", e))
-                            .unwrap();
-
-                        // Use a reference to the Arc<Tuple> without cloning
-                        log::debug!(
-                            "Rolling back tuple at RID {:?} with data: {:?}",
-                            rid,
-                            undo_log.tuple
-                        );
-                        if let Err(e) =
-                            table_heap.rollback_tuple(Arc::from(meta), &undo_log.tuple, rid)
-                        {
-                            log::error!("Failed to rollback tuple: {}", e);
-                        } else {
-                            log::debug!("Successfully rolled back tuple at RID {:?}", rid);
-                        }
-                    }
-
-                    // Update the undo link to point to the previous version
-                    let prev_version_link = if undo_log.prev_version.is_valid() {
-                        Some(undo_log.prev_version.clone())
-                    } else {
-                        None
-                    };
-                    self.update_undo_link(rid, prev_version_link, None);
-                } else {
-                    log::debug!(
-                        "ABORT: No undo link found for RID {:?} - marking as deleted",
-                        rid
-                    );
-                    // If no undo link exists, this was a newly inserted tuple
-                    // Mark it as deleted since it was part of an aborted transaction
-                    let mut meta = TupleMeta::new(txn.get_transaction_id());
-                    meta.set_deleted(true);
-                    // Uncommitted/aborted versions should not have a commit timestamp.
-                    meta.set_commit_timestamp_opt(None);
-
-                    // Update the tuple metadata to mark it as deleted
-                    if let Some(page_guard) = table_heap
-                        .get_table_heap()
-                        .get_bpm()
-                        .fetch_page::<TablePage>(rid.get_page_id())
-                    {
-                        let mut page = page_guard.write();
-                        if let Ok((_, _)) = page.get_tuple(&rid, true)
-                            && let Err(e) = page.update_tuple_meta(meta, &rid)
-                        {
-                            log::error!("Failed to mark tuple as deleted: {}", e);
-                        }
-                    }
-                }
+                self.undo_write(&txn, &table_heap, rid);
             }
         }
 
@@ -806,6 +655,89 @@ impl TransactionManager {
         self.prune_completed_transactions();
     }
 
+    /// Gives the tuple at `rid` back the version it had before the first change
+    /// of `txn`; a tuple inserted by `txn` is marked as deleted.
+    fn undo_write(&self, txn: &Transaction, table_heap: &TransactionalTableHeap, rid: RID) {
+        let txn_id = txn.get_transaction_id();
+        let heap = table_heap.get_table_heap();
+        // The version and its chain are changed in one step
+        let _write_guard = heap.acquire_table_write_lock();
+
+        // Walk over the versions made by this transaction
+        let mut before: Option<Arc<UndoLog>> = None;
+        let mut link = self.get_undo_link(rid);
+        while let Some(undo_link) = link {
+            if before.is_some() && undo_link.prev_txn != txn_id {
+                break;
+            }
+            match self.get_undo_log(undo_link.clone()) {
+                Ok(log) => {
+                    link = Some(log.prev_version.clone()).filter(UndoLink::is_valid);
+                    before = Some(log);
+                },
+                Err(e) => {
+                    log::error!(
+                        "ABORT: Undo log not found for RID {:?} (txn={}, idx={}): {}",
+                        rid,
+                        undo_link.prev_txn,
+                        undo_link.prev_log_idx,
+                        e
+                    );
+                    return;
+                },
+            }
+        }
+
+        let Some(page_guard) = heap.get_bpm().fetch_page::<TablePage>(rid.get_page_id()) else {
+            log::error!("ABORT: Failed to fetch page of RID {:?}", rid);
+            return;
+        };
+        let mut page = page_guard.write();
+
+        match before {
+            Some(log) if log.prev_version.prev_txn != txn_id => {
+                let mut meta = TupleMeta::new(log.prev_version.prev_txn);
+                if log.ts == INVALID_TS {
+                    meta.set_commit_timestamp_opt(None);
+                } else {
+                    meta.set_commit_timestamp(log.ts);
+                }
+                // Logs with a RID hold the version before an update or delete, which is live
+                meta.set_deleted(log.original_rid.is_none() && log.is_deleted);
+                if log.prev_version.is_valid() {
+                    if let Err(e) = meta.set_undo_log_idx(log.prev_version.prev_log_idx) {
+                        log::error!("ABORT: Invalid undo log index for RID {:?}: {}", rid, e);
+                    }
+                } else {
+                    meta.clear_undo_log_idx();
+                }
+                if let Err(e) = page.update_tuple_meta(meta, &rid) {
+                    log::error!("ABORT: Failed to restore metadata of RID {:?}: {}", rid, e);
+                } else if let Err(e) = page.update_tuple(meta, &log.tuple, rid) {
+                    log::error!("ABORT: Failed to restore tuple of RID {:?}: {}", rid, e);
+                }
+                self.update_undo_link(
+                    rid,
+                    Some(log.prev_version.clone()).filter(UndoLink::is_valid),
+                    None,
+                );
+            },
+            _ => {
+                // Inserted by this transaction: mark it as deleted. Aborted
+                // versions have no commit timestamp.
+                let mut meta = TupleMeta::new(txn_id);
+                meta.set_deleted(true);
+                meta.set_commit_timestamp_opt(None);
+                if page.get_tuple(&rid, true).is_ok()
+                    && let Err(e) = page.update_tuple_meta(meta, &rid)
+                {
+                    log::error!("ABORT: Failed to mark RID {:?} as deleted: {}", rid, e);
+                }
+                self.update_undo_link(rid, None, None);
+            },
+        }
+    }
+
     /// Performs garbage collection of old tuple versions.
     ///
     /// This method removes undo links and version information that are no longer
@@ -826,10 +758,15 @@ impl TransactionManager {
 
         // Remove version info for pages that are no longer needed
         version_info.retain(|_, page_info| {
-            // Retain only links that point to transactions newer than watermark
+            // Retain only links that running transactions may still follow
             page_info.prev_link.write().retain(|_, link| {
                 if let Some(txn) = self.state.txn_map.read().get(&link.prev_txn) {
-                    txn.read_ts() > watermark
+                    match txn.get_state() {
+                        TransactionState::Committed => txn.commit_ts() >= watermark,
+                        TransactionState::Aborted => txn.read_ts() >= watermark,
+                        // A running transaction may still roll back
+                        _ => true,
+                    }
                 } else {
                     false
                 }
diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 58c5cb0..2e28afb 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -1140,7 +1140,16 @@ impl TableHeap {
         rid: RID,
     ) -> Result<RID, String> {
         let _write_guard = self.latch.write();
+        self.update_tuple_latched(meta, tuple, rid)
+    }
 
+    /// Replaces the tuple at `rid`; the caller holds the table write lock.
+    pub(crate) fn update_tuple_latched(
+        &self,
+        meta: Arc<TupleMeta>,
+        tuple: &Tuple,
+        rid: RID,
+    ) -> Result<RID, String> {
         let page_guard = self.get_page(rid.get_page_id())?;
         let mut page = page_guard.write();
 
diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index d351da1..b327863 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -256,7 +256,7 @@ use std::sync::Arc;
 use log::{debug, info, warn};
 
 use crate::catalog::schema::Schema;
-use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT};
+use crate::common::config::{INVALID_PAGE_ID, INVALID_TS, TableOidT, Timestamp};
 use crate::common::rid::RID;
 use crate::concurrency::lock_manager::LockMode;
 use crate::concurrency::transaction::{
@@ -446,6 +446,9 @@ impl TransactionalTableHeap {
         let txn = txn_ctx.get_transaction();
         let txn_manager = txn_ctx.get_transaction_manager();
 
+        // The version and its chain are read in one step: a writer replaces both.
+        let _read_guard = self.table_heap.acquire_table_read_lock();
+
         // Get latest version
         // Important: allow reading deleted tuples so MVCC can interpret tombstones.
         let (meta, tuple) = self.table_heap.get_tuple_internal(rid, true)?;
@@ -469,16 +472,20 @@ impl TransactionalTableHeap {
                 } else {
                     // Head version is uncommitted by another transaction; walk the chain
                     // to find the latest committed version that is visible.
-                    self.get_visible_version(rid, txn, txn_manager, meta, tuple)
+                    self.get_visible_version(rid, txn, Timestamp::MAX, txn_manager, meta, tuple)
                 }
             },
-            _ => self.get_visible_version(rid, txn, txn_manager, meta, tuple),
+            _ => {
+                let read_ts = txn.read_ts();
+                self.get_visible_version(rid, txn, read_ts, txn_manager, meta, tuple)
+            },
         }
     }
 
+    /// Replaces the tuple at `rid` by a version of the transaction of `txn_ctx`.
     pub fn update_tuple(
         &self,
-        meta: &TupleMeta,
+        _meta: &TupleMeta,
         tuple: &Tuple,
         rid: RID,
         txn_ctx: Arc<TransactionContext>,
@@ -490,15 +497,14 @@ impl TransactionalTableHeap {
             return Err("Transaction not in running state".to_string());
         }
 
+        // Checking the current version and replacing it is one step
+        let _write_guard = self.table_heap.acquire_table_write_lock();
+
         // Get current version for visibility check
         let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
 
         // Visibility checks
-        if current_meta.get_creator_txn_id() != meta.get_creator_txn_id()
-            && !current_meta.is_committed()
-        {
-            return Err("Cannot update uncommitted tuple from another transaction".to_string());
-        }
+        Self::check_write_conflict(&txn, &current_meta, "update")?;
 
         // Create undo log with link to current version
         let txn_manager = txn_ctx.get_transaction_manager();
@@ -572,26 +578,52 @@ impl TransactionalTableHeap {
             new_meta.get_commit_timestamp()
         );
 
-        // Perform update
+        // Perform update; without it the chain stays as it was
         let result = self
             .table_heap
-            .update_tuple_internal(Arc::from(new_meta), tuple, rid)?;
-        txn.append_write_set(self.table_oid, rid);
+            .update_tuple_latched(Arc::from(new_meta), tuple, rid);
+        if result.is_err() {
+            txn_manager.update_undo_link(rid, current_version_link, None);
+        } else {
+            txn.append_write_set(self.table_oid, rid);
+        }
 
-        Ok(result)
+        result
     }
 
-    // Helper method for REPEATABLE_READ and SERIALIZABLE
+    /// Whether `txn` may replace the version of `meta`: nobody else is changing
+    /// it, and under the snapshot levels nobody changed it since the snapshot.
+    fn check_write_conflict(txn: &Transaction, meta: &TupleMeta, verb: &str) -> Result<(), String> {
+        if meta.get_creator_txn_id() == txn.get_transaction_id() && !meta.is_committed() {
+            return Ok(());
+        }
+        match meta.get_commit_timestamp() {
+            None => Err(format!(
+                "Cannot {} uncommitted tuple from another transaction",
+                verb
+            )),
+            Some(commit_ts) => match txn.get_isolation_level() {
+                IsolationLevel::ReadUncommitted | IsolationLevel::ReadCommitted => Ok(()),
+                _ if commit_ts > txn.read_ts() => Err(format!(
+                    "Cannot {} tuple changed by a concurrent transaction",
+                    verb
+                )),
+                _ => Ok(()),
+            },
+        }
+    }
+
+    // Helper method: the version visible at a timestamp
     fn get_visible_version(
         &self,
         rid: RID,
         txn: Arc<Transaction>,
+        read_ts: Timestamp,
         txn_manager: Arc<TransactionManager>,
         meta: Arc<TupleMeta>,
         tuple: Arc<Tuple>,
     ) -> Result<(Arc<TupleMeta>, Arc<Tuple>), String> {
         let txn_id = txn.get_transaction_id();
-        let read_ts = txn.read_ts();
         log::debug!(
             "Starting version chain traversal for RID {:?} - Latest version: creator_txn={}, commit_ts={:?}, deleted={}, txn_id={}, read_ts={}",
             rid,
@@ -747,15 +779,14 @@ impl TransactionalTableHeap {
         // lock_manager.lock_table(txn.clone(), LockMode::IntentionExclusive, self.table_oid)
         //     .map_err(|e| format!("Failed to acquire table lock: {}", e))?;
 
+        // Checking the current version and replacing it is one step
+        let _write_guard = self.table_heap.acquire_table_write_lock();
+
         // Get the current version for visibility check
         let (current_meta, current_tuple) = self.table_heap.get_tuple_internal(rid, false)?;
 
         // Visibility checks
-        if current_meta.get_creator_txn_id() != txn.get_transaction_id()
-            && !current_meta.is_committed()
-        {
-            return Err("Cannot delete uncommitted tuple from another transaction".to_string());
-        }
+        Self::check_write_conflict(&txn, &current_meta, "delete")?;
 
         // Create undo log with a link to the current version
         let txn_manager = txn_ctx.get_transaction_manager();
@@ -820,7 +851,7 @@ impl TransactionalTableHeap {
 
         // Update the tuple with deleted metadata
         self.table_heap
-            .update_tuple_internal(Arc::from(new_meta), &current_tuple, rid)?;
+            .update_tuple_latched(Arc::from(new_meta), &current_tuple, rid)?;
         txn.append_write_set(self.table_oid, rid);
 
         Ok(())
-- 
2.43.0


From 935331e3cfd2964580155555623945b1cba09f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:28 +0000
Subject: [PATCH 28/74] fix: a snapshot sees all changes of a commit or none

A commit became visible tuple by tuple: a transaction that began meanwhile
saw some of its changes, and others only later.
---
 src/concurrency/transaction_manager.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/concurrency/transaction_manager.rs b/src/concurrency/transaction_manager.rs
index 8274143..2ddc4f0 100644
--- a/src/concurrency/transaction_manager.rs
+++ b/src/concurrency/transaction_manager.rs
@@ -512,18 +512,18 @@ impl TransactionManager {
             },
         }
 
-        // Use logical watermark-based commit to set commit_ts and update running set
-        {
-            let mut running_txns = self.state.running_txns.write();
-            txn.commit(&mut running_txns);
-        }
-
-        // Update transaction map after commit
+        // Keep the transaction known for its undo logs
         {
             let mut txn_map = self.state.txn_map.write();
             txn_map.insert(txn.get_transaction_id(), txn.clone());
         }
 
+        // Use logical watermark-based commit to set commit_ts and update running set.
+        // No transaction begins until every tuple carries the commit timestamp, so
+        // that a snapshot sees all of the changes or none.
+        let mut running_txns = self.state.running_txns.write();
+        txn.commit(&mut running_txns);
+
         // Mark all tuples written by this transaction as committed by setting their commit timestamps
         // We do this BEFORE flushing so the metadata updates are persisted with the batch.
         for (table_oid, rid) in txn.get_write_set() {
@@ -573,6 +573,8 @@ impl TransactionManager {
             }
         }
 
+        drop(running_txns);
+
         // Attempt to drop completed transactions once no active reader needs them.
         self.prune_completed_transactions();
 
-- 
2.43.0


From 22819226beb3da40c09f197df8a7e7eb7ad23fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:28 +0000
Subject: [PATCH 29/74] fix: a shrunken tuple keeps its room on the page

A rollback could not put the longer version back once others had filled
the page.
---
 src/storage/page/page_types/table_page.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/storage/page/page_types/table_page.rs b/src/storage/page/page_types/table_page.rs
index aa25ee3..b276c70 100644
--- a/src/storage/page/page_types/table_page.rs
+++ b/src/storage/page/page_types/table_page.rs
@@ -318,8 +318,19 @@ impl TablePage {
         // Get current tuple info
         let (current_offset, current_size, _) = self.tuple_info[tuple_id];
 
-        // Try to update in place if the new tuple size is smaller than or equal to current size
-        if new_size <= current_size {
+        // Bytes from the tuple up to the next one; a shrunken tuple keeps them, so
+        // that a rollback can always put the longer version back
+        let room = self
+            .tuple_info
+            .iter()
+            .map(|(offset, _, _)| *offset)
+            .filter(|offset| *offset > current_offset)
+            .min()
+            .unwrap_or(DB_PAGE_SIZE as u16)
+            .saturating_sub(current_offset);
+
+        // Try to update in place if the new tuple fits there
+        if new_size <= current_size || new_size <= room {
             // Update metadata in tuple_info
             self.count_deleted(tuple_id, &meta);
             self.tuple_info[tuple_id].2 = meta;
-- 
2.43.0


From 4381815b9092c74052a64f7d5908bf5ce9e75391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:59 +0000
Subject: [PATCH 30/74] fix: a commit that was not logged is no commit, and a
 transaction ends once

A commit whose record could not be written was reported as durable; an
aborted transaction got a commit record when it was committed again; and
the SQL engine kept the locks of transactions that had ended.
---
 .../transaction_manager_factory.rs            | 29 ++++++++--
 src/recovery/wal_manager.rs                   |  6 ++
 src/sql/execution/execution_engine.rs         | 56 ++++++++++++++++---
 3 files changed, 79 insertions(+), 12 deletions(-)

diff --git a/src/concurrency/transaction_manager_factory.rs b/src/concurrency/transaction_manager_factory.rs
index 788ada6..62078fe 100644
--- a/src/concurrency/transaction_manager_factory.rs
+++ b/src/concurrency/transaction_manager_factory.rs
@@ -144,7 +144,7 @@ use log::{error, warn};
 
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::concurrency::lock_manager::LockManager;
-use crate::concurrency::transaction::IsolationLevel;
+use crate::concurrency::transaction::{IsolationLevel, TransactionState};
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::recovery::wal_manager::WALManager;
 use crate::sql::execution::transaction_context::TransactionContext;
@@ -306,9 +306,24 @@ impl TransactionManagerFactory {
         let txn = ctx.get_transaction();
 
         // Write commit record before persisting data (WAL-first).
-        if let Some(wal_manager) = &self.wal_manager {
+        // A transaction that ended already has its record.
+        let ended = matches!(
+            txn.get_state(),
+            TransactionState::Committed | TransactionState::Aborted
+        );
+        if let Some(wal_manager) = &self.wal_manager
+            && !ended
+        {
             let lsn = wal_manager.write_commit_record(txn.as_ref());
             txn.set_prev_lsn(lsn);
+            if !wal_manager.is_persistent(lsn) {
+                error!(
+                    "Commit record of transaction {} could not be persisted",
+                    txn.get_transaction_id()
+                );
+                self.abort_transaction(ctx);
+                return false;
+            }
         }
 
         // Transition txn state to committed and set commit timestamps/metadata.
@@ -372,8 +387,14 @@ impl TransactionManagerFactory {
     pub fn abort_transaction(&self, ctx: Arc<TransactionContext>) {
         let txn = ctx.get_transaction();
 
-        // Log abort if WAL is available.
-        if let Some(wal_manager) = &self.wal_manager {
+        // Log abort if WAL is available; a transaction that ended already has its record.
+        let ended = matches!(
+            txn.get_state(),
+            TransactionState::Committed | TransactionState::Aborted
+        );
+        if let Some(wal_manager) = &self.wal_manager
+            && !ended
+        {
             let lsn = wal_manager.write_abort_record(txn.as_ref());
             txn.set_prev_lsn(lsn);
         }
diff --git a/src/recovery/wal_manager.rs b/src/recovery/wal_manager.rs
index 13417fb..498b95a 100644
--- a/src/recovery/wal_manager.rs
+++ b/src/recovery/wal_manager.rs
@@ -269,6 +269,12 @@ impl WALManager {
         log_manager.append_log_record(update_record)
     }
 
+    /// Whether the record with `lsn` and all before it reached stable storage.
+    pub fn is_persistent(&self, lsn: u64) -> bool {
+        let persistent = self.log_manager.read().get_persistent_lsn();
+        persistent != INVALID_LSN && persistent >= lsn
+    }
+
     /// Forces the log manager's background flush thread to start.
     ///
     /// This is typically called during database initialization to ensure
diff --git a/src/sql/execution/execution_engine.rs b/src/sql/execution/execution_engine.rs
index 3a953c5..ee8afc0 100644
--- a/src/sql/execution/execution_engine.rs
+++ b/src/sql/execution/execution_engine.rs
@@ -157,7 +157,7 @@
 
 use std::sync::Arc;
 
-use log::{debug, error, info};
+use log::{debug, error, info, warn};
 use parking_lot::RwLock;
 use sqlparser::dialect::GenericDialect;
 use sqlparser::parser::Parser;
@@ -166,6 +166,7 @@ use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::Catalog;
 use crate::common::exception::DBError;
 use crate::common::result_writer::ResultWriter;
+use crate::concurrency::transaction::TransactionState;
 use crate::concurrency::transaction_manager_factory::TransactionManagerFactory;
 use crate::recovery::wal_manager::WALManager;
 use crate::sql::execution::check_option::{CheckOption, CheckOptions};
@@ -880,16 +881,34 @@ impl ExecutionEngine {
             write_set
         );
 
-        let lsn = self.wal_manager.write_commit_record(transaction.as_ref());
+        // A transaction that ended already has its record
+        if !matches!(
+            transaction.get_state(),
+            TransactionState::Committed | TransactionState::Aborted
+        ) {
+            let lsn = self.wal_manager.write_commit_record(transaction.as_ref());
 
-        // Update transaction's LSN
-        transaction.set_prev_lsn(lsn);
+            // Update transaction's LSN
+            transaction.set_prev_lsn(lsn);
+
+            if !self.wal_manager.is_persistent(lsn) {
+                error!(
+                    "Commit record of transaction {} could not be persisted",
+                    transaction.get_transaction_id()
+                );
+                self.abort_transaction(txn_ctx)?;
+                return Ok(false);
+            }
+        }
 
         // Attempt to commit
         let commit_result = txn_manager
             .commit(transaction.clone(), self.buffer_pool_manager.clone())
             .await;
 
+        // The transaction has ended, whatever becomes of its pages
+        Self::release_locks(&txn_ctx);
+
         if commit_result {
             // Buffer dirty pages to the disk manager's write buffer.
             // This ensures metrics are recorded even if actual disk I/O is deferred.
@@ -1057,10 +1076,16 @@ impl ExecutionEngine {
 
         // Write abort record to WAL
         let transaction = txn_ctx.get_transaction();
-        let lsn = self.wal_manager.write_abort_record(transaction.as_ref());
-
-        // Update transaction's LSN
-        transaction.set_prev_lsn(lsn);
+        // A transaction that ended already has its record
+        if !matches!(
+            transaction.get_state(),
+            TransactionState::Committed | TransactionState::Aborted
+        ) {
+            let lsn = self.wal_manager.write_abort_record(transaction.as_ref());
+
+            // Update transaction's LSN
+            transaction.set_prev_lsn(lsn);
+        }
 
         // Attempt to abort
         debug!(
@@ -1068,9 +1093,24 @@ impl ExecutionEngine {
             transaction.get_transaction_id()
         );
         txn_manager.abort(transaction);
+        Self::release_locks(&txn_ctx);
         debug!("Transaction aborted successfully");
         Ok(true)
     }
+
+    /// Releases every lock of a transaction that has ended.
+    fn release_locks(txn_ctx: &TransactionContext) {
+        if let Err(e) = txn_ctx
+            .get_lock_manager()
+            .force_release_txn(txn_ctx.get_transaction_id())
+        {
+            warn!(
+                "Failed to release the locks of transaction {}: {}",
+                txn_ctx.get_transaction_id(),
+                e
+            );
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From cbfee83b44b4ccc292c936758fec0d6bda956b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:59 +0000
Subject: [PATCH 31/74] fix: rows inserted together each find room on their
 page

---
 src/storage/table/transactional_table_heap.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index b327863..3641439 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -909,7 +909,6 @@ impl TransactionalTableHeap {
         );
 
         // Single lock acquisition for the entire batch
-        let txn_id = txn_context.get_transaction_id();
         let mut successful_inserts = 0;
 
         // Pre-validate all tuples to fail fast if there are constraint violations
@@ -924,18 +923,8 @@ impl TransactionalTableHeap {
 
             // Process chunk and collect pages that need to be written
             for values in chunk {
-                let expanded_values = self
-                    .table_heap
-                    .expand_values_for_schema(values.clone(), schema)?;
-
-                // Create tuple
-                let tuple = Tuple::new(&expanded_values, schema, RID::new(0, 0));
-
-                // Create metadata for the tuple
-                let meta = Arc::new(TupleMeta::new(txn_id));
-
                 // Insert tuple and collect page info for batching
-                match self.insert_tuple(meta, &tuple, txn_context.clone()) {
+                match self.insert_tuple_from_values(values.clone(), schema, txn_context.clone()) {
                     Ok(rid) => {
                         successful_inserts += 1;
 
-- 
2.43.0


From 8f2a388d7a95f6624b6c33c882880e0dfba30f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 32/74] fix: the in-memory B+ tree keeps its children in order
 when nodes split and merge

A merge of internal nodes removed two separators of the parent, a split
could put the new node beside the wrong one of equal separators, and an
entry whose equal keys span leaves could be stored twice.
---
 src/storage/index/b_plus_tree.rs | 64 ++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index bf87947..5f61bd4 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -180,6 +180,11 @@ impl BPlusTree {
     pub fn insert(&mut self, key: Value, rid: RID) -> bool {
         debug!("Inserting key {:?} with RID {:?}", key, rid);
 
+        if self.contains(&key, rid) {
+            debug!("Key-RID pair is already in the tree");
+            return false;
+        }
+
         let root_is_full = {
             let root_guard = self.root.read();
             let is_full = root_guard.keys.len() == self.order - 1;
@@ -220,6 +225,40 @@ impl BPlusTree {
         }
     }
 
+    /// Whether the tree holds the key-RID pair. Entries with equal keys may span leaves.
+    fn contains(&self, key: &Value, rid: RID) -> bool {
+        let mut current_node = Arc::clone(&self.root);
+        loop {
+            let node = current_node.read();
+            let next_node = match node.node_type {
+                NodeType::Internal => {
+                    let child_idx = node
+                        .keys
+                        .iter()
+                        .position(|k| k.compare_greater_than_equals(key) == CmpBool::CmpTrue)
+                        .unwrap_or(node.keys.len());
+                    Arc::clone(&node.children[child_idx])
+                },
+                NodeType::Leaf => {
+                    for (k, r) in node.keys.iter().zip(node.values.iter()) {
+                        if k.compare_greater_than(key) == CmpBool::CmpTrue {
+                            return false;
+                        }
+                        if *r == rid && k.compare_equals(key) == CmpBool::CmpTrue {
+                            return true;
+                        }
+                    }
+                    match &node.next_leaf {
+                        Some(next) => Arc::clone(next),
+                        None => return false,
+                    }
+                },
+            };
+            drop(node);
+            current_node = next_node;
+        }
+    }
+
     pub fn delete(&self, key: &Value, rid: RID) -> bool {
         debug!("Starting delete for key {:?} with RID {:?}", key, rid);
         let mut nodes_to_check = vec![(Arc::clone(&self.root), Vec::new())];
@@ -762,8 +801,8 @@ impl BPlusTree {
                 // For leaf splits, use the first key of the right node as separator
                 let split_key = new_node_arc.read().keys[0].clone();
 
-                let mut insert_pos = self.find_insert_position(&parent.keys, &split_key);
-                insert_pos = insert_pos.min(parent.keys.len());
+                // The new node follows the split one, also among equal separators
+                let insert_pos = child_idx;
 
                 debug!(
                     "Inserting separator key at position {} in parent (len={})",
@@ -798,8 +837,7 @@ impl BPlusTree {
                 child_guard.keys.remove(split_point);
 
                 // For internal splits, ensure the routing key is greater than all keys in left subtree
-                let mut insert_pos = self.find_insert_position(&parent.keys, &middle_key);
-                insert_pos = insert_pos.min(parent.keys.len());
+                let insert_pos = child_idx;
 
                 debug!("Inserting middle key at position {} in parent", insert_pos);
 
@@ -1006,8 +1044,7 @@ impl BPlusTree {
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left sibling
-                let separator = parent.keys.remove(child_idx - 1);
-                left.keys.push(separator);
+                left.keys.push(parent.keys[child_idx - 1].clone());
 
                 // Move all keys and children from right to left
                 left.keys.append(&mut right.keys);
@@ -1018,10 +1055,8 @@ impl BPlusTree {
         // Remove the right child from parent
         parent.children.remove(child_idx);
 
-        // Remove the separator key from parent if it exists
-        if child_idx - 1 < parent.keys.len() {
-            parent.keys.remove(child_idx - 1);
-        }
+        // Remove the separator key from parent
+        parent.keys.remove(child_idx - 1);
 
         debug!("Merge complete - Parent keys: {:?}", parent.keys);
     }
@@ -1044,8 +1079,7 @@ impl BPlusTree {
             },
             NodeType::Internal => {
                 // Move parent's separator key down to left node
-                let separator = parent.keys.remove(child_idx);
-                left.keys.push(separator);
+                left.keys.push(parent.keys[child_idx].clone());
 
                 // Move all keys and children from right to left
                 left.keys.append(&mut right.keys);
@@ -1057,14 +1091,12 @@ impl BPlusTree {
         parent.children.remove(child_idx + 1);
 
         // Remove the separator key from parent
-        if child_idx < parent.keys.len() {
-            parent.keys.remove(child_idx);
-        }
+        parent.keys.remove(child_idx);
 
         debug!("Merge complete - Parent keys: {:?}", parent.keys);
     }
 
-    fn extract_key(&self, tuple: &Tuple) -> Value {
+    pub(crate) fn extract_key(&self, tuple: &Tuple) -> Value {
         let key_attrs = self.metadata.get_key_attrs();
         assert_eq!(key_attrs.len(), 1, "Only single key indices are supported");
         // Use checked extraction so mismatched tuple shapes fail loudly and with context.
-- 
2.43.0


From 186b1b1ff70428fcbe0e40b79af47c2f7de880e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 33/74] fix: an index iterator returns each entry once

A continued range scan returned its last key again and so never ended,
next_back returned what next had returned, and reset and seek kept the
state of the scan before.
---
 src/storage/index/index_iterator_mem.rs | 41 ++++++++++++++++++-------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/storage/index/index_iterator_mem.rs b/src/storage/index/index_iterator_mem.rs
index f54349c..17a39cd 100644
--- a/src/storage/index/index_iterator_mem.rs
+++ b/src/storage/index/index_iterator_mem.rs
@@ -126,6 +126,7 @@ use parking_lot::RwLock;
 use crate::common::rid::RID;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 /// An iterator over entries in a B+ tree index.
@@ -259,7 +260,17 @@ impl IndexIterator {
                     start.clone()
                 };
 
-                tree_guard.scan_range(&scan_start, end, self.last_key.is_none())
+                // A continued scan starts after the last key: its entries were returned.
+                tree_guard
+                    .scan_range(&scan_start, end, true)
+                    .map(|mut results| {
+                        if let Some(last_key) = &self.last_key {
+                            results.retain(|(key, _)| {
+                                key.compare_greater_than(last_key) == CmpBool::CmpTrue
+                            });
+                        }
+                        results
+                    })
             },
             _ => {
                 let msg =
@@ -303,6 +314,7 @@ impl IndexIterator {
         self.current_batch.clear();
         self.position = 0;
         self.exhausted = false;
+        self.last_key = None;
         self.last_error = None;
         // Ignore errors here; callers can observe them via `try_next()` which is fallible.
         let _ = self.fetch_next_batch();
@@ -355,15 +367,12 @@ impl Iterator for IndexIterator {
 // Add support for reverse iteration
 impl DoubleEndedIterator for IndexIterator {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current_batch.is_empty() {
+        // Entries before the position were returned from the front
+        if self.position >= self.current_batch.len() {
             return None;
         }
 
-        if let Some((_, rid)) = self.current_batch.pop() {
-            Some(rid)
-        } else {
-            None
-        }
+        self.current_batch.pop().map(|(_, rid)| rid)
     }
 }
 
@@ -385,12 +394,22 @@ impl IndexIterator {
         // Perform new scan from seek key in its own scope
         {
             let tree_guard = self.tree.read();
-            if let Some(end) = &self.end_key {
-                let mut results = tree_guard.scan_range(seek_key, end, true)?;
-                self.current_batch.append(results.as_mut());
-            }
+            self.current_batch = match &self.end_key {
+                Some(end) => tree_guard.scan_range(seek_key, end, true)?,
+                None => {
+                    let key = tree_guard.extract_key(seek_key);
+                    let mut results = tree_guard.scan_full()?;
+                    results.retain(|(k, _)| k.compare_less_than(&key) != CmpBool::CmpTrue);
+                    results
+                },
+            };
         } // tree_guard is dropped here
 
+        match self.current_batch.last() {
+            Some((key, _)) => self.last_key = Some(key.clone()),
+            None => self.exhausted = true,
+        }
+
         // Now we can safely call next()
         self.try_next()
     }
-- 
2.43.0


From b1a20ff048fb884d516e07bd778152570344046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 34/74] fix: the paged B+ tree keeps every child when internal
 pages split, merge and share keys

A split of an internal page pointed to one child twice, merges removed
the wrong child pointer of the parent, redistribution lost children, and
the latch crabbing path could empty the root leaf behind the header.
---
 src/storage/index/b_plus_tree_index.rs        | 246 ++++--------------
 .../page_types/b_plus_tree_internal_page.rs   |  30 +++
 2 files changed, 86 insertions(+), 190 deletions(-)

diff --git a/src/storage/index/b_plus_tree_index.rs b/src/storage/index/b_plus_tree_index.rs
index c83dffa..0efb92a 100644
--- a/src/storage/index/b_plus_tree_index.rs
+++ b/src/storage/index/b_plus_tree_index.rs
@@ -1312,6 +1312,13 @@ where
         {
             let mut leaf = leaf_page.write();
 
+            // Safety is a snapshot taken during traversal; re-check it under the write latch.
+            // A root leaf never underflows, but taking its last key changes the header,
+            // which is the standard remove path's work.
+            if !leaf.is_safe_for(OperationType::Delete) || leaf.get_size() <= 1 {
+                return Ok(OptimisticResult::NeedRestart);
+            }
+
             // Find the key
             let key_index = leaf.find_key_index(key);
             if key_index >= leaf.get_size() {
@@ -1452,10 +1459,10 @@ where
 
             // Insert the separator key into the parent
             let mut parent_write = parent_page.write();
-            parent_write.insert_key_value(separator_key, new_page_id);
+            parent_write.insert_key_value_with_overflow(separator_key, new_page_id);
 
-            // Check if parent is now full and needs splitting
-            if parent_write.get_size() >= self.calculate_internal_max_size() {
+            // Check if parent is now too full and needs splitting
+            if parent_write.get_size() > self.calculate_internal_max_size() {
                 // Release parent write lock first
                 drop(parent_write);
 
@@ -1514,39 +1521,18 @@ where
 
             // Determine split point - floor(max_size/2)
             let split_point = internal_max_size / 2;
-            let current_size = internal_write.get_size();
-
-            // The middle key (at split_point) will be promoted to the parent
-            middle_key = internal_write
-                .get_key_at(split_point)
-                .ok_or(BPlusTreeError::InvalidPageType)?
-                .clone();
-
-            // Get the child that will be the leftmost pointer in the new page
-            // (This is the child pointer that goes immediately after the middle key)
-            let child_after_middle = internal_write
-                .get_value_at(split_point + 1)
-                .ok_or(BPlusTreeError::InvalidPageType)?;
-
-            // First insert the leftmost child pointer in the new page
-            // For an internal page, we need to setup the first child before any keys
-            new_internal_write.insert_key_value(middle_key.clone(), child_after_middle);
-            // This added a key and two pointers, but we only wanted one pointer (leftmost)
-            // We'll overwrite with the remaining keys and values
-
-            // Now move the remaining keys and values
-            for i in (split_point + 1)..current_size {
-                if let Some(key) = internal_write.get_key_at(i)
-                    && let Some(child_id) = internal_write.get_value_at(i + 1)
-                {
-                    new_internal_write.insert_key_value(key.clone(), child_id);
-                }
+            if split_point >= internal_write.get_size() {
+                return Err(BPlusTreeError::InvalidPageType);
             }
 
-            // Now remove keys from original page: remove the middle key and all keys after it
-            for _ in split_point..current_size {
-                internal_write.remove_key_value_at(split_point);
-            }
+            // The middle key (at split_point) will be promoted to the parent; the keys after it
+            // and the child pointers around them move to the new page
+            let (mut keys, mut children) = internal_write.get_entries();
+            let right_keys = keys.split_off(split_point + 1);
+            let right_children = children.split_off(split_point + 1);
+            middle_key = keys.remove(split_point);
+            new_internal_write.set_entries(right_keys, right_children);
+            internal_write.set_entries(keys, children);
         }
 
         // Now handle the parent insertion
@@ -1579,10 +1565,10 @@ where
 
             // Insert the middle key into the parent, associating it with the new page ID
             let mut parent_write = parent_page.write();
-            parent_write.insert_key_value(middle_key, new_page_id);
+            parent_write.insert_key_value_with_overflow(middle_key, new_page_id);
 
-            // Check if parent is now full and needs splitting
-            if parent_write.get_size() >= self.calculate_internal_max_size() {
+            // Check if parent is now too full and needs splitting
+            if parent_write.get_size() > self.calculate_internal_max_size() {
                 // Release parent write lock first
                 drop(parent_write);
 
@@ -1658,7 +1644,10 @@ where
         left_write.set_next_page_id(right_write.get_next_page_id());
 
         // 5. Remove the separator key and right child pointer from parent
-        parent_write.remove_key_value_at(parent_key_index);
+        let (mut parent_keys, mut parent_children) = parent_write.get_entries();
+        parent_keys.remove(parent_key_index);
+        parent_children.remove(parent_key_index + 1);
+        parent_write.set_entries(parent_keys, parent_children);
 
         // 6. Handle parent's status after removal
         let is_parent_root = parent_write.is_root();
@@ -1803,8 +1792,7 @@ where
             if let Some(new_sep) = new_separator {
                 // Fix: Replace set_key_at with proper method to update a key
                 if parent_write.get_key_at(parent_key_index).is_some() {
-                    parent_write.remove_key_value_at(parent_key_index);
-                    parent_write.insert_key_value(new_sep, right_page.get_page_id());
+                    parent_write.set_key_at(parent_key_index, new_sep);
                 }
             } else {
                 return Err(BPlusTreeError::BufferPoolError(
@@ -1863,8 +1851,7 @@ where
             let new_separator = right_write.get_key_at(0).cloned();
             if let Some(new_sep) = new_separator {
                 if parent_write.get_key_at(parent_key_index).is_some() {
-                    parent_write.remove_key_value_at(parent_key_index);
-                    parent_write.insert_key_value(new_sep, right_page.get_page_id());
+                    parent_write.set_key_at(parent_key_index, new_sep);
                 }
             } else {
                 return Err(BPlusTreeError::BufferPoolError(
@@ -1923,24 +1910,20 @@ where
             ));
         }
 
-        // 3. Move the separator key from parent to the left page
-        let right_first_child = right_write.get_value_at(0).ok_or_else(|| {
-            BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-        })?;
-        left_write.insert_key_value(separator_key, right_first_child);
+        // 3. Move the separator key from the parent and all keys and child pointers of the right
+        // page to the left page
+        let (mut keys, mut children) = left_write.get_entries();
+        let (right_keys, right_children) = right_write.get_entries();
+        keys.push(separator_key);
+        keys.extend(right_keys);
+        children.extend(right_children);
+        left_write.set_entries(keys, children);
 
-        // 4. Copy all keys and child pointers from right page to left page
-        // Skip the first child pointer of right page as it's already handled with the separator key
-        for i in 0..right_write.get_size() {
-            if let Some(key) = right_write.get_key_at(i)
-                && let Some(child_id) = right_write.get_value_at(i + 1)
-            {
-                left_write.insert_key_value(key.clone(), child_id);
-            }
-        }
-
-        // 5. Remove the separator key and right child pointer from parent
-        parent_write.remove_key_value_at(parent_key_index);
+        // 4. Remove the separator key and right child pointer from parent
+        let (mut parent_keys, mut parent_children) = parent_write.get_entries();
+        parent_keys.remove(parent_key_index);
+        parent_children.remove(parent_key_index + 1);
+        parent_write.set_entries(parent_keys, parent_children);
 
         // 6. Handle parent's status after removal
         let is_parent_root = parent_write.is_root();
@@ -2060,139 +2043,22 @@ where
         }
 
         // Calculate target sizes after redistribution (approximately balanced)
+        // Line up the keys and child pointers of both pages, then cut them in two. The key at the
+        // cut becomes the separator in the parent.
         let target_size = total_entries / 2;
+        let (mut keys, mut children) = left_write.get_entries();
+        let (right_keys, right_children) = right_write.get_entries();
+        keys.push(separator_key);
+        keys.extend(right_keys);
+        children.extend(right_children);
+
+        let right_keys = keys.split_off(target_size + 1);
+        let right_children = children.split_off(target_size + 1);
+        let new_separator = keys.remove(target_size);
+        left_write.set_entries(keys, children);
+        right_write.set_entries(right_keys, right_children);
+        parent_write.set_key_at(parent_key_index, new_separator);
 
-        // 4. Determine direction of redistribution
-        if left_size < right_size {
-            // Move entries from right to left
-            // First, get the leftmost child from right page
-            let right_first_child = right_write.get_value_at(0).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-            })?;
-
-            // Move separator key from parent to left page, with rightmost child pointer
-            left_write.insert_key_value(separator_key, right_first_child);
-
-            // Calculate how many more keys to move (excluding the first child already moved)
-            let additional_keys_to_move = target_size - left_size - 1;
-
-            // Move additional keys and children from right to left
-            for i in 0..additional_keys_to_move {
-                let key_to_move = right_write.get_key_at(i);
-                let child_id_to_move = right_write.get_value_at(i + 1);
-
-                if let (Some(key), Some(child_id)) = (key_to_move, child_id_to_move) {
-                    left_write.insert_key_value(key, child_id);
-                }
-            }
-
-            // Get the new separator key from right page
-            let new_separator = right_write
-                .get_key_at(additional_keys_to_move)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Not enough keys in right page".to_string())
-                })?
-                .clone();
-
-            // Update parent with new separator key
-            parent_write.remove_key_value_at(parent_key_index);
-            parent_write.insert_key_value(new_separator, right_page.get_page_id());
-
-            // Update right page: remove moved keys and update leftmost child
-            // We need to keep the old rightmost child of right page as its new leftmost child
-            right_write
-                .get_value_at(additional_keys_to_move + 1)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Invalid right page layout".to_string())
-                })?;
-
-            // Remove the transferred keys/values from right page
-            for _ in 0..=additional_keys_to_move {
-                right_write.remove_key_value_at(0);
-            }
-        } else {
-            // Move entries from left to right
-
-            // First, get the rightmost key and child from left page
-            let left_size = left_write.get_size();
-            let left_last_key = left_write
-                .get_key_at(left_size - 1)
-                .ok_or_else(|| {
-                    BPlusTreeError::BufferPoolError("Left page has no keys".to_string())
-                })?
-                .clone();
-            let left_last_child = left_write.get_value_at(left_size).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Left page has invalid child count".to_string())
-            })?;
-
-            // Calculate how many keys to move
-            let keys_to_move = left_size - target_size;
-
-            // Save right page's leftmost child
-            right_write.get_value_at(0).ok_or_else(|| {
-                BPlusTreeError::BufferPoolError("Right page has no children".to_string())
-            })?;
-
-            // Shift everything in right page to make room
-            // To avoid modifying while iterating, we'll collect all keys/values first
-            let right_size = right_write.get_size();
-            let mut right_kv_pairs = Vec::with_capacity(right_size);
-
-            for i in 0..right_size {
-                let key = right_write.get_key_at(i);
-                let child_id = right_write.get_value_at(i + 1);
-
-                if let (Some(k), Some(v)) = (key, child_id) {
-                    right_kv_pairs.push((k, v));
-                }
-            }
-
-            // Clear right page except for its leftmost child pointer
-            while right_write.get_size() > 0 {
-                right_write.remove_key_value_at(0);
-            }
-
-            // Insert separator key from parent with left's rightmost child
-            right_write.insert_key_value(separator_key, left_last_child);
-
-            // Move the keys to move from left to right (except the last one that becomes the new separator)
-            let start_idx = left_size - keys_to_move;
-            let end_idx = left_size - 1; // Exclude the last key which becomes the separator
-
-            // Create a temporary vector of keys to move
-            let mut keys_to_move_vec = Vec::with_capacity(keys_to_move);
-            for i in start_idx..end_idx {
-                let key = left_write.get_key_at(i);
-                let child_id = left_write.get_value_at(i + 1);
-
-                if let (Some(k), Some(v)) = (key, child_id) {
-                    keys_to_move_vec.push((k, v));
-                }
-            }
-
-            // Insert the keys to move
-            for (key, child_id) in keys_to_move_vec {
-                right_write.insert_key_value(key, child_id);
-            }
-
-            // Put back the original keys in right page
-            for (key, child_id) in right_kv_pairs {
-                right_write.insert_key_value(key, child_id);
-            }
-
-            // Update parent with last key from left as new separator
-            parent_write.remove_key_value_at(parent_key_index);
-            parent_write.insert_key_value(left_last_key, right_page.get_page_id());
-
-            // Remove transferred keys from left page
-            // Store current size to avoid borrowing issues
-            let current_left_size = left_write.get_size();
-            for i in 0..keys_to_move {
-                left_write.remove_key_value_at(current_left_size - 1 - i);
-            }
-        }
-
-        // The locks will be released when the write guards are dropped
         Ok(())
     }
 
diff --git a/src/storage/page/page_types/b_plus_tree_internal_page.rs b/src/storage/page/page_types/b_plus_tree_internal_page.rs
index 0be5c61..beb0c98 100644
--- a/src/storage/page/page_types/b_plus_tree_internal_page.rs
+++ b/src/storage/page/page_types/b_plus_tree_internal_page.rs
@@ -168,6 +168,12 @@ impl<
             return false;
         }
 
+        self.insert_key_value_with_overflow(key, value)
+    }
+
+    /// Insert a key and the child pointer to its right even if the page is full. The caller
+    /// splits a page that holds more than `max_size` keys.
+    pub fn insert_key_value_with_overflow(&mut self, key: KeyType, value: PageId) -> bool {
         // First insertion case: special handling
         if self.size == 0 {
             debug!(
@@ -378,6 +384,30 @@ impl<
         }
     }
 
+    /// Replace the key at the index, leaving the child pointers as they are
+    pub fn set_key_at(&mut self, index: usize, key: KeyType) -> bool {
+        if index >= self.keys.len() {
+            return false;
+        }
+        self.keys[index] = key;
+        self.is_dirty = true;
+        true
+    }
+
+    /// All keys and child pointers of the page
+    pub fn get_entries(&self) -> (Vec<KeyType>, Vec<PageId>) {
+        (self.keys.clone(), self.values.clone())
+    }
+
+    /// Replace all keys and child pointers of the page: n keys come with n + 1 pointers
+    pub fn set_entries(&mut self, keys: Vec<KeyType>, values: Vec<PageId>) {
+        debug_assert_eq!(values.len(), keys.len() + 1);
+        self.size = keys.len();
+        self.keys = keys;
+        self.values = values;
+        self.is_dirty = true;
+    }
+
     /// Remove a key and its corresponding value (child pointer) from the internal page
     /// In a B+ tree internal node:
     /// - When removing key at index i, we remove the child pointer at index i+1
-- 
2.43.0


From 4308335b1b975741c53e8a256bafcbb76857ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 35/74] fix: the extendible hash table splits and merges
 buckets by the right hash bits

A split compared hashes with the whole directory index, so entries moved
to the bucket they are not looked up in, and a merge deleted the bucket
that it kept.
---
 src/container/disk_extendable_hash_table.rs          | 11 ++++++-----
 .../extendable_hash_table_directory_page.rs          | 12 ++++++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/container/disk_extendable_hash_table.rs b/src/container/disk_extendable_hash_table.rs
index 1e2e4ea..54d12b0 100644
--- a/src/container/disk_extendable_hash_table.rs
+++ b/src/container/disk_extendable_hash_table.rs
@@ -540,6 +540,8 @@ impl DiskExtendableHashTable {
         // If removal was successful and bucket is empty, try to merge
         if removed {
             let is_empty = bucket_page.read().is_empty();
+            // A pinned page cannot be deleted
+            drop(bucket_page);
             if is_empty {
                 self.merge_bucket(directory_index, bucket_index);
             }
@@ -678,15 +680,14 @@ impl DiskExtendableHashTable {
                 let entries = old_bucket.get_all_entries();
                 old_bucket.clear();
 
-                // Redistribute entries based on the new local depth
-                let new_local_depth = directory.get_local_depth(bucket_index as u32);
-                let mask = (1 << new_local_depth) - 1;
+                // Redistribute entries by the hash bit that the new local depth adds, as the
+                // directory does
+                let distinguishing_bit = 1u32 << local_depth;
 
                 for (key, value) in entries {
                     let hash = self.hash_fn.get_hash(&key) as u32;
-                    let target_bucket_index = hash & mask;
 
-                    if target_bucket_index == bucket_index as u32 {
+                    if hash & distinguishing_bit == 0 {
                         old_bucket.insert(key, value);
                     } else {
                         new_bucket.insert(key, value);
diff --git a/src/storage/page/page_types/extendable_hash_table_directory_page.rs b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
index 7988c4c..abe3901 100644
--- a/src/storage/page/page_types/extendable_hash_table_directory_page.rs
+++ b/src/storage/page/page_types/extendable_hash_table_directory_page.rs
@@ -614,6 +614,9 @@ impl ExtendableHTableDirectoryPage {
     }
 
     /// Merges a bucket with its buddy bucket when possible
+    ///
+    /// # Returns
+    /// The page ID of the bucket that no directory entry points to any more.
     pub fn merge_bucket(&mut self, bucket_index: usize) -> Option<PageId> {
         let local_depth = self.get_local_depth(bucket_index as u32);
         if local_depth == 0 {
@@ -629,19 +632,20 @@ impl ExtendableHTableDirectoryPage {
             return None;
         }
 
+        let removed_page_id = self.get_bucket_page_id(bucket_index)?;
         let buddy_page_id = self.get_bucket_page_id(buddy_bucket_index)?;
 
-        // Update all entries pointing to this bucket to point to buddy
-        let mask = (1 << local_depth) - 1;
+        // Point all entries of this bucket and of its buddy to the buddy
+        let mask = (1 << (local_depth - 1)) - 1;
         for i in 0..(1 << self.get_global_depth()) {
-            if (i & mask) == bucket_index {
+            if (i & mask) == (bucket_index & mask) {
                 self.set_bucket_page_id(i, buddy_page_id);
                 self.set_local_depth(i, local_depth - 1);
             }
         }
 
         // Return the page ID of the bucket being removed
-        self.get_bucket_page_id(bucket_index)
+        Some(removed_page_id)
     }
 
     // Helper method to find the correct bucket index for a given page ID
-- 
2.43.0


From 8850faaf52aefd6841dfc9f20afd916a6092cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 36/74] fix: expressions over joined rows see both rows

---
 .../expressions/abstract_expression.rs        | 120 +++++++++++++-----
 1 file changed, 90 insertions(+), 30 deletions(-)

diff --git a/src/sql/execution/expressions/abstract_expression.rs b/src/sql/execution/expressions/abstract_expression.rs
index a7a201b..ab6ae8e 100644
--- a/src/sql/execution/expressions/abstract_expression.rs
+++ b/src/sql/execution/expressions/abstract_expression.rs
@@ -243,8 +243,12 @@ impl ExpressionOps for Expression {
             Self::Window(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Cast(expr) => expr.evaluate(left_tuple, right_schema),
-            Self::Case(expr) => expr.evaluate(left_tuple, right_schema),
+            Self::Cast(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Case(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Function(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
@@ -263,37 +267,93 @@ impl ExpressionOps for Expression {
             Self::Extract(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Exists(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Regex(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::DateTime(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Coalesce(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Random(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Trim(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Interval(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::GroupingSets(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Filter(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::IsDistinct(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Exists(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Regex(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::DateTime(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Coalesce(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Random(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Trim(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Interval(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::GroupingSets(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Filter(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::IsDistinct(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Position(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-            Self::Method(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Struct(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Overlay(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Collate(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::AtTimeZone(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::MapAccess(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Tuple(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Wildcard(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::QualifiedWildcard(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::TypedString(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Subscript(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::IsCheck(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::BinaryOp(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Any(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::All(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::UnaryOp(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::Convert(expr) => expr.evaluate(left_tuple, left_schema),
-            Self::CeilFloor(expr) => expr.evaluate(left_tuple, left_schema),
+            Self::Method(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Struct(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Overlay(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Collate(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::AtTimeZone(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::MapAccess(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Tuple(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Wildcard(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::QualifiedWildcard(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::TypedString(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Subscript(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::IsCheck(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::BinaryOp(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Any(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::All(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::UnaryOp(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::Convert(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
+            Self::CeilFloor(expr) => {
+                expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
+            },
             Self::Substring(expr) => {
                 expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)
             },
-- 
2.43.0


From 17ba947bd61309aa807a14856813a8e70b5048e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 37/74] fix: AND and OR with NULL follow three-valued logic,
 binary operators work on joined rows

---
 .../expressions/binary_op_expression.rs       | 70 +++++++++----------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/sql/execution/expressions/binary_op_expression.rs b/src/sql/execution/expressions/binary_op_expression.rs
index 2d78b5d..bb01c67 100644
--- a/src/sql/execution/expressions/binary_op_expression.rs
+++ b/src/sql/execution/expressions/binary_op_expression.rs
@@ -184,49 +184,47 @@ impl BinaryOpExpression {
         left_val: &Value,
         right_val: &Value,
     ) -> Result<Value, ExpressionError> {
-        match (left_val.get_val(), right_val.get_val()) {
-            (Val::Boolean(l), Val::Boolean(r)) => {
-                let result = match self.op {
-                    BinaryOperator::And => *l && *r,
-                    BinaryOperator::Or => *l || *r,
-                    _ => {
-                        return Err(ExpressionError::InvalidOperation(format!(
-                            "Invalid logical operator: {:?}",
-                            self.op
-                        )));
-                    },
-                };
-                Ok(Value::from(result))
-            },
+        // NULL is neither true nor false: it is the result unless the other operand decides
+        let operand = |val: &Value| match val.get_val() {
+            Val::Boolean(b) => Ok(Some(*b)),
+            Val::Null => Ok(None),
             _ => Err(ExpressionError::InvalidOperation(
                 "Logical operations require boolean operands".to_string(),
             )),
-        }
+        };
+        let decisive = match self.op {
+            BinaryOperator::And => false,
+            BinaryOperator::Or => true,
+            _ => {
+                return Err(ExpressionError::InvalidOperation(format!(
+                    "Invalid logical operator: {:?}",
+                    self.op
+                )));
+            },
+        };
+        Ok(match (operand(left_val)?, operand(right_val)?) {
+            (Some(l), Some(r)) if l != decisive && r != decisive => Value::from(!decisive),
+            (l, r) if l == Some(decisive) || r == Some(decisive) => Value::from(decisive),
+            _ => Value::new(Val::Null),
+        })
     }
-}
-
-impl ExpressionOps for BinaryOpExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let left_val = self.left.evaluate(tuple, schema)?;
-        let right_val = self.right.evaluate(tuple, schema)?;
 
+    fn compute(&self, left_val: &Value, right_val: &Value) -> Result<Value, ExpressionError> {
         match self.op {
             BinaryOperator::Plus
             | BinaryOperator::Minus
             | BinaryOperator::Multiply
             | BinaryOperator::Divide
-            | BinaryOperator::Modulo => self.evaluate_arithmetic(&left_val, &right_val),
+            | BinaryOperator::Modulo => self.evaluate_arithmetic(left_val, right_val),
 
             BinaryOperator::Eq
             | BinaryOperator::NotEq
             | BinaryOperator::Gt
             | BinaryOperator::Lt
             | BinaryOperator::GtEq
-            | BinaryOperator::LtEq => self.evaluate_comparison(&left_val, &right_val),
+            | BinaryOperator::LtEq => self.evaluate_comparison(left_val, right_val),
 
-            BinaryOperator::And | BinaryOperator::Or => {
-                self.evaluate_logical(&left_val, &right_val)
-            },
+            BinaryOperator::And | BinaryOperator::Or => self.evaluate_logical(left_val, right_val),
 
             BinaryOperator::StringConcat => match (left_val.get_val(), right_val.get_val()) {
                 (Val::VarLen(l), Val::VarLen(r)) => Ok(Value::from(format!("{}{}", l, r))),
@@ -241,6 +239,15 @@ impl ExpressionOps for BinaryOpExpression {
             ))),
         }
     }
+}
+
+impl ExpressionOps for BinaryOpExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let left_val = self.left.evaluate(tuple, schema)?;
+        let right_val = self.right.evaluate(tuple, schema)?;
+
+        self.compute(&left_val, &right_val)
+    }
 
     fn evaluate_join(
         &self,
@@ -256,16 +263,7 @@ impl ExpressionOps for BinaryOpExpression {
             self.right
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        // Create a schema that matches our values
-        let temp_schema = Schema::new(vec![
-            Column::new("left_val", left_val.get_type_id()),
-            Column::new("right_val", right_val.get_type_id()),
-        ]);
-
-        self.evaluate(
-            &Tuple::new(&[left_val, right_val], &temp_schema, left_tuple.get_rid()),
-            &temp_schema,
-        )
+        self.compute(&left_val, &right_val)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From adf0fbba284a862434ca870f42eafbe135666ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 38/74] fix: arithmetic over joined rows is the arithmetic over
 one row

---
 .../expressions/arithmetic_expression.rs      | 124 ++----------------
 1 file changed, 13 insertions(+), 111 deletions(-)

diff --git a/src/sql/execution/expressions/arithmetic_expression.rs b/src/sql/execution/expressions/arithmetic_expression.rs
index db6e53e..a08e36a 100644
--- a/src/sql/execution/expressions/arithmetic_expression.rs
+++ b/src/sql/execution/expressions/arithmetic_expression.rs
@@ -135,11 +135,9 @@ impl ArithmeticExpression {
     }
 }
 
-impl ExpressionOps for ArithmeticExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let left_value = self.get_left().evaluate(tuple, schema)?;
-        let right_value = self.get_right().evaluate(tuple, schema)?;
-
+impl ArithmeticExpression {
+    /// The value of the operation on two operands
+    fn compute(&self, left_value: &Value, right_value: &Value) -> Result<Value, ExpressionError> {
         match (left_value.get_val(), right_value.get_val()) {
             // TinyInt operations
             (Val::TinyInt(l), Val::TinyInt(r)) => {
@@ -748,6 +746,15 @@ impl ExpressionOps for ArithmeticExpression {
             _ => Err(ExpressionError::ArithmeticError(Unknown)),
         }
     }
+}
+
+impl ExpressionOps for ArithmeticExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let left_value = self.get_left().evaluate(tuple, schema)?;
+        let right_value = self.get_right().evaluate(tuple, schema)?;
+
+        self.compute(&left_value, &right_value)
+    }
 
     fn evaluate_join(
         &self,
@@ -763,112 +770,7 @@ impl ExpressionOps for ArithmeticExpression {
             self.get_right()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        match (left_value.get_val(), right_value.get_val()) {
-            (Val::Integer(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r),
-                    ArithmeticOp::Subtract => l.checked_sub(*r),
-                    ArithmeticOp::Multiply => l.checked_mul(*r),
-                    ArithmeticOp::Divide => l.checked_div(*r),
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Decimal(l), Val::Decimal(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l + *r,
-                    ArithmeticOp::Subtract => l - *r,
-                    ArithmeticOp::Multiply => l * *r,
-                    ArithmeticOp::Divide => {
-                        if *r != 0.0 {
-                            Ok(l / *r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::Integer(l), Val::Decimal(r)) | (Val::Decimal(r), Val::Integer(l)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            (Val::BigInt(l), Val::Integer(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => l.checked_add(*r as i64),
-                    ArithmeticOp::Subtract => l.checked_sub(*r as i64),
-                    ArithmeticOp::Multiply => l.checked_mul(*r as i64),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        l.checked_div(*r as i64)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::Integer(l), Val::BigInt(r)) => {
-                let result = match self.op {
-                    ArithmeticOp::Add => (*l as i64).checked_add(*r),
-                    ArithmeticOp::Subtract => (*l as i64).checked_sub(*r),
-                    ArithmeticOp::Multiply => (*l as i64).checked_mul(*r),
-                    ArithmeticOp::Divide => {
-                        if *r == 0 {
-                            return Err(ExpressionError::ArithmeticError(DivisionByZero));
-                        }
-                        (*l as i64).checked_div(*r)
-                    },
-                };
-                result
-                    .map(Value::from)
-                    .ok_or(ExpressionError::ArithmeticError(Overflow))
-            },
-            (Val::BigInt(l), Val::Decimal(r)) | (Val::Decimal(r), Val::BigInt(l)) => {
-                let l = *l as f64;
-                let r = *r;
-                let result = match self.op {
-                    ArithmeticOp::Add => l + r,
-                    ArithmeticOp::Subtract => l - r,
-                    ArithmeticOp::Multiply => l * r,
-                    ArithmeticOp::Divide => {
-                        if r != 0.0 {
-                            Ok(l / r)
-                        } else {
-                            Err(ExpressionError::ArithmeticError(DivisionByZero))
-                        }?
-                    },
-                };
-                Ok(Value::from(result))
-            },
-            _ => Err(ExpressionError::ArithmeticError(Unknown)),
-        }
+        self.compute(&left_value, &right_value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 03df589dbafedb9660aad0bb7608992e9657e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 39/74] fix: numbers of different types are compared without
 rounding one of them

---
 src/sql/execution/expressions/comparison_expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/comparison_expression.rs b/src/sql/execution/expressions/comparison_expression.rs
index 4d1c9be..7ae4ab8 100644
--- a/src/sql/execution/expressions/comparison_expression.rs
+++ b/src/sql/execution/expressions/comparison_expression.rs
@@ -93,7 +93,8 @@ impl ComparisonExpression {
         }
 
         // If types are different, try casting to make them comparable
-        if lhs.get_type_id() != rhs.get_type_id() {
+        // (numbers of any two types compare directly, without rounding one of them)
+        if lhs.get_type_id() != rhs.get_type_id() && !(lhs.is_numeric() && rhs.is_numeric()) {
             // Try casting left to right type first
             if let Ok(cast_lhs) = lhs.cast_to(rhs.get_type_id()) {
                 let cast_result = match self.comp_type {
-- 
2.43.0


From b075cbb7397d1505c08968970146460ad9cbad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 40/74] fix: BETWEEN with NULL is unknown and compares mixed
 numbers

---
 .../expressions/between_expression.rs         | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/sql/execution/expressions/between_expression.rs b/src/sql/execution/expressions/between_expression.rs
index 3597c68..9f19ead 100644
--- a/src/sql/execution/expressions/between_expression.rs
+++ b/src/sql/execution/expressions/between_expression.rs
@@ -7,7 +7,8 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::value::Value;
+use crate::types_db::types::{CmpBool, Type};
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct BetweenExpression {
@@ -40,16 +41,29 @@ impl BetweenExpression {
     }
 }
 
+impl BetweenExpression {
+    /// Whether value is between low and high (inclusive), NULL when a NULL leaves it open
+    fn compute(&self, value: &Value, low: &Value, high: &Value) -> Value {
+        let between = match (
+            value.compare_greater_than_equals(low),
+            value.compare_less_than_equals(high),
+        ) {
+            (CmpBool::CmpFalse, _) | (_, CmpBool::CmpFalse) => false,
+            (CmpBool::CmpTrue, CmpBool::CmpTrue) => true,
+            _ => return Value::new(Val::Null),
+        };
+
+        Value::new(if self.negated { !between } else { between })
+    }
+}
+
 impl ExpressionOps for BetweenExpression {
     fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
         let value = self.expr.evaluate(tuple, schema)?;
         let low = self.low.evaluate(tuple, schema)?;
         let high = self.high.evaluate(tuple, schema)?;
 
-        // Check if value is between low and high (inclusive)
-        let between = value >= low && value <= high;
-
-        Ok(Value::new(if self.negated { !between } else { between }))
+        Ok(self.compute(&value, &low, &high))
     }
 
     fn evaluate_join(
@@ -69,10 +83,7 @@ impl ExpressionOps for BetweenExpression {
             .high
             .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        // Check if value is between low and high (inclusive)
-        let between = value >= low && value <= high;
-
-        Ok(Value::new(if self.negated { !between } else { between }))
+        Ok(self.compute(&value, &low, &high))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 68f5966bae7cfe0d4656b23a57328faff6ab41a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 41/74] fix: CASE treats an unknown condition as not met

---
 src/sql/execution/expressions/case_expression.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/case_expression.rs b/src/sql/execution/expressions/case_expression.rs
index 7b7df1b..78e41d9 100644
--- a/src/sql/execution/expressions/case_expression.rs
+++ b/src/sql/execution/expressions/case_expression.rs
@@ -8,6 +8,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
+use crate::types_db::types::{self, CmpBool};
 use crate::types_db::value::{Val, Value};
 
 #[derive(Debug, Clone, PartialEq)]
@@ -113,7 +114,7 @@ impl ExpressionOps for CaseExpression {
             let when_value = when_expr.evaluate(tuple, schema)?;
             let matches = match &base_value {
                 // For CASE expr WHEN ... form, compare base_value with when_value
-                Some(base) => base == &when_value,
+                Some(base) => types::Type::compare_equals(base, &when_value) == CmpBool::CmpTrue,
                 // For CASE WHEN ... form, check if when_value is true
                 None => match when_value.get_val() {
                     Val::Boolean(b) => {
@@ -123,6 +124,8 @@ impl ExpressionOps for CaseExpression {
                         );
                         *b
                     },
+                    // An unknown condition does not match
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
@@ -176,9 +179,11 @@ impl ExpressionOps for CaseExpression {
             let when_value =
                 when_expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
             let matches = match &base_value {
-                Some(base) => base == &when_value,
+                Some(base) => types::Type::compare_equals(base, &when_value) == CmpBool::CmpTrue,
                 None => match when_value.get_val() {
                     Val::Boolean(b) => *b,
+                    // An unknown condition does not match
+                    Val::Null => false,
                     _ => return Err(ExpressionError::InvalidType("Expected boolean".to_string())),
                 },
             };
-- 
2.43.0


From 138da0f275d3b9dc0e7d0f0be698f4839909691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 42/74] fix: a decimal out of range is not cast to an integer,
 casts over joined rows round

---
 .../execution/expressions/cast_expression.rs  | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/sql/execution/expressions/cast_expression.rs b/src/sql/execution/expressions/cast_expression.rs
index 92d341d..0fa5f87 100644
--- a/src/sql/execution/expressions/cast_expression.rs
+++ b/src/sql/execution/expressions/cast_expression.rs
@@ -64,10 +64,8 @@ impl CastExpression {
     }
 }
 
-impl ExpressionOps for CastExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let value = self.expr.evaluate(tuple, schema)?;
-
+impl CastExpression {
+    fn cast(&self, value: Value) -> Result<Value, ExpressionError> {
         // Handle NULL values first - return NULL of target type
         if value.is_null() {
             return Ok(Value::new_with_type(Val::Null, self.target_type));
@@ -77,10 +75,17 @@ impl ExpressionOps for CastExpression {
             // Decimal to Integer casting
             (TypeId::Decimal, TypeId::Integer) => {
                 if let Val::Decimal(d) = value.get_val() {
-                    Ok(Value::new_with_type(
-                        Val::Integer(d.round() as i32),
-                        TypeId::Integer,
-                    ))
+                    let rounded = d.round();
+                    if rounded >= i32::MIN as f64 && rounded <= i32::MAX as f64 {
+                        Ok(Value::new_with_type(
+                            Val::Integer(rounded as i32),
+                            TypeId::Integer,
+                        ))
+                    } else {
+                        Err(ExpressionError::CastError(
+                            "Decimal is out of range for integer".to_string(),
+                        ))
+                    }
                 } else {
                     Err(ExpressionError::CastError(
                         "Invalid value for decimal to integer cast".to_string(),
@@ -150,6 +155,14 @@ impl ExpressionOps for CastExpression {
 
         self.apply_format(cast_result)
     }
+}
+
+impl ExpressionOps for CastExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let value = self.expr.evaluate(tuple, schema)?;
+
+        self.cast(value)
+    }
 
     fn evaluate_join(
         &self,
@@ -161,9 +174,8 @@ impl ExpressionOps for CastExpression {
         let value = self
             .expr
             .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        value
-            .cast_to(self.target_type)
-            .map_err(|e| ExpressionError::CastError(e.to_string()))
+
+        self.cast(value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 7442868f65b495211450e0aebd419a20e6674431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 43/74] fix: LIKE matches characters, not bytes, and is unknown
 for NULL

---
 .../execution/expressions/like_expression.rs  | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/sql/execution/expressions/like_expression.rs b/src/sql/execution/expressions/like_expression.rs
index 4bc970a..6c3751d 100644
--- a/src/sql/execution/expressions/like_expression.rs
+++ b/src/sql/execution/expressions/like_expression.rs
@@ -7,7 +7,7 @@ use crate::catalog::schema::Schema;
 use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct LikeExpression {
@@ -44,6 +44,18 @@ impl LikeExpression {
         &self.children[1]
     }
 
+    /// Whether the value matches the pattern, NULL when one of them is NULL
+    fn compute(&self, value: &Value, pattern: &Value) -> Value {
+        if value.is_null() || pattern.is_null() {
+            return Value::new(Val::Null);
+        }
+        let value_str = value.to_string();
+        let pattern_str = pattern.to_string();
+
+        let matches = self.matches_pattern(&value_str, &pattern_str, self.escape_char);
+        Value::new(if self.negated { !matches } else { matches })
+    }
+
     fn matches_pattern(&self, value: &str, pattern: &str, escape: Option<char>) -> bool {
         let mut pattern_chars = pattern.chars().peekable();
         let mut value_chars = value.chars().peekable();
@@ -74,7 +86,8 @@ impl LikeExpression {
                     }
 
                     let remaining_value: String = value_chars.clone().collect();
-                    for i in 0..=remaining_value.len() {
+                    let ends = remaining_value.char_indices().map(|(i, _)| i);
+                    for i in ends.chain([remaining_value.len()]) {
                         let test_value = &remaining_value[i..];
                         if self.matches_pattern(test_value, &remaining_pattern, escape) {
                             return true;
@@ -120,11 +133,7 @@ impl ExpressionOps for LikeExpression {
         let value = self.get_expr().evaluate(tuple, schema)?;
         let pattern = self.get_pattern().evaluate(tuple, schema)?;
 
-        let value_str = value.to_string();
-        let pattern_str = pattern.to_string();
-
-        let matches = self.matches_pattern(&value_str, &pattern_str, self.escape_char);
-        Ok(Value::new(if self.negated { !matches } else { matches }))
+        Ok(self.compute(&value, &pattern))
     }
 
     fn evaluate_join(
@@ -141,11 +150,7 @@ impl ExpressionOps for LikeExpression {
             self.get_pattern()
                 .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        let value_str = value.to_string();
-        let pattern_str = pattern.to_string();
-
-        let matches = self.matches_pattern(&value_str, &pattern_str, self.escape_char);
-        Ok(Value::new(if self.negated { !matches } else { matches }))
+        Ok(self.compute(&value, &pattern))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From f7face3214c44489a8432bbd317c6a19e577fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 44/74] fix: the negative of the smallest integer is an
 overflow

---
 .../expressions/unary_op_expression.rs        | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/sql/execution/expressions/unary_op_expression.rs b/src/sql/execution/expressions/unary_op_expression.rs
index fd49cb1..7faf8be 100644
--- a/src/sql/execution/expressions/unary_op_expression.rs
+++ b/src/sql/execution/expressions/unary_op_expression.rs
@@ -5,12 +5,16 @@ use sqlparser::ast::UnaryOperator;
 
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
-use crate::common::exception::ExpressionError;
+use crate::common::exception::{ArithmeticExpressionError, ExpressionError};
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
 use crate::types_db::value::{Val, Value};
 
+/// The smallest integer has no negative
+const OVERFLOW: ExpressionError =
+    ExpressionError::ArithmeticError(ArithmeticExpressionError::Overflow);
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct UnaryOpExpression {
     expr: Arc<Expression>,
@@ -91,10 +95,10 @@ impl ExpressionOps for UnaryOpExpression {
                     return Ok(Value::new(Val::Null));
                 }
                 match val.get_val() {
-                    Val::TinyInt(i) => Ok(Value::new(-i)),
-                    Val::SmallInt(i) => Ok(Value::new(-i)),
-                    Val::Integer(i) => Ok(Value::new(-i)),
-                    Val::BigInt(i) => Ok(Value::new(-i)),
+                    Val::TinyInt(i) => i.checked_neg().map(Value::new).ok_or(OVERFLOW),
+                    Val::SmallInt(i) => i.checked_neg().map(Value::new).ok_or(OVERFLOW),
+                    Val::Integer(i) => i.checked_neg().map(Value::new).ok_or(OVERFLOW),
+                    Val::BigInt(i) => i.checked_neg().map(Value::new).ok_or(OVERFLOW),
                     Val::Decimal(f) => Ok(Value::new(-f)),
                     _ => Err(ExpressionError::InvalidOperation(
                         "Unary minus can only be applied to numeric values".to_string(),
@@ -137,10 +141,10 @@ impl ExpressionOps for UnaryOpExpression {
                     return Ok(Value::new(Val::Null));
                 }
                 match val.get_val() {
-                    Val::TinyInt(i) => Ok(Value::new(-i)),
-                    Val::SmallInt(i) => Ok(Value::new(-i)),
-                    Val::Integer(i) => Ok(Value::new(-i)),
-                    Val::BigInt(i) => Ok(Value::new(-i)),
+                    Val::TinyInt(i) => i.checked_neg().map(Value::new).ok_or(OVERFLOW),
+                    Val::SmallInt(i) => i.checked_neg().map(Value::new).ok_or(OVERFLOW),
+                    Val::Integer(i) => i.checked_neg().map(Value::new).ok_or(OVERFLOW),
+                    Val::BigInt(i) => i.checked_neg().map(Value::new).ok_or(OVERFLOW),
                     Val::Decimal(f) => Ok(Value::new(-f)),
                     _ => Err(ExpressionError::InvalidOperation(
                         "Unary minus can only be applied to numeric values".to_string(),
-- 
2.43.0


From 29b23a106bf7c05f9f672b35ac8a902b6f596a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 45/74] fix: equal numbers of different types are not distinct

---
 src/sql/execution/expressions/is_distinct_expression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/is_distinct_expression.rs b/src/sql/execution/expressions/is_distinct_expression.rs
index f601fde..e00e5d0 100644
--- a/src/sql/execution/expressions/is_distinct_expression.rs
+++ b/src/sql/execution/expressions/is_distinct_expression.rs
@@ -8,6 +8,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
+use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
 #[derive(Clone, Debug, PartialEq)]
@@ -50,7 +51,7 @@ impl ExpressionOps for IsDistinctExpression {
         } else if left_val.is_null() || right_val.is_null() {
             true
         } else {
-            left_val != right_val
+            left_val != right_val && left_val.compare_equals(&right_val) != CmpBool::CmpTrue
         };
 
         Ok(Value::new(if self.negated {
@@ -79,7 +80,7 @@ impl ExpressionOps for IsDistinctExpression {
         } else if left_val.is_null() || right_val.is_null() {
             true // NULL IS DISTINCT FROM any non-NULL value
         } else {
-            left_val != right_val
+            left_val != right_val && left_val.compare_equals(&right_val) != CmpBool::CmpTrue
         };
 
         Ok(Value::new(if self.negated {
-- 
2.43.0


From 1f5d5f2f8a9f3c33b1093517bd346fa3fc02f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 46/74] fix: SUBSTRING, OVERLAY and POSITION count characters

---
 .../expressions/overlay_expression.rs         | 134 +++------------
 .../expressions/position_expression.rs        |  62 ++-----
 .../expressions/substring_expression.rs       | 153 ++++--------------
 3 files changed, 75 insertions(+), 274 deletions(-)

diff --git a/src/sql/execution/expressions/overlay_expression.rs b/src/sql/execution/expressions/overlay_expression.rs
index 5f811bb..1c233d3 100644
--- a/src/sql/execution/expressions/overlay_expression.rs
+++ b/src/sql/execution/expressions/overlay_expression.rs
@@ -45,13 +45,17 @@ impl OverlayExpression {
     }
 }
 
-impl ExpressionOps for OverlayExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let base_str = self.expr.evaluate(tuple, schema)?;
-        let overlay_str = self.overlay_what.evaluate(tuple, schema)?;
-        let from_pos = self.overlay_from.evaluate(tuple, schema)?;
+impl OverlayExpression {
+    /// The value of the expression, given the values of its operands
+    fn compute(
+        &self,
+        eval: impl Fn(&Expression) -> Result<Value, ExpressionError>,
+    ) -> Result<Value, ExpressionError> {
+        let base_str = eval(&self.expr)?;
+        let overlay_str = eval(&self.overlay_what)?;
+        let from_pos = eval(&self.overlay_from)?;
         let for_len = if let Some(for_expr) = &self.overlay_for {
-            Some(for_expr.evaluate(tuple, schema)?)
+            Some(eval(for_expr)?)
         } else {
             None
         };
@@ -115,11 +119,13 @@ impl ExpressionOps for OverlayExpression {
                     )));
                 },
             },
-            None => overlay_text.len(), // When FOR is not specified, replace characters equal to the length of overlay string
+            None => overlay_text.chars().count(), // When FOR is not specified, replace characters equal to the length of overlay string
         };
 
         // Perform the overlay operation
-        let result = if start_pos >= base_text.len() {
+        // (positions count characters)
+        let base_chars: Vec<char> = base_text.chars().collect();
+        let result = if start_pos >= base_chars.len() {
             // If start position is beyond the end of the string, just append the overlay string
             format!("{}{}", base_text, overlay_text)
         } else {
@@ -127,18 +133,24 @@ impl ExpressionOps for OverlayExpression {
             let end_pos = if replace_len == 0 {
                 start_pos // When replace_len is 0, we don't remove any characters
             } else {
-                std::cmp::min(start_pos + replace_len, base_text.len())
+                std::cmp::min(start_pos + replace_len, base_chars.len())
             };
             format!(
                 "{}{}{}",
-                &base_text[0..start_pos],
+                base_chars[0..start_pos].iter().collect::<String>(),
                 overlay_text,
-                &base_text[end_pos..]
+                base_chars[end_pos..].iter().collect::<String>()
             )
         };
 
         Ok(Value::new(result))
     }
+}
+
+impl ExpressionOps for OverlayExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        self.compute(|expr| expr.evaluate(tuple, schema))
+    }
 
     fn evaluate_join(
         &self,
@@ -147,105 +159,7 @@ impl ExpressionOps for OverlayExpression {
         right_tuple: &Tuple,
         right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        let base_str =
-            self.expr
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        let overlay_str =
-            self.overlay_what
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        let from_pos =
-            self.overlay_from
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        let for_len = if let Some(for_expr) = &self.overlay_for {
-            Some(for_expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?)
-        } else {
-            None
-        };
-
-        // Extract string values
-        let base_text = match base_str.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "OVERLAY base expression must be a string, got {:?}",
-                    base_str.get_type_id()
-                )));
-            },
-        };
-
-        let overlay_text = match overlay_str.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "OVERLAY PLACING expression must be a string, got {:?}",
-                    overlay_str.get_type_id()
-                )));
-            },
-        };
-
-        // Get the starting position (1-indexed in SQL)
-        let start_pos = match from_pos.get_val() {
-            Val::Integer(i) => {
-                if *i < 1 {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "OVERLAY FROM position must be >= 1, got {}",
-                        i
-                    )));
-                }
-                (*i as usize).saturating_sub(1) // Convert to 0-indexed for Rust
-            },
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "OVERLAY FROM expression must be an integer, got {:?}",
-                    from_pos.get_type_id()
-                )));
-            },
-        };
-
-        // Get the length to replace (if specified)
-        let replace_len = match for_len {
-            Some(len) => match len.get_val() {
-                Val::Integer(i) => {
-                    if *i < 0 {
-                        return Err(ExpressionError::InvalidOperation(format!(
-                            "OVERLAY FOR length must be >= 0, got {}",
-                            i
-                        )));
-                    }
-                    *i as usize
-                },
-                _ => {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "OVERLAY FOR expression must be an integer, got {:?}",
-                        len.get_type_id()
-                    )));
-                },
-            },
-            None => overlay_text.len(), // When FOR is not specified, replace characters equal to the length of overlay string
-        };
-
-        // Perform the overlay operation
-        let result = if start_pos >= base_text.len() {
-            // If start position is beyond the end of the string, just append the overlay string
-            format!("{}{}", base_text, overlay_text)
-        } else {
-            // Calculate the end position for replacement
-            let end_pos = if replace_len == 0 {
-                start_pos // When replace_len is 0, we don't remove any characters
-            } else {
-                std::cmp::min(start_pos + replace_len, base_text.len())
-            };
-
-            // Construct the result string
-            format!(
-                "{}{}{}",
-                &base_text[0..start_pos],
-                overlay_text,
-                &base_text[end_pos..]
-            )
-        };
-
-        Ok(Value::new(result))
+        self.compute(|expr| expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
diff --git a/src/sql/execution/expressions/position_expression.rs b/src/sql/execution/expressions/position_expression.rs
index 0ac8adb..044961e 100644
--- a/src/sql/execution/expressions/position_expression.rs
+++ b/src/sql/execution/expressions/position_expression.rs
@@ -36,11 +36,15 @@ impl PositionExpression {
     }
 }
 
-impl ExpressionOps for PositionExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+impl PositionExpression {
+    /// The value of the expression, given the values of its operands
+    fn compute(
+        &self,
+        eval: impl Fn(&Expression) -> Result<Value, ExpressionError>,
+    ) -> Result<Value, ExpressionError> {
         // Evaluate the substring and string expressions
-        let substring_val = self.substring.evaluate(tuple, schema)?;
-        let string_val = self.string.evaluate(tuple, schema)?;
+        let substring_val = eval(&self.substring)?;
+        let string_val = eval(&self.string)?;
 
         // Handle NULL values
         if substring_val.is_null() || string_val.is_null() {
@@ -68,12 +72,18 @@ impl ExpressionOps for PositionExpression {
 
         // Find the position (1-indexed as per SQL standard)
         let position = match string_str.find(substring_str) {
-            Some(pos) => (pos + 1) as i32, // Convert to 1-indexed
-            None => 0,                     // Not found
+            Some(pos) => (string_str[..pos].chars().count() + 1) as i32, // Convert to 1-indexed
+            None => 0,                                                   // Not found
         };
 
         Ok(Value::new(position))
     }
+}
+
+impl ExpressionOps for PositionExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        self.compute(|expr| expr.evaluate(tuple, schema))
+    }
 
     fn evaluate_join(
         &self,
@@ -82,45 +92,7 @@ impl ExpressionOps for PositionExpression {
         right_tuple: &Tuple,
         right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // Evaluate the substring and string expressions
-        let substring_val =
-            self.substring
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        let string_val =
-            self.string
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-
-        // Handle NULL values
-        if substring_val.is_null() || string_val.is_null() {
-            return Ok(Value::new(Val::Null));
-        }
-
-        // Extract string values
-        let substring_str = match substring_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s,
-            _ => {
-                return Err(ExpressionError::InvalidOperation(
-                    "POSITION substring must be a string".to_string(),
-                ));
-            },
-        };
-
-        let string_str = match string_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s,
-            _ => {
-                return Err(ExpressionError::InvalidOperation(
-                    "POSITION string must be a string".to_string(),
-                ));
-            },
-        };
-
-        // Find the position (1-indexed as per SQL standard)
-        let position = match string_str.find(substring_str) {
-            Some(pos) => (pos + 1) as i32, // Convert to 1-indexed
-            None => 0,                     // Not found
-        };
-
-        Ok(Value::new(position))
+        self.compute(|expr| expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
diff --git a/src/sql/execution/expressions/substring_expression.rs b/src/sql/execution/expressions/substring_expression.rs
index 9e5bcf1..cb26858 100644
--- a/src/sql/execution/expressions/substring_expression.rs
+++ b/src/sql/execution/expressions/substring_expression.rs
@@ -61,10 +61,14 @@ impl SubstringExpression {
     }
 }
 
-impl ExpressionOps for SubstringExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+impl SubstringExpression {
+    /// The value of the expression, given the values of its operands
+    fn compute(
+        &self,
+        eval: impl Fn(&Expression) -> Result<Value, ExpressionError>,
+    ) -> Result<Value, ExpressionError> {
         // Evaluate the string expression
-        let string_val = self.string_expr.evaluate(tuple, schema)?;
+        let string_val = eval(&self.string_expr)?;
         if string_val.is_null() {
             return Ok(Value::new(Val::Null));
         }
@@ -81,17 +85,17 @@ impl ExpressionOps for SubstringExpression {
         };
 
         // Evaluate the FROM expression (start position)
-        let from_val = self.from_expr.evaluate(tuple, schema)?;
+        let from_val = eval(&self.from_expr)?;
         if from_val.is_null() {
             return Ok(Value::new(Val::Null));
         }
 
         // Get the start position (1-indexed in SQL)
         let start_pos = match from_val.get_val() {
-            Val::Integer(i) => *i,
-            Val::BigInt(i) => *i as i32,
-            Val::SmallInt(i) => *i as i32,
-            Val::TinyInt(i) => *i as i32,
+            Val::Integer(i) => *i as i64,
+            Val::BigInt(i) => *i,
+            Val::SmallInt(i) => *i as i64,
+            Val::TinyInt(i) => *i as i64,
             _ => {
                 return Err(ExpressionError::InvalidOperation(format!(
                     "SUBSTRING FROM requires numeric input, got {:?}",
@@ -100,39 +104,42 @@ impl ExpressionOps for SubstringExpression {
             },
         };
 
+        // Positions count characters
+        let chars: Vec<char> = string.chars().collect();
+
         // Convert to 0-indexed for Rust
         // If start_pos is negative, count from the end of the string
         let start_idx = if start_pos > 0 {
             (start_pos - 1) as usize
         } else if start_pos < 0 {
-            let abs_pos = (-start_pos) as usize;
-            if abs_pos > string.len() {
+            let abs_pos = start_pos.unsigned_abs() as usize;
+            if abs_pos > chars.len() {
                 0 // If negative position is beyond string start, start from beginning
             } else {
-                string.len() - abs_pos
+                chars.len() - abs_pos
             }
         } else {
             0 // If start_pos is 0, start from beginning (SQL standard says this is invalid, but many DBs allow it)
         };
 
         // If start is beyond the end of the string, return empty string
-        if start_idx >= string.len() {
+        if start_idx >= chars.len() {
             return Ok(Value::new(""));
         }
 
         // If FOR expression is provided, evaluate it
         if let Some(for_expr) = &self.for_expr {
-            let for_val = for_expr.evaluate(tuple, schema)?;
+            let for_val = eval(for_expr)?;
             if for_val.is_null() {
                 return Ok(Value::new(Val::Null));
             }
 
             // Get the length
             let length = match for_val.get_val() {
-                Val::Integer(i) => *i,
-                Val::BigInt(i) => *i as i32,
-                Val::SmallInt(i) => *i as i32,
-                Val::TinyInt(i) => *i as i32,
+                Val::Integer(i) => *i as i64,
+                Val::BigInt(i) => *i,
+                Val::SmallInt(i) => *i as i64,
+                Val::TinyInt(i) => *i as i64,
                 _ => {
                     return Err(ExpressionError::InvalidOperation(format!(
                         "SUBSTRING FOR requires numeric input, got {:?}",
@@ -147,17 +154,23 @@ impl ExpressionOps for SubstringExpression {
             }
 
             // Calculate end index (exclusive)
-            let end_idx = std::cmp::min(start_idx + length as usize, string.len());
+            let end_idx = std::cmp::min(start_idx.saturating_add(length as usize), chars.len());
 
             // Extract substring
-            let result = string[start_idx..end_idx].to_string();
+            let result = chars[start_idx..end_idx].iter().collect::<String>();
             Ok(Value::new(result))
         } else {
             // If no FOR expression, return rest of string
-            let result = string[start_idx..].to_string();
+            let result = chars[start_idx..].iter().collect::<String>();
             Ok(Value::new(result))
         }
     }
+}
+
+impl ExpressionOps for SubstringExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        self.compute(|expr| expr.evaluate(tuple, schema))
+    }
 
     fn evaluate_join(
         &self,
@@ -166,105 +179,7 @@ impl ExpressionOps for SubstringExpression {
         right_tuple: &Tuple,
         right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // Evaluate the string expression
-        let string_val =
-            self.string_expr
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        if string_val.is_null() {
-            return Ok(Value::new(Val::Null));
-        }
-
-        // Get the string value
-        let string = match string_val.get_val() {
-            Val::VarLen(s) | Val::ConstLen(s) => s.clone(),
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "SUBSTRING requires string input, got {:?}",
-                    string_val.get_type_id()
-                )));
-            },
-        };
-
-        // Evaluate the FROM expression (start position)
-        let from_val =
-            self.from_expr
-                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-        if from_val.is_null() {
-            return Ok(Value::new(Val::Null));
-        }
-
-        // Get the start position (1-indexed in SQL)
-        let start_pos = match from_val.get_val() {
-            Val::Integer(i) => *i,
-            Val::BigInt(i) => *i as i32,
-            Val::SmallInt(i) => *i as i32,
-            Val::TinyInt(i) => *i as i32,
-            _ => {
-                return Err(ExpressionError::InvalidOperation(format!(
-                    "SUBSTRING FROM requires numeric input, got {:?}",
-                    from_val.get_type_id()
-                )));
-            },
-        };
-
-        // Convert to 0-indexed for Rust
-        // If start_pos is negative, count from the end of the string
-        let start_idx = if start_pos > 0 {
-            (start_pos - 1) as usize
-        } else if start_pos < 0 {
-            let abs_pos = (-start_pos) as usize;
-            if abs_pos > string.len() {
-                0 // If negative position is beyond string start, start from beginning
-            } else {
-                string.len() - abs_pos
-            }
-        } else {
-            0 // If start_pos is 0, start from beginning (SQL standard says this is invalid, but many DBs allow it)
-        };
-
-        // If start is beyond the end of the string, return empty string
-        if start_idx >= string.len() {
-            return Ok(Value::new(""));
-        }
-
-        // If FOR expression is provided, evaluate it
-        if let Some(for_expr) = &self.for_expr {
-            let for_val =
-                for_expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
-            if for_val.is_null() {
-                return Ok(Value::new(Val::Null));
-            }
-
-            // Get the length
-            let length = match for_val.get_val() {
-                Val::Integer(i) => *i,
-                Val::BigInt(i) => *i as i32,
-                Val::SmallInt(i) => *i as i32,
-                Val::TinyInt(i) => *i as i32,
-                _ => {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "SUBSTRING FOR requires numeric input, got {:?}",
-                        for_val.get_type_id()
-                    )));
-                },
-            };
-
-            // If length is negative, return empty string (SQL standard behavior)
-            if length <= 0 {
-                return Ok(Value::new(""));
-            }
-
-            // Calculate end index (exclusive)
-            let end_idx = std::cmp::min(start_idx + length as usize, string.len());
-
-            // Extract substring
-            let result = string[start_idx..end_idx].to_string();
-            Ok(Value::new(result))
-        } else {
-            // If no FOR expression, return rest of string
-            let result = string[start_idx..].to_string();
-            Ok(Value::new(result))
-        }
+        self.compute(|expr| expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From b8cc828f48446c19a9857b204898a617428ca301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:13 +0000
Subject: [PATCH 47/74] fix: CEIL of a time that starts a field is the time,
 also after 2038 and in joins

---
 .../expressions/ceil_floor_expression.rs      | 50 ++++++++++++-------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/sql/execution/expressions/ceil_floor_expression.rs b/src/sql/execution/expressions/ceil_floor_expression.rs
index 8cfa480..e74055f 100644
--- a/src/sql/execution/expressions/ceil_floor_expression.rs
+++ b/src/sql/execution/expressions/ceil_floor_expression.rs
@@ -64,9 +64,13 @@ impl CeilFloorExpression {
     }
 }
 
-impl ExpressionOps for CeilFloorExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let input_val = self.expr.evaluate(tuple, schema)?;
+impl CeilFloorExpression {
+    /// The value of the expression, given the values of its operands
+    fn compute(
+        &self,
+        eval: impl Fn(&Expression) -> Result<Value, ExpressionError>,
+    ) -> Result<Value, ExpressionError> {
+        let input_val = eval(&self.expr)?;
 
         // Handle NULL input
         if input_val.is_null() {
@@ -77,7 +81,7 @@ impl ExpressionOps for CeilFloorExpression {
             TypeId::Decimal => {
                 let num = input_val.as_decimal().unwrap();
                 let scale = if let Some(scale_expr) = &self.scale {
-                    let scale_val = scale_expr.evaluate(tuple, schema)?;
+                    let scale_val = eval(scale_expr)?;
                     if scale_val.is_null() {
                         return Ok(Value::new(Val::Null));
                     }
@@ -118,21 +122,21 @@ impl ExpressionOps for CeilFloorExpression {
                             DateTimeField::Minute => {
                                 let minutes = secs / 60;
                                 match self.operation {
-                                    CeilFloorOperation::Ceil => (minutes + 1) * 60,
+                                    CeilFloorOperation::Ceil => secs.div_ceil(60) * 60,
                                     CeilFloorOperation::Floor => minutes * 60,
                                 }
                             },
                             DateTimeField::Hour => {
                                 let hours = secs / 3600;
                                 match self.operation {
-                                    CeilFloorOperation::Ceil => (hours + 1) * 3600,
+                                    CeilFloorOperation::Ceil => secs.div_ceil(3600) * 3600,
                                     CeilFloorOperation::Floor => hours * 3600,
                                 }
                             },
                             DateTimeField::Day => {
                                 let days = secs / 86400;
                                 match self.operation {
-                                    CeilFloorOperation::Ceil => (days + 1) * 86400,
+                                    CeilFloorOperation::Ceil => secs.div_ceil(86400) * 86400,
                                     CeilFloorOperation::Floor => days * 86400,
                                 }
                             },
@@ -144,7 +148,10 @@ impl ExpressionOps for CeilFloorExpression {
                                         date_to_timestamp(year, month, 1, 0, 0, 0)
                                     },
                                     CeilFloorOperation::Ceil => {
-                                        if month == 12 {
+                                        let first = date_to_timestamp(year, month, 1, 0, 0, 0);
+                                        if first == *ts {
+                                            first
+                                        } else if month == 12 {
                                             // First day of next year
                                             date_to_timestamp(year + 1, 1, 1, 0, 0, 0)
                                         } else {
@@ -163,8 +170,13 @@ impl ExpressionOps for CeilFloorExpression {
                                         date_to_timestamp(year, 1, 1, 0, 0, 0)
                                     },
                                     CeilFloorOperation::Ceil => {
-                                        // First day of next year
-                                        date_to_timestamp(year + 1, 1, 1, 0, 0, 0)
+                                        let first = date_to_timestamp(year, 1, 1, 0, 0, 0);
+                                        if first == *ts {
+                                            first
+                                        } else {
+                                            // First day of next year
+                                            date_to_timestamp(year + 1, 1, 1, 0, 0, 0)
+                                        }
                                     },
                                 }
                             },
@@ -197,16 +209,21 @@ impl ExpressionOps for CeilFloorExpression {
             ))),
         }
     }
+}
+
+impl ExpressionOps for CeilFloorExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        self.compute(|expr| expr.evaluate(tuple, schema))
+    }
 
     fn evaluate_join(
         &self,
         left_tuple: &Tuple,
         left_schema: &Schema,
-        _right_tuple: &Tuple,
-        _right_schema: &Schema,
+        right_tuple: &Tuple,
+        right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // For join evaluation, we'll just evaluate against the left tuple and schema
-        self.evaluate(left_tuple, left_schema)
+        self.compute(|expr| expr.evaluate_join(left_tuple, left_schema, right_tuple, right_schema))
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
@@ -459,8 +476,7 @@ fn days_in_month(year: i32, month: i32) -> i32 {
 }
 
 fn timestamp_to_date(timestamp: u64) -> (i32, i32, i32, i32, i32, i32) {
-    let secs = timestamp as i32;
-    let mut days = secs / 86400;
+    let mut days = (timestamp / 86400) as i32;
     let mut year = 1970;
     let mut month = 1;
 
@@ -478,7 +494,7 @@ fn timestamp_to_date(timestamp: u64) -> (i32, i32, i32, i32, i32, i32) {
 
     // Calculate remaining time
     let day = days + 1;
-    let secs_of_day = secs % 86400;
+    let secs_of_day = (timestamp % 86400) as i32;
     let hour = secs_of_day / 3600;
     let min = (secs_of_day % 3600) / 60;
     let sec = secs_of_day % 60;
-- 
2.43.0


From aacaa5b84fad038898df24fe56babfb5e6e41d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:51 +0000
Subject: [PATCH 48/74] fix: ORDER BY sorts NaN and mixed numbers, and reports
 errors instead of a part of the rows

---
 src/sql/execution/executors/sort_executor.rs | 114 ++++++-------------
 src/sql/execution/plans/sort_plan.rs         |  18 +++
 src/types_db/value.rs                        |  35 ++++++
 3 files changed, 90 insertions(+), 77 deletions(-)

diff --git a/src/sql/execution/executors/sort_executor.rs b/src/sql/execution/executors/sort_executor.rs
index e025abd..6eef471 100644
--- a/src/sql/execution/executors/sort_executor.rs
+++ b/src/sql/execution/executors/sort_executor.rs
@@ -105,7 +105,7 @@
 
 use std::sync::Arc;
 
-use log::{debug, error, trace};
+use log::{debug, error};
 use parking_lot::RwLock;
 
 use crate::catalog::schema::Schema;
@@ -117,6 +117,7 @@ use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::sort_plan::{OrderDirection, SortNode};
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::value::Value;
 
 /// Executor for sorting query results according to `ORDER BY` specifications.
 ///
@@ -190,6 +191,9 @@ pub struct SortExecutor {
     /// Current position in the sorted output vector.
     current_index: usize,
 
+    /// Error met while collecting the rows, reported by the next call of next()
+    error: Option<DBError>,
+
     /// Flag indicating whether initialization (and sorting) is complete.
     initialized: bool,
 }
@@ -250,6 +254,7 @@ impl SortExecutor {
             child_executor: Some(child_executor),
             sorted_tuples: Vec::new(),
             current_index: 0,
+            error: None,
             initialized: false,
         }
     }
@@ -304,91 +309,42 @@ impl AbstractExecutor for SortExecutor {
             debug!("Initializing child executor");
             child.init();
 
-            // Collect all tuples
+            // Collect all tuples with their sort keys
             debug!("Starting to collect tuples from child executor");
-            let mut tuple_count = 0;
-            loop {
+            let order_by_specs = self.plan.get_order_bys();
+            let schema = self.plan.get_output_schema();
+            let mut keyed_tuples: Vec<(Vec<Value>, (Arc<Tuple>, RID))> = Vec::new();
+            let collected = loop {
                 match child.next() {
                     Ok(Some((tuple, rid))) => {
-                        self.sorted_tuples.push((tuple, rid));
-                        tuple_count += 1;
-                        if tuple_count % 100 == 0 {
-                            trace!("Collected {} tuples so far", tuple_count);
+                        let keys = order_by_specs
+                            .iter()
+                            .map(|spec| spec.get_expression().evaluate(&tuple, schema))
+                            .collect::<Result<Vec<Value>, _>>();
+                        match keys {
+                            Ok(keys) => keyed_tuples.push((keys, (tuple, rid))),
+                            Err(e) => break Err(DBError::Execution(e.to_string())),
                         }
                     },
-                    Ok(None) => {
-                        // No more tuples
-                        break;
-                    },
-                    Err(e) => {
-                        error!("Error collecting tuples from child executor: {}", e);
-                        break;
-                    },
+                    Ok(None) => break Ok(()),
+                    Err(e) => break Err(e),
                 }
+            };
+            if let Err(e) = collected {
+                error!("Error collecting tuples to sort: {}", e);
+                // A part of the rows is not a result: next() reports the error.
+                self.error = Some(e);
+                keyed_tuples.clear();
             }
-            debug!("Collected {} tuples for sorting", self.sorted_tuples.len());
-
-            // Get references to order by specifications and schema
-            let order_by_specs = self.plan.get_order_bys().clone();
-            let schema = self.plan.get_output_schema().clone();
-
-            debug!(
-                "Starting to sort {} tuples with {} order by specifications",
-                self.sorted_tuples.len(),
-                order_by_specs.len()
-            );
+            debug!("Collected {} tuples for sorting", keyed_tuples.len());
 
             // Sort tuples using the order by specifications with ASC/DESC support
-            self.sorted_tuples.sort_by(|(tuple_a, _), (tuple_b, _)| {
-                // Compare each order by expression in sequence
-                for order_by_spec in &order_by_specs {
-                    let expression = order_by_spec.get_expression();
-                    let direction = order_by_spec.get_direction();
-
-                    // Evaluate expressions for both tuples
-                    let val_a_result = expression.evaluate(tuple_a, &schema);
-                    let val_b_result = expression.evaluate(tuple_b, &schema);
-
-                    // Handle evaluation results
-                    if let (Ok(val_a), Ok(val_b)) = (&val_a_result, &val_b_result) {
-                        // Compare values
-                        match val_a.partial_cmp(val_b) {
-                            Some(ordering) if !ordering.is_eq() => {
-                                // Apply direction: if DESC, reverse the ordering
-                                let final_ordering = match direction {
-                                    OrderDirection::Asc => ordering,
-                                    OrderDirection::Desc => ordering.reverse(),
-                                };
-                                trace!("Comparing values {:?} vs {:?}, order: {:?}, direction: {:?}, result: {:?}",
-                                       val_a, val_b, ordering, direction, final_ordering);
-                                return final_ordering;
-                            }
-                            None => {
-                                debug!("Cannot compare values: {:?} and {:?}", val_a, val_b);
-                                // Continue to next expression if values can't be compared
-                                continue;
-                            }
-                            _ => {
-                                // Values are equal, continue to next expression
-                                continue;
-                            }
-                        }
-                    } else {
-                        // Handle evaluation errors
-                        if let Err(e) = &val_a_result {
-                            error!("Error evaluating left expression: {}", e);
-                        }
-                        if let Err(e) = &val_b_result {
-                            error!("Error evaluating right expression: {}", e);
-                        }
-                        // Continue to next expression if there was an error
-                        continue;
-                    }
-                }
-
-                // If all expressions are equal or had errors, return equal
-                std::cmp::Ordering::Equal
-            });
+            let directions: Vec<OrderDirection> = order_by_specs
+                .iter()
+                .map(|spec| spec.get_direction())
+                .collect();
+            keyed_tuples.sort_by(|(a, _), (b, _)| OrderDirection::compare_keys(a, b, &directions));
+            self.sorted_tuples = keyed_tuples.into_iter().map(|(_, row)| row).collect();
 
             debug!("Sorting completed");
         }
@@ -435,6 +391,10 @@ impl AbstractExecutor for SortExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+
         if self.current_index >= self.sorted_tuples.len() {
             debug!("No more tuples to return");
             return Ok(None);
diff --git a/src/sql/execution/plans/sort_plan.rs b/src/sql/execution/plans/sort_plan.rs
index e096d34..938165e 100644
--- a/src/sql/execution/plans/sort_plan.rs
+++ b/src/sql/execution/plans/sort_plan.rs
@@ -1,3 +1,4 @@
+use std::cmp::Ordering;
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::sync::Arc;
@@ -5,6 +6,7 @@ use std::sync::Arc;
 use crate::catalog::schema::Schema;
 use crate::sql::execution::expressions::abstract_expression::Expression;
 use crate::sql::execution::plans::abstract_plan::{AbstractPlanNode, PlanNode, PlanType};
+use crate::types_db::value::Value;
 
 /// Represents the sort order direction for ORDER BY clauses
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
@@ -24,6 +26,22 @@ impl OrderDirection {
     pub fn is_descending(&self) -> bool {
         matches!(self, OrderDirection::Desc)
     }
+
+    /// Compares two lists of sort keys, each key in its own direction
+    ///
+    /// Keys without a direction are compared in descending order.
+    pub fn compare_keys(a: &[Value], b: &[Value], directions: &[OrderDirection]) -> Ordering {
+        for (i, (a, b)) in a.iter().zip(b).enumerate() {
+            let ordering = match directions.get(i) {
+                Some(OrderDirection::Asc) => a.sort_cmp(b),
+                Some(OrderDirection::Desc) | None => b.sort_cmp(a),
+            };
+            if ordering.is_ne() {
+                return ordering;
+            }
+        }
+        Ordering::Equal
+    }
 }
 
 impl Display for OrderDirection {
diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 5dfe81b..4623a8d 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -190,6 +190,41 @@ impl Value {
         )
     }
 
+    /// Total order of values, for sorting rows and groups.
+    ///
+    /// NULL comes first, numbers are ordered by value whatever their type (NaN last),
+    /// and values that SQL does not compare keep the deterministic order of `PartialOrd`.
+    pub fn sort_cmp(&self, other: &Self) -> std::cmp::Ordering {
+        use std::cmp::Ordering;
+
+        let is_nan = |v: &Self| match &v.value_ {
+            Val::Decimal(d) => d.is_nan(),
+            Val::Float(f) => f.is_nan(),
+            _ => false,
+        };
+        match (self.is_null(), other.is_null()) {
+            (true, true) => return Ordering::Equal,
+            (true, false) => return Ordering::Less,
+            (false, true) => return Ordering::Greater,
+            (false, false) => {},
+        }
+        if self.is_numeric() && other.is_numeric() {
+            return match (is_nan(self), is_nan(other)) {
+                (true, true) => Ordering::Equal,
+                (true, false) => Ordering::Greater,
+                (false, true) => Ordering::Less,
+                (false, false) if self.compare_less_than(other) == CmpBool::CmpTrue => {
+                    Ordering::Less
+                },
+                (false, false) if self.compare_greater_than(other) == CmpBool::CmpTrue => {
+                    Ordering::Greater
+                },
+                (false, false) => Ordering::Equal,
+            };
+        }
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
+    }
+
     /// Checks if this value represents a CURRENT_TIMESTAMP default value
     pub fn is_current_timestamp(&self) -> bool {
         match &self.value_ {
-- 
2.43.0


From 14623df46ba4a4aa58471a520489988d4c8850c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:51 +0000
Subject: [PATCH 49/74] fix: top-N returns the first rows of the requested
 order, sorted, and reports errors

---
 src/sql/execution/executors/topn_executor.rs  | 161 +++++------
 .../executors/topn_per_group_executor.rs      | 273 ++++++------------
 .../execution/plans/topn_per_group_plan.rs    |  15 +
 src/sql/execution/plans/topn_plan.rs          |  15 +
 src/sql/planner/logical_plan.rs               |  37 ++-
 5 files changed, 207 insertions(+), 294 deletions(-)

diff --git a/src/sql/execution/executors/topn_executor.rs b/src/sql/execution/executors/topn_executor.rs
index 632906e..7c931d9 100644
--- a/src/sql/execution/executors/topn_executor.rs
+++ b/src/sql/execution/executors/topn_executor.rs
@@ -1,8 +1,8 @@
-use std::cmp::{Ordering, Reverse};
+use std::cmp::Ordering;
 use std::collections::BinaryHeap;
 use std::sync::Arc;
 
-use log::{debug, trace};
+use log::debug;
 use parking_lot::RwLock;
 
 use crate::catalog::schema::Schema;
@@ -12,64 +12,55 @@ use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
 use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
+use crate::sql::execution::plans::sort_plan::OrderDirection;
 use crate::sql::execution::plans::topn_plan::TopNNode;
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::types::{CmpBool, Type};
+#[cfg(test)]
+use crate::types_db::types::Type;
 use crate::types_db::value::Value;
 
-/// Wrapper type for tuple and sort keys to implement custom ordering
-#[derive(Eq)]
-struct TupleWithKeys {
-    sort_keys: Vec<Value>,
-    tuple: Arc<Tuple>,
-    rid: RID,
+/// A tuple with its sort keys, ordered by rank in the result.
+///
+/// Tuples with equal keys rank in the order in which they were read.
+pub(super) struct RankedTuple {
+    pub(super) sort_keys: Vec<Value>,
+    pub(super) directions: Arc<Vec<OrderDirection>>,
+    pub(super) position: usize,
+    pub(super) tuple: Arc<Tuple>,
+    pub(super) rid: RID,
 }
 
-impl PartialEq for TupleWithKeys {
+impl PartialEq for RankedTuple {
     fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_equals(b) == CmpBool::CmpTrue)
+        self.cmp(other).is_eq()
     }
 }
 
-impl PartialOrd for TupleWithKeys {
+impl Eq for RankedTuple {}
+
+impl PartialOrd for RankedTuple {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         Some(self.cmp(other))
     }
 }
 
-impl Ord for TupleWithKeys {
+impl Ord for RankedTuple {
     fn cmp(&self, other: &Self) -> Ordering {
-        // Compare sort keys in ascending order for min-heap
-        for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-            }
-        }
-        Ordering::Equal
+        OrderDirection::compare_keys(&self.sort_keys, &other.sort_keys, &self.directions)
+            .then(self.position.cmp(&other.position))
     }
 }
 
-/// TopNExecutor maintains a min-heap of size K to efficiently track the top K elements
+/// TopNExecutor maintains a max-heap of size K to efficiently track the top K elements
 pub struct TopNExecutor {
     context: Arc<RwLock<ExecutionContext>>,
     plan: Arc<TopNNode>,
     child: Box<dyn AbstractExecutor>,
     // Store sorted tuples for output
-    sorted_tuples: Vec<TupleWithKeys>,
+    sorted_tuples: Vec<RankedTuple>,
     current_index: usize,
+    // Error met while collecting the rows, reported by the next call of next()
+    error: Option<DBError>,
     initialized: bool,
 }
 
@@ -91,21 +82,53 @@ impl TopNExecutor {
             child,
             sorted_tuples: Vec::new(),
             current_index: 0,
+            error: None,
             initialized: false,
         }
     }
 
     /// Evaluates the sort keys for a tuple based on the order by expressions
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Result<Vec<Value>, DBError> {
         let schema = self.plan.get_output_schema();
-        let keys = self
-            .plan
+        self.plan
             .get_sort_order_by()
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
-        trace!("Evaluated sort keys for tuple: {:?}", keys);
-        keys
+            .map(|expr| {
+                expr.evaluate(tuple, schema)
+                    .map_err(|e| DBError::Execution(e.to_string()))
+            })
+            .collect()
+    }
+
+    /// Reads all rows of the child, keeping the first K in the requested order
+    fn collect_top(&mut self) -> Result<Vec<RankedTuple>, DBError> {
+        let k = self.plan.get_k();
+        debug!("TopN k value: {}", k);
+
+        let directions = Arc::new(self.plan.get_directions().clone());
+        // Max-heap: its greatest element is the last of the K rows to return
+        let mut heap = BinaryHeap::new();
+        let mut position = 0;
+
+        // Process tuples one at a time
+        while let Some((tuple, rid)) = self.child.next()? {
+            let sort_keys = self.evaluate_sort_keys(&tuple)?;
+            debug!("Processing tuple with sort keys: {:?}", sort_keys);
+
+            heap.push(RankedTuple {
+                sort_keys,
+                directions: Arc::clone(&directions),
+                position,
+                tuple, // tuple is already Arc<Tuple>
+                rid,
+            });
+            position += 1;
+            if heap.len() > k {
+                heap.pop();
+            }
+        }
+
+        Ok(heap.into_sorted_vec())
     }
 }
 
@@ -118,55 +141,11 @@ impl AbstractExecutor for TopNExecutor {
         debug!("Initializing TopNExecutor");
         self.child.init();
 
-        let k = self.plan.get_k();
-        debug!("TopN k value: {}", k);
-
-        // Use min-heap to maintain top K elements
-        let mut heap = BinaryHeap::new();
-
-        // Process tuples one at a time
-        loop {
-            match self.child.next() {
-                Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
-                    debug!("Processing tuple with sort keys: {:?}", sort_keys);
-
-                    let tuple_with_keys = TupleWithKeys {
-                        sort_keys,
-                        tuple, // tuple is already Arc<Tuple>
-                        rid,
-                    };
-
-                    if heap.len() < k {
-                        // Heap not full yet, add element
-                        debug!("Heap not full (size {}), adding tuple", heap.len());
-                        heap.push(Reverse(tuple_with_keys));
-                    } else if let Some(Reverse(current_min)) = heap.peek() {
-                        // Compare with smallest element in heap
-                        if current_min < &tuple_with_keys {
-                            // Remove smallest and add new larger element
-                            debug!("Replacing smallest element with larger tuple");
-                            heap.pop();
-                            heap.push(Reverse(tuple_with_keys));
-                        }
-                    }
-                },
-                Ok(None) => {
-                    // No more tuples
-                    break;
-                },
-                Err(e) => {
-                    debug!("Error processing child tuple: {}", e);
-                    break;
-                },
-            }
+        match self.collect_top() {
+            Ok(tuples) => self.sorted_tuples = tuples,
+            Err(e) => self.error = Some(e),
         }
 
-        // Convert heap to sorted vector (will be in ascending order)
-        self.sorted_tuples = heap.into_iter().map(|Reverse(t)| t).collect();
-        // Reverse to get descending order
-        self.sorted_tuples.reverse();
-
         debug!(
             "TopNExecutor initialization complete. Number of tuples: {}",
             self.sorted_tuples.len()
@@ -179,6 +158,10 @@ impl AbstractExecutor for TopNExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+
         if self.current_index < self.sorted_tuples.len() {
             let result = &self.sorted_tuples[self.current_index];
             self.current_index += 1;
diff --git a/src/sql/execution/executors/topn_per_group_executor.rs b/src/sql/execution/executors/topn_per_group_executor.rs
index 9a47062..a01a4b3 100644
--- a/src/sql/execution/executors/topn_per_group_executor.rs
+++ b/src/sql/execution/executors/topn_per_group_executor.rs
@@ -1,8 +1,8 @@
-use std::cmp::{Ordering, Reverse};
+use std::cmp::Ordering;
 use std::collections::{BinaryHeap, HashMap};
 use std::sync::Arc;
 
-use log::{debug, trace};
+use log::debug;
 use parking_lot::RwLock;
 
 use crate::catalog::schema::Schema;
@@ -10,71 +10,23 @@ use crate::common::exception::DBError;
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
-use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
+use crate::sql::execution::executors::topn_executor::RankedTuple;
+use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::types::{CmpBool, Type};
+#[cfg(test)]
+use crate::types_db::types::Type;
 use crate::types_db::value::Value;
 
-/// Wrapper type for tuple and sort keys to implement custom ordering
-#[derive(Eq, Clone)]
-struct TupleWithKeys {
-    sort_keys: Vec<Value>,
-    tuple: Arc<Tuple>,
-    rid: RID,
-}
-
-impl PartialEq for TupleWithKeys {
-    fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_not_equals(b) == CmpBool::CmpTrue)
-    }
-}
-
-impl PartialOrd for TupleWithKeys {
-    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.cmp(other))
-    }
-}
-
-impl Ord for TupleWithKeys {
-    fn cmp(&self, other: &Self) -> Ordering {
-        // Compare sort keys in ascending order for min-heap
-        for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-            }
-        }
-        Ordering::Equal
-    }
-}
-
 pub struct TopNPerGroupExecutor {
     context: Arc<RwLock<ExecutionContext>>,
     plan: Arc<TopNPerGroupNode>,
     child: Box<dyn AbstractExecutor>,
-    // Map from group key to min-heap of top K elements for that group
-    groups: HashMap<Vec<Value>, BinaryHeap<Reverse<TupleWithKeys>>>,
-    // Track which group and index we're currently returning from
-    current_group: Option<Vec<Value>>,
-    group_keys: Vec<Vec<Value>>,
-    group_index: usize,
-    // Store sorted tuples for current group
-    current_group_tuples: Vec<TupleWithKeys>,
-    current_tuple_index: usize,
+    // The rows to return: group by group, each group in the requested order
+    rows: std::vec::IntoIter<RankedTuple>,
+    // Error met while collecting the rows, reported by the next call of next()
+    error: Option<DBError>,
     initialized: bool,
 }
 
@@ -91,59 +43,82 @@ impl TopNPerGroupExecutor {
             context,
             plan,
             child,
-            groups: HashMap::new(),
-            current_group: None,
-            group_keys: Vec::new(),
-            group_index: 0,
-            current_group_tuples: Vec::new(),
-            current_tuple_index: 0,
+            rows: Vec::new().into_iter(),
+            error: None,
             initialized: false,
         }
     }
 
-    /// Evaluates the sort keys for a tuple
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    /// Evaluates sort or group expressions for a tuple
+    fn evaluate_keys(
+        &self,
+        expressions: &[Arc<Expression>],
+        tuple: &Tuple,
+    ) -> Result<Vec<Value>, DBError> {
         let schema = self.plan.get_output_schema();
-        let keys: Vec<Value> = self
-            .plan
-            .get_sort_expressions()
+        expressions
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
-        trace!("Evaluated sort keys for tuple: {:?}", keys);
-        keys
-    }
-
-    /// Evaluates the group keys for a tuple
-    fn evaluate_group_keys(&self, tuple: &Tuple) -> Vec<Value> {
-        let schema = self.plan.get_output_schema();
-        let keys: Vec<Value> = self
-            .plan
-            .get_group_expressions()
-            .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect();
-        trace!("Evaluated group keys for tuple: {:?}", keys);
-        keys
+            .map(|expr| {
+                expr.evaluate(tuple, schema)
+                    .map_err(|e| DBError::Execution(e.to_string()))
+            })
+            .collect()
     }
 
     /// Compare two group keys using the Value comparison methods
     fn compare_group_keys(a: &[Value], b: &[Value]) -> Ordering {
-        for (a_val, b_val) in a.iter().zip(b.iter()) {
-            match a_val.compare_less_than(b_val) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a_val.compare_greater_than(b_val) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal, // Treat NULL as equal
+        a.iter()
+            .zip(b)
+            .map(|(a, b)| a.sort_cmp(b))
+            .find(|ordering| ordering.is_ne())
+            .unwrap_or_else(|| a.len().cmp(&b.len()))
+    }
+
+    /// Reads all rows of the child, keeping the first N of each group
+    fn collect_top(&mut self) -> Result<Vec<RankedTuple>, DBError> {
+        let n = self.plan.get_n();
+        debug!("TopNPerGroup n value: {}", n);
+
+        let directions = Arc::new(self.plan.get_directions().clone());
+        // Map from group key to max-heap: its greatest element is the last of the N rows to return
+        let mut groups: HashMap<Vec<Value>, BinaryHeap<RankedTuple>> = HashMap::new();
+        let mut position = 0;
+
+        while let Some((tuple, rid)) = self.child.next()? {
+            let sort_keys = self.evaluate_keys(self.plan.get_sort_expressions(), &tuple)?;
+            let group_keys = self.evaluate_keys(self.plan.get_group_expressions(), &tuple)?;
+
+            debug!(
+                "Processing tuple with sort keys: {:?}, group keys: {:?}",
+                sort_keys, group_keys
+            );
+
+            let group_heap = groups.entry(group_keys).or_default();
+            group_heap.push(RankedTuple {
+                sort_keys,
+                directions: Arc::clone(&directions),
+                position,
+                tuple,
+                rid,
+            });
+            position += 1;
+            if group_heap.len() > n {
+                group_heap.pop();
             }
         }
-        // If all values are equal or we run out of values, compare lengths
-        a.len().cmp(&b.len())
+
+        // Sort group keys for deterministic iteration order
+        let mut groups: Vec<_> = groups.into_iter().collect();
+        groups.sort_by(|(a, _), (b, _)| Self::compare_group_keys(a, b));
+        debug!(
+            "TopNPerGroupExecutor initialization complete. Found {} groups",
+            groups.len()
+        );
+
+        Ok(groups
+            .into_iter()
+            .flat_map(|(_, heap)| heap.into_sorted_vec())
+            .collect())
     }
 }
 
@@ -156,65 +131,10 @@ impl AbstractExecutor for TopNPerGroupExecutor {
         debug!("Initializing TopNPerGroupExecutor");
         self.child.init();
 
-        let n = self.plan.get_n();
-        debug!("TopNPerGroup n value: {}", n);
-
-        // Process all input tuples and maintain top N per group
-        loop {
-            match self.child.next() {
-                Ok(Some((tuple, rid))) => {
-                    let sort_keys = self.evaluate_sort_keys(&tuple);
-                    let group_keys = self.evaluate_group_keys(&tuple);
-
-                    debug!(
-                        "Processing tuple with sort keys: {:?}, group keys: {:?}",
-                        sort_keys, group_keys
-                    );
-
-                    let tuple_with_keys = TupleWithKeys {
-                        sort_keys,
-                        tuple,
-                        rid,
-                    };
-
-                    // Get or create min-heap for this group
-                    let group_heap = self.groups.entry(group_keys).or_default();
-
-                    if group_heap.len() < n {
-                        // Heap not full yet, add element
-                        debug!(
-                            "Group heap not full (size {}), adding tuple",
-                            group_heap.len()
-                        );
-                        group_heap.push(Reverse(tuple_with_keys));
-                    } else if let Some(Reverse(current_min)) = group_heap.peek() {
-                        // Compare with smallest element in heap
-                        if tuple_with_keys > *current_min {
-                            // Changed comparison
-                            // Remove smallest and add new larger element
-                            debug!("Replacing smallest element in group with larger tuple");
-                            group_heap.pop();
-                            group_heap.push(Reverse(tuple_with_keys));
-                        }
-                    }
-                },
-                Ok(None) => break,
-                Err(e) => {
-                    debug!("Error from child executor: {}", e);
-                    return; // Initialize failed, but we don't propagate errors from init
-                },
-            }
+        match self.collect_top() {
+            Ok(rows) => self.rows = rows.into_iter(),
+            Err(e) => self.error = Some(e),
         }
-
-        // Sort group keys for deterministic iteration order
-        self.group_keys = self.groups.keys().cloned().collect();
-        self.group_keys
-            .sort_by(|a, b| Self::compare_group_keys(a.as_slice(), b.as_slice()));
-
-        debug!(
-            "TopNPerGroupExecutor initialization complete. Found {} groups",
-            self.groups.len()
-        );
         self.initialized = true;
     }
 
@@ -223,42 +143,11 @@ impl AbstractExecutor for TopNPerGroupExecutor {
             self.init();
         }
 
-        loop {
-            // If we have tuples from the current group, return them
-            if self.current_tuple_index < self.current_group_tuples.len() {
-                let tuple_with_keys = &self.current_group_tuples[self.current_tuple_index];
-                self.current_tuple_index += 1;
-                return Ok(Some((tuple_with_keys.tuple.clone(), tuple_with_keys.rid)));
-            }
-
-            // Move to next group
-            if self.group_index >= self.group_keys.len() {
-                debug!("No more groups to process");
-                return Ok(None);
-            }
-
-            let group_key = &self.group_keys[self.group_index];
-            self.group_index += 1;
-
-            if let Some(group_heap) = self.groups.get(group_key) {
-                // Convert heap to sorted vector (largest first)
-                let mut tuples: Vec<TupleWithKeys> = group_heap
-                    .iter()
-                    .map(|Reverse(tuple_with_keys)| (*tuple_with_keys).clone())
-                    .collect();
-
-                // Sort in descending order (reverse of natural order)
-                tuples.sort_by(|a, b| b.cmp(a));
-
-                debug!("Processing group with {} tuples", tuples.len());
-
-                self.current_group_tuples = tuples;
-                self.current_tuple_index = 0;
-                self.current_group = Some(group_key.clone());
-
-                // Continue loop to return first tuple from this group
-            }
+        if let Some(e) = self.error.take() {
+            return Err(e);
         }
+
+        Ok(self.rows.next().map(|row| (row.tuple, row.rid)))
     }
 
     fn get_output_schema(&self) -> &Schema {
diff --git a/src/sql/execution/plans/topn_per_group_plan.rs b/src/sql/execution/plans/topn_per_group_plan.rs
index f6f9771..c52a381 100644
--- a/src/sql/execution/plans/topn_per_group_plan.rs
+++ b/src/sql/execution/plans/topn_per_group_plan.rs
@@ -5,6 +5,7 @@ use std::sync::Arc;
 use crate::catalog::schema::Schema;
 use crate::sql::execution::expressions::abstract_expression::Expression;
 use crate::sql::execution::plans::abstract_plan::{AbstractPlanNode, PlanNode, PlanType};
+use crate::sql::execution::plans::sort_plan::OrderDirection;
 
 /// Represents a plan node that returns the top N rows from each group
 /// For example: SELECT * FROM employees GROUP BY department ORDER BY salary DESC LIMIT 5
@@ -14,11 +15,13 @@ pub struct TopNPerGroupNode {
     output_schema: Schema,
     n: usize,                                // number of rows to return per group
     sort_expressions: Vec<Arc<Expression>>,  // expressions to sort by
+    directions: Vec<OrderDirection>,         // direction of each sort expression
     group_expressions: Vec<Arc<Expression>>, // expressions to group by
     children: Vec<PlanNode>,
 }
 
 impl TopNPerGroupNode {
+    /// Creates a node for the `n` largest rows of each group, in descending order
     pub fn new(
         n: usize,
         sort_expressions: Vec<Arc<Expression>>,
@@ -30,11 +33,23 @@ impl TopNPerGroupNode {
             output_schema,
             n,
             sort_expressions,
+            directions: Vec::new(),
             group_expressions,
             children,
         }
     }
 
+    /// Sets the direction of each sort expression (descending if not set)
+    pub fn with_directions(mut self, directions: Vec<OrderDirection>) -> Self {
+        self.directions = directions;
+        self
+    }
+
+    /// Get the direction of each sort expression
+    pub fn get_directions(&self) -> &Vec<OrderDirection> {
+        &self.directions
+    }
+
     /// Get the number of rows to return per group
     pub fn get_n(&self) -> usize {
         self.n
diff --git a/src/sql/execution/plans/topn_plan.rs b/src/sql/execution/plans/topn_plan.rs
index 2896217..db78d0c 100644
--- a/src/sql/execution/plans/topn_plan.rs
+++ b/src/sql/execution/plans/topn_plan.rs
@@ -5,16 +5,19 @@ use std::sync::Arc;
 use crate::catalog::schema::Schema;
 use crate::sql::execution::expressions::abstract_expression::Expression;
 use crate::sql::execution::plans::abstract_plan::{AbstractPlanNode, PlanNode, PlanType};
+use crate::sql::execution::plans::sort_plan::OrderDirection;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct TopNNode {
     output_schema: Schema,
     order_bys: Vec<Arc<Expression>>,
+    directions: Vec<OrderDirection>,
     k: usize,
     children: Vec<PlanNode>,
 }
 
 impl TopNNode {
+    /// Creates a node for the `k` largest rows, in descending order
     pub fn new(
         output_schema: Schema,
         order_bys: Vec<Arc<Expression>>,
@@ -24,10 +27,22 @@ impl TopNNode {
         Self {
             output_schema,
             order_bys,
+            directions: Vec::new(),
             k,
             children,
         }
     }
+
+    /// Sets the direction of each order by expression (descending if not set)
+    pub fn with_directions(mut self, directions: Vec<OrderDirection>) -> Self {
+        self.directions = directions;
+        self
+    }
+
+    pub fn get_directions(&self) -> &Vec<OrderDirection> {
+        &self.directions
+    }
+
     pub fn get_k(&self) -> usize {
         self.k
     }
diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index e149826..cc322ff 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -3278,12 +3278,15 @@ impl<'a> PlanConverter<'a> {
                     .map(|spec| spec.get_expression().clone())
                     .collect();
 
-                Ok(PlanNode::TopN(TopNNode::new(
-                    schema.clone(),
-                    sort_expressions,
-                    *k,
-                    child_plans,
-                )))
+                let directions = sort_specifications
+                    .iter()
+                    .map(|spec| spec.get_direction())
+                    .collect();
+
+                Ok(PlanNode::TopN(
+                    TopNNode::new(schema.clone(), sort_expressions, *k, child_plans)
+                        .with_directions(directions),
+                ))
             },
 
             LogicalPlanType::TopNPerGroup {
@@ -3298,13 +3301,21 @@ impl<'a> PlanConverter<'a> {
                     .map(|spec| spec.get_expression().clone())
                     .collect();
 
-                Ok(PlanNode::TopNPerGroup(TopNPerGroupNode::new(
-                    *k,
-                    sort_expressions,
-                    groups.clone(),
-                    schema.clone(),
-                    child_plans,
-                )))
+                let directions = sort_specifications
+                    .iter()
+                    .map(|spec| spec.get_direction())
+                    .collect();
+
+                Ok(PlanNode::TopNPerGroup(
+                    TopNPerGroupNode::new(
+                        *k,
+                        sort_expressions,
+                        groups.clone(),
+                        schema.clone(),
+                        child_plans,
+                    )
+                    .with_directions(directions),
+                ))
             },
 
             LogicalPlanType::Window {
-- 
2.43.0


From 29d1ef68a95d3c2b8b903360f1a75eda3f2c12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:51 +0000
Subject: [PATCH 50/74] fix: DISTINCT compares the values of rows, not an
 ambiguous serialization

---
 .../execution/executors/distinct_executor.rs  | 72 +++----------------
 1 file changed, 9 insertions(+), 63 deletions(-)

diff --git a/src/sql/execution/executors/distinct_executor.rs b/src/sql/execution/executors/distinct_executor.rs
index 055f6f0..8ef8aea 100644
--- a/src/sql/execution/executors/distinct_executor.rs
+++ b/src/sql/execution/executors/distinct_executor.rs
@@ -24,8 +24,8 @@
 //! │                        │                                    │
 //! │                        ▼                                    │
 //! │  ┌─────────────────────────────────────────────────────┐    │
-//! │  │ HashSet<Vec<u8>>                                    │    │
-//! │  │  └─ Stores serialized tuple bytes                   │    │
+//! │  │ HashSet<Vec<Value>>                                 │    │
+//! │  │  └─ Stores the values of each row                   │    │
 //! │  │  └─ O(1) duplicate detection                        │    │
 //! │  └─────────────────────────────────────────────────────┘    │
 //! │                        │                                    │
@@ -49,7 +49,7 @@
 //!
 //! ## Memory Usage
 //!
-//! The executor stores one serialized copy of each unique tuple in memory.
+//! The executor stores one copy of the values of each unique tuple in memory.
 //! For large result sets with high cardinality, this can consume significant
 //! memory.
 
@@ -65,12 +65,14 @@ use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
 use crate::storage::table::tuple::Tuple;
+#[cfg(test)]
 use crate::types_db::value::Val;
+use crate::types_db::value::Value;
 
 /// Executor for removing duplicate tuples from query results.
 ///
 /// `DistinctExecutor` implements hash-based duplicate elimination by
-/// maintaining a set of serialized tuple representations. Only the first
+/// maintaining a set of the rows seen so far. Only the first
 /// occurrence of each unique tuple is returned.
 ///
 /// # Algorithm
@@ -104,8 +106,8 @@ pub struct DistinctExecutor {
     child_executor: Box<dyn AbstractExecutor>,
     /// Output schema (same as input schema).
     schema: Schema,
-    /// Set of serialized tuple bytes seen so far.
-    seen_tuples: HashSet<Vec<u8>>,
+    /// Set of rows seen so far (NULL values are not distinct from each other).
+    seen_tuples: HashSet<Vec<Value>>,
     /// Flag indicating whether `init()` has been called.
     initialized: bool,
 }
@@ -129,57 +131,6 @@ impl DistinctExecutor {
             initialized: false,
         }
     }
-
-    /// Serializes tuple values to a byte vector for duplicate detection.
-    ///
-    /// Creates a deterministic byte representation of all tuple values that
-    /// can be used as a hash set key. The serialization is designed to
-    /// ensure that equal tuples produce identical byte sequences.
-    ///
-    /// # Arguments
-    ///
-    /// * `tuple` - The tuple to serialize.
-    ///
-    /// # Returns
-    ///
-    /// A `Vec<u8>` containing the serialized tuple data.
-    ///
-    /// # Serialization Format
-    ///
-    /// Each value is serialized according to its type:
-    /// - **INTEGER**: 4 bytes, little-endian
-    /// - **BIGINT**: 8 bytes, little-endian
-    /// - **VARCHAR**: 4-byte length prefix + UTF-8 bytes
-    /// - **BOOLEAN**: 1 byte (0 = false, 1 = true)
-    /// - **DECIMAL**: 8 bytes, little-endian (f64 representation)
-    /// - **NULL**: 1 byte marker (0xFF)
-    /// - **Other**: Debug string with length prefix (fallback)
-    fn serialize_tuple(&self, tuple: &Tuple) -> Vec<u8> {
-        let mut bytes = Vec::new();
-
-        for value in tuple.get_values() {
-            // Serialize each value to bytes for comparison
-            match value.get_val() {
-                Val::Integer(i) => bytes.extend_from_slice(&i.to_le_bytes()),
-                Val::BigInt(i) => bytes.extend_from_slice(&i.to_le_bytes()),
-                Val::VarLen(s) => {
-                    bytes.extend_from_slice(&(s.len() as u32).to_le_bytes());
-                    bytes.extend_from_slice(s.as_bytes());
-                },
-                Val::Boolean(b) => bytes.push(if *b { 1 } else { 0 }),
-                Val::Decimal(d) => bytes.extend_from_slice(&d.to_le_bytes()),
-                Val::Null => bytes.push(0xFF), // Special marker for NULL
-                _ => {
-                    // For other types, convert to string and serialize
-                    let s = format!("{:?}", value);
-                    bytes.extend_from_slice(&(s.len() as u32).to_le_bytes());
-                    bytes.extend_from_slice(s.as_bytes());
-                },
-            }
-        }
-
-        bytes
-    }
 }
 
 impl AbstractExecutor for DistinctExecutor {
@@ -239,13 +190,8 @@ impl AbstractExecutor for DistinctExecutor {
                 Some((tuple, rid)) => {
                     debug!("DistinctExecutor received tuple with RID {:?}", rid);
 
-                    // Serialize the tuple to bytes for comparison
-                    let tuple_bytes = self.serialize_tuple(&tuple);
-
                     // Check if we've seen this tuple before
-                    if !self.seen_tuples.contains(&tuple_bytes) {
-                        // Insert the tuple bytes into our set
-                        self.seen_tuples.insert(tuple_bytes);
+                    if self.seen_tuples.insert(tuple.get_values()) {
                         debug!("DistinctExecutor returning unique tuple with RID {:?}", rid);
                         return Ok(Some((tuple, rid)));
                     } else {
-- 
2.43.0


From e25aa7ea902629c6a6d3648f0b1b472185e66391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:51 +0000
Subject: [PATCH 51/74] fix: COUNT skips NULL, AVG takes every number, errors
 of aggregates are reported

---
 .../executors/aggregation_executor.rs         | 171 +++++++++---------
 1 file changed, 87 insertions(+), 84 deletions(-)

diff --git a/src/sql/execution/executors/aggregation_executor.rs b/src/sql/execution/executors/aggregation_executor.rs
index bf21726..9b945b9 100644
--- a/src/sql/execution/executors/aggregation_executor.rs
+++ b/src/sql/execution/executors/aggregation_executor.rs
@@ -205,6 +205,9 @@ pub struct AggregationExecutor {
     output_schema: Schema,
     /// Shared execution context for buffer pool, catalog, and transaction access.
     exec_ctx: Arc<RwLock<ExecutionContext>>,
+    /// Error met while computing the groups, reported by the next call of next().
+    error: Option<DBError>,
+
     /// Flag indicating whether `init()` has been called.
     initialized: bool,
     /// Finalized groups ready for output, consumed by `next()`.
@@ -238,6 +241,7 @@ impl AggregationExecutor {
             avg_counts: HashMap::new(),
             groups_to_return: Vec::new(),
             output_schema: plan.get_output_schema().clone(),
+            error: None,
             initialized: false,
         }
     }
@@ -278,6 +282,8 @@ impl AggregationExecutor {
         tuple: &Tuple,
         schema: &Schema,
     ) -> Result<(), String> {
+        let evaluate =
+            |expr: &Arc<Expression>| expr.evaluate(tuple, schema).map_err(|e| e.to_string());
         debug!("Computing aggregate for key: {:?}", key);
         debug!("Number of aggregates: {}", aggregates.len());
 
@@ -297,7 +303,7 @@ impl AggregationExecutor {
                     debug!("Aggregate type: {:?}", agg.get_agg_type());
                     match agg.get_agg_type() {
                         AggregationType::Sum => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = evaluate(agg.get_arg())?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
@@ -307,39 +313,39 @@ impl AggregationExecutor {
                             }
                         },
                         AggregationType::Count | AggregationType::CountStar => {
-                            let count = if agg_value.values[i].is_null() {
-                                Value::new(1i64)
+                            // COUNT(expr) does not count NULL, COUNT(*) counts every row
+                            let counted = *agg.get_agg_type() == AggregationType::CountStar
+                                || agg.get_children().is_empty()
+                                || !evaluate(agg.get_arg())?.is_null();
+                            let increment = Value::new(i64::from(counted));
+                            agg_value.values[i] = if agg_value.values[i].is_null() {
+                                increment
                             } else {
-                                agg_value.values[i].add(&Value::new(1i64))?
+                                agg_value.values[i].add(&increment)?
                             };
-                            agg_value.values[i] = count;
                         },
                         AggregationType::Min => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = evaluate(agg.get_arg())?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
-                                } else if arg_val.compare_less_than(&agg_value.values[i])
-                                    == CmpBool::CmpTrue
-                                {
+                                } else if arg_val.sort_cmp(&agg_value.values[i]).is_lt() {
                                     agg_value.values[i] = arg_val
                                 }
                             }
                         },
                         AggregationType::Max => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = evaluate(agg.get_arg())?;
                             if !arg_val.is_null() {
                                 if agg_value.values[i].is_null() {
                                     agg_value.values[i] = arg_val;
-                                } else if agg_value.values[i].compare_less_than(&arg_val)
-                                    == CmpBool::CmpTrue
-                                {
+                                } else if arg_val.sort_cmp(&agg_value.values[i]).is_gt() {
                                     agg_value.values[i] = arg_val
                                 }
                             }
                         },
                         AggregationType::Avg => {
-                            let arg_val = agg.get_arg().evaluate(tuple, schema).unwrap();
+                            let arg_val = Self::to_decimal(evaluate(agg.get_arg())?)?;
                             if !arg_val.is_null() {
                                 // Track count for this average
                                 let count_key = (key.clone(), i);
@@ -367,19 +373,63 @@ impl AggregationExecutor {
                     debug!("Column reference found in values");
                     // For group by columns, store the value only on first occurrence
                     if agg_value.values[i].is_null() {
-                        agg_value.values[i] = agg_expr.evaluate(tuple, schema).unwrap();
+                        agg_value.values[i] = evaluate(agg_expr)?;
                     }
                 },
                 _ => {
                     debug!("Other expression type found in aggregates");
                     // For other expressions, evaluate each time
-                    agg_value.values[i] = agg_expr.evaluate(tuple, schema).unwrap();
+                    agg_value.values[i] = evaluate(agg_expr)?;
                 },
             }
             debug!("Updated aggregate values: {:?}", agg_value.values);
         }
         Ok(())
     }
+
+    /// Converts an argument of AVG to DECIMAL, the type of the average.
+    ///
+    /// Adding decimals does not overflow where adding the integers would.
+    fn to_decimal(value: Value) -> Result<Value, String> {
+        Ok(match value.get_val() {
+            Val::Null | Val::Decimal(_) => value,
+            Val::TinyInt(i) => Value::new(f64::from(*i)),
+            Val::SmallInt(i) => Value::new(f64::from(*i)),
+            Val::Integer(i) => Value::new(f64::from(*i)),
+            Val::BigInt(i) => Value::new(*i as f64),
+            Val::Float(x) => Value::new(f64::from(*x)),
+            _ => return Err(format!("AVG of a {:?} value", value.get_type_id())),
+        })
+    }
+
+    /// Reads all rows of the child and computes the aggregates of each group
+    fn collect_groups(&mut self) -> Result<bool, DBError> {
+        let mut has_rows = false;
+        while let Some((tuple, _)) = self.child.next()? {
+            has_rows = true;
+            let schema = self.child.get_output_schema();
+
+            // Compute group by key
+            let key_values = self
+                .group_by_exprs
+                .iter()
+                .map(|expr| expr.evaluate(&tuple, schema))
+                .collect::<Result<Vec<Value>, _>>()
+                .map_err(|e| DBError::Execution(e.to_string()))?;
+
+            // Update aggregates for this group
+            Self::compute_aggregate(
+                &mut self.groups,
+                &mut self.avg_counts,
+                &self.aggregate_exprs,
+                GroupKey::new(key_values),
+                &tuple,
+                schema,
+            )
+            .map_err(DBError::Execution)?;
+        }
+        Ok(has_rows)
+    }
 }
 
 impl AbstractExecutor for AggregationExecutor {
@@ -408,44 +458,16 @@ impl AbstractExecutor for AggregationExecutor {
             self.groups.clear();
             self.avg_counts.clear();
 
-            // For empty input with no group by, create a single group with default values
-            let mut has_rows = false;
-
-            // Process all input tuples
-            loop {
-                match self.child.next() {
-                    Ok(Some((tuple, _))) => {
-                        has_rows = true;
-                        // Get schema before computing key
-                        let schema = self.child.get_output_schema();
-                        let aggregates = self.aggregate_exprs.clone();
-
-                        // Compute group by key
-                        let mut key_values = Vec::new();
-                        for expr in &self.group_by_exprs {
-                            key_values.push(expr.evaluate(&tuple, schema).unwrap());
-                        }
-                        let key = GroupKey { values: key_values };
-
-                        // Update aggregates for this group
-                        if let Err(e) = Self::compute_aggregate(
-                            &mut self.groups,
-                            &mut self.avg_counts,
-                            &aggregates,
-                            key,
-                            &tuple,
-                            schema,
-                        ) {
-                            error!("Error computing aggregate: {}", e);
-                        }
-                    },
-                    Ok(None) => break,
-                    Err(e) => {
-                        debug!("Error from child executor: {}", e);
-                        return; // Initialize failed, but we don't propagate errors from init
-                    },
-                }
-            }
+            let has_rows = match self.collect_groups() {
+                Ok(has_rows) => has_rows,
+                Err(e) => {
+                    // A part of the groups is not a result: next() reports the error.
+                    error!("Error computing aggregates: {}", e);
+                    self.error = Some(e);
+                    self.initialized = true;
+                    return;
+                },
+            };
 
             // Handle empty input case
             if !has_rows && self.group_by_exprs.is_empty() {
@@ -481,18 +503,12 @@ impl AbstractExecutor for AggregationExecutor {
             self.groups_to_return = self.groups.drain().collect();
             self.groups_to_return.sort_by(|(key1, _), (key2, _)| {
                 // Compare each value in the group key
-                for (v1, v2) in key1.values.iter().zip(key2.values.iter()) {
-                    match v1.compare_less_than(v2) {
-                        CmpBool::CmpTrue => return std::cmp::Ordering::Less,
-                        CmpBool::CmpFalse => {
-                            if let CmpBool::CmpTrue = v2.compare_less_than(v1) {
-                                return std::cmp::Ordering::Greater;
-                            }
-                        },
-                        CmpBool::CmpNull => continue,
-                    }
-                }
-                std::cmp::Ordering::Equal
+                key1.values
+                    .iter()
+                    .zip(key2.values.iter())
+                    .map(|(v1, v2)| v1.sort_cmp(v2))
+                    .find(|ordering| ordering.is_ne())
+                    .unwrap_or(std::cmp::Ordering::Equal)
             });
             self.initialized = true;
         }
@@ -527,6 +543,10 @@ impl AbstractExecutor for AggregationExecutor {
             self.init();
         }
 
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+
         // Take the next group from the Vec
         if let Some((key, mut value)) = self.groups_to_return.pop() {
             debug!(
@@ -545,24 +565,7 @@ impl AbstractExecutor for AggregationExecutor {
                         debug!("Current value: {:?}", value.values[i]);
                         if count > 0 && !value.values[i].is_null() {
                             // Convert sum to decimal and divide by count to get average
-                            let sum_as_decimal = match value.values[i].get_type_id() {
-                                TypeId::Integer => {
-                                    let int_val = value.values[i].as_integer()?;
-                                    Value::new(int_val as f64)
-                                },
-                                TypeId::BigInt => {
-                                    let bigint_val = value.values[i].as_bigint()?;
-                                    Value::new(bigint_val as f64)
-                                },
-                                TypeId::Decimal => value.values[i].clone(),
-                                _ => {
-                                    debug!(
-                                        "Unexpected sum type for AVG: {:?}",
-                                        value.values[i].get_type_id()
-                                    );
-                                    Value::new(Val::Null)
-                                },
-                            };
+                            let sum_as_decimal = value.values[i].clone();
 
                             let count_value = Value::new(count as f64);
                             debug!(
-- 
2.43.0


From af4bedf0d9f64c71580fad6a24f99ad1c6ed680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:51 +0000
Subject: [PATCH 52/74] fix: the hash join returns every match of every key,
 and reports errors

---
 .../execution/executors/hash_join_executor.rs | 307 ++++++++----------
 1 file changed, 129 insertions(+), 178 deletions(-)

diff --git a/src/sql/execution/executors/hash_join_executor.rs b/src/sql/execution/executors/hash_join_executor.rs
index c391f69..6292234 100644
--- a/src/sql/execution/executors/hash_join_executor.rs
+++ b/src/sql/execution/executors/hash_join_executor.rs
@@ -20,14 +20,14 @@
 //! │                                                             │
 //! │  BUILD PHASE (right child):                                 │
 //! │  ┌─────────────┐    ┌─────────────────────────────────┐    │
-//! │  │ Right Tuple │───▶│ Hash(key) → DiskExtendableHash  │    │
-//! │  │ (id=1, 25)  │    │ table[hash] = RID               │    │
+//! │  │ Right Tuple │───▶│ Hash(key) → HashMap             │    │
+//! │  │ (id=1, 25)  │    │ table[key] += tuple             │    │
 //! │  └─────────────┘    └─────────────────────────────────┘    │
 //! │                                                             │
 //! │  PROBE PHASE (left child):                                  │
 //! │  ┌─────────────┐    ┌─────────────┐    ┌─────────────┐     │
-//! │  │ Left Tuple  │───▶│ Hash(key)   │───▶│ Lookup RID  │     │
-//! │  │ (id=1,Alice)│    │ → bucket    │    │ → Match!    │     │
+//! │  │ Left Tuple  │───▶│ Hash(key)   │───▶│ Lookup key  │     │
+//! │  │ (id=1,Alice)│    │ → bucket    │    │ → Matches!  │     │
 //! │  └─────────────┘    └─────────────┘    └─────────────┘     │
 //! │                              │                              │
 //! │                              ▼                              │
@@ -46,31 +46,34 @@
 //!
 //! ## Storage
 //!
-//! Uses `DiskExtendableHashTable` for the build phase, which supports
-//! spilling to disk for large datasets that exceed memory.
+//! The hash table and the right tuples are kept in memory.
 
+use std::collections::{HashMap, VecDeque};
 use std::sync::Arc;
 
 use log::debug;
 use parking_lot::RwLock;
+use sqlparser::ast::JoinOperator;
 
 use crate::catalog::schema::Schema;
 use crate::common::exception::DBError;
 use crate::common::rid::RID;
-use crate::container::disk_extendable_hash_table::DiskExtendableHashTable;
-use crate::container::hash_function::HashFunction;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
-use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
+use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::hash_join_plan::HashJoinNode;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::types::{CmpBool, Type};
+use crate::types_db::value::{Val, Value};
+
+/// 2^63, the first DECIMAL above the range of BIGINT
+const TWO_POW_63: f64 = 9_223_372_036_854_775_808.0;
 
 /// Executor for hash-based equi-join operations.
 ///
 /// `HashJoinExecutor` implements a classic hash join algorithm with a
-/// build phase (right child) and probe phase (left child). It uses a
-/// disk-backed extendable hash table for the build side.
+/// build phase (right child) and probe phase (left child).
 ///
 /// # Join Types
 ///
@@ -80,7 +83,7 @@ use crate::storage::table::tuple::Tuple;
 /// # Algorithm
 ///
 /// 1. **Build Phase**: Consume all tuples from right child, hash the
-///    join key, and insert (key → RID) into the hash table.
+///    join key, and insert the tuple into the list of its key.
 ///
 /// 2. **Probe Phase**: For each left tuple, hash the join key, probe
 ///    the hash table, and emit combined tuples for matches.
@@ -99,42 +102,40 @@ use crate::storage::table::tuple::Tuple;
 ///
 /// # Memory Management
 ///
-/// Right-side tuples are stored in memory (`right_tuples` vector) for
-/// retrieval during the probe phase. The hash table itself may spill
-/// to disk via the buffer pool.
+/// Right-side tuples are stored in memory for retrieval during the probe
+/// phase.
 pub struct HashJoinExecutor {
-    /// Shared execution context for buffer pool access.
+    /// Shared execution context for transaction and buffer pool access.
     context: Arc<RwLock<ExecutionContext>>,
-    /// Join plan with key expressions and schemas.
+    /// Hash join plan with key expressions and schemas.
     plan: Arc<HashJoinNode>,
-    /// Left child executor (probe side).
+    /// Left (probe) side executor.
     left_child: Box<dyn AbstractExecutor>,
-    /// Right child executor (build side).
+    /// Right (build) side executor.
     right_child: Box<dyn AbstractExecutor>,
-    /// Disk-backed hash table built from right child.
-    hash_table: Option<DiskExtendableHashTable>,
-    /// Stored right tuples for lookup during probe phase.
-    right_tuples: Vec<(RID, Arc<Tuple>)>,
-    /// Current left tuple being probed (None if need next).
-    current_left_tuple: Option<(Arc<Tuple>, RID)>,
-    /// Flag indicating whether initialization is complete.
+    /// Right tuples by join key, each list in the order of the right child.
+    hash_table: HashMap<Vec<Value>, Vec<Arc<Tuple>>>,
+    /// Joined tuples of the current left tuple that are still to be returned.
+    matches: VecDeque<(Arc<Tuple>, RID)>,
+    /// Error met in the build phase, reported by the next call of next().
+    error: Option<DBError>,
+    /// Flag indicating whether the build phase is complete.
     initialized: bool,
 }
 
 impl HashJoinExecutor {
-    /// Creates a new `HashJoinExecutor` with the given children.
+    /// Creates a new `HashJoinExecutor` with the given plan and children.
     ///
     /// # Arguments
     ///
-    /// * `context` - Shared execution context for buffer pool access.
-    /// * `plan` - Hash join plan with key expressions, schemas, and join type.
-    /// * `left_child` - Left (probe side) executor.
-    /// * `right_child` - Right (build side) executor.
+    /// * `context` - Shared execution context.
+    /// * `plan` - Hash join plan containing key expressions and schemas.
+    /// * `left_child` - Executor for the probe (left) side.
+    /// * `right_child` - Executor for the build (right) side.
     ///
     /// # Returns
     ///
-    /// A new executor ready for initialization. The build phase occurs
-    /// during `init()`, not during construction.
+    /// A new executor ready for initialization.
     pub fn new(
         context: Arc<RwLock<ExecutionContext>>,
         plan: Arc<HashJoinNode>,
@@ -142,195 +143,145 @@ impl HashJoinExecutor {
         right_child: Box<dyn AbstractExecutor>,
     ) -> Self {
         debug!("Creating HashJoinExecutor");
-
         Self {
             context,
             plan,
             left_child,
             right_child,
-            hash_table: None,
-            right_tuples: Vec::new(),
-            current_left_tuple: None,
+            hash_table: HashMap::new(),
+            matches: VecDeque::new(),
+            error: None,
             initialized: false,
         }
     }
 
-    /// Builds the hash table from the right child (build phase).
-    ///
-    /// Consumes all tuples from the right child executor, evaluates the
-    /// join key expression on each, and inserts (key → RID) into the
-    /// disk-backed hash table.
+    /// Evaluates the join key of a tuple.
     ///
     /// # Returns
     ///
-    /// * `true` - Hash table built successfully
-    /// * `false` - Build failed (hash table creation, key evaluation, or insert error)
-    ///
-    /// # Hash Table Configuration
-    ///
-    /// Creates a `DiskExtendableHashTable` with:
-    /// - Bucket size: 4 entries
-    /// - Initial depth: 4
-    /// - Max buckets: 100
-    ///
-    /// # Side Effects
-    ///
-    /// - Populates `self.hash_table` with the built hash table
-    /// - Populates `self.right_tuples` with (RID, Tuple) pairs for lookup
-    fn build_hash_table(&mut self) -> bool {
-        debug!("Building hash table from right child");
+    /// `None` if a part of the key equals nothing (NULL, NaN), so that the tuple
+    /// has no match.
+    fn join_key(
+        expressions: &[Arc<Expression>],
+        tuple: &Tuple,
+        schema: &Schema,
+    ) -> Result<Option<Vec<Value>>, DBError> {
+        let mut key = Vec::with_capacity(expressions.len());
+        for expr in expressions {
+            let value = expr
+                .evaluate(tuple, schema)
+                .map_err(|e| DBError::Execution(format!("Failed to evaluate join key: {}", e)))?;
+            if value.compare_equals(&value) != CmpBool::CmpTrue {
+                return Ok(None);
+            }
+            key.push(Self::canonical(value));
+        }
+        Ok(Some(key))
+    }
 
-        let hash_table = match DiskExtendableHashTable::new(
-            "hash_join_table".to_string(),
-            self.get_executor_context().read().get_buffer_pool_manager(),
-            HashFunction::new(),
-            4,
-            4,
-            100,
-        ) {
-            Ok(ht) => ht,
-            Err(_) => return false,
+    /// Equal numbers of different types are equal join keys: represents them alike.
+    fn canonical(value: Value) -> Value {
+        let decimal = match value.get_val() {
+            Val::TinyInt(i) => return Value::new(i64::from(*i)),
+            Val::SmallInt(i) => return Value::new(i64::from(*i)),
+            Val::Integer(i) => return Value::new(i64::from(*i)),
+            Val::Float(x) => f64::from(*x),
+            Val::Decimal(d) => *d,
+            _ => return value,
         };
+        if decimal.fract() == 0.0 && (-TWO_POW_63..TWO_POW_63).contains(&decimal) {
+            Value::new(decimal as i64)
+        } else {
+            Value::new(decimal)
+        }
+    }
 
-        self.hash_table = Some(hash_table);
+    /// Builds the hash table from the right child tuples.
+    fn build_hash_table(&mut self) -> Result<(), DBError> {
+        debug!("Building hash table from right child");
 
-        self.right_child.init();
+        if !matches!(
+            self.plan.get_join_type(),
+            JoinOperator::Inner(_) | JoinOperator::Join(_)
+        ) {
+            return Err(DBError::Execution(format!(
+                "Unsupported hash join type: {:?}",
+                self.plan.get_join_type()
+            )));
+        }
 
-        loop {
-            match self.right_child.next() {
-                Ok(Some((tuple, rid))) => {
-                    let key = match self.plan.get_right_key_expressions()[0]
-                        .evaluate(&tuple, self.plan.get_right_schema())
-                    {
-                        Ok(value) => value,
-                        Err(_) => {
-                            debug!("Failed to evaluate right key expression");
-                            return false;
-                        },
-                    };
-
-                    if let Some(ref mut ht) = self.hash_table
-                        && !ht.insert(key, rid)
-                    {
-                        debug!("Failed to insert into hash table");
-                        return false;
-                    }
-
-                    self.right_tuples.push((rid, tuple));
-                },
-                Ok(None) => break,
-                Err(e) => {
-                    debug!("Error from right child executor: {}", e);
-                    return false;
-                },
+        self.right_child.init();
+        while let Some((tuple, _)) = self.right_child.next()? {
+            let key = Self::join_key(
+                self.plan.get_right_key_expressions(),
+                &tuple,
+                self.plan.get_right_schema(),
+            )?;
+            if let Some(key) = key {
+                self.hash_table.entry(key).or_default().push(tuple);
             }
         }
-
-        true
+        Ok(())
     }
 }
 
 impl AbstractExecutor for HashJoinExecutor {
-    /// Initializes the hash join executor (build phase).
-    ///
-    /// Performs the build phase by consuming all tuples from the right
-    /// child and populating the hash table. Also initializes the left
-    /// child for the subsequent probe phase.
-    ///
-    /// # Build Phase
-    ///
-    /// This method is a **pipeline breaker** on the right side. All right
-    /// tuples must be consumed before any output can be produced.
+    /// Initializes the executor by building the hash table.
     ///
-    /// # Failure Handling
-    ///
-    /// If hash table construction fails, `initialized` remains `false` and
-    /// subsequent `next()` calls will return `None`.
+    /// Performs the build phase by consuming all tuples from the right child
+    /// and inserting them into the hash table, then initializes the left child
+    /// for the probe phase. An error of the build phase is reported by the next
+    /// call of next().
     fn init(&mut self) {
         if !self.initialized {
             debug!("Initializing HashJoinExecutor");
-
-            if !self.build_hash_table() {
-                debug!("Failed to build hash table");
-                return;
+            match self.build_hash_table() {
+                Ok(()) => self.left_child.init(),
+                Err(e) => self.error = Some(e),
             }
-
-            self.left_child.init();
-
             self.initialized = true;
         }
     }
 
-    /// Returns the next joined tuple (probe phase).
-    ///
-    /// For each left tuple, evaluates the join key and probes the hash
-    /// table. If a match is found, combines the left and right tuples
-    /// and returns the result.
+    /// Returns the next joined tuple.
     ///
-    /// # Probe Algorithm
-    ///
-    /// 1. Get next left tuple (if current is None)
-    /// 2. Evaluate left key expression
-    /// 3. Probe hash table with key
-    /// 4. If match found: combine tuples and return
-    /// 5. If no match: advance to next left tuple
+    /// Probes the hash table with each left tuple and returns one combined
+    /// tuple for each right tuple with the same key.
     ///
     /// # Returns
     ///
-    /// * `Ok(Some((tuple, rid)))` - Combined tuple from matching rows
-    /// * `Ok(None)` - No more matches (left child exhausted or not initialized)
-    /// * `Err(DBError)` - Error from left child executor
-    ///
-    /// # Output Tuple Structure
-    ///
-    /// Combined tuple contains all columns from left followed by all
-    /// columns from right:
-    /// ```text
-    /// [left_col_0, left_col_1, ..., right_col_0, right_col_1, ...]
-    /// ```
+    /// * `Ok(Some((tuple, rid)))` - Combined tuple and the RID of the left tuple.
+    /// * `Ok(None)` - All left tuples have been processed.
+    /// * `Err(DBError)` - Error from a child executor or from a key expression.
     fn next(&mut self) -> Result<Option<(Arc<Tuple>, RID)>, DBError> {
         if !self.initialized {
-            return Ok(None);
+            self.init();
+        }
+
+        if let Some(e) = self.error.take() {
+            self.hash_table.clear();
+            return Err(e);
         }
 
         loop {
-            if self.current_left_tuple.is_none() {
-                match self.left_child.next()? {
-                    Some((tuple, rid)) => {
-                        self.current_left_tuple = Some((tuple, rid));
-                    },
-                    None => return Ok(None),
-                }
+            if let Some(joined) = self.matches.pop_front() {
+                return Ok(Some(joined));
             }
-
-            // Clone the values we need and drop the borrow immediately
-            let (left_tuple, left_rid) = {
-                let (tuple, rid) = self.current_left_tuple.as_ref().unwrap();
-                (tuple.clone(), *rid)
-            };
-
-            let key = match self.plan.get_left_key_expressions()[0]
-                .evaluate(&left_tuple, self.plan.get_left_schema())
-            {
-                Ok(value) => value,
-                Err(_) => {
-                    debug!("Failed to evaluate left key expression");
-                    self.current_left_tuple = None;
-                    continue;
-                },
+            let Some((left_tuple, left_rid)) = self.left_child.next()? else {
+                return Ok(None);
             };
-
-            if let Some(ref ht) = self.hash_table
-                && let Some(right_rid) = ht.get_value(&key)
-                && let Some((_, right_tuple)) =
-                    self.right_tuples.iter().find(|(rid, _)| *rid == right_rid)
-            {
-                let combined_tuple = Arc::new(left_tuple.combine(right_tuple));
-                self.current_left_tuple = None;
-                return Ok(Some((combined_tuple, left_rid)));
+            let key = Self::join_key(
+                self.plan.get_left_key_expressions(),
+                &left_tuple,
+                self.plan.get_left_schema(),
+            )?;
+            if let Some(right_tuples) = key.and_then(|key| self.hash_table.get(&key)) {
+                self.matches.extend(
+                    right_tuples
+                        .iter()
+                        .map(|right| (Arc::new(left_tuple.combine(right)), left_rid)),
+                );
             }
-
-            self.current_left_tuple = None;
         }
     }
 
-- 
2.43.0


From 1d166e9582be340f307bf3ce8f678effa000849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:51 +0000
Subject: [PATCH 53/74] fix: right and full joins keep duplicate and
 never-visited right rows

---
 .../executors/nested_loop_join_executor.rs    | 71 ++++++++++---------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/src/sql/execution/executors/nested_loop_join_executor.rs b/src/sql/execution/executors/nested_loop_join_executor.rs
index dfee6f2..d54d6b2 100644
--- a/src/sql/execution/executors/nested_loop_join_executor.rs
+++ b/src/sql/execution/executors/nested_loop_join_executor.rs
@@ -193,6 +193,12 @@ pub struct JoinState {
 
     /// Right tuples that have been matched (for full outer joins)
     pub matched_right_tuples: std::collections::HashSet<usize>,
+
+    /// Number of right tuples read for the current left tuple.
+    pub right_position: usize,
+
+    /// True once the right input has been read to its end.
+    pub right_scanned: bool,
 }
 
 impl Default for JoinState {
@@ -216,6 +222,8 @@ impl JoinState {
             unmatched_left_index: 0,
             all_right_tuples: Vec::new(),
             matched_right_tuples: std::collections::HashSet::new(),
+            right_position: 0,
+            right_scanned: false,
         }
     }
 
@@ -224,6 +232,7 @@ impl JoinState {
         self.current_left_tuple = Some(left_tuple);
         self.current_left_matched = false;
         self.right_executor_exhausted = false;
+        self.right_position = 0;
     }
 
     /// Mark current left tuple as matched
@@ -264,6 +273,7 @@ impl JoinState {
         self.current_left_tuple = None;
         self.current_left_matched = false;
         self.right_executor_exhausted = false;
+        self.right_position = 0;
     }
 
     /// Add unmatched right tuple
@@ -1039,6 +1049,14 @@ impl NestedLoopJoinExecutor {
         }
     }
 
+    /// Right and full outer joins emit the right tuples that no left tuple matches.
+    fn tracks_right_tuples(&self) -> bool {
+        matches!(
+            self.join_handler.join_type,
+            JoinType::Right(_) | JoinType::RightOuter(_) | JoinType::FullOuter(_)
+        )
+    }
+
     /// Executes the main nested loop join phase.
     ///
     /// Iterates through all combinations of left and right tuples,
@@ -1078,6 +1096,15 @@ impl NestedLoopJoinExecutor {
                     },
                     None => {
                         info!("JOIN: Left executor exhausted");
+                        // Without a left tuple, all right tuples are unmatched
+                        if self.tracks_right_tuples() && !self.join_state.right_scanned {
+                            while let Some(right_tuple) =
+                                self.executor_manager.get_next_right_tuple()?
+                            {
+                                self.join_state.add_right_tuple(right_tuple);
+                            }
+                            self.join_state.right_scanned = true;
+                        }
                         self.join_state.left_executor_exhausted = true;
                     },
                 }
@@ -1088,24 +1115,15 @@ impl NestedLoopJoinExecutor {
                 if !self.join_state.right_executor_exhausted {
                     match self.executor_manager.get_next_right_tuple()? {
                         Some((right_tuple, right_rid)) => {
-                            // For right and full outer joins, track all right tuples
-                            if matches!(
-                                self.join_handler.join_type,
-                                JoinType::Right(_)
-                                    | JoinType::RightOuter(_)
-                                    | JoinType::FullOuter(_)
-                            ) {
-                                // Check if this right tuple is already in our collection
-                                let tuple_exists = self
-                                    .join_state
-                                    .all_right_tuples
-                                    .iter()
-                                    .any(|(t, _)| t.get_values() == right_tuple.get_values());
-
-                                if !tuple_exists {
-                                    self.join_state
-                                        .add_right_tuple((right_tuple.clone(), right_rid));
-                                }
+                            // For right and full outer joins, track all right tuples. Every
+                            // left tuple sees them in the same order.
+                            let position = self.join_state.right_position;
+                            self.join_state.right_position += 1;
+                            if self.tracks_right_tuples()
+                                && position == self.join_state.all_right_tuples.len()
+                            {
+                                self.join_state
+                                    .add_right_tuple((right_tuple.clone(), right_rid));
                             }
 
                             if let Some(result) = self.join_handler.process_tuple_pair(
@@ -1114,20 +1132,8 @@ impl NestedLoopJoinExecutor {
                                 &mut self.join_state,
                             )? {
                                 // For right and full outer joins, mark the right tuple as matched
-                                if matches!(
-                                    self.join_handler.join_type,
-                                    JoinType::Right(_)
-                                        | JoinType::RightOuter(_)
-                                        | JoinType::FullOuter(_)
-                                ) {
-                                    // Find the index of this right tuple
-                                    if let Some(index) =
-                                        self.join_state.all_right_tuples.iter().position(
-                                            |(t, _)| t.get_values() == right_tuple.get_values(),
-                                        )
-                                    {
-                                        self.join_state.mark_right_tuple_matched(index);
-                                    }
+                                if self.tracks_right_tuples() {
+                                    self.join_state.mark_right_tuple_matched(position);
                                 }
                                 return Ok(Some(result));
                             }
@@ -1135,6 +1141,7 @@ impl NestedLoopJoinExecutor {
                         None => {
                             info!("JOIN: Right executor exhausted for current left tuple");
                             self.join_state.right_executor_exhausted = true;
+                            self.join_state.right_scanned = true;
                         },
                     }
                 } else {
-- 
2.43.0


From 9feb9197812bc97830fcbd2d39c8cb559488a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:20 +0000
Subject: [PATCH 54/74] fix: foreign keys are checked for rows given directly
 to INSERT

---
 src/sql/execution/executors/insert_executor.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index 5760cf0..dc66c3b 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -293,14 +293,10 @@ impl InsertExecutor {
     ) -> Result<(), String> {
         for (column_index, column) in schema.get_columns().iter().enumerate() {
             if let Some(foreign_key_constraint) = column.get_foreign_key() {
-                if column_index >= values.len() {
-                    return Err(format!(
-                        "Value index {} out of bounds for foreign key validation",
-                        column_index
-                    ));
-                }
-
-                let value = &values[column_index];
+                // A column that is left out is NULL, which refers to nothing
+                let Some(value) = values.get(column_index) else {
+                    continue;
+                };
 
                 // NULL values are allowed for foreign keys (unless column is NOT NULL)
                 if value.is_null() {
@@ -535,6 +531,11 @@ impl AbstractExecutor for InsertExecutor {
         if !values_to_insert.is_empty() {
             debug!("Inserting {} direct value sets", values_to_insert.len());
 
+            for values in values_to_insert {
+                Self::validate_foreign_key_constraints_with_context(&self.context, values, &schema)
+                    .map_err(|e| DBError::Execution(format!("Insert failed: {}", e)))?;
+            }
+
             // PERFORMANCE OPTIMIZATION: Process inserts in batches
             if values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
                 debug!(
-- 
2.43.0


From 33d15d1d576d793b2a4eed247b489fb9bf029a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:09 +0000
Subject: [PATCH 55/74] fix: window functions number NULL keys, each in its own
 window, and report errors

---
 .../execution/executors/window_executor.rs    | 299 ++++++------------
 1 file changed, 103 insertions(+), 196 deletions(-)

diff --git a/src/sql/execution/executors/window_executor.rs b/src/sql/execution/executors/window_executor.rs
index 2e4659a..8f8d2fa 100644
--- a/src/sql/execution/executors/window_executor.rs
+++ b/src/sql/execution/executors/window_executor.rs
@@ -1,5 +1,4 @@
-use std::cmp::{Ordering, Reverse};
-use std::collections::{BinaryHeap, HashMap};
+use std::cmp::Ordering;
 use std::sync::Arc;
 
 use log::debug;
@@ -10,72 +9,20 @@ use crate::common::exception::DBError;
 use crate::common::rid::RID;
 use crate::sql::execution::execution_context::ExecutionContext;
 use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
-use crate::sql::execution::expressions::abstract_expression::ExpressionOps;
+use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
-use crate::sql::execution::plans::window_plan::{WindowFunctionType, WindowNode};
+use crate::sql::execution::plans::window_plan::{WindowFunction, WindowFunctionType, WindowNode};
 use crate::storage::table::tuple::Tuple;
-use crate::types_db::types::{CmpBool, Type};
 use crate::types_db::value::Value;
 
-// Type aliases for complex types
-type TupleWithPartitionAndSort = (Vec<Value>, Vec<Value>, Arc<Tuple>, RID);
-type PartitionMap = HashMap<Vec<Value>, Vec<(Vec<Value>, Arc<Tuple>, RID)>>;
-
-/// Wrapper type for tuple and sort keys to implement custom ordering
-#[derive(Eq)]
-struct TupleWithKeys {
-    sort_keys: Vec<Value>,
-    tuple: Arc<Tuple>,
-    rid: RID,
-}
-
-impl PartialEq for TupleWithKeys {
-    fn eq(&self, other: &Self) -> bool {
-        self.sort_keys.len() == other.sort_keys.len()
-            && self
-                .sort_keys
-                .iter()
-                .zip(other.sort_keys.iter())
-                .all(|(a, b)| a.compare_equals(b) == CmpBool::CmpTrue)
-    }
-}
-
-impl PartialOrd for TupleWithKeys {
-    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.cmp(other))
-    }
-}
-
-impl Ord for TupleWithKeys {
-    fn cmp(&self, other: &Self) -> Ordering {
-        // Compare sort keys in ascending order
-        for (a, b) in self.sort_keys.iter().zip(other.sort_keys.iter()) {
-            match a.compare_less_than(b) {
-                CmpBool::CmpTrue => return Ordering::Less,
-                CmpBool::CmpFalse => {
-                    match a.compare_greater_than(b) {
-                        CmpBool::CmpTrue => return Ordering::Greater,
-                        CmpBool::CmpFalse => continue, // Equal, check next key
-                        CmpBool::CmpNull => return Ordering::Equal,
-                    }
-                },
-                CmpBool::CmpNull => return Ordering::Equal,
-            }
-        }
-        Ordering::Equal
-    }
-}
-
 pub struct WindowExecutor {
     context: Arc<RwLock<ExecutionContext>>,
     plan: Arc<WindowNode>,
     child_executor: Box<dyn AbstractExecutor>,
-    // Store all tuples and their partitions
-    partitions: HashMap<Vec<Value>, Vec<(Arc<Tuple>, RID)>>,
-    // Track which partition and index we're currently returning from
-    current_partition_keys: Vec<Vec<Value>>,
-    partition_index: usize,
-    tuple_index: usize,
+    // Rows of the result in the order of the first window function
+    rows: std::vec::IntoIter<(Arc<Tuple>, RID)>,
+    // Error met while collecting the rows, reported by the next call of next()
+    error: Option<DBError>,
     initialized: bool,
 }
 
@@ -90,150 +37,86 @@ impl WindowExecutor {
             context,
             plan,
             child_executor,
-            partitions: HashMap::new(),
-            current_partition_keys: Vec::new(),
-            partition_index: 0,
-            tuple_index: 0,
+            rows: Vec::new().into_iter(),
+            error: None,
             initialized: false,
         }
     }
 
-    fn evaluate_sort_keys(&self, tuple: &Tuple) -> Vec<Value> {
+    fn evaluate_keys(
+        &self,
+        expressions: &[Arc<Expression>],
+        tuple: &Tuple,
+    ) -> Result<Vec<Value>, DBError> {
         let schema = self.child_executor.get_output_schema();
-        let window_fn = &self.plan.get_window_functions()[0];
-
-        window_fn
-            .get_order_by()
+        expressions
             .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect()
+            .map(|expr| expr.evaluate(tuple, schema))
+            .collect::<Result<_, _>>()
+            .map_err(|e| DBError::Execution(e.to_string()))
     }
 
-    fn evaluate_partition_keys(&self, tuple: &Tuple) -> Vec<Value> {
-        let window_fns = self.plan.get_window_functions();
-        if window_fns.is_empty() {
-            return vec![];
-        }
-
-        let partition_exprs = window_fns[0].get_partition_by();
-        let schema = self.child_executor.get_output_schema();
-
-        partition_exprs
-            .iter()
-            .map(|expr| expr.evaluate(tuple, schema).unwrap())
-            .collect()
+    fn compare_keys(a: &[Value], b: &[Value]) -> Ordering {
+        a.iter()
+            .zip(b)
+            .map(|(a, b)| a.sort_cmp(b))
+            .find(|ordering| ordering.is_ne())
+            .unwrap_or(Ordering::Equal)
     }
-}
 
-impl AbstractExecutor for WindowExecutor {
-    fn init(&mut self) {
-        if !self.initialized {
-            self.child_executor.init();
-
-            // Collect all tuples and their sort keys
-            let mut all_tuples: Vec<TupleWithPartitionAndSort> = Vec::new();
-            loop {
-                match self.child_executor.next() {
-                    Ok(Some((tuple, rid))) => {
-                        let partition_keys = self.evaluate_partition_keys(&tuple);
-                        let sort_keys = self.evaluate_sort_keys(&tuple);
-                        all_tuples.push((partition_keys, sort_keys, tuple, rid));
-                    },
-                    Ok(None) => break,
-                    Err(e) => {
-                        debug!("Error from child executor: {}", e);
-                        return; // Initialize failed, but we don't propagate errors from init
-                    },
-                }
-            }
-
-            // Group tuples by partition
-            let mut partitions_map: PartitionMap = HashMap::new();
-            for (partition_keys, sort_keys, tuple, rid) in all_tuples {
-                partitions_map
-                    .entry(partition_keys)
-                    .or_default()
-                    .push((sort_keys, tuple, rid));
-            }
-
-            // Sort partition keys for deterministic order
-            self.current_partition_keys = partitions_map.keys().cloned().collect();
-            self.current_partition_keys.sort_by(|a, b| {
-                for (a_val, b_val) in a.iter().zip(b.iter()) {
-                    match a_val.compare_less_than(b_val) {
-                        CmpBool::CmpTrue => return Ordering::Less,
-                        CmpBool::CmpFalse => match a_val.compare_greater_than(b_val) {
-                            CmpBool::CmpTrue => return Ordering::Greater,
-                            CmpBool::CmpFalse => continue,
-                            CmpBool::CmpNull => return Ordering::Equal,
-                        },
-                        CmpBool::CmpNull => return Ordering::Equal,
-                    }
-                }
-                a.len().cmp(&b.len())
-            });
-
-            // Sort each partition using binary heap
-            for (partition_key, tuples) in partitions_map {
-                let mut heap = BinaryHeap::new();
-
-                // Add tuples to heap
-                for (sort_keys, tuple, rid) in tuples {
-                    heap.push(Reverse(TupleWithKeys {
-                        sort_keys,
-                        tuple,
-                        rid,
-                    }));
-                }
-
-                // Extract sorted tuples
-                let mut sorted_tuples = Vec::new();
-                while let Some(Reverse(tuple_with_keys)) = heap.pop() {
-                    sorted_tuples.push((tuple_with_keys.tuple, tuple_with_keys.rid));
-                }
-
-                self.partitions.insert(partition_key, sorted_tuples);
+    /// Numbers the rows within their partitions, in the order of the window function
+    ///
+    /// Returns the positions of the rows in that order and the number of each row.
+    fn number_rows(
+        &self,
+        window_fn: &WindowFunction,
+        tuples: &[(Arc<Tuple>, RID)],
+    ) -> Result<(Vec<usize>, Vec<i32>), DBError> {
+        let keys = tuples
+            .iter()
+            .map(|(tuple, _)| {
+                Ok((
+                    self.evaluate_keys(window_fn.get_partition_by(), tuple)?,
+                    self.evaluate_keys(window_fn.get_order_by(), tuple)?,
+                ))
+            })
+            .collect::<Result<Vec<_>, DBError>>()?;
+
+        let mut order: Vec<usize> = (0..tuples.len()).collect();
+        order.sort_by(|&a, &b| {
+            Self::compare_keys(&keys[a].0, &keys[b].0)
+                .then_with(|| Self::compare_keys(&keys[a].1, &keys[b].1))
+        });
+
+        // Row numbers are 1-based within partition
+        let mut numbers = vec![1; tuples.len()];
+        for pair in order.windows(2) {
+            if Self::compare_keys(&keys[pair[0]].0, &keys[pair[1]].0).is_eq() {
+                numbers[pair[1]] = numbers[pair[0]] + 1;
             }
-
-            self.initialized = true;
         }
+        Ok((order, numbers))
     }
 
-    fn next(&mut self) -> Result<Option<(Arc<Tuple>, RID)>, DBError> {
-        if !self.initialized {
-            self.init();
-        }
-
-        // Check if we have more partitions to process
-        if self.partition_index >= self.current_partition_keys.len() {
-            return Ok(None);
+    fn collect_rows(&mut self) -> Result<Vec<(Arc<Tuple>, RID)>, DBError> {
+        let mut tuples = Vec::new();
+        while let Some(row) = self.child_executor.next()? {
+            tuples.push(row);
         }
-
-        // Get current partition
-        let partition_key = &self.current_partition_keys[self.partition_index];
-        let partition = self.partitions.get(partition_key).unwrap();
-
-        // Check if we have more tuples in current partition
-        if self.tuple_index >= partition.len() {
-            // Move to next partition
-            self.partition_index += 1;
-            self.tuple_index = 0;
-            return self.next(); // Recursively call to get next partition
+        if tuples.is_empty() {
+            return Ok(tuples);
         }
 
-        // Get current tuple and compute window function results
-        let (original_tuple, rid) = partition[self.tuple_index].clone();
-
-        // Compute window function results for this tuple
-        let window_functions = self.plan.get_window_functions();
-        let mut window_results = Vec::new();
-
-        for window_fn in window_functions {
+        let mut order = (0..tuples.len()).collect();
+        let mut results = Vec::new();
+        for (i, window_fn) in self.plan.get_window_functions().iter().enumerate() {
             match window_fn.get_function_type() {
                 WindowFunctionType::RowNumber => {
-                    // Row number is 1-based within partition
-                    let row_number = (self.tuple_index + 1) as i32;
-                    window_results.push(Value::new(row_number));
+                    let (function_order, numbers) = self.number_rows(window_fn, &tuples)?;
+                    if i == 0 {
+                        order = function_order;
+                    }
+                    results.push(numbers);
                 },
                 _ => {
                     // For now, only support ROW_NUMBER
@@ -244,19 +127,43 @@ impl AbstractExecutor for WindowExecutor {
             }
         }
 
-        // Create new tuple with original values plus window function results
-        let mut output_values = original_tuple.get_values().clone();
-        output_values.extend(window_results);
-
-        let output_tuple = Arc::new(Tuple::new(
-            &output_values,
-            self.plan.get_output_schema(),
-            rid,
-        ));
+        // The rows are the original values plus the window function results
+        Ok(order
+            .into_iter()
+            .map(|i| {
+                let (tuple, rid) = &tuples[i];
+                let mut values = tuple.get_values().clone();
+                values.extend(results.iter().map(|numbers| Value::new(numbers[i])));
+                let tuple = Tuple::new(&values, self.plan.get_output_schema(), *rid);
+                (Arc::new(tuple), *rid)
+            })
+            .collect())
+    }
+}
 
-        self.tuple_index += 1;
+impl AbstractExecutor for WindowExecutor {
+    fn init(&mut self) {
+        if !self.initialized {
+            self.child_executor.init();
+            match self.collect_rows() {
+                Ok(rows) => self.rows = rows.into_iter(),
+                Err(e) => {
+                    debug!("Error computing window functions: {}", e);
+                    self.error = Some(e);
+                },
+            }
+            self.initialized = true;
+        }
+    }
 
-        Ok(Some((output_tuple, rid)))
+    fn next(&mut self) -> Result<Option<(Arc<Tuple>, RID)>, DBError> {
+        if !self.initialized {
+            self.init();
+        }
+        if let Some(e) = self.error.take() {
+            return Err(e);
+        }
+        Ok(self.rows.next())
     }
 
     fn get_output_schema(&self) -> &Schema {
-- 
2.43.0


From cef3d663651faf582919de2f0301bea120f031a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:01 +0000
Subject: [PATCH 56/74] fix: index scans find every row of their predicates,
 and inserts and updates reach the indexes

---
 src/catalog/catalog_impl.rs                   |  13 +
 src/catalog/database.rs                       |  17 +
 .../executors/index_scan_executor.rs          | 368 ++++++------------
 .../execution/executors/insert_executor.rs    |  47 ++-
 .../execution/executors/update_executor.rs    |   7 +-
 src/sql/optimizer/optimizer_impl.rs           |   3 +-
 src/storage/index/b_plus_tree.rs              |  39 +-
 7 files changed, 205 insertions(+), 289 deletions(-)

diff --git a/src/catalog/catalog_impl.rs b/src/catalog/catalog_impl.rs
index cd891f5..e174583 100644
--- a/src/catalog/catalog_impl.rs
+++ b/src/catalog/catalog_impl.rs
@@ -198,6 +198,7 @@ use crate::catalog::system_catalog::{
     SYS_TABLES_OID, SystemCatalogSchemas, SystemCatalogTables, TableCatalogRow,
 };
 use crate::common::config::{IndexOidT, TableOidT};
+use crate::common::rid::RID;
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::index::{IndexInfo, IndexType};
@@ -562,6 +563,18 @@ impl Catalog {
             .unwrap_or_default()
     }
 
+    /// Adds a row to the indexes of its table in the current database.
+    ///
+    /// # Parameters
+    /// - `table_name`: The name of the table
+    /// - `values`: The values of the row
+    /// - `rid`: The RID of the row
+    pub fn index_row(&self, table_name: &str, values: &[Value], rid: RID) {
+        if let Some(db) = self.get_current_database() {
+            db.index_row(table_name, values, rid);
+        }
+    }
+
     /// Gets an index by its OID in the current database.
     ///
     /// # Parameters
diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index 20e3834..fa5cffa 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -221,11 +221,13 @@ use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
 use crate::catalog::system_catalog::SYS_COLUMNS_OID;
 use crate::common::config::{DataBaseOid, IndexOidT, TableOidT};
+use crate::common::rid::RID;
 use crate::concurrency::transaction_manager::TransactionManager;
 use crate::storage::index::b_plus_tree::BPlusTree;
 use crate::storage::index::{IndexInfo, IndexType};
 use crate::storage::table::table_heap::{TableHeap, TableInfo};
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
+use crate::types_db::value::Value;
 
 /// A static atomic counter for generating unique database IDs
 static NEXT_DATABASE_ID: AtomicU64 = AtomicU64::new(0);
@@ -630,6 +632,21 @@ impl Database {
         self.table_names.keys().cloned().collect()
     }
 
+    /// Adds a row to the single-column indexes of its table.
+    ///
+    /// Entries of replaced versions of the row stay, as older snapshots still read
+    /// these versions by them: index scans check the rows they find.
+    pub fn index_row(&self, table_name: &str, values: &[Value], rid: RID) {
+        for (info, index) in self.indexes.values() {
+            if info.get_table_name() == table_name
+                && let [column] = info.get_key_attrs()[..]
+                && let Some(key) = values.get(column)
+            {
+                index.write().insert(key.clone(), rid);
+            }
+        }
+    }
+
     /// Populates a newly created index with existing data from the table
     fn populate_index_with_existing_data(
         &self,
diff --git a/src/sql/execution/executors/index_scan_executor.rs b/src/sql/execution/executors/index_scan_executor.rs
index c510415..3f4f20f 100644
--- a/src/sql/execution/executors/index_scan_executor.rs
+++ b/src/sql/execution/executors/index_scan_executor.rs
@@ -54,6 +54,8 @@
 //! Fetched tuples are checked for visibility using the transaction context.
 //! Deleted tuples are automatically skipped.
 
+use std::cmp::Ordering;
+use std::collections::HashSet;
 use std::sync::Arc;
 
 use log::{debug, error, info};
@@ -73,6 +75,7 @@ use crate::storage::index::IndexInfo;
 use crate::storage::index::index_iterator_mem::IndexIterator;
 use crate::storage::table::transactional_table_heap::TransactionalTableHeap;
 use crate::storage::table::tuple::Tuple;
+use crate::types_db::type_id::TypeId;
 use crate::types_db::value::{Val, Value};
 
 /// Executor for index-based table scans.
@@ -119,6 +122,8 @@ pub struct IndexScanExecutor {
     initialized: bool,
     /// Iterator over index entries within the computed bounds.
     iterator: Option<IndexIterator>,
+    /// RIDs that the scan has come across.
+    visited: HashSet<RID>,
 }
 
 impl IndexScanExecutor {
@@ -192,276 +197,130 @@ impl IndexScanExecutor {
             plan,
             table_heap,
             iterator: None,
+            visited: HashSet::new(),
             initialized: false,
         }
     }
 
-    /// Analyzes a predicate expression to extract index scan ranges.
+    /// Returns bounds on the key of all rows for which a predicate can be true.
     ///
-    /// Recursively processes comparison and logic expressions to determine
-    /// the optimal start and end bounds for an index scan.
+    /// Both bounds are inclusive and `None` is unbounded: the scan evaluates the
+    /// predicate itself on each row it finds, so a bound may be too wide and never
+    /// too narrow. Only comparisons of the key column with a constant of its type,
+    /// and AND and OR of them, are bounded.
     ///
     /// # Arguments
     ///
     /// * `expr` - The predicate expression to analyze.
-    ///
-    /// # Returns
-    ///
-    /// A vector of ranges, where each range is a tuple of:
-    /// - `Option<Value>`: Start bound (None = unbounded)
-    /// - `bool`: Start bound inclusive
-    /// - `Option<Value>`: End bound (None = unbounded)
-    /// - `bool`: End bound inclusive
-    ///
-    /// # Logic Expression Handling
-    ///
-    /// - **AND**: Intersects ranges (takes most restrictive bounds)
-    /// - **OR**: Unions ranges (returns all child ranges)
-    /// - **NOT**: Inverts comparison operators
-    fn analyze_predicate_ranges(
+    /// * `key_column` - Index of the key column in the table's schema.
+    /// * `key_type` - Type of the key column.
+    fn key_bounds(
         expr: &Expression,
-    ) -> Vec<(Option<Value>, bool, Option<Value>, bool)> {
+        key_column: usize,
+        key_type: TypeId,
+    ) -> (Option<Value>, Option<Value>) {
         match expr {
-            Expression::Logic(logic_expr) => {
-                let mut ranges = Vec::new();
-
-                match logic_expr.get_logic_type() {
-                    LogicType::And => {
-                        // For AND, find the most restrictive range
-                        let mut start_value = None;
-                        let mut end_value = None;
-                        let mut include_start = false;
-                        let mut include_end = false;
-
-                        // Process each child of AND
-                        for child in logic_expr.get_children() {
-                            let child_ranges = Self::analyze_predicate_ranges(child);
-                            for (child_start, child_start_incl, child_end, child_end_incl) in
-                                child_ranges
-                            {
-                                // Update start bound if more restrictive
-                                if let Some(value) = child_start {
-                                    match &start_value {
-                                        None => {
-                                            start_value = Some(value);
-                                            include_start = child_start_incl;
-                                        },
-                                        Some(current) if value > *current => {
-                                            start_value = Some(value);
-                                            include_start = child_start_incl;
-                                        },
-                                        _ => {},
-                                    }
-                                }
-
-                                // Update end bound if more restrictive
-                                if let Some(value) = child_end {
-                                    match &end_value {
-                                        None => {
-                                            end_value = Some(value);
-                                            include_end = child_end_incl;
-                                        },
-                                        Some(current) if value < *current => {
-                                            end_value = Some(value);
-                                            include_end = child_end_incl;
-                                        },
-                                        _ => {},
-                                    }
-                                }
-                            }
-                        }
-                        ranges.push((start_value, include_start, end_value, include_end));
-                    },
-                    LogicType::Or => {
-                        // For OR, collect all ranges and union them
-                        for child in logic_expr.get_children() {
-                            ranges.extend(Self::analyze_predicate_ranges(child));
-                        }
-                    },
-                    LogicType::Not => {
-                        // For NOT operations on comparisons, we need to invert the bounds
-                        if let Some(child) = logic_expr.get_children().first() {
-                            match child.as_ref() {
-                                Expression::Comparison(comp_expr) => {
-                                    if let Ok(value) = comp_expr.get_right().evaluate(
-                                        &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
-                                        &Schema::new(vec![]),
-                                    ) {
-                                        match comp_expr.get_comp_type() {
-                                            ComparisonType::Equal => {
-                                                // NOT (x = value) -> x < value OR x > value
-                                                // This requires full scan as it creates a disjoint range
-                                                Vec::new()
-                                            },
-                                            ComparisonType::GreaterThan => {
-                                                // NOT (x > value) -> x <= value
-                                                vec![(None, false, Some(value), true)]
-                                            },
-                                            ComparisonType::GreaterThanOrEqual => {
-                                                // NOT (x >= value) -> x < value
-                                                vec![(None, false, Some(value), false)]
-                                            },
-                                            ComparisonType::LessThan => {
-                                                // NOT (x < value) -> x >= value
-                                                vec![(Some(value), true, None, false)]
-                                            },
-                                            ComparisonType::LessThanOrEqual => {
-                                                // NOT (x <= value) -> x > value
-                                                vec![(Some(value), false, None, false)]
-                                            },
-                                            ComparisonType::NotEqual => {
-                                                // NOT (x != value) -> x = value
-                                                vec![(Some(value.clone()), true, Some(value), true)]
-                                            },
-                                            ComparisonType::IsNotNull => {
-                                                // NOT (IS NOT NULL) -> IS NULL
-                                                // This requires special handling at runtime
-                                                Vec::new()
-                                            },
-                                        }
-                                    } else {
-                                        Vec::new()
-                                    }
-                                },
-                                _ => Vec::new(), // NOT on non-comparison expressions
-                            }
-                        } else {
-                            Vec::new()
-                        };
-                    },
+            Expression::Logic(logic) => {
+                let left = Self::key_bounds(logic.get_left(), key_column, key_type);
+                let right = Self::key_bounds(logic.get_right(), key_column, key_type);
+                match logic.get_logic_type() {
+                    LogicType::And => Self::intersect(left, right),
+                    LogicType::Or => (
+                        Self::pick(left.0, right.0, Ordering::Less),
+                        Self::pick(left.1, right.1, Ordering::Greater),
+                    ),
+                    LogicType::Not => (None, None),
                 }
-                ranges
             },
-            Expression::Comparison(comp_expr) => {
-                if let Ok(value) = comp_expr.get_right().evaluate(
-                    &Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0)),
-                    &Schema::new(vec![]),
-                ) {
-                    match comp_expr.get_comp_type() {
-                        ComparisonType::Equal => {
-                            // For equality, use same value for both bounds, inclusive
-                            vec![(Some(value.clone()), true, Some(value), true)]
-                        },
-                        ComparisonType::GreaterThan => {
-                            // x > value
-                            vec![(Some(value), false, None, false)]
-                        },
-                        ComparisonType::GreaterThanOrEqual => {
-                            // x >= value
-                            vec![(Some(value), true, None, false)]
-                        },
-                        ComparisonType::LessThan => {
-                            // x < value
-                            vec![(None, false, Some(value), false)]
-                        },
-                        ComparisonType::LessThanOrEqual => {
-                            // x <= value
-                            vec![(None, false, Some(value), true)]
-                        },
-                        ComparisonType::NotEqual => {
-                            // Full scan for not equal
-                            Vec::new()
-                        },
-                        ComparisonType::IsNotNull => {
-                            // For IS NOT NULL, scan all non-null values
-                            // This effectively means no bounds, as we'll filter nulls later
-                            Vec::new()
-                        },
-                    }
-                } else {
-                    Vec::new()
+            Expression::Comparison(comparison) => {
+                let (Expression::ColumnRef(column), Expression::Constant(constant)) = (
+                    comparison.get_left().as_ref(),
+                    comparison.get_right().as_ref(),
+                ) else {
+                    return (None, None);
+                };
+                let value = constant.get_value();
+                if column.get_column_index() != key_column
+                    || value.get_type_id() != key_type
+                    || value.is_null()
+                {
+                    return (None, None);
+                }
+                match comparison.get_comp_type() {
+                    ComparisonType::Equal => (Some(value.clone()), Some(value.clone())),
+                    ComparisonType::GreaterThan | ComparisonType::GreaterThanOrEqual => {
+                        (Some(value.clone()), None)
+                    },
+                    ComparisonType::LessThan | ComparisonType::LessThanOrEqual => {
+                        (None, Some(value.clone()))
+                    },
+                    ComparisonType::NotEqual | ComparisonType::IsNotNull => (None, None),
                 }
             },
-            _ => Vec::new(),
+            _ => (None, None),
         }
     }
 
-    /// Computes the final index scan bounds from all predicates.
-    ///
-    /// Analyzes all predicate keys, collects their ranges, and computes
-    /// the widest range that covers all predicates (for OR semantics)
-    /// or the narrowest range (for AND semantics within each predicate).
+    /// Bounds of the keys within both bounds.
+    fn intersect(
+        left: (Option<Value>, Option<Value>),
+        right: (Option<Value>, Option<Value>),
+    ) -> (Option<Value>, Option<Value>) {
+        (
+            Self::pick(left.0.clone(), right.0.clone(), Ordering::Greater).or(left.0.or(right.0)),
+            Self::pick(left.1.clone(), right.1.clone(), Ordering::Less).or(left.1.or(right.1)),
+        )
+    }
+
+    /// The value of the two that compares as `which` to the other, if both are bounded.
+    fn pick(left: Option<Value>, right: Option<Value>, which: Ordering) -> Option<Value> {
+        let (left, right) = (left?, right?);
+        Some(if left.sort_cmp(&right) == which {
+            left
+        } else {
+            right
+        })
+    }
+
+    /// Computes the index scan bounds from all predicates, which all must be true.
     ///
     /// # Arguments
     ///
-    /// * `index_info` - Index metadata containing the key schema.
+    /// * `index_info` - Index metadata containing the key column.
     ///
     /// # Returns
     ///
-    /// A tuple of:
-    /// - `Option<Arc<Tuple>>`: Start key tuple (None = scan from beginning)
-    /// - `Option<Arc<Tuple>>`: End key tuple (None = scan to end)
-    ///
-    /// # Algorithm
-    ///
-    /// 1. Collect ranges from all predicate expressions
-    /// 2. Take the minimum start value (widest coverage)
-    /// 3. Take the maximum end value (widest coverage)
-    /// 4. Create key tuples using the index's key schema
+    /// The first and the last key of the scan, or `None` for both for a full scan:
+    /// the index iterator has no scans that are bounded on one side only.
     fn analyze_bounds(&self, index_info: &IndexInfo) -> (Option<Arc<Tuple>>, Option<Arc<Tuple>>) {
-        let predicate_keys = self.plan.get_predicate_keys();
-        let mut all_ranges = Vec::new();
-
-        for pred in predicate_keys {
-            all_ranges.extend(Self::analyze_predicate_ranges(pred.as_ref()));
-        }
-
-        // If we have no ranges to analyze, return None for full scan
-        if all_ranges.is_empty() {
+        let Some(key) = index_info.get_key_schema().get_columns().first().cloned() else {
             return (None, None);
-        }
-
-        // Find the widest range that covers all predicates
-        let mut final_start = None;
-        let mut final_end = None;
-        let mut final_start_incl = false;
-        let mut final_end_incl = false;
-
-        for (start, start_incl, end, end_incl) in all_ranges {
-            // Take minimum start value
-            match (&final_start, start) {
-                (None, Some(value)) => {
-                    final_start = Some(value);
-                    final_start_incl = start_incl;
-                },
-                (Some(current), Some(value)) if value < *current => {
-                    final_start = Some(value);
-                    final_start_incl = start_incl;
-                },
-                _ => {},
-            }
-
-            // Take maximum end value
-            match (&final_end, end) {
-                (None, Some(value)) => {
-                    final_end = Some(value);
-                    final_end_incl = end_incl;
-                },
-                (Some(current), Some(value)) if value > *current => {
-                    final_end = Some(value);
-                    final_end_incl = end_incl;
-                },
-                _ => {},
-            }
-        }
-
-        // Create tuples using the index's key schema
-        let key_schema = index_info.get_key_schema().clone();
-
-        let start_tuple = final_start
-            .clone()
-            .map(|v| Arc::new(Tuple::new(&[v], &key_schema, RID::new(0, 0))));
-
-        let end_tuple = final_end
-            .clone()
-            .map(|v| Arc::new(Tuple::new(&[v], &key_schema, RID::new(0, 0))));
+        };
+        let [key_column] = index_info.get_key_attrs()[..] else {
+            return (None, None);
+        };
 
-        debug!(
-            "Scan bounds: start={:?} (incl={}), end={:?} (incl={})",
-            final_start, final_start_incl, final_end, final_end_incl
-        );
+        let (start, end) = self
+            .plan
+            .get_predicate_keys()
+            .iter()
+            .map(|predicate| Self::key_bounds(predicate, key_column, key.get_type()))
+            .fold((None, None), Self::intersect);
+        debug!("Scan bounds: start={:?}, end={:?}", start, end);
 
-        (start_tuple, end_tuple)
+        let (Some(start), Some(end)) = (start, end) else {
+            return (None, None);
+        };
+        // The tree takes keys out of tuples that are shaped like rows of the table
+        let row_schema = Schema::new(vec![key; key_column + 1]);
+        let row = |value: Value| {
+            Arc::new(Tuple::new(
+                &vec![value; key_column + 1],
+                &row_schema,
+                RID::new(0, 0),
+            ))
+        };
+        (Some(row(start)), Some(row(end)))
     }
 }
 
@@ -562,6 +421,11 @@ impl AbstractExecutor for IndexScanExecutor {
 
             debug!("Found RID {:?} in index", rid);
 
+            // An updated row has one entry for each key it ever had
+            if !self.visited.insert(rid) {
+                continue;
+            }
+
             // Use RID to fetch tuple from table heap with transaction context
             match self.table_heap.get_tuple(rid, txn_ctx.clone()) {
                 Ok((meta, tuple)) => {
@@ -574,19 +438,13 @@ impl AbstractExecutor for IndexScanExecutor {
                     // Additional check against predicates
                     let mut predicates_match = true;
                     for predicate in predicate_keys {
-                        if let Ok(result) = predicate.evaluate(&tuple, &output_schema) {
-                            match result.get_val() {
-                                Val::Boolean(b) => {
-                                    if !b {
-                                        predicates_match = false;
-                                        break;
-                                    }
-                                },
-                                _ => {
-                                    predicates_match = false;
-                                    break;
-                                },
-                            }
+                        // Only a predicate that is true keeps the row, as in the filter
+                        let is_true = predicate
+                            .evaluate(&tuple, &output_schema)
+                            .is_ok_and(|result| matches!(result.get_val(), Val::Boolean(true)));
+                        if !is_true {
+                            predicates_match = false;
+                            break;
                         }
                     }
 
diff --git a/src/sql/execution/executors/insert_executor.rs b/src/sql/execution/executors/insert_executor.rs
index dc66c3b..3794d1c 100644
--- a/src/sql/execution/executors/insert_executor.rs
+++ b/src/sql/execution/executors/insert_executor.rs
@@ -257,6 +257,25 @@ impl InsertExecutor {
         }
     }
 
+    /// Adds a row that was inserted, as it was stored, to the indexes of the table.
+    fn index_inserted_row(
+        &self,
+        table_heap: &TransactionalTableHeap,
+        rid: RID,
+        txn_context: Arc<crate::sql::execution::transaction_context::TransactionContext>,
+    ) -> Result<(), DBError> {
+        let context = self.context.read();
+        let catalog = context.get_catalog().read();
+        let table_name = self.plan.get_table_name();
+        if !catalog.get_table_indexes(table_name).is_empty() {
+            let (_, tuple) = table_heap
+                .get_tuple(rid, txn_context)
+                .map_err(|e| DBError::Execution(format!("Insert failed: {}", e)))?;
+            catalog.index_row(table_name, &tuple.get_values(), rid);
+        }
+        Ok(())
+    }
+
     /// Validates all foreign key constraints for a row before insertion.
     ///
     /// Iterates through each column in the schema, checking if any have
@@ -506,7 +525,7 @@ impl AbstractExecutor for InsertExecutor {
         self.executed = true;
 
         // Get catalog and table information
-        let (schema, table_heap, table_oidt, txn_context) = {
+        let (schema, table_heap, table_oidt, txn_context, has_indexes) = {
             let binding = self.context.read();
             let catalog_guard = binding.get_catalog().read();
             let table_info = catalog_guard
@@ -518,7 +537,11 @@ impl AbstractExecutor for InsertExecutor {
             let table_oidt = table_info.get_table_oidt();
             let txn_context = binding.get_transaction_context().clone();
 
-            (schema, table_heap, table_oidt, txn_context)
+            let has_indexes = !catalog_guard
+                .get_table_indexes(self.plan.get_table_name())
+                .is_empty();
+
+            (schema, table_heap, table_oidt, txn_context, has_indexes)
         };
 
         // Create transactional table heap
@@ -537,7 +560,7 @@ impl AbstractExecutor for InsertExecutor {
             }
 
             // PERFORMANCE OPTIMIZATION: Process inserts in batches
-            if values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
+            if !has_indexes && values_to_insert.len() >= BATCH_INSERT_THRESHOLD {
                 debug!(
                     "Using TRUE bulk insert optimization for {} rows",
                     values_to_insert.len()
@@ -562,7 +585,7 @@ impl AbstractExecutor for InsertExecutor {
                 }
             } else {
                 // OPTIMIZATION: Even for small batches, use bulk insert if we have multiple rows
-                if values_to_insert.len() > 1 {
+                if !has_indexes && values_to_insert.len() > 1 {
                     debug!(
                         "Using TRUE bulk insert for small batch of {} rows",
                         values_to_insert.len()
@@ -575,14 +598,19 @@ impl AbstractExecutor for InsertExecutor {
                     )?;
                     insert_count += batch_result;
                 } else {
-                    // Single row - fall back to individual insert
+                    // Single row or indexed table - fall back to individual insert
                     for values in values_to_insert {
                         match transactional_table_heap.insert_tuple_from_values(
                             values.clone(),
                             &schema,
                             txn_context.clone(),
                         ) {
-                            Ok(_rid) => {
+                            Ok(rid) => {
+                                self.index_inserted_row(
+                                    &transactional_table_heap,
+                                    rid,
+                                    txn_context.clone(),
+                                )?;
                                 insert_count += 1;
                                 trace!("Successfully inserted single tuple");
                             },
@@ -639,7 +667,12 @@ impl AbstractExecutor for InsertExecutor {
                         &schema,
                         txn_context.clone(),
                     ) {
-                        Ok(_rid) => {
+                        Ok(rid) => {
+                            self.index_inserted_row(
+                                &transactional_table_heap,
+                                rid,
+                                txn_context.clone(),
+                            )?;
                             insert_count += 1;
                             trace!(
                                 "Successfully inserted tuple #{} from VALUES/SELECT",
diff --git a/src/sql/execution/executors/update_executor.rs b/src/sql/execution/executors/update_executor.rs
index 5cbeb77..b93b1ee 100644
--- a/src/sql/execution/executors/update_executor.rs
+++ b/src/sql/execution/executors/update_executor.rs
@@ -162,7 +162,12 @@ impl AbstractExecutor for UpdateExecutor {
                     rid,
                     txn_context.clone(),
                 ) {
-                    Ok(_) => {
+                    Ok(rid) => {
+                        self.context.read().get_catalog().read().index_row(
+                            self.plan.get_table_name(),
+                            &updated_tuple.get_values(),
+                            rid,
+                        );
                         update_count += 1;
                         trace!(
                             "Successfully updated tuple #{} with RID {:?}",
diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index aad5634..858c6e7 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -685,7 +685,8 @@ impl Optimizer {
                     for index_info in indexes {
                         let key_attrs = index_info.get_key_attrs();
 
-                        if !key_attrs.is_empty()
+                        // Indexes of several columns are not maintained
+                        if key_attrs.len() == 1
                             && let Some(table_info) = catalog.get_table(table_name)
                         {
                             let table_schema = table_info.get_table_schema();
diff --git a/src/storage/index/b_plus_tree.rs b/src/storage/index/b_plus_tree.rs
index 5f61bd4..5da2147 100644
--- a/src/storage/index/b_plus_tree.rs
+++ b/src/storage/index/b_plus_tree.rs
@@ -235,16 +235,16 @@ impl BPlusTree {
                     let child_idx = node
                         .keys
                         .iter()
-                        .position(|k| k.compare_greater_than_equals(key) == CmpBool::CmpTrue)
+                        .position(|k| k.sort_cmp(key).is_ge())
                         .unwrap_or(node.keys.len());
                     Arc::clone(&node.children[child_idx])
                 },
                 NodeType::Leaf => {
                     for (k, r) in node.keys.iter().zip(node.values.iter()) {
-                        if k.compare_greater_than(key) == CmpBool::CmpTrue {
+                        if k.sort_cmp(key).is_gt() {
                             return false;
                         }
-                        if *r == rid && k.compare_equals(key) == CmpBool::CmpTrue {
+                        if *r == rid && k.sort_cmp(key).is_eq() {
                             return true;
                         }
                     }
@@ -276,10 +276,10 @@ impl BPlusTree {
 
                     // Check each key to find potential paths
                     for (i, k) in node.keys.iter().enumerate() {
-                        if k.compare_greater_than(key) == CmpBool::CmpTrue {
+                        if k.sort_cmp(key).is_gt() {
                             // If this key is greater, we need to check the left child
                             child_indices.push(i);
-                        } else if k.compare_equals(key) == CmpBool::CmpTrue {
+                        } else if k.sort_cmp(key).is_eq() {
                             // If this key equals our search key, check both children
                             child_indices.push(i);
                             child_indices.push(i + 1);
@@ -308,7 +308,7 @@ impl BPlusTree {
                         debug!("Checking entry {} - Key: {:?}, RID: {:?}", i, k, r);
 
                         // Check for exact match
-                        if k.compare_equals(key) == CmpBool::CmpTrue && *r == rid {
+                        if k.sort_cmp(key).is_eq() && *r == rid {
                             debug!("Found matching key-RID pair at position {}", i);
                             drop(node);
                             let mut node_write = current_node.write();
@@ -368,7 +368,7 @@ impl BPlusTree {
                     let child_idx = node
                         .keys
                         .iter()
-                        .position(|k| k.compare_greater_than_equals(&start_key) == CmpBool::CmpTrue)
+                        .position(|k| k.sort_cmp(&start_key).is_ge())
                         .unwrap_or(0);
                     debug!("Selected child index: {}", child_idx);
                     let next_node = Arc::clone(&node.children[child_idx]);
@@ -390,11 +390,11 @@ impl BPlusTree {
 
             // Add values from current leaf that are within range
             for (key, rid) in node.keys.iter().zip(node.values.iter()) {
-                if key.compare_less_than(&start_key) == CmpBool::CmpTrue {
+                if key.sort_cmp(&start_key).is_lt() {
                     continue;
                 }
-                if key.compare_greater_than(&end_key) == CmpBool::CmpTrue
-                    || (!include_end && key.compare_equals(&end_key) == CmpBool::CmpTrue)
+                if key.sort_cmp(&end_key).is_gt()
+                    || (!include_end && key.sort_cmp(&end_key).is_eq())
                 {
                     debug!("Found key beyond range, ending scan");
                     return Ok(entries);
@@ -632,13 +632,7 @@ impl BPlusTree {
     }
 
     pub fn compare_keys_ordering(&self, key1: &Value, key2: &Value) -> std::cmp::Ordering {
-        if key1.compare_less_than(key2) == CmpBool::CmpTrue {
-            std::cmp::Ordering::Less
-        } else if key1.compare_greater_than(key2) == CmpBool::CmpTrue {
-            std::cmp::Ordering::Greater
-        } else {
-            std::cmp::Ordering::Equal
-        }
+        key1.sort_cmp(key2)
     }
 
     // Helper method to find insertion position in sorted order
@@ -650,12 +644,7 @@ impl BPlusTree {
         // This ensures proper routing in internal nodes
         let pos = keys
             .iter()
-            .position(|k| {
-                match k.compare_equals(key) {
-                    CmpBool::CmpTrue => false, // Keep looking, want to insert after equals
-                    _ => k.compare_greater_than(key) == CmpBool::CmpTrue,
-                }
-            })
+            .position(|k| k.sort_cmp(key).is_gt())
             .unwrap_or(keys.len());
 
         debug!("Found insert position: {}", pos);
@@ -680,7 +669,7 @@ impl BPlusTree {
                 // Check entries before pos with same key
                 while i > 0 {
                     i -= 1;
-                    if node.keys[i].compare_equals(&key) == CmpBool::CmpTrue {
+                    if node.keys[i].sort_cmp(&key).is_eq() {
                         if node.values[i] == rid {
                             debug!("Found duplicate key-RID pair at position {}", i);
                             return false;
@@ -692,7 +681,7 @@ impl BPlusTree {
                 // Check entries from pos onwards with same key
                 i = pos;
                 while i < node.keys.len() {
-                    if node.keys[i].compare_equals(&key) == CmpBool::CmpTrue {
+                    if node.keys[i].sort_cmp(&key).is_eq() {
                         if node.values[i] == rid {
                             debug!("Found duplicate key-RID pair at position {}", i);
                             return false;
-- 
2.43.0


From 3f794694db6d68fb10f58e80c61e0122197ff686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:41 +0000
Subject: [PATCH 57/74] fix: index joins look keys up in an index of the joined
 column, and report errors

---
 .../executors/nested_index_join_executor.rs   | 186 ++++++++----------
 1 file changed, 87 insertions(+), 99 deletions(-)

diff --git a/src/sql/execution/executors/nested_index_join_executor.rs b/src/sql/execution/executors/nested_index_join_executor.rs
index 2333381..688b16a 100644
--- a/src/sql/execution/executors/nested_index_join_executor.rs
+++ b/src/sql/execution/executors/nested_index_join_executor.rs
@@ -211,7 +211,7 @@ impl NestedIndexJoinExecutor {
     ///
     /// Uses `evaluate_join` which handles column references from both
     /// relations using tuple indices (0 for left, 1 for right).
-    fn evaluate_predicate(&self, left_tuple: &Tuple, right_tuple: &Tuple) -> bool {
+    fn evaluate_predicate(&self, left_tuple: &Tuple, right_tuple: &Tuple) -> Result<bool, DBError> {
         let predicate = self.plan.get_predicate();
         let left_schema = self.plan.get_left_schema();
         let right_schema = self.plan.get_right_schema();
@@ -225,22 +225,8 @@ impl NestedIndexJoinExecutor {
         trace!("Right schema: {:?}", right_schema);
         trace!("Predicate: {:?}", predicate);
 
-        match predicate.evaluate_join(left_tuple, left_schema, right_tuple, right_schema) {
-            Ok(v) => match v.get_val() {
-                Val::Boolean(b) => {
-                    trace!("Predicate evaluation returned boolean: {}", b);
-                    *b
-                },
-                other => {
-                    trace!("Predicate evaluation returned non-boolean: {:?}", other);
-                    false
-                },
-            },
-            Err(e) => {
-                trace!("Predicate evaluation error: {:?}", e);
-                false
-            },
-        }
+        let result = predicate.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
+        Ok(matches!(result.get_val(), Val::Boolean(true)))
     }
 
     /// Constructs the output tuple by concatenating left and right tuple values.
@@ -296,7 +282,7 @@ impl NestedIndexJoinExecutor {
         // Updated to handle Result type from child executors
         // If we have a current right executor, try to get next tuple from it
         if let Some(executor) = &mut self.current_right_executor {
-            while let Ok(Some(tuple_and_rid)) = executor.next() {
+            while let Some(tuple_and_rid) = executor.next()? {
                 let right_rid = tuple_and_rid.1;
                 // Skip if we've already processed this right tuple for the current left tuple
                 if self.processed_right_rids.contains(&right_rid) {
@@ -316,15 +302,11 @@ impl NestedIndexJoinExecutor {
         }
 
         // Create executor for the current left tuple
-        if self.create_right_executor().is_none() {
-            return Err(DBError::Execution(
-                "Failed to create right executor".to_string(),
-            ));
-        }
+        self.create_right_executor()?;
 
         // Now try to get the first result with the newly created executor
         if let Some(executor) = &mut self.current_right_executor
-            && let Ok(Some(tuple_and_rid)) = executor.next()
+            && let Some(tuple_and_rid) = executor.next()?
         {
             let right_rid = tuple_and_rid.1;
 
@@ -367,8 +349,8 @@ impl NestedIndexJoinExecutor {
     ///
     /// # Returns
     ///
-    /// * `Some(())` - Executor created successfully
-    /// * `None` - Failed to create executor (no current left tuple or error)
+    /// * `Ok(())` - Executor created successfully
+    /// * `Err(DBError)` - A key cannot be computed or there is no table to look it up in
     ///
     /// # Index Selection
     ///
@@ -380,11 +362,11 @@ impl NestedIndexJoinExecutor {
     /// When no suitable index exists, creates a sequential scan with
     /// predicate pushdown for the join condition. This is less efficient
     /// but ensures correctness.
-    fn create_right_executor(&mut self) -> Option<()> {
-        // Get the current left tuple
-        let (left_tuple, _) = self.current_left_tuple.as_ref()?;
+    fn create_right_executor(&mut self) -> Result<(), DBError> {
+        let Some((left_tuple, _)) = self.current_left_tuple.as_ref() else {
+            return Err(DBError::Execution("No current left tuple".to_string()));
+        };
 
-        // Create new index scan for the current left tuple
         let right_schema = self.plan.get_right_schema().clone();
         let right_key_exprs = self.plan.get_right_key_expressions();
         let left_key_exprs = self.plan.get_left_key_expressions();
@@ -392,85 +374,87 @@ impl NestedIndexJoinExecutor {
         // Evaluate left key expressions to get values for index lookup
         let mut predicate_keys = Vec::new();
         for (left_expr, right_expr) in left_key_exprs.iter().zip(right_key_exprs.iter()) {
-            if let Ok(value) = left_expr.evaluate(left_tuple, self.plan.get_left_schema()) {
-                debug!("Evaluated left key expression to: {:?}", value);
-
-                // Create comparison expression for index scan
-                let predicate = Arc::new(Expression::Comparison(ComparisonExpression::new(
-                    right_expr.clone(),
-                    Arc::new(Expression::Constant(ConstantExpression::new(
-                        value.clone(),
-                        Column::new("const", TypeId::Integer),
-                        vec![],
-                    ))),
-                    ComparisonType::Equal,
-                    vec![],
-                )));
-                predicate_keys.push(predicate);
-            } else {
-                debug!("Failed to evaluate left key expression");
-            }
+            let value = left_expr.evaluate(left_tuple, self.plan.get_left_schema())?;
+            debug!("Evaluated left key expression to: {:?}", value);
+            let constant = Arc::new(Expression::Constant(ConstantExpression::new(
+                value,
+                Column::new("const", TypeId::Integer),
+                vec![],
+            )));
+            predicate_keys.push(Arc::new(Expression::Comparison(ComparisonExpression::new(
+                right_expr.clone(),
+                constant.clone(),
+                ComparisonType::Equal,
+                vec![right_expr.clone(), constant],
+            ))));
         }
 
-        // Get catalog info for right table
-        let binding = self.context.read();
-        let catalog = binding.get_catalog();
-        let catalog_guard = catalog.read();
-
-        // Extract table name from right child plan node
         let table_name = match self.plan.get_right_child() {
             PlanNode::SeqScan(scan) => scan.get_table_name(),
-            PlanNode::IndexScan(scan) => scan.get_table_name(),
-            // Add other cases as needed
-            _ => return None, // Return None if we can't get table name
+            PlanNode::IndexScan(scan) => {
+                predicate_keys.extend(scan.get_predicate_keys().iter().cloned());
+                scan.get_table_name()
+            },
+            _ => {
+                return Err(DBError::Execution(
+                    "The right side of an index join is not a scan".to_string(),
+                ));
+            },
         };
 
-        let table_info = catalog_guard.get_table(table_name).unwrap();
-        let table_indexes = catalog_guard.get_table_indexes(table_name);
+        // Find the table and an index on a column of the join
+        let (table_oid, index) = {
+            let context = self.context.read();
+            let catalog = context.get_catalog().read();
+            let table_info = catalog
+                .get_table(table_name)
+                .ok_or_else(|| DBError::TableNotFound(table_name.to_string()))?;
+            let joined = |column: usize| {
+                right_key_exprs.iter().any(|key| {
+                    matches!(key.as_ref(), Expression::ColumnRef(c) if c.get_column_index() == column)
+                })
+            };
+            let index = match self.plan.get_right_child() {
+                PlanNode::IndexScan(scan) => {
+                    Some((scan.get_index_name().to_string(), scan.get_index_id()))
+                },
+                _ => catalog
+                    .get_table_indexes(table_name)
+                    .into_iter()
+                    .find(|index| matches!(index.get_key_attrs()[..], [column] if joined(column)))
+                    .map(|index| (index.get_index_name().to_string(), index.get_index_oid())),
+            };
+            (table_info.get_table_oidt(), index)
+        };
 
-        // Find suitable index
-        let index_info = match table_indexes.iter().find(|idx| {
-            let key_schema = idx.get_key_schema();
-            key_schema.get_column_count() as usize == right_key_exprs.len()
-        }) {
-            Some(idx) => idx,
+        let mut executor: Box<dyn AbstractExecutor> = match index {
+            Some((index_name, index_oid)) => {
+                let index_scan_plan = Arc::new(IndexScanNode::new(
+                    right_schema,
+                    table_name.to_string(),
+                    table_oid,
+                    index_name,
+                    index_oid,
+                    predicate_keys,
+                ));
+                Box::new(IndexScanExecutor::new(
+                    self.context.clone(),
+                    index_scan_plan,
+                ))
+            },
             None => {
-                // No suitable index found - create a sequential scan instead
                 debug!("No suitable index found, falling back to sequential scan");
                 let seq_scan_plan = Arc::new(SeqScanPlanNode::new(
-                    right_schema.clone(),
-                    table_info.get_table_oidt(),
+                    right_schema,
+                    table_oid,
                     table_name.to_string(),
                 ));
-
-                let mut seq_scan_executor =
-                    SeqScanExecutor::new(self.context.clone(), seq_scan_plan);
-                seq_scan_executor.init();
-
-                // Store the executor for retrieving right tuples
-                self.current_right_executor = Some(Box::new(seq_scan_executor));
-                return Some(());
+                Box::new(SeqScanExecutor::new(self.context.clone(), seq_scan_plan))
             },
         };
-
-        // Create and execute index scan
-        let index_scan_plan = Arc::new(IndexScanNode::new(
-            right_schema,
-            table_name.to_string(),
-            table_info.get_table_oidt(),
-            index_info.get_index_name().to_string(),
-            index_info.get_index_oid(),
-            predicate_keys,
-        ));
-
-        // Create new executor
-        let mut index_scan_executor = IndexScanExecutor::new(self.context.clone(), index_scan_plan);
-
-        index_scan_executor.init();
-
-        // Store for future use
-        self.current_right_executor = Some(Box::new(index_scan_executor));
-        Some(())
+        executor.init();
+        self.current_right_executor = Some(executor);
+        Ok(())
     }
 }
 
@@ -557,8 +541,12 @@ impl AbstractExecutor for NestedIndexJoinExecutor {
     /// - Creates a new right executor for index lookup
     fn next(&mut self) -> Result<Option<(Arc<Tuple>, RID)>, DBError> {
         if !self.initialized {
-            debug!("NestedIndexJoinExecutor not initialized");
-            return Ok(None);
+            self.init();
+            if !self.initialized {
+                return Err(DBError::Execution(
+                    "The left side of the join cannot be executed".to_string(),
+                ));
+            }
         }
 
         debug!("NestedIndexJoinExecutor::next() called");
@@ -576,11 +564,11 @@ impl AbstractExecutor for NestedIndexJoinExecutor {
 
                     // Try to get next matching tuple from right relation using index
                     debug!("Attempting to get next inner tuple");
-                    if let Ok(Some((right_tuple, _))) = self.get_next_inner_tuple() {
+                    if let Some((right_tuple, _)) = self.get_next_inner_tuple()? {
                         debug!("Got right tuple: {:?}", right_tuple.get_values());
 
                         // Double-check the predicate since get_next_inner_tuple already filters by key equality
-                        if self.evaluate_predicate(&left_tuple_clone, &right_tuple) {
+                        if self.evaluate_predicate(&left_tuple_clone, &right_tuple)? {
                             debug!("Predicate evaluation successful, constructing join result");
                             let result =
                                 self.construct_output_tuple(&left_tuple_clone, &right_tuple);
-- 
2.43.0


From 3f68a0f727c1fb2978b473fa4508168e37898d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:01 +0000
Subject: [PATCH 58/74] fix: a reopened database finds its tables and indexes
 again

---
 src/catalog/catalog_impl.rs     | 71 ++++++++-------------------------
 src/catalog/database.rs         | 39 +++++++++++++++++-
 src/catalog/system_catalog.rs   | 35 ++++++++++++++--
 src/storage/table/table_heap.rs | 16 +++++++-
 4 files changed, 100 insertions(+), 61 deletions(-)

diff --git a/src/catalog/catalog_impl.rs b/src/catalog/catalog_impl.rs
index e174583..a934196 100644
--- a/src/catalog/catalog_impl.rs
+++ b/src/catalog/catalog_impl.rs
@@ -106,16 +106,10 @@
 //!          ┌───────────────────┼───────────────────┐
 //!          ▼                   ▼                   ▼
 //!   ┌─────────────┐    ┌─────────────┐    ┌─────────────┐
-//!   │   Load      │    │   Scan      │    │   Rebuild   │
-//!   │  snapshot   │    │  __tables   │    │  in-memory  │
-//!   │ (optional)  │    │   heap      │    │   maps      │
+//!   │   Scan      │    │   Scan      │    │   Rebuild   │
+//!   │  __tables   │    │  __indexes  │    │  in-memory  │
+//!   │   heap      │    │   heap      │    │   maps      │
 //!   └─────────────┘    └─────────────┘    └─────────────┘
-//!                              │
-//!                              ▼
-//!                    ┌─────────────────┐
-//!                    │  Save updated   │
-//!                    │    snapshot     │
-//!                    └─────────────────┘
 //! ```
 //!
 //! ## Example Usage
@@ -173,8 +167,6 @@
 //!
 //! - **Non-persistent in-memory maps**: The hashmaps are rebuilt on startup
 //!   from system catalog tables for durability
-//! - **Snapshot acceleration**: Catalog snapshots (`catalog.snapshot`) speed
-//!   up rebuild by caching serialized metadata
 //! - **OID generation**: Each database maintains its own OID counters for
 //!   tables and indexes
 //! - **Schema serialization**: Uses `postcard` for compact schema storage in
@@ -183,8 +175,6 @@
 use core::fmt;
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
-use std::fs;
-use std::path::Path;
 use std::sync::Arc;
 
 use log::{info, warn};
@@ -195,7 +185,7 @@ use crate::catalog::column::Column;
 use crate::catalog::database::Database;
 use crate::catalog::schema::Schema;
 use crate::catalog::system_catalog::{
-    SYS_TABLES_OID, SystemCatalogSchemas, SystemCatalogTables, TableCatalogRow,
+    IndexCatalogRow, SYS_COLUMNS_OID, SystemCatalogSchemas, SystemCatalogTables, TableCatalogRow,
 };
 use crate::common::config::{IndexOidT, TableOidT};
 use crate::common::rid::RID;
@@ -670,48 +660,21 @@ impl Catalog {
 
     /// Rebuilds in-memory catalog maps by scanning the persisted system catalog tables.
     pub fn rebuild_from_system_catalog(&mut self) {
-        let snapshot_path = Path::new("catalog.snapshot");
-        let scan = TableScanIterator::new(self.system.tables.clone());
-        let mut rebuilt: Vec<TableInfo> = Vec::new();
-        let mut rows: Vec<TableCatalogRow> = Vec::new();
-
-        // Load snapshot first if available to seed faster rebuild
-        if snapshot_path.exists()
-            && let Ok(bytes) = fs::read(snapshot_path)
-            && let Ok(snapshot_rows) = postcard::from_bytes::<Vec<TableCatalogRow>>(&bytes)
-        {
-            for row in snapshot_rows {
-                if row.table_oid <= SYS_TABLES_OID {
-                    continue;
-                }
-                if let Some(info) = self.row_to_table_info(&row) {
-                    rebuilt.push(info);
-                }
-            }
-        }
-
-        for (_meta, tuple) in scan {
-            if let Some(row) = TableCatalogRow::from_tuple(&tuple) {
-                // Skip system tables themselves
-                if row.table_oid <= SYS_TABLES_OID {
-                    continue;
-                }
-
-                if let Some(info) = self.row_to_table_info(&row) {
-                    rebuilt.push(info);
-                    rows.push(row);
-                }
-            }
-        }
+        let tables: Vec<TableInfo> = TableScanIterator::new(self.system.tables.clone())
+            .filter_map(|(_meta, tuple)| TableCatalogRow::from_tuple(&tuple))
+            // Skip system tables themselves
+            .filter(|row| row.table_oid > SYS_COLUMNS_OID)
+            .filter_map(|row| self.row_to_table_info(&row))
+            .collect();
+        let indexes: Vec<IndexCatalogRow> = TableScanIterator::new(self.system.indexes.clone())
+            .filter_map(|(_meta, tuple)| IndexCatalogRow::from_tuple(&tuple))
+            .collect();
 
         if let Some(db) = self.get_current_database_mut() {
-            db.load_tables_from_catalog(rebuilt);
-        }
-
-        if !rows.is_empty()
-            && let Ok(bytes) = postcard::to_allocvec(&rows)
-        {
-            let _ = fs::write(snapshot_path, bytes);
+            db.load_tables_from_catalog(tables);
+            for row in indexes {
+                db.load_index_from_catalog(row);
+            }
         }
     }
 
diff --git a/src/catalog/database.rs b/src/catalog/database.rs
index fa5cffa..34455e8 100644
--- a/src/catalog/database.rs
+++ b/src/catalog/database.rs
@@ -219,7 +219,7 @@ use parking_lot::RwLock;
 use crate::buffer::buffer_pool_manager_async::BufferPoolManager;
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
-use crate::catalog::system_catalog::SYS_COLUMNS_OID;
+use crate::catalog::system_catalog::{IndexCatalogRow, SYS_COLUMNS_OID};
 use crate::common::config::{DataBaseOid, IndexOidT, TableOidT};
 use crate::common::rid::RID;
 use crate::concurrency::transaction_manager::TransactionManager;
@@ -587,12 +587,49 @@ impl Database {
         for table in tables {
             let oid = table.get_table_oidt();
             self.next_table_oid = self.next_table_oid.max(oid + 1);
+            self.txn_manager
+                .register_table(Arc::new(TransactionalTableHeap::new(
+                    table.get_table_heap(),
+                    oid,
+                )));
             self.table_names
                 .insert(table.get_table_name().to_string(), oid);
             self.tables.insert(oid, table);
         }
     }
 
+    /// Loads an index from its catalog row, and its entries from the rows of its table.
+    pub fn load_index_from_catalog(&mut self, row: IndexCatalogRow) {
+        let Some(table_name) = self
+            .tables
+            .get(&row.table_oid)
+            .map(|table| table.get_table_name().to_string())
+        else {
+            warn!("Index '{}' has no table", row.index_name);
+            return;
+        };
+        let key_schema = match postcard::from_bytes::<Schema>(&row.key_schema_bin) {
+            Ok(schema) => schema,
+            Err(err) => {
+                warn!("Failed to decode keys of index {}: {}", row.index_oid, err);
+                return;
+            },
+        };
+        let key_size = key_schema.get_inlined_storage_size() as usize;
+        let next_index_oid = self.next_index_oid.max(row.index_oid + 1);
+        self.next_index_oid = row.index_oid;
+        self.create_index(
+            &row.index_name,
+            &table_name,
+            key_schema,
+            row.key_attrs,
+            key_size,
+            row.unique,
+            IndexType::BPlusTreeIndex,
+        );
+        self.next_index_oid = next_index_oid;
+    }
+
     /// Returns the schema for the specified table.
     pub fn get_table_schema(&self, table_name: &str) -> Option<Schema> {
         self.table_names.get(table_name).and_then(|&table_oid| {
diff --git a/src/catalog/system_catalog.rs b/src/catalog/system_catalog.rs
index 5fbb55e..8d5a105 100644
--- a/src/catalog/system_catalog.rs
+++ b/src/catalog/system_catalog.rs
@@ -170,6 +170,7 @@ use serde::{Deserialize, Serialize};
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
 use crate::common::config::{IndexOidT, PageId, TableOidT};
+use crate::storage::page::page_types::table_page::TablePage;
 use crate::storage::table::table_heap::{TableHeap, TableInfo};
 use crate::types_db::type_id::TypeId;
 use crate::types_db::value::{Val, Value};
@@ -355,6 +356,19 @@ impl IndexCatalogRow {
             Value::new_with_type(Val::Binary(self.key_schema_bin.clone()), TypeId::Binary),
         ]
     }
+
+    /// Reconstructs an `IndexCatalogRow` from a tuple of the `__indexes` table.
+    pub fn from_tuple(tuple: &crate::storage::table::tuple::Tuple) -> Option<Self> {
+        Some(Self {
+            index_oid: value_to_i64(&tuple.get_value(0))? as IndexOidT,
+            index_name: value_to_string(&tuple.get_value(1))?,
+            table_oid: value_to_i64(&tuple.get_value(2))? as TableOidT,
+            unique: value_to_i64(&tuple.get_value(3))? != 0,
+            index_type: value_to_i64(&tuple.get_value(4))? as i32,
+            key_attrs: postcard::from_bytes(&value_to_binary(&tuple.get_value(5))?).ok()?,
+            key_schema_bin: value_to_binary(&tuple.get_value(6))?,
+        })
+    }
 }
 
 /// Extracts an `i64` from a [`Value`], coercing numeric types.
@@ -434,10 +448,23 @@ impl SystemCatalogTables {
     ) -> Self {
         let schemas = SystemCatalogSchemas::new();
 
-        let tables_heap = Arc::new(TableHeap::new(bpm.clone(), SYS_TABLES_OID));
-        let indexes_heap = Arc::new(TableHeap::new(bpm.clone(), SYS_INDEXES_OID));
-        let databases_heap = Arc::new(TableHeap::new(bpm.clone(), SYS_DATABASES_OID));
-        let columns_heap = Arc::new(TableHeap::new(bpm.clone(), SYS_COLUMNS_OID));
+        // The system tables are the first tables of a database file: they have its first
+        // pages, in the order of their OIDs.
+        let existing = bpm.get_disk_manager().pages_at_open() > 0;
+        let heap = |oid: TableOidT| {
+            let first_page_id = oid - SYS_TABLES_OID;
+            Arc::new(
+                if existing && bpm.fetch_page::<TablePage>(first_page_id).is_some() {
+                    TableHeap::reopen(bpm.clone(), oid, first_page_id, first_page_id)
+                } else {
+                    TableHeap::new(bpm.clone(), oid)
+                },
+            )
+        };
+        let tables_heap = heap(SYS_TABLES_OID);
+        let indexes_heap = heap(SYS_INDEXES_OID);
+        let databases_heap = heap(SYS_DATABASES_OID);
+        let columns_heap = heap(SYS_COLUMNS_OID);
 
         let tables = Arc::new(TableInfo::new(
             schemas.tables.clone(),
diff --git a/src/storage/table/table_heap.rs b/src/storage/table/table_heap.rs
index 2e28afb..6dc1b54 100644
--- a/src/storage/table/table_heap.rs
+++ b/src/storage/table/table_heap.rs
@@ -347,19 +347,31 @@ impl TableHeap {
     /// - `bpm`: Buffer pool manager.
     /// - `table_oid`: Table OID.
     /// - `first_page_id`: First page for the table (or INVALID_PAGE_ID for empty).
-    /// - `last_page_id`: Last page id (falls back to `first_page_id` if invalid).
+    /// - `last_page_id`: A page from which the last one is found (falls back to
+    ///   `first_page_id` if invalid).
     pub fn reopen(
         bpm: Arc<BufferPoolManager>,
         table_oid: TableOidT,
         first_page_id: PageId,
         last_page_id: PageId,
     ) -> Self {
-        let resolved_last = if last_page_id == INVALID_PAGE_ID {
+        let mut resolved_last = if last_page_id == INVALID_PAGE_ID {
             first_page_id
         } else {
             last_page_id
         };
 
+        // The table may have grown since its last page was recorded
+        while resolved_last != INVALID_PAGE_ID
+            && let Some(page) = bpm.fetch_page::<TablePage>(resolved_last)
+        {
+            let next_page_id = page.read().get_next_page_id();
+            if next_page_id == INVALID_PAGE_ID {
+                break;
+            }
+            resolved_last = next_page_id;
+        }
+
         Self {
             bpm,
             first_page_id: RwLock::new(first_page_id),
-- 
2.43.0


From 580fe424f566fe8841c5bcd410925cfe8cef86e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:57 +0000
Subject: [PATCH 59/74] fix: plans with a part that cannot be planned end, and
 joins take conditions in either order

---
 src/sql/planner/logical_plan.rs | 99 +++++++++++++++++++++++++++++++--
 1 file changed, 95 insertions(+), 4 deletions(-)

diff --git a/src/sql/planner/logical_plan.rs b/src/sql/planner/logical_plan.rs
index cc322ff..a0d1db1 100644
--- a/src/sql/planner/logical_plan.rs
+++ b/src/sql/planner/logical_plan.rs
@@ -2860,7 +2860,10 @@ impl<'a> PlanConverter<'a> {
             }
 
             // Check if all children have been processed
-            if self.are_all_children_processed(node) {
+            if let Some(error) = self.child_error(node) {
+                // A plan with a part that cannot be converted cannot be converted
+                self.results.insert(node_id, Err(error));
+            } else if self.are_all_children_processed(node) {
                 // Process the current node
                 let result = self.convert_node(node);
                 self.results.insert(node_id, result);
@@ -2886,6 +2889,17 @@ impl<'a> PlanConverter<'a> {
         }
     }
 
+    /// Returns the error of the first child that could not be converted, if any.
+    fn child_error(&self, node: &'a LogicalPlan) -> Option<String> {
+        node.children.iter().find_map(|child| {
+            let child_id = ptr::addr_of!(**child) as usize;
+            match self.results.get(&child_id) {
+                Some(Err(error)) => Some(error.clone()),
+                _ => None,
+            }
+        })
+    }
+
     /// Checks if all children of a node have been successfully processed.
     ///
     /// A child is considered processed if its result exists in the cache
@@ -3171,9 +3185,10 @@ impl<'a> PlanConverter<'a> {
                 if child_plans.len() < 2 {
                     Err("NestedLoopJoin requires two children".to_string())
                 } else {
+                    let left_columns = left_schema.get_column_count() as usize;
                     // Extract join key expressions and fixed predicate from the original predicate
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match plan_join_keys(predicate, left_columns) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3199,9 +3214,10 @@ impl<'a> PlanConverter<'a> {
                 if child_plans.len() < 2 {
                     Err("NestedIndexJoin requires two children".to_string())
                 } else {
+                    let left_columns = left_schema.get_column_count() as usize;
                     // Extract join key expressions and fixed predicate from the original predicate
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match plan_join_keys(predicate, left_columns) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3227,9 +3243,10 @@ impl<'a> PlanConverter<'a> {
                 if child_plans.len() < 2 {
                     Err("HashJoin requires two children".to_string())
                 } else {
+                    let left_columns = left_schema.get_column_count() as usize;
                     // Extract join key expressions and fixed predicate from the original predicate
                     let (left_keys, right_keys, fixed_predicate) =
-                        match extract_join_keys(predicate) {
+                        match plan_join_keys(predicate, left_columns) {
                             Ok((l, r, p)) => (l, r, p),
                             Err(e) => return Err(format!("Failed to extract join keys: {}", e)),
                         };
@@ -3601,6 +3618,80 @@ impl Display for LogicalPlan {
     }
 }
 
+/// Extracts the join keys of a predicate over the joined row.
+///
+/// The planner resolves the columns of an ON clause against the columns of both
+/// sides together: those from `left_columns` on belong to the right side. The
+/// sides of a comparison may be written in either order, and both may be columns
+/// of one side; predicates with other references are left to
+/// [`extract_join_keys`].
+#[allow(clippy::type_complexity)] // Return type reflects distinct semantic components
+fn plan_join_keys(
+    predicate: &Arc<Expression>,
+    left_columns: usize,
+) -> Result<(Vec<Arc<Expression>>, Vec<Arc<Expression>>, Arc<Expression>), String> {
+    match predicate.as_ref() {
+        Expression::Comparison(comparison)
+            if comparison.get_comp_type() == ComparisonType::Equal
+                && comparison.get_children().len() == 2 =>
+        {
+            let (Expression::ColumnRef(first), Expression::ColumnRef(second)) = (
+                comparison.get_children()[0].as_ref(),
+                comparison.get_children()[1].as_ref(),
+            ) else {
+                return extract_join_keys(predicate);
+            };
+            if first.get_tuple_index() != 0 || second.get_tuple_index() != 0 {
+                return extract_join_keys(predicate);
+            }
+            let side = |column: &ColumnRefExpression| {
+                usize::from(column.get_column_index() >= left_columns)
+            };
+            let key = |column: &ColumnRefExpression| {
+                Arc::new(Expression::ColumnRef(ColumnRefExpression::new(
+                    side(column),
+                    column.get_column_index(),
+                    column.get_return_type().clone(),
+                    vec![],
+                )))
+            };
+            let (left, right) = if side(first) <= side(second) {
+                (key(first), key(second))
+            } else {
+                (key(second), key(first))
+            };
+            let fixed_predicate = Arc::new(Expression::Comparison(ComparisonExpression::new(
+                left.clone(),
+                right.clone(),
+                ComparisonType::Equal,
+                vec![left.clone(), right.clone()],
+            )));
+            if side(first) == side(second) {
+                return Ok((vec![], vec![], fixed_predicate));
+            }
+            Ok((vec![left], vec![right], fixed_predicate))
+        },
+        Expression::Logic(logic)
+            if logic.get_logic_type() == LogicType::And && logic.get_children().len() == 2 =>
+        {
+            let (mut left_keys, mut right_keys, first) =
+                plan_join_keys(&logic.get_children()[0], left_columns)?;
+            let (left_keys2, right_keys2, second) =
+                plan_join_keys(&logic.get_children()[1], left_columns)?;
+            left_keys.extend(left_keys2);
+            right_keys.extend(right_keys2);
+            let combined_predicate = Arc::new(Expression::Logic(LogicExpression::new(
+                first.clone(),
+                second.clone(),
+                LogicType::And,
+                vec![first, second],
+            )));
+            Ok((left_keys, right_keys, combined_predicate))
+        },
+        _ => extract_join_keys(predicate),
+    }
+}
+
 /// Extracts and normalizes join key expressions from a join predicate.
 ///
 /// This function analyzes a join predicate (typically from an ON clause) and:
-- 
2.43.0


From 6256221d61b78af2ce3734529fe345401e2f7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:57 +0000
Subject: [PATCH 60/74] fix: the optimizer keeps the outer of two projections
 and LIMIT 0, and does not lock the catalog twice

---
 src/sql/optimizer/optimizer_impl.rs | 115 +++++++++++-----------------
 1 file changed, 46 insertions(+), 69 deletions(-)

diff --git a/src/sql/optimizer/optimizer_impl.rs b/src/sql/optimizer/optimizer_impl.rs
index 858c6e7..be9b687 100644
--- a/src/sql/optimizer/optimizer_impl.rs
+++ b/src/sql/optimizer/optimizer_impl.rs
@@ -333,20 +333,21 @@ impl Optimizer {
                 self.create_table_constraint_indexes(table_name, schema)?;
             },
             LogicalPlanType::TableScan { table_name, .. } => {
-                // Check if this table needs constraint indexes
-                let catalog = self.catalog.read();
-                if let Some(table_info) = catalog.get_table(table_name) {
-                    let schema = table_info.get_table_schema();
-
-                    // Check if constraint indexes are missing
-                    if self.needs_constraint_indexes(table_name, &schema) {
-                        drop(catalog); // Release read lock
-                        info!(
-                            "Creating missing constraint indexes for table '{}'",
-                            table_name
-                        );
-                        self.create_table_constraint_indexes(table_name, &schema)?;
-                    }
+                // Check if this table needs constraint indexes. The catalog is not
+                // kept locked: it is locked again below.
+                let schema = self
+                    .catalog
+                    .read()
+                    .get_table(table_name)
+                    .map(|table_info| table_info.get_table_schema());
+                if let Some(schema) = schema
+                    && self.needs_constraint_indexes(table_name, &schema)
+                {
+                    info!(
+                        "Creating missing constraint indexes for table '{}'",
+                        table_name
+                    );
+                    self.create_table_constraint_indexes(table_name, &schema)?;
                 }
             },
             _ => {},
@@ -819,13 +820,13 @@ impl Optimizer {
             },
             LogicalPlanType::Projection {
                 expressions,
-                schema: _,
+                schema,
                 column_mappings: _,
             } => {
                 // Combine consecutive projections
                 if let Some(child) = plan.children.pop() {
-                    if let LogicalPlanType::Projection { .. } = child.plan_type {
-                        return self.merge_projections(expressions.clone(), child);
+                    if let Some(merged) = self.merge_projections(expressions, schema, &child) {
+                        return self.apply_rewrite_rules(merged);
                     }
                     plan.children = vec![self.apply_rewrite_rules(child)?];
                     Ok(plan)
@@ -925,7 +926,9 @@ impl Optimizer {
             } => {
                 if let Some(child) = plan.children.pop() {
                     // Look for opportunities to use TopN instead of Sort
-                    if let LogicalPlanType::Limit { limit, .. } = child.plan_type {
+                    if let LogicalPlanType::Limit { limit, .. } = child.plan_type
+                        && limit > 0
+                    {
                         return Ok(Box::new(LogicalPlan::new(
                             LogicalPlanType::TopN {
                                 k: limit,
@@ -1072,67 +1075,41 @@ impl Optimizer {
 
     /// Attempts to merge consecutive projection nodes.
     ///
-    /// When two projections are stacked, this method tries to combine them
-    /// into a single projection by rewriting the outer expressions in terms
-    /// of the inner ones.
+    /// When two projections are stacked and the outer one only selects columns
+    /// of the inner one, they are combined into a single projection of the
+    /// selected inner expressions.
     ///
     /// # Arguments
     ///
     /// * `expressions` - Expressions from the outer projection
+    /// * `schema` - Output schema of the outer projection
     /// * `child` - The child plan (potentially another projection)
     ///
     /// # Returns
     ///
-    /// A merged projection or the original structure if merging isn't beneficial.
-    ///
-    /// # Note
-    ///
-    /// Full projection merging logic is TODO - currently returns the child as-is
-    /// if it's a projection.
+    /// The merged projection, or `None` if both nodes have to be kept.
     fn merge_projections(
         &self,
-        expressions: Vec<Arc<Expression>>,
-        child: Box<LogicalPlan>,
-    ) -> Result<Box<LogicalPlan>, DBError> {
-        if let LogicalPlanType::Projection { .. } = child.clone().plan_type {
-            // TODO: Implement projection merging logic
-            // This would involve rewriting the outer expressions in terms of the inner ones
-            Ok(child)
-        } else {
-            // Calculate column mappings
-            let input_schema = child.get_schema().unwrap();
-            let mut column_mappings = Vec::with_capacity(expressions.len());
-
-            for expr in &expressions {
-                if let Expression::ColumnRef(col_ref) = expr.as_ref() {
-                    let col_name = col_ref.get_return_type().get_name();
-
-                    // Try to find the column in the input schema
-                    let input_idx = input_schema
-                        .get_columns()
-                        .iter()
-                        .position(|c| c.get_name() == col_name)
-                        .unwrap_or(0); // Default to first column if not found
-
-                    column_mappings.push(input_idx);
-                } else {
-                    // For non-column references, use a placeholder mapping
-                    column_mappings.push(0);
-                }
-            }
-
-            // TODO: Compute correct schema
-            let output_schema = Schema::new(vec![]);
-
-            Ok(Box::new(LogicalPlan::new(
-                LogicalPlanType::Projection {
-                    expressions,
-                    schema: output_schema,
-                    column_mappings,
-                },
-                vec![child],
-            )))
-        }
+        expressions: &[Arc<Expression>],
+        schema: &Schema,
+        child: &LogicalPlan,
+    ) -> Option<Box<LogicalPlan>> {
+        let LogicalPlanType::Projection {
+            expressions: inner, ..
+        } = &child.plan_type
+        else {
+            return None;
+        };
+        let input = child.children.first()?;
+        let merged = expressions
+            .iter()
+            .map(|expr| match expr.as_ref() {
+                Expression::ColumnRef(col_ref) => inner.get(col_ref.get_column_index()).cloned(),
+                _ => None,
+            })
+            .collect::<Option<Vec<_>>>()?;
+        input.get_schema()?;
+        Some(LogicalPlan::project(merged, schema.clone(), input.clone()))
     }
 
     /// Determines whether to convert a nested loop join to a hash join.
-- 
2.43.0


From a3dc7641bbd029670305327d3f261149f83d09be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:20 +0000
Subject: [PATCH 61/74] fix: a statement changes a row only in the version it
 read

---
 .../execution/executors/delete_executor.rs    |  4 +-
 .../execution/executors/update_executor.rs    |  6 +-
 src/storage/table/transactional_table_heap.rs | 64 +++++++++++++++++++
 3 files changed, 69 insertions(+), 5 deletions(-)

diff --git a/src/sql/execution/executors/delete_executor.rs b/src/sql/execution/executors/delete_executor.rs
index 59644e8..77ad94e 100644
--- a/src/sql/execution/executors/delete_executor.rs
+++ b/src/sql/execution/executors/delete_executor.rs
@@ -299,11 +299,11 @@ impl AbstractExecutor for DeleteExecutor {
 
         // Process all tuples from child executor (scan/filter)
         if let Some(ref mut child) = self.child_executor {
-            while let Some((_tuple, rid)) = child.next()? {
+            while let Some((tuple, rid)) = child.next()? {
                 debug!("Processing tuple for deletion with RID {:?}", rid);
 
                 // Delete the tuple from the table
-                match transactional_table_heap.delete_tuple(rid, txn_context.clone()) {
+                match transactional_table_heap.delete_tuple_from(&tuple, rid, txn_context.clone()) {
                     Ok(_) => {
                         delete_count += 1;
                         trace!(
diff --git a/src/sql/execution/executors/update_executor.rs b/src/sql/execution/executors/update_executor.rs
index b93b1ee..79f9eaa 100644
--- a/src/sql/execution/executors/update_executor.rs
+++ b/src/sql/execution/executors/update_executor.rs
@@ -12,7 +12,7 @@ use crate::sql::execution::executors::abstract_executor::AbstractExecutor;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::sql::execution::plans::abstract_plan::AbstractPlanNode;
 use crate::sql::execution::plans::update_plan::UpdateNode;
-use crate::storage::table::tuple::{Tuple, TupleMeta};
+use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
 use crate::types_db::value::Value;
 
@@ -156,8 +156,8 @@ impl AbstractExecutor for UpdateExecutor {
                 let updated_tuple = Tuple::new(&updated_values, &schema, rid);
 
                 // Update the tuple in the table
-                match transactional_table_heap.update_tuple(
-                    &TupleMeta::new(0),
+                match transactional_table_heap.update_tuple_from(
+                    &tuple,
                     &updated_tuple,
                     rid,
                     txn_context.clone(),
diff --git a/src/storage/table/transactional_table_heap.rs b/src/storage/table/transactional_table_heap.rs
index 3641439..6abbd05 100644
--- a/src/storage/table/transactional_table_heap.rs
+++ b/src/storage/table/transactional_table_heap.rs
@@ -489,6 +489,28 @@ impl TransactionalTableHeap {
         tuple: &Tuple,
         rid: RID,
         txn_ctx: Arc<TransactionContext>,
+    ) -> Result<RID, String> {
+        self.update_tuple_seen(None, tuple, rid, txn_ctx)
+    }
+
+    /// Replaces the tuple at `rid`, which the new version was computed from, if it
+    /// still is the current one.
+    pub fn update_tuple_from(
+        &self,
+        seen: &Tuple,
+        tuple: &Tuple,
+        rid: RID,
+        txn_ctx: Arc<TransactionContext>,
+    ) -> Result<RID, String> {
+        self.update_tuple_seen(Some(seen), tuple, rid, txn_ctx)
+    }
+
+    fn update_tuple_seen(
+        &self,
+        seen: Option<&Tuple>,
+        tuple: &Tuple,
+        rid: RID,
+        txn_ctx: Arc<TransactionContext>,
     ) -> Result<RID, String> {
         let txn = txn_ctx.get_transaction();
 
@@ -505,6 +527,7 @@ impl TransactionalTableHeap {
 
         // Visibility checks
         Self::check_write_conflict(&txn, &current_meta, "update")?;
+        Self::check_unchanged(seen, &current_tuple, "update")?;
 
         // Create undo log with link to current version
         let txn_manager = txn_ctx.get_transaction_manager();
@@ -591,6 +614,26 @@ impl TransactionalTableHeap {
         result
     }
 
+    /// A statement that read a row changes or deletes that version of it: another
+    /// transaction may have committed a new one in between.
+    fn check_unchanged(seen: Option<&Tuple>, current: &Tuple, verb: &str) -> Result<(), String> {
+        let Some(seen) = seen else { return Ok(()) };
+        let (seen, current) = (seen.get_values(), current.get_values());
+        let unchanged = seen.len() == current.len()
+            && seen
+                .iter()
+                .zip(current.iter())
+                .all(|(a, b)| a.sort_cmp(b) == std::cmp::Ordering::Equal);
+        if unchanged {
+            Ok(())
+        } else {
+            Err(format!(
+                "Cannot {} tuple changed by a concurrent transaction",
+                verb
+            ))
+        }
+    }
+
     /// Whether `txn` may replace the version of `meta`: nobody else is changing
     /// it, and under the snapshot levels nobody changed it since the snapshot.
     fn check_write_conflict(txn: &Transaction, meta: &TupleMeta, verb: &str) -> Result<(), String> {
@@ -767,6 +810,26 @@ impl TransactionalTableHeap {
 
     /// Deletes a tuple at the given RID by marking it as deleted
     pub fn delete_tuple(&self, rid: RID, txn_ctx: Arc<TransactionContext>) -> Result<(), String> {
+        self.delete_tuple_seen(None, rid, txn_ctx)
+    }
+
+    /// Deletes the tuple at `rid`, which was chosen by its values, if it still is
+    /// the current one.
+    pub fn delete_tuple_from(
+        &self,
+        seen: &Tuple,
+        rid: RID,
+        txn_ctx: Arc<TransactionContext>,
+    ) -> Result<(), String> {
+        self.delete_tuple_seen(Some(seen), rid, txn_ctx)
+    }
+
+    fn delete_tuple_seen(
+        &self,
+        seen: Option<&Tuple>,
+        rid: RID,
+        txn_ctx: Arc<TransactionContext>,
+    ) -> Result<(), String> {
         let txn = txn_ctx.get_transaction();
 
         // Transaction checks
@@ -787,6 +850,7 @@ impl TransactionalTableHeap {
 
         // Visibility checks
         Self::check_write_conflict(&txn, &current_meta, "delete")?;
+        Self::check_unchanged(seen, &current_tuple, "delete")?;
 
         // Create undo log with a link to the current version
         let txn_manager = txn_ctx.get_transaction_manager();
-- 
2.43.0


From af8ffec079d4e0fbfade5b401dd7b972ebe35580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:16 +0000
Subject: [PATCH 62/74] fix: ALL is false if a comparison is false, also after
 one that is NULL

---
 .../execution/expressions/all_expression.rs   | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sql/execution/expressions/all_expression.rs b/src/sql/execution/expressions/all_expression.rs
index ef4ed22..cbf2616 100644
--- a/src/sql/execution/expressions/all_expression.rs
+++ b/src/sql/execution/expressions/all_expression.rs
@@ -65,6 +65,7 @@ impl ExpressionOps for AllExpression {
         }
 
         // Compare left value with ALL right values
+        let mut found_null = false;
         for right_val in right_values {
             let result = match &self.compare_op {
                 BinaryOperator::Eq => left_val.compare_equals(right_val),
@@ -85,14 +86,17 @@ impl ExpressionOps for AllExpression {
             if matches!(result, crate::types_db::types::CmpBool::CmpFalse) {
                 return Ok(Value::new(false));
             }
-            // If any comparison is null and we haven't found a false yet,
-            // the result might be null
+            // If any comparison is null, the result is null unless a later
+            // comparison is false
             if matches!(result, crate::types_db::types::CmpBool::CmpNull) {
-                return Ok(Value::new(crate::types_db::value::Val::Null));
+                found_null = true;
             }
         }
 
-        // If we get here, all comparisons were true
+        // If we get here, no comparison was false
+        if found_null {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
         Ok(Value::new(true))
     }
 
@@ -129,6 +133,7 @@ impl ExpressionOps for AllExpression {
         }
 
         // Compare left value with ALL right values
+        let mut found_null = false;
         for right_val in right_values {
             let result = match &self.compare_op {
                 BinaryOperator::Eq => left_val.compare_equals(right_val),
@@ -149,14 +154,17 @@ impl ExpressionOps for AllExpression {
             if matches!(result, crate::types_db::types::CmpBool::CmpFalse) {
                 return Ok(Value::new(false));
             }
-            // If any comparison is null and we haven't found a false yet,
-            // the result might be null
+            // If any comparison is null, the result is null unless a later
+            // comparison is false
             if matches!(result, crate::types_db::types::CmpBool::CmpNull) {
-                return Ok(Value::new(crate::types_db::value::Val::Null));
+                found_null = true;
             }
         }
 
-        // If we get here, all comparisons were true
+        // If we get here, no comparison was false
+        if found_null {
+            return Ok(Value::new(crate::types_db::value::Val::Null));
+        }
         Ok(Value::new(true))
     }
 
-- 
2.43.0


From 3deb3b81b3e91c1986f5620509423b545fee2c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:16 +0000
Subject: [PATCH 63/74] fix: array indexes of all integer types are checked in
 full

---
 .../expressions/subscript_expression.rs       | 339 ++----------------
 1 file changed, 35 insertions(+), 304 deletions(-)

diff --git a/src/sql/execution/expressions/subscript_expression.rs b/src/sql/execution/expressions/subscript_expression.rs
index f5d0357..a63b47b 100644
--- a/src/sql/execution/expressions/subscript_expression.rs
+++ b/src/sql/execution/expressions/subscript_expression.rs
@@ -27,6 +27,35 @@ pub struct SubscriptExpression {
     children: Vec<Arc<Expression>>,
 }
 
+/// The integer an index expression evaluated to.
+fn index_value(value: &Value, error: &str) -> Result<i64, ExpressionError> {
+    match value.get_val() {
+        Val::TinyInt(i) => Ok(*i as i64),
+        Val::SmallInt(i) => Ok(*i as i64),
+        Val::Integer(i) => Ok(*i as i64),
+        Val::BigInt(i) => Ok(*i),
+        _ => Err(ExpressionError::InvalidType(error.to_string())),
+    }
+}
+
+/// The position of an element; negative indexes count from the end.
+fn element_index(value: &Value, len: usize) -> Result<usize, ExpressionError> {
+    let i = index_value(value, "Array index must be an integer")?;
+    let position = if i < 0 { i + len as i64 } else { i };
+    usize::try_from(position).map_err(|_| ExpressionError::IndexOutOfBounds {
+        idx: i as usize,
+        size: len,
+    })
+}
+
+/// A bound of a range; negative indexes count from the end, down to the first
+/// element.
+fn range_bound(value: &Value, len: usize, name: &str) -> Result<usize, ExpressionError> {
+    let i = index_value(value, &format!("Range {} index must be an integer", name))?;
+    let position = if i < 0 { i + len as i64 } else { i };
+    Ok(usize::try_from(position).unwrap_or(0))
+}
+
 impl SubscriptExpression {
     pub fn new(expr: Arc<Expression>, subscript: Subscript, return_type: Column) -> Self {
         let mut children = vec![expr.clone()];
@@ -74,76 +103,7 @@ impl ExpressionOps for SubscriptExpression {
                 let idx_val = idx.evaluate(tuple, schema)?;
 
                 // Convert index to usize
-                let index = match idx_val.get_val() {
-                    Val::TinyInt(i) => {
-                        let i = *i as i32;
-                        if i < 0 {
-                            let len = vec.len() as i32;
-                            // Handle negative indices (counting from end)
-                            if -i > len {
-                                return Err(ExpressionError::IndexOutOfBounds {
-                                    idx: i as usize,
-                                    size: len as usize,
-                                });
-                            }
-                            (len + i) as usize
-                        } else {
-                            i as usize
-                        }
-                    },
-                    Val::SmallInt(i) => {
-                        let i = *i as i32;
-                        if i < 0 {
-                            let len = vec.len() as i32;
-                            // Handle negative indices (counting from end)
-                            if -i > len {
-                                return Err(ExpressionError::IndexOutOfBounds {
-                                    idx: i as usize,
-                                    size: len as usize,
-                                });
-                            }
-                            (len + i) as usize
-                        } else {
-                            i as usize
-                        }
-                    },
-                    Val::Integer(i) => {
-                        if *i < 0 {
-                            let len = vec.len() as i32;
-                            // Handle negative indices (counting from end)
-                            if -i > len {
-                                return Err(ExpressionError::IndexOutOfBounds {
-                                    idx: *i as usize,
-                                    size: len as usize,
-                                });
-                            }
-                            (len + i) as usize
-                        } else {
-                            *i as usize
-                        }
-                    },
-                    Val::BigInt(i) => {
-                        let i = *i as i32;
-                        if i < 0 {
-                            let len = vec.len() as i32;
-                            // Handle negative indices (counting from end)
-                            if -i > len {
-                                return Err(ExpressionError::IndexOutOfBounds {
-                                    idx: i as usize,
-                                    size: len as usize,
-                                });
-                            }
-                            (len + i) as usize
-                        } else {
-                            i as usize
-                        }
-                    },
-                    _ => {
-                        return Err(ExpressionError::InvalidType(
-                            "Array index must be an integer".to_string(),
-                        ));
-                    },
-                };
+                let index = element_index(&idx_val, vec.len())?;
 
                 // Check bounds
                 if index >= vec.len() {
@@ -160,48 +120,7 @@ impl ExpressionOps for SubscriptExpression {
                 let start_idx = match start {
                     Some(start_expr) => {
                         let start_val = start_expr.evaluate(tuple, schema)?;
-                        match start_val.get_val() {
-                            Val::TinyInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            Val::SmallInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            Val::Integer(i) => {
-                                if *i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    *i as usize
-                                }
-                            },
-                            Val::BigInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            _ => {
-                                return Err(ExpressionError::InvalidType(
-                                    "Range start index must be an integer".to_string(),
-                                ));
-                            },
-                        }
+                        range_bound(&start_val, vec.len(), "start")?
                     },
                     None => 0,
                 };
@@ -209,48 +128,7 @@ impl ExpressionOps for SubscriptExpression {
                 let end_idx = match end {
                     Some(end_expr) => {
                         let end_val = end_expr.evaluate(tuple, schema)?;
-                        match end_val.get_val() {
-                            Val::TinyInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            Val::SmallInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            Val::Integer(i) => {
-                                if *i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    *i as usize
-                                }
-                            },
-                            Val::BigInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            _ => {
-                                return Err(ExpressionError::InvalidType(
-                                    "Range end index must be an integer".to_string(),
-                                ));
-                            },
-                        }
+                        range_bound(&end_val, vec.len(), "end")?
                     },
                     None => vec.len(),
                 };
@@ -295,72 +173,7 @@ impl ExpressionOps for SubscriptExpression {
                     idx.evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
                 // Convert index to usize
-                let index = match idx_val.get_val() {
-                    Val::TinyInt(i) => {
-                        let i = *i as i32;
-                        if i < 0 {
-                            let len = vec.len() as i32;
-                            if -i > len {
-                                return Err(ExpressionError::IndexOutOfBounds {
-                                    idx: i as usize,
-                                    size: len as usize,
-                                });
-                            }
-                            (len + i) as usize
-                        } else {
-                            i as usize
-                        }
-                    },
-                    Val::SmallInt(i) => {
-                        let i = *i as i32;
-                        if i < 0 {
-                            let len = vec.len() as i32;
-                            if -i > len {
-                                return Err(ExpressionError::IndexOutOfBounds {
-                                    idx: i as usize,
-                                    size: len as usize,
-                                });
-                            }
-                            (len + i) as usize
-                        } else {
-                            i as usize
-                        }
-                    },
-                    Val::Integer(i) => {
-                        if *i < 0 {
-                            let len = vec.len() as i32;
-                            if -i > len {
-                                return Err(ExpressionError::IndexOutOfBounds {
-                                    idx: *i as usize,
-                                    size: len as usize,
-                                });
-                            }
-                            (len + i) as usize
-                        } else {
-                            *i as usize
-                        }
-                    },
-                    Val::BigInt(i) => {
-                        let i = *i as i32;
-                        if i < 0 {
-                            let len = vec.len() as i32;
-                            if -i > len {
-                                return Err(ExpressionError::IndexOutOfBounds {
-                                    idx: i as usize,
-                                    size: len as usize,
-                                });
-                            }
-                            (len + i) as usize
-                        } else {
-                            i as usize
-                        }
-                    },
-                    _ => {
-                        return Err(ExpressionError::InvalidType(
-                            "Array index must be an integer".to_string(),
-                        ));
-                    },
-                };
+                let index = element_index(&idx_val, vec.len())?;
 
                 if index >= vec.len() {
                     return Err(ExpressionError::IndexOutOfBounds {
@@ -382,48 +195,7 @@ impl ExpressionOps for SubscriptExpression {
                             right_tuple,
                             right_schema,
                         )?;
-                        match start_val.get_val() {
-                            Val::TinyInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            Val::SmallInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            Val::Integer(i) => {
-                                if *i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    *i as usize
-                                }
-                            },
-                            Val::BigInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            _ => {
-                                return Err(ExpressionError::InvalidType(
-                                    "Range start index must be an integer".to_string(),
-                                ));
-                            },
-                        }
+                        range_bound(&start_val, vec.len(), "start")?
                     },
                     None => 0,
                 };
@@ -436,48 +208,7 @@ impl ExpressionOps for SubscriptExpression {
                             right_tuple,
                             right_schema,
                         )?;
-                        match end_val.get_val() {
-                            Val::TinyInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            Val::SmallInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            Val::Integer(i) => {
-                                if *i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    *i as usize
-                                }
-                            },
-                            Val::BigInt(i) => {
-                                let i = *i as i32;
-                                if i < 0 {
-                                    let len = vec.len() as i32;
-                                    if -i > len { 0 } else { (len + i) as usize }
-                                } else {
-                                    i as usize
-                                }
-                            },
-                            _ => {
-                                return Err(ExpressionError::InvalidType(
-                                    "Range end index must be an integer".to_string(),
-                                ));
-                            },
-                        }
+                        range_bound(&end_val, vec.len(), "end")?
                     },
                     None => vec.len(),
                 };
-- 
2.43.0


From f3e0624e29eaa1f8abce91982bba7a2f918ea654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:10 +0000
Subject: [PATCH 64/74] fix: an epoch that does not fit an integer is an error

---
 src/sql/execution/expressions/datetime_expression.rs | 3 ++-
 src/sql/execution/expressions/extract_expression.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sql/execution/expressions/datetime_expression.rs b/src/sql/execution/expressions/datetime_expression.rs
index 69852f1..a17a27b 100644
--- a/src/sql/execution/expressions/datetime_expression.rs
+++ b/src/sql/execution/expressions/datetime_expression.rs
@@ -257,7 +257,8 @@ impl DateTimeExpression {
             DateTimeField::IsoWeek => Ok(timestamp.iso_week().week() as i32),
             DateTimeField::Isoyear => Ok(timestamp.iso_week().year()),
             DateTimeField::Isodow => Ok(timestamp.weekday().number_from_monday() as i32),
-            DateTimeField::Epoch => Ok(timestamp.timestamp() as i32),
+            DateTimeField::Epoch => i32::try_from(timestamp.timestamp())
+                .map_err(|_| ExpressionError::InvalidOperation("Epoch out of range".to_string())),
             DateTimeField::Millisecond | DateTimeField::Milliseconds => {
                 Ok((timestamp.timestamp_subsec_millis() % 1000) as i32)
             },
diff --git a/src/sql/execution/expressions/extract_expression.rs b/src/sql/execution/expressions/extract_expression.rs
index 3f24003..88b5266 100644
--- a/src/sql/execution/expressions/extract_expression.rs
+++ b/src/sql/execution/expressions/extract_expression.rs
@@ -65,7 +65,8 @@ impl ExtractExpression {
             ExtractField::Week => timestamp.iso_week().week() as i32,
             ExtractField::DayOfWeek => timestamp.weekday().num_days_from_monday() as i32 + 1,
             ExtractField::DayOfYear => timestamp.ordinal() as i32,
-            ExtractField::Epoch => timestamp.and_utc().timestamp() as i32,
+            ExtractField::Epoch => i32::try_from(timestamp.and_utc().timestamp())
+                .map_err(|_| ExpressionError::InvalidOperation("Epoch out of range".to_string()))?,
             ExtractField::Timezone => {
                 return Err(ExpressionError::InvalidOperation(
                     "Timezone extraction not supported".to_string(),
-- 
2.43.0


From 566e56aa2e366625a1eb8d0d596a628b02fa2893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:11 +0000
Subject: [PATCH 65/74] fix: DATE_TRUNC to years, quarters, decades and
 centuries starts at their first day

---
 .../expressions/datetime_expression.rs        | 51 ++++---------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/src/sql/execution/expressions/datetime_expression.rs b/src/sql/execution/expressions/datetime_expression.rs
index a17a27b..7f993b7 100644
--- a/src/sql/execution/expressions/datetime_expression.rs
+++ b/src/sql/execution/expressions/datetime_expression.rs
@@ -3,7 +3,7 @@ use std::fmt::{Display, Formatter};
 use std::ops::Sub;
 use std::sync::Arc;
 
-use chrono::{DateTime, Datelike, TimeZone, Timelike, Utc};
+use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, TimeZone, Timelike, Utc};
 use regex::Regex;
 
 use crate::catalog::column::Column;
@@ -146,6 +146,12 @@ impl DateTimeExpression {
         }
     }
 
+    fn first_day(year: i32, month: u32) -> Result<NaiveDateTime, ExpressionError> {
+        NaiveDate::from_ymd_opt(year, month, 1)
+            .and_then(|date| date.and_hms_opt(0, 0, 0))
+            .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))
+    }
+
     fn evaluate_date_trunc(
         &self,
         part: &DateTimeField,
@@ -153,10 +159,7 @@ impl DateTimeExpression {
     ) -> Result<DateTime<Utc>, ExpressionError> {
         let naive = timestamp.naive_utc();
         let truncated = match part {
-            DateTimeField::Year => naive
-                .date()
-                .and_hms_opt(0, 0, 0)
-                .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?,
+            DateTimeField::Year => Self::first_day(naive.year(), 1)?,
             DateTimeField::Month => {
                 let date = naive
                     .date()
@@ -166,15 +169,7 @@ impl DateTimeExpression {
                     .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?
             },
             DateTimeField::Quarter => {
-                let month = (naive.month() - 1) / 3 * 3 + 1;
-                naive
-                    .date()
-                    .with_month(month)
-                    .unwrap()
-                    .with_day(1)
-                    .unwrap()
-                    .and_hms_opt(0, 0, 0)
-                    .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?
+                Self::first_day(naive.year(), (naive.month() - 1) / 3 * 3 + 1)?
             },
             DateTimeField::Day => naive
                 .date()
@@ -188,32 +183,8 @@ impl DateTimeExpression {
                 .date()
                 .and_hms_opt(naive.hour(), naive.minute(), 0)
                 .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?,
-            DateTimeField::Century => {
-                let year = (naive.year() / 100) * 100;
-                naive
-                    .date()
-                    .with_year(year)
-                    .unwrap()
-                    .with_month(1)
-                    .unwrap()
-                    .with_day(1)
-                    .unwrap()
-                    .and_hms_opt(0, 0, 0)
-                    .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?
-            },
-            DateTimeField::Decade => {
-                let year = (naive.year() / 10) * 10;
-                naive
-                    .date()
-                    .with_year(year)
-                    .unwrap()
-                    .with_month(1)
-                    .unwrap()
-                    .with_day(1)
-                    .unwrap()
-                    .and_hms_opt(0, 0, 0)
-                    .ok_or_else(|| ExpressionError::InvalidOperation("Invalid date".to_string()))?
-            },
+            DateTimeField::Century => Self::first_day((naive.year() / 100) * 100, 1)?,
+            DateTimeField::Decade => Self::first_day((naive.year() / 10) * 10, 1)?,
             DateTimeField::Week(Some(_)) => {
                 let weekday = naive.weekday().num_days_from_monday();
                 naive
-- 
2.43.0


From 6d7a631fbb594a7104d9d43c62140e5f24783727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:11 +0000
Subject: [PATCH 66/74] fix: MAKE_TIME gives a time, and a NULL component is an
 error

---
 .../expressions/datetime_expression.rs        | 40 ++++++++++---------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/sql/execution/expressions/datetime_expression.rs b/src/sql/execution/expressions/datetime_expression.rs
index 7f993b7..f9fbc39 100644
--- a/src/sql/execution/expressions/datetime_expression.rs
+++ b/src/sql/execution/expressions/datetime_expression.rs
@@ -3,7 +3,7 @@ use std::fmt::{Display, Formatter};
 use std::ops::Sub;
 use std::sync::Arc;
 
-use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, TimeZone, Timelike, Utc};
+use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, NaiveTime, TimeZone, Timelike, Utc};
 use regex::Regex;
 
 use crate::catalog::column::Column;
@@ -246,6 +246,12 @@ impl DateTimeExpression {
         }
     }
 
+    fn integer_arg(value: &Value) -> Result<i32, ExpressionError> {
+        value.as_integer().map_err(|_| {
+            ExpressionError::InvalidOperation("Expected integer date component".to_string())
+        })
+    }
+
     fn evaluate_make_date(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
         if self.args.len() != 3 {
             return Err(ExpressionError::InvalidOperation(
@@ -253,9 +259,9 @@ impl DateTimeExpression {
             ));
         }
 
-        let year = self.args[0].evaluate(tuple, schema)?.as_integer().unwrap();
-        let month = self.args[1].evaluate(tuple, schema)?.as_integer().unwrap();
-        let day = self.args[2].evaluate(tuple, schema)?.as_integer().unwrap();
+        let year = Self::integer_arg(&self.args[0].evaluate(tuple, schema)?)?;
+        let month = Self::integer_arg(&self.args[1].evaluate(tuple, schema)?)?;
+        let day = Self::integer_arg(&self.args[2].evaluate(tuple, schema)?)?;
 
         let date = Utc
             .with_ymd_and_hms(year, month as u32, day as u32, 0, 0, 0)
@@ -274,18 +280,16 @@ impl DateTimeExpression {
             ));
         }
 
-        let hour = self.args[0].evaluate(tuple, schema)?.as_integer().unwrap();
-        let min = self.args[1].evaluate(tuple, schema)?.as_integer().unwrap();
-        let sec = self.args[2].evaluate(tuple, schema)?.as_integer().unwrap();
+        let hour = Self::integer_arg(&self.args[0].evaluate(tuple, schema)?)?;
+        let min = Self::integer_arg(&self.args[1].evaluate(tuple, schema)?)?;
+        let sec = Self::integer_arg(&self.args[2].evaluate(tuple, schema)?)?;
 
-        let time = Utc
-            .with_ymd_and_hms(0, 0, 0, hour as u32, min as u32, sec as u32)
-            .earliest()
-            .ok_or_else(|| {
+        let time =
+            NaiveTime::from_hms_opt(hour as u32, min as u32, sec as u32).ok_or_else(|| {
                 ExpressionError::InvalidOperation("Invalid time components".to_string())
             })?;
 
-        Ok(Value::new(Self::format_datetime_utc(time)))
+        Ok(Value::new(time.format("%H:%M:%S").to_string()))
     }
 
     fn evaluate_make_timestamp(
@@ -300,12 +304,12 @@ impl DateTimeExpression {
             ));
         }
 
-        let year = self.args[0].evaluate(tuple, schema)?.as_integer().unwrap();
-        let month = self.args[1].evaluate(tuple, schema)?.as_integer().unwrap();
-        let day = self.args[2].evaluate(tuple, schema)?.as_integer().unwrap();
-        let hour = self.args[3].evaluate(tuple, schema)?.as_integer().unwrap();
-        let min = self.args[4].evaluate(tuple, schema)?.as_integer().unwrap();
-        let sec = self.args[5].evaluate(tuple, schema)?.as_integer().unwrap();
+        let year = Self::integer_arg(&self.args[0].evaluate(tuple, schema)?)?;
+        let month = Self::integer_arg(&self.args[1].evaluate(tuple, schema)?)?;
+        let day = Self::integer_arg(&self.args[2].evaluate(tuple, schema)?)?;
+        let hour = Self::integer_arg(&self.args[3].evaluate(tuple, schema)?)?;
+        let min = Self::integer_arg(&self.args[4].evaluate(tuple, schema)?)?;
+        let sec = Self::integer_arg(&self.args[5].evaluate(tuple, schema)?)?;
 
         let timestamp = Utc
             .with_ymd_and_hms(
-- 
2.43.0


From cf6c24d683065f0ca62c1578c606099722a57e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:11 +0000
Subject: [PATCH 67/74] fix: intervals and timestamps out of range are errors

---
 .../expressions/datetime_expression.rs        | 56 +++++++++----------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/sql/execution/expressions/datetime_expression.rs b/src/sql/execution/expressions/datetime_expression.rs
index f9fbc39..828d16b 100644
--- a/src/sql/execution/expressions/datetime_expression.rs
+++ b/src/sql/execution/expressions/datetime_expression.rs
@@ -107,37 +107,25 @@ impl DateTimeExpression {
         .map_err(|_| "Failed to compile regex".to_string())?;
 
         if let Some(captures) = re.captures(duration_str) {
-            let years = captures
-                .get(1)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
-            let months = captures
-                .get(2)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
-            let days = captures
-                .get(3)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
-            let hours = captures
-                .get(4)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
-            let minutes = captures
-                .get(5)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
-            let seconds = captures
-                .get(6)
-                .and_then(|m| m.as_str().parse::<i64>().ok())
-                .unwrap_or(0);
+            let field = |i| match captures.get(i) {
+                Some(m) => m.as_str().parse::<i64>().ok(),
+                None => Some(0),
+            };
 
             // Convert to chrono::Duration
             // Note: This is a simplification - months and years are approximated
-            let total_days = years * 365 + months * 30 + days;
-            let total_seconds = hours * 3600 + minutes * 60 + seconds;
-
-            Ok(chrono::Duration::days(total_days) + chrono::Duration::seconds(total_seconds))
+            let total = |parts: [(usize, i64); 3]| {
+                parts.into_iter().try_fold(0i64, |sum, (i, unit)| {
+                    field(i)?
+                        .checked_mul(unit)
+                        .and_then(|part| sum.checked_add(part))
+                })
+            };
+            total([(1, 365), (2, 30), (3, 1)])
+                .and_then(chrono::Duration::try_days)
+                .zip(total([(4, 3600), (5, 60), (6, 1)]).and_then(chrono::Duration::try_seconds))
+                .and_then(|(days, seconds)| days.checked_add(&seconds))
+                .ok_or_else(|| format!("Duration out of range: {}", duration_str))
         } else {
             Err(format!(
                 "Invalid ISO 8601 duration format: {}",
@@ -464,7 +452,9 @@ impl ExpressionOps for DateTimeExpression {
                         })?;
 
                         // Add duration to timestamp
-                        let result = timestamp + duration;
+                        let result = timestamp.checked_add_signed(duration).ok_or_else(|| {
+                            ExpressionError::InvalidOperation("Timestamp out of range".to_string())
+                        })?;
                         Ok(Value::new(Self::format_datetime_utc(result)))
                     },
                     // Interval + Timestamp (for addition)
@@ -502,7 +492,9 @@ impl ExpressionOps for DateTimeExpression {
                         })?;
 
                         // Add duration to timestamp
-                        let result = timestamp + duration;
+                        let result = timestamp.checked_add_signed(duration).ok_or_else(|| {
+                            ExpressionError::InvalidOperation("Timestamp out of range".to_string())
+                        })?;
                         Ok(Value::new(Self::format_datetime_utc(result)))
                     },
                     // Timestamp - Interval (for subtraction)
@@ -540,7 +532,9 @@ impl ExpressionOps for DateTimeExpression {
                         })?;
 
                         // Subtract duration from timestamp
-                        let result = timestamp - duration;
+                        let result = timestamp.checked_sub_signed(duration).ok_or_else(|| {
+                            ExpressionError::InvalidOperation("Timestamp out of range".to_string())
+                        })?;
                         Ok(Value::new(Self::format_datetime_utc(result)))
                     },
                     // Timestamp - Timestamp (only for subtraction)
-- 
2.43.0


From d313cf35a04a926af91b1cf7aaa1969339f71224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:27 +0000
Subject: [PATCH 68/74] fix: date functions take their arguments from both
 sides of a join

---
 .../expressions/datetime_expression.rs        | 220 ++++--------------
 1 file changed, 47 insertions(+), 173 deletions(-)

diff --git a/src/sql/execution/expressions/datetime_expression.rs b/src/sql/execution/expressions/datetime_expression.rs
index 828d16b..f36b0ce 100644
--- a/src/sql/execution/expressions/datetime_expression.rs
+++ b/src/sql/execution/expressions/datetime_expression.rs
@@ -240,16 +240,16 @@ impl DateTimeExpression {
         })
     }
 
-    fn evaluate_make_date(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        if self.args.len() != 3 {
+    fn evaluate_make_date(&self, args: &[Value]) -> Result<Value, ExpressionError> {
+        if args.len() != 3 {
             return Err(ExpressionError::InvalidOperation(
                 "make_date requires year, month, and day arguments".to_string(),
             ));
         }
 
-        let year = Self::integer_arg(&self.args[0].evaluate(tuple, schema)?)?;
-        let month = Self::integer_arg(&self.args[1].evaluate(tuple, schema)?)?;
-        let day = Self::integer_arg(&self.args[2].evaluate(tuple, schema)?)?;
+        let year = Self::integer_arg(&args[0])?;
+        let month = Self::integer_arg(&args[1])?;
+        let day = Self::integer_arg(&args[2])?;
 
         let date = Utc
             .with_ymd_and_hms(year, month as u32, day as u32, 0, 0, 0)
@@ -261,16 +261,16 @@ impl DateTimeExpression {
         Ok(Value::new(Self::format_datetime_utc(date)))
     }
 
-    fn evaluate_make_time(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        if self.args.len() != 3 {
+    fn evaluate_make_time(&self, args: &[Value]) -> Result<Value, ExpressionError> {
+        if args.len() != 3 {
             return Err(ExpressionError::InvalidOperation(
                 "make_time requires hour, minute, and second arguments".to_string(),
             ));
         }
 
-        let hour = Self::integer_arg(&self.args[0].evaluate(tuple, schema)?)?;
-        let min = Self::integer_arg(&self.args[1].evaluate(tuple, schema)?)?;
-        let sec = Self::integer_arg(&self.args[2].evaluate(tuple, schema)?)?;
+        let hour = Self::integer_arg(&args[0])?;
+        let min = Self::integer_arg(&args[1])?;
+        let sec = Self::integer_arg(&args[2])?;
 
         let time =
             NaiveTime::from_hms_opt(hour as u32, min as u32, sec as u32).ok_or_else(|| {
@@ -280,24 +280,20 @@ impl DateTimeExpression {
         Ok(Value::new(time.format("%H:%M:%S").to_string()))
     }
 
-    fn evaluate_make_timestamp(
-        &self,
-        tuple: &Tuple,
-        schema: &Schema,
-    ) -> Result<Value, ExpressionError> {
-        if self.args.len() != 6 {
+    fn evaluate_make_timestamp(&self, args: &[Value]) -> Result<Value, ExpressionError> {
+        if args.len() != 6 {
             return Err(ExpressionError::InvalidOperation(
                 "make_timestamp requires year, month, day, hour, minute, and second arguments"
                     .to_string(),
             ));
         }
 
-        let year = Self::integer_arg(&self.args[0].evaluate(tuple, schema)?)?;
-        let month = Self::integer_arg(&self.args[1].evaluate(tuple, schema)?)?;
-        let day = Self::integer_arg(&self.args[2].evaluate(tuple, schema)?)?;
-        let hour = Self::integer_arg(&self.args[3].evaluate(tuple, schema)?)?;
-        let min = Self::integer_arg(&self.args[4].evaluate(tuple, schema)?)?;
-        let sec = Self::integer_arg(&self.args[5].evaluate(tuple, schema)?)?;
+        let year = Self::integer_arg(&args[0])?;
+        let month = Self::integer_arg(&args[1])?;
+        let day = Self::integer_arg(&args[2])?;
+        let hour = Self::integer_arg(&args[3])?;
+        let min = Self::integer_arg(&args[4])?;
+        let sec = Self::integer_arg(&args[5])?;
 
         let timestamp = Utc
             .with_ymd_and_hms(
@@ -315,20 +311,19 @@ impl DateTimeExpression {
 
         Ok(Value::new(Self::format_datetime_utc(timestamp)))
     }
-}
 
-impl ExpressionOps for DateTimeExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+    /// Applies the operation to the values of its arguments.
+    fn apply(&self, args: &[Value]) -> Result<Value, ExpressionError> {
         match self.operation {
             DateTimeOperation::DateTrunc => {
                 if let Some(part) = &self.part {
-                    if self.args.len() != 1 {
+                    if args.len() != 1 {
                         return Err(ExpressionError::InvalidOperation(
                             "date_trunc requires exactly one argument".to_string(),
                         ));
                     }
 
-                    let timestamp_val = self.args[0].evaluate(tuple, schema)?;
+                    let timestamp_val = &args[0];
                     let timestamp = match timestamp_val.get_val() {
                         Val::VarLen(ts_str) | Val::ConstLen(ts_str) => {
                             DateTime::parse_from_rfc3339(ts_str)
@@ -363,13 +358,13 @@ impl ExpressionOps for DateTimeExpression {
             },
             DateTimeOperation::DatePart => {
                 if let Some(part) = &self.part {
-                    if self.args.len() != 1 {
+                    if args.len() != 1 {
                         return Err(ExpressionError::InvalidOperation(
                             "date_part requires exactly one argument".to_string(),
                         ));
                     }
 
-                    let timestamp_val = self.args[0].evaluate(tuple, schema)?;
+                    let timestamp_val = &args[0];
                     let timestamp = match timestamp_val.get_val() {
                         Val::VarLen(ts_str) | Val::ConstLen(ts_str) => {
                             DateTime::parse_from_rfc3339(ts_str)
@@ -402,19 +397,19 @@ impl ExpressionOps for DateTimeExpression {
                     ))
                 }
             },
-            DateTimeOperation::MakeDate => self.evaluate_make_date(tuple, schema),
-            DateTimeOperation::MakeTime => self.evaluate_make_time(tuple, schema),
-            DateTimeOperation::MakeTimestamp => self.evaluate_make_timestamp(tuple, schema),
+            DateTimeOperation::MakeDate => self.evaluate_make_date(args),
+            DateTimeOperation::MakeTime => self.evaluate_make_time(args),
+            DateTimeOperation::MakeTimestamp => self.evaluate_make_timestamp(args),
             DateTimeOperation::Add | DateTimeOperation::Subtract => {
-                if self.args.len() != 2 {
+                if args.len() != 2 {
                     return Err(ExpressionError::InvalidOperation(format!(
                         "{:?} operation requires exactly two arguments",
                         self.operation
                     )));
                 }
 
-                let left = self.args[0].evaluate(tuple, schema)?;
-                let right = self.args[1].evaluate(tuple, schema)?;
+                let left = &args[0];
+                let right = &args[1];
 
                 match (left.get_val(), right.get_val()) {
                     // Timestamp + Interval (for addition)
@@ -597,6 +592,17 @@ impl ExpressionOps for DateTimeExpression {
             },
         }
     }
+}
+
+impl ExpressionOps for DateTimeExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let args = self
+            .args
+            .iter()
+            .map(|arg| arg.evaluate(tuple, schema))
+            .collect::<Result<Vec<_>, _>>()?;
+        self.apply(&args)
+    }
 
     fn evaluate_join(
         &self,
@@ -605,144 +611,12 @@ impl ExpressionOps for DateTimeExpression {
         right_tuple: &Tuple,
         right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        match self.operation {
-            DateTimeOperation::DateTrunc => {
-                if let Some(part) = &self.part {
-                    if self.args.len() != 1 {
-                        return Err(ExpressionError::InvalidOperation(
-                            "date_trunc requires exactly one argument".to_string(),
-                        ));
-                    }
-
-                    // Check if the argument is a ColumnRefExpression and use the appropriate tuple based on tuple_index
-                    let timestamp_val =
-                        if let Expression::ColumnRef(col_ref) = self.args[0].as_ref() {
-                            if col_ref.get_tuple_index() == 0 {
-                                // Use left tuple
-                                self.args[0].evaluate(left_tuple, left_schema)?
-                            } else {
-                                // Use right tuple
-                                self.args[0].evaluate(right_tuple, right_schema)?
-                            }
-                        } else {
-                            // For non-column expressions, try both tuples
-                            match self.args[0].evaluate(left_tuple, left_schema) {
-                                Ok(val) => val,
-                                Err(_) => self.args[0].evaluate(right_tuple, right_schema)?,
-                            }
-                        };
-
-                    let timestamp = match timestamp_val.get_val() {
-                        Val::VarLen(ts_str) | Val::ConstLen(ts_str) => {
-                            DateTime::parse_from_rfc3339(ts_str)
-                                .map_err(|e| {
-                                    ExpressionError::InvalidOperation(format!(
-                                        "Invalid timestamp format: {}",
-                                        e
-                                    ))
-                                })?
-                                .with_timezone(&Utc)
-                        },
-                        Val::Timestamp(ts) => {
-                            Utc.timestamp_opt(*ts as i64, 0).single().ok_or_else(|| {
-                                ExpressionError::InvalidOperation(
-                                    "Invalid timestamp value".to_string(),
-                                )
-                            })?
-                        },
-                        _ => {
-                            return Err(ExpressionError::InvalidOperation(
-                                "Expected timestamp value".to_string(),
-                            ));
-                        },
-                    };
-                    let result = self.evaluate_date_trunc(part, timestamp)?;
-                    Ok(Value::new(Self::format_datetime_utc(result)))
-                } else {
-                    Err(ExpressionError::InvalidOperation(
-                        "Missing date part for date_trunc".to_string(),
-                    ))
-                }
-            },
-            DateTimeOperation::DatePart => {
-                if let Some(part) = &self.part {
-                    if self.args.len() != 1 {
-                        return Err(ExpressionError::InvalidOperation(
-                            "date_part requires exactly one argument".to_string(),
-                        ));
-                    }
-
-                    // Try to evaluate the argument using both schemas
-                    let timestamp_val = match self.args[0].evaluate(left_tuple, left_schema) {
-                        Ok(val) => val,
-                        Err(_) => self.args[0].evaluate(right_tuple, right_schema)?,
-                    };
-
-                    let timestamp = match timestamp_val.get_val() {
-                        Val::VarLen(ts_str) | Val::ConstLen(ts_str) => {
-                            DateTime::parse_from_rfc3339(ts_str)
-                                .map_err(|e| {
-                                    ExpressionError::InvalidOperation(format!(
-                                        "Invalid timestamp format: {}",
-                                        e
-                                    ))
-                                })?
-                                .with_timezone(&Utc)
-                        },
-                        Val::Timestamp(ts) => {
-                            Utc.timestamp_opt(*ts as i64, 0).single().ok_or_else(|| {
-                                ExpressionError::InvalidOperation(
-                                    "Invalid timestamp value".to_string(),
-                                )
-                            })?
-                        },
-                        _ => {
-                            return Err(ExpressionError::InvalidOperation(
-                                "Expected timestamp value".to_string(),
-                            ));
-                        },
-                    };
-                    let result = self.evaluate_date_part(part, timestamp)?;
-                    Ok(Value::new(result))
-                } else {
-                    Err(ExpressionError::InvalidOperation(
-                        "Missing date part for date_part".to_string(),
-                    ))
-                }
-            },
-            DateTimeOperation::MakeDate
-            | DateTimeOperation::MakeTime
-            | DateTimeOperation::MakeTimestamp
-            | DateTimeOperation::Add
-            | DateTimeOperation::Subtract => {
-                if self.args.len() != 2 {
-                    return Err(ExpressionError::InvalidOperation(format!(
-                        "{:?} operation requires exactly two arguments",
-                        self.operation
-                    )));
-                }
-
-                // Try to evaluate each argument using both schemas
-                let left = match self.args[0].evaluate(left_tuple, left_schema) {
-                    Ok(val) => val,
-                    Err(_) => self.args[0].evaluate(right_tuple, right_schema)?,
-                };
-
-                let right = match self.args[1].evaluate(left_tuple, left_schema) {
-                    Ok(val) => val,
-                    Err(_) => self.args[1].evaluate(right_tuple, right_schema)?,
-                };
-
-                // Create a dummy tuple with the evaluated arguments
-                let dummy_tuple = Tuple::new(&[], &Schema::new(vec![]), RID::new(0, 0));
-                let mut values = dummy_tuple.get_values();
-                values.push(left);
-                values.push(right);
-
-                // Use the regular evaluate method with the dummy tuple
-                self.evaluate(&dummy_tuple, &Schema::new(vec![]))
-            },
-        }
+        let args = self
+            .args
+            .iter()
+            .map(|arg| arg.evaluate_join(left_tuple, left_schema, right_tuple, right_schema))
+            .collect::<Result<Vec<_>, _>>()?;
+        self.apply(&args)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 8214a1d875d349fe8a8215bd22f110f6112a1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:27 +0000
Subject: [PATCH 69/74] fix: EXTRACT takes timestamps

---
 .../expressions/extract_expression.rs         | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/sql/execution/expressions/extract_expression.rs b/src/sql/execution/expressions/extract_expression.rs
index 88b5266..8767b7e 100644
--- a/src/sql/execution/expressions/extract_expression.rs
+++ b/src/sql/execution/expressions/extract_expression.rs
@@ -2,7 +2,7 @@ use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::sync::Arc;
 
-use chrono::{Datelike, NaiveDateTime, Timelike};
+use chrono::{DateTime, Datelike, NaiveDateTime, Timelike};
 
 use crate::catalog::column::Column;
 use crate::catalog::schema::Schema;
@@ -10,7 +10,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub enum ExtractField {
@@ -46,12 +46,21 @@ impl ExtractExpression {
         }
     }
 
-    fn extract_from_timestamp(&self, timestamp_str: &str) -> Result<i32, ExpressionError> {
-        // Parse the timestamp string into a NaiveDateTime
-        let timestamp =
-            NaiveDateTime::parse_from_str(timestamp_str, "%Y-%m-%d %H:%M:%S").map_err(|e| {
-                ExpressionError::InvalidOperation(format!("Failed to parse timestamp: {}", e))
-            })?;
+    fn extract_from_timestamp(&self, value: &Value) -> Result<i32, ExpressionError> {
+        let timestamp = match value.get_val() {
+            // Seconds since the epoch
+            Val::Timestamp(ts) => i64::try_from(*ts)
+                .ok()
+                .and_then(|ts| DateTime::from_timestamp(ts, 0))
+                .map(|ts| ts.naive_utc())
+                .ok_or_else(|| {
+                    ExpressionError::InvalidOperation("Invalid timestamp value".to_string())
+                })?,
+            // Parse the timestamp string into a NaiveDateTime
+            _ => NaiveDateTime::parse_from_str(&value.to_string(), "%Y-%m-%d %H:%M:%S").map_err(
+                |e| ExpressionError::InvalidOperation(format!("Failed to parse timestamp: {}", e)),
+            )?,
+        };
 
         // Extract the requested field
         let result = match self.field {
@@ -83,11 +92,8 @@ impl ExpressionOps for ExtractExpression {
         // Evaluate the inner expression to get the timestamp
         let value = self.expr.evaluate(tuple, schema)?;
 
-        // Convert the value to a string representation
-        let timestamp_str = value.to_string();
-
         // Extract the field and return as an integer
-        let extracted_value = self.extract_from_timestamp(&timestamp_str)?;
+        let extracted_value = self.extract_from_timestamp(&value)?;
         Ok(Value::new(extracted_value))
     }
 
@@ -103,9 +109,7 @@ impl ExpressionOps for ExtractExpression {
             .expr
             .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
 
-        // Convert to string and extract
-        let timestamp_str = value.to_string();
-        let extracted_value = self.extract_from_timestamp(&timestamp_str)?;
+        let extracted_value = self.extract_from_timestamp(&value)?;
         Ok(Value::new(extracted_value))
     }
 
-- 
2.43.0


From bc4452c4979345c08ad75b08777589fceb114fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:23 +0000
Subject: [PATCH 70/74] fix: a regular expression match with NULL is unknown

---
 src/sql/execution/expressions/regex_expression.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sql/execution/expressions/regex_expression.rs b/src/sql/execution/expressions/regex_expression.rs
index 75f5bd2..3340291 100644
--- a/src/sql/execution/expressions/regex_expression.rs
+++ b/src/sql/execution/expressions/regex_expression.rs
@@ -11,7 +11,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub enum RegexOperator {
@@ -133,6 +133,9 @@ impl ExpressionOps for RegexExpression {
     fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
         let value = self.expr().evaluate(tuple, schema)?;
         let pattern = self.pattern().evaluate(tuple, schema)?;
+        if value.is_null() || pattern.is_null() {
+            return Ok(Value::new_with_type(Val::Null, TypeId::Boolean));
+        }
 
         let value_str = value.to_string();
         let pattern_str = pattern.to_string();
@@ -184,6 +187,10 @@ impl ExpressionOps for RegexExpression {
                     right_tuple,
                     right_schema,
                 )?;
+                if value.is_null() || pattern.is_null() {
+                    return Ok(Value::new_with_type(Val::Null, TypeId::Boolean));
+                }
+
                 let value_str = value.to_string();
                 let pattern_str = pattern.to_string();
 
-- 
2.43.0


From 64536edd03339beeeb15fa4d6f117d5fb0ad4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:23 +0000
Subject: [PATCH 71/74] fix: SIMILAR TO takes ranges, an empty escape and line
 breaks

---
 src/sql/execution/expressions/regex_expression.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sql/execution/expressions/regex_expression.rs b/src/sql/execution/expressions/regex_expression.rs
index 3340291..2f7b3c2 100644
--- a/src/sql/execution/expressions/regex_expression.rs
+++ b/src/sql/execution/expressions/regex_expression.rs
@@ -94,12 +94,12 @@ impl RegexExpression {
     }
 
     fn convert_similar_to_pattern(&self, pattern: &str) -> Result<String, ExpressionError> {
-        let escape_char = self.escape_char.as_deref().unwrap_or("\\");
+        let escape_char = self.escape_char.as_deref().unwrap_or("\\").chars().next();
         let mut result = String::new();
         let mut chars = pattern.chars().peekable();
 
         while let Some(c) = chars.next() {
-            if c == escape_char.chars().next().unwrap() {
+            if Some(c) == escape_char {
                 if let Some(&next) = chars.peek() {
                     // Handle escaped character
                     chars.next();
@@ -117,7 +117,12 @@ impl RegexExpression {
                                 result.push(']');
                                 break;
                             }
-                            result.push_str(&regex::escape(&next.to_string()));
+                            if matches!(next, '-' | '^') {
+                                // A range or a negation
+                                result.push(next);
+                            } else {
+                                result.push_str(&regex::escape(&next.to_string()));
+                            }
                         }
                     },
                     _ => result.push_str(&regex::escape(&c.to_string())),
@@ -125,7 +130,8 @@ impl RegexExpression {
             }
         }
 
-        Ok(format!("^{}$", result))
+        // Wildcards also match line breaks
+        Ok(format!("(?s)^{}$", result))
     }
 }
 
-- 
2.43.0


From 087d76add4db7777a979d890d480d239c83aa7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:12 +0000
Subject: [PATCH 72/74] fix: intervals take their value from both sides of a
 join

---
 .../expressions/interval_expression.rs        | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/sql/execution/expressions/interval_expression.rs b/src/sql/execution/expressions/interval_expression.rs
index a424d87..c35aa4f 100644
--- a/src/sql/execution/expressions/interval_expression.rs
+++ b/src/sql/execution/expressions/interval_expression.rs
@@ -40,12 +40,9 @@ impl IntervalExpression {
     fn value(&self) -> &Arc<Expression> {
         &self.children[0]
     }
-}
-
-impl ExpressionOps for IntervalExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let value = self.value().evaluate(tuple, schema)?;
 
+    /// The interval of `value` units of the field
+    fn interval(&self, value: &Value) -> Result<Value, ExpressionError> {
         // Convert value to numeric type if needed
         let numeric_value = match value.get_val() {
             Val::Integer(i) => *i as i64,
@@ -85,17 +82,25 @@ impl ExpressionOps for IntervalExpression {
             vec![Value::new(numeric_value)],
         ))
     }
+}
+
+impl ExpressionOps for IntervalExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let value = self.value().evaluate(tuple, schema)?;
+        self.interval(&value)
+    }
 
     fn evaluate_join(
         &self,
         left_tuple: &Tuple,
         left_schema: &Schema,
-        _right_tuple: &Tuple,
-        _right_schema: &Schema,
+        right_tuple: &Tuple,
+        right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // For join evaluation, we can just evaluate using the left tuple and schema
-        // since interval expressions don't depend on join context
-        self.evaluate(left_tuple, left_schema)
+        let value =
+            self.value()
+                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
+        self.interval(&value)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 91bac3fc68d73d33a62a3debd43b17b9aa616d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:23 +0000
Subject: [PATCH 73/74] fix: AT TIME ZONE takes timestamps, from both sides of
 a join

---
 .../expressions/at_timezone_expression.rs     | 51 ++++++++++++-------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/sql/execution/expressions/at_timezone_expression.rs b/src/sql/execution/expressions/at_timezone_expression.rs
index 87a8274..d5ea3d3 100644
--- a/src/sql/execution/expressions/at_timezone_expression.rs
+++ b/src/sql/execution/expressions/at_timezone_expression.rs
@@ -12,7 +12,7 @@ use crate::common::exception::ExpressionError;
 use crate::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
 use crate::storage::table::tuple::Tuple;
 use crate::types_db::type_id::TypeId;
-use crate::types_db::value::Value;
+use crate::types_db::value::{Val, Value};
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct AtTimeZoneExpression {
@@ -33,25 +33,27 @@ impl AtTimeZoneExpression {
             children,
         }
     }
-}
-
-impl ExpressionOps for AtTimeZoneExpression {
-    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
-        let timestamp_val = self.timestamp.evaluate(tuple, schema)?;
-        let timezone_val = self.timezone.evaluate(tuple, schema)?;
-
-        // Get timestamp as string
-        let timestamp_str = timestamp_val.to_string();
 
+    fn convert(timestamp_val: &Value, timezone_val: &Value) -> Result<Value, ExpressionError> {
         // Parse the timezone string using chrono_tz
         let timezone_str = timezone_val.to_string();
         let timezone = Tz::from_str(&timezone_str)
             .map_err(|e| ExpressionError::InvalidOperation(format!("Invalid timezone: {}", e)))?;
 
-        // Parse the timestamp and convert to the target timezone
-        let dt = DateTime::parse_from_rfc3339(&timestamp_str).map_err(|e| {
-            ExpressionError::InvalidOperation(format!("Invalid timestamp format: {}", e))
-        })?;
+        let dt = match timestamp_val.get_val() {
+            // Seconds since the epoch
+            Val::Timestamp(ts) => i64::try_from(*ts)
+                .ok()
+                .and_then(|ts| DateTime::from_timestamp(ts, 0))
+                .map(|ts| ts.fixed_offset())
+                .ok_or_else(|| {
+                    ExpressionError::InvalidOperation("Invalid timestamp value".to_string())
+                })?,
+            // Parse the timestamp and convert to the target timezone
+            _ => DateTime::parse_from_rfc3339(&timestamp_val.to_string()).map_err(|e| {
+                ExpressionError::InvalidOperation(format!("Invalid timestamp format: {}", e))
+            })?,
+        };
 
         // Convert to target timezone
         let converted = dt.with_timezone(&timezone);
@@ -59,16 +61,29 @@ impl ExpressionOps for AtTimeZoneExpression {
         // Return as RFC3339 string
         Ok(Value::new(converted.to_rfc3339()))
     }
+}
+
+impl ExpressionOps for AtTimeZoneExpression {
+    fn evaluate(&self, tuple: &Tuple, schema: &Schema) -> Result<Value, ExpressionError> {
+        let timestamp_val = self.timestamp.evaluate(tuple, schema)?;
+        let timezone_val = self.timezone.evaluate(tuple, schema)?;
+        Self::convert(&timestamp_val, &timezone_val)
+    }
 
     fn evaluate_join(
         &self,
         left_tuple: &Tuple,
         left_schema: &Schema,
-        _right_tuple: &Tuple,
-        _right_schema: &Schema,
+        right_tuple: &Tuple,
+        right_schema: &Schema,
     ) -> Result<Value, ExpressionError> {
-        // For join evaluation, we can just use the regular evaluate
-        self.evaluate(left_tuple, left_schema)
+        let timestamp_val =
+            self.timestamp
+                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
+        let timezone_val =
+            self.timezone
+                .evaluate_join(left_tuple, left_schema, right_tuple, right_schema)?;
+        Self::convert(&timestamp_val, &timezone_val)
     }
 
     fn get_child_at(&self, child_idx: usize) -> &Arc<Expression> {
-- 
2.43.0


From 8189781572303a33c39317fb80560a3b930933d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:30 +0000
Subject: [PATCH 74/74] fix: texts before 1970 are no timestamps

---
 .../expressions/typed_string_expression.rs    | 35 ++++++++++---------
 src/types_db/value.rs                         | 13 ++++---
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/sql/execution/expressions/typed_string_expression.rs b/src/sql/execution/expressions/typed_string_expression.rs
index b2abc13..6172f0a 100644
--- a/src/sql/execution/expressions/typed_string_expression.rs
+++ b/src/sql/execution/expressions/typed_string_expression.rs
@@ -47,6 +47,19 @@ impl TypedStringExpression {
     }
 
     // Parse a date string in the format YYYY-MM-DD
+    /// A timestamp of seconds since 1970, which cannot be before that.
+    fn timestamp(seconds: i64) -> Result<Value, ExpressionError> {
+        let seconds = u64::try_from(seconds).map_err(|_| {
+            ExpressionError::InvalidOperation(
+                "Timestamps before 1970 are not supported".to_string(),
+            )
+        })?;
+        Ok(Value::new_with_type(
+            Val::Timestamp(seconds),
+            TypeId::Timestamp,
+        ))
+    }
+
     fn parse_date(&self, date_str: &str) -> Result<Value, ExpressionError> {
         match NaiveDate::parse_from_str(date_str, "%Y-%m-%d") {
             Ok(date) => {
@@ -60,11 +73,8 @@ impl TypedStringExpression {
                         ))
                     })?
                     .and_utc()
-                    .timestamp() as u64;
-                Ok(Value::new_with_type(
-                    Val::Timestamp(timestamp),
-                    TypeId::Timestamp,
-                ))
+                    .timestamp();
+                Self::timestamp(timestamp)
             },
             Err(e) => Err(ExpressionError::InvalidOperation(format!(
                 "Invalid date format '{}': {}",
@@ -112,10 +122,7 @@ impl TypedStringExpression {
         // Try ISO8601/RFC3339 format (which includes formats like 2023-01-01T10:00:00Z)
         if let Ok(dt) = DateTime::parse_from_rfc3339(timestamp_str) {
             let utc_dt = dt.with_timezone(&chrono::Utc);
-            return Ok(Value::new_with_type(
-                Val::Timestamp(utc_dt.timestamp() as u64),
-                TypeId::Timestamp,
-            ));
+            return Self::timestamp(utc_dt.timestamp());
         }
 
         // If that fails, try parsing with the T separator format without timezone
@@ -123,10 +130,7 @@ impl TypedStringExpression {
             && let Ok(dt) = NaiveDateTime::parse_from_str(timestamp_str, "%Y-%m-%dT%H:%M:%S")
         {
             let utc_dt = dt.and_utc();
-            return Ok(Value::new_with_type(
-                Val::Timestamp(utc_dt.timestamp() as u64),
-                TypeId::Timestamp,
-            ));
+            return Self::timestamp(utc_dt.timestamp());
         }
 
         // Finally try the default format
@@ -140,10 +144,7 @@ impl TypedStringExpression {
             Ok(dt) => {
                 // Convert to UTC DateTime
                 let utc_dt = dt.and_utc();
-                Ok(Value::new_with_type(
-                    Val::Timestamp(utc_dt.timestamp() as u64),
-                    TypeId::Timestamp,
-                ))
+                Self::timestamp(utc_dt.timestamp())
             },
             Err(e) => Err(ExpressionError::InvalidOperation(format!(
                 "Invalid timestamp format '{}': {}",
diff --git a/src/types_db/value.rs b/src/types_db/value.rs
index 4623a8d..d24b91f 100644
--- a/src/types_db/value.rs
+++ b/src/types_db/value.rs
@@ -439,6 +439,11 @@ impl Value {
         }
     }
 
+    /// The seconds of a timestamp, which cannot be before 1970.
+    fn from_epoch(seconds: i64) -> Result<u64, String> {
+        u64::try_from(seconds).map_err(|_| "Timestamps before 1970 are not supported".to_string())
+    }
+
     /// Attempts to cast this value to the specified type
     pub fn cast_to(&self, target_type: TypeId) -> Result<Value, String> {
         // If types are the same, return clone
@@ -744,7 +749,7 @@ impl Value {
 
                 // Try ISO8601/RFC3339 format first
                 if let Ok(dt) = DateTime::parse_from_rfc3339(s) {
-                    let timestamp = dt.timestamp() as u64;
+                    let timestamp = Self::from_epoch(dt.timestamp())?;
                     return Ok(Value::new_with_type(Val::Timestamp(timestamp), target_type));
                 }
 
@@ -757,7 +762,7 @@ impl Value {
 
                 match NaiveDateTime::parse_from_str(s, format) {
                     Ok(dt) => {
-                        let timestamp = dt.and_utc().timestamp() as u64;
+                        let timestamp = Self::from_epoch(dt.and_utc().timestamp())?;
                         Ok(Value::new_with_type(Val::Timestamp(timestamp), target_type))
                     },
                     Err(_) => Err(format!(
@@ -883,7 +888,7 @@ impl Value {
 
                 // Try ISO8601/RFC3339 format first
                 if let Ok(dt) = DateTime::parse_from_rfc3339(s) {
-                    let timestamp = dt.timestamp() as u64;
+                    let timestamp = Self::from_epoch(dt.timestamp())?;
                     return Ok(Value::new_with_type(Val::Timestamp(timestamp), target_type));
                 }
 
@@ -896,7 +901,7 @@ impl Value {
 
                 match NaiveDateTime::parse_from_str(s, format) {
                     Ok(dt) => {
-                        let timestamp = dt.and_utc().timestamp() as u64;
+                        let timestamp = Self::from_epoch(dt.and_utc().timestamp())?;
                         Ok(Value::new_with_type(Val::Timestamp(timestamp), target_type))
                     },
                     Err(_) => Err(format!(
-- 
2.43.0

