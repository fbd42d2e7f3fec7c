From 0fc0845bddcc82043356186b39dff12db1dda9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 01/12] fix: keep the iterator bounds exclusive

The inclusive upper bound underflowed for empty clouds and when an iterator was
consumed from the back, and size_hint/len reported points already yielded.
---
 rpcl2/src/iterator.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index a6d703c..7c71f83 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -30,7 +30,7 @@ where
     C: PointConvertible<N>,
 {
     iteration: usize,
-    iteration_back: usize,
+    iteration_back: usize, // exclusive
     data: ByteBufferView<N>,
     _phantom: core::marker::PhantomData<C>,
 }
@@ -41,7 +41,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 }
 
@@ -51,12 +51,12 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.iteration_back < self.iteration {
+        if self.iteration_back <= self.iteration {
             return None; // iteration finished
         }
 
-        let p = self.data.point_at(self.iteration_back);
         self.iteration_back -= 1;
+        let p = self.data.point_at(self.iteration_back);
         Some(C::from(p))
     }
 }
@@ -76,7 +76,7 @@ where
     }
 
     fn opt_len(&self) -> Option<usize> {
-        Some(self.data.len())
+        Some(self.remaining())
     }
 }
 
@@ -86,7 +86,7 @@ where
     C: PointConvertible<N> + Send + Sync,
 {
     fn len(&self) -> usize {
-        self.data.len()
+        self.remaining()
     }
 
     fn drive<Co>(self, consumer: Co) -> Co::Result
@@ -144,12 +144,12 @@ where
     type Item = C;
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let buf_len = self.data.len();
-        (buf_len, Some(buf_len))
+        let remaining = self.remaining();
+        (remaining, Some(remaining))
     }
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.iteration >= self.data.len() || self.iteration_back < self.iteration {
+        if self.iteration >= self.iteration_back {
             return None; // iteration finished
         }
 
@@ -165,7 +165,7 @@ struct ByteBufferView<const N: usize> {
     #[cfg(not(feature = "rayon"))]
     data: Vec<u8>,
     start_point_idx: usize,
-    end_point_idx: usize,
+    end_point_idx: usize, // exclusive
     point_step_size: usize,
     offsets: [usize; N],
     pdata: Vec<(String, FieldDatatype)>,
@@ -198,7 +198,7 @@ impl<const N: usize> ByteBufferView<N> {
 
     #[inline]
     fn len(&self) -> usize {
-        self.end_point_idx - self.start_point_idx + 1
+        self.end_point_idx - self.start_point_idx
     }
 
     #[inline]
@@ -226,7 +226,7 @@ impl<const N: usize> ByteBufferView<N> {
         Self {
             data: self.data.clone(),
             start_point_idx: start,
-            end_point_idx: start + size - 1,
+            end_point_idx: start + size,
             point_step_size: self.point_step_size,
             offsets: self.offsets,
             pdata: self.pdata.clone(),
@@ -339,7 +339,7 @@ where
             cloud.data,
             point_step_size,
             0,
-            cloud_length - 1,
+            cloud_length,
             offsets,
             pdata,
             cloud.endian,
@@ -347,7 +347,7 @@ where
 
         Ok(Self {
             iteration: 0,
-            iteration_back: cloud_length - 1,
+            iteration_back: cloud_length,
             data,
             _phantom: core::marker::PhantomData,
         })
@@ -358,12 +358,18 @@ impl<const N: usize, C> PointCloudIterator<N, C>
 where
     C: PointConvertible<N>,
 {
+    /// Number of points that have not been yielded from either end.
+    #[inline]
+    fn remaining(&self) -> usize {
+        self.iteration_back - self.iteration
+    }
+
     #[inline]
     #[must_use]
     fn from_byte_buffer_view(data: ByteBufferView<N>) -> Self {
         Self {
             iteration: 0,
-            iteration_back: data.len() - 1,
+            iteration_back: data.len(),
             data,
             _phantom: core::marker::PhantomData,
         }
-- 
2.43.0


From b60da6b9085413866767b435bb1f0e858333eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 02/12] fix: split only the points that an iterator has left

split_at handed out points that were already consumed and accepted an index
beyond the cloud, which made the parts read outside of the buffer.
---
 rpcl2/src/iterator.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 7c71f83..0c79b0e 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -236,6 +236,12 @@ impl<const N: usize> ByteBufferView<N> {
 
     #[inline]
     pub fn split_at(self, point_index: usize) -> (Self, Self) {
+        assert!(
+            point_index <= self.len(),
+            "split index {point_index} is out of range for {} points",
+            self.len()
+        );
+
         let left_start = self.start_point_idx;
         let left_size = point_index;
 
@@ -375,10 +381,18 @@ where
         }
     }
 
+    /// Split the remaining points into two iterators. The first yields the next `point_index` points, the second yields the rest.
+    ///
+    /// # Panics
+    /// Panics if `point_index` is greater than the number of remaining points.
     #[inline]
     #[must_use]
     pub fn split_at(self, point_index: usize) -> (Self, Self) {
-        let (left_data, right_data) = self.data.split_at(point_index);
+        let mut data = self.data;
+        data.end_point_idx = data.start_point_idx + self.iteration_back;
+        data.start_point_idx += self.iteration;
+
+        let (left_data, right_data) = data.split_at(point_index);
         (
             Self::from_byte_buffer_view(left_data),
             Self::from_byte_buffer_view(right_data),
-- 
2.43.0


From 4590b41e80e62c915526332a61b450c0ce4b573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 03/12] fix: match message fields with point fields by name

The iterator assigned the found fields by ascending offset, so the values were
swapped if a message ordered its fields differently than the target point.
---
 rpcl2/src/iterator.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 0c79b0e..d70b91c 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -286,8 +286,9 @@ where
         }
 
         let mut pdata_with_offsets = Vec::with_capacity(N);
-        for field in cloud.fields.iter() {
-            if fields_only.contains(&field.name) {
+        for name in fields_only.iter() {
+            // Same order as in the target point, the message can contain the fields in any order.
+            if let Some(field) = cloud.fields.iter().find(|field| field.name == *name) {
                 pdata_with_offsets.push((
                     field.name.clone(),
                     field.datatype.try_into()?,
@@ -296,9 +297,6 @@ where
             }
         }
 
-        pdata_with_offsets
-            .sort_unstable_by(|(_, _, offset1), (_, _, offset2)| offset1.cmp(offset2));
-
         debug_assert!(
             pdata_with_offsets.len() == N,
             "Not all fields were found in the message. Expected {} but found {}.",
-- 
2.43.0


From d74f3a5915f41732025a2ba17059c61a3c96281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 04/12] fix: validate every field of a message before iterating

Only the extent of the last needed field was checked against the point step and
the product of point step and dimensions could wrap, so the iterator read outside
of the buffer.
---
 rpcl2/src/iterator.rs | 28 +++++++++-------------------
 rpcl2/src/lib.rs      | 12 ++++++++++++
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index d70b91c..96e4a04 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -317,28 +317,18 @@ where
             });
 
         let point_step_size = cloud.point_step as usize;
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-        if point_step_size * cloud_length != cloud.data.len() {
-            return Err(MsgConversionError::DataLengthMismatch);
-        }
-
-        let last_offset = match offsets.last() {
-            Some(offset) => *offset,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
-
-        let last_pdata = match pdata.last() {
-            Some(pdata) => pdata,
-            None => return Err(MsgConversionError::DataLengthMismatch),
-        };
+        let cloud_length = cloud.checked_point_count()?;
 
-        let size_with_last_pdata = last_offset + last_pdata.1.size();
-        if size_with_last_pdata > point_step_size {
-            return Err(MsgConversionError::DataLengthMismatch);
+        let fields_end = offsets
+            .iter()
+            .zip(pdata.iter())
+            .map(|(offset, (_, datatype))| offset.saturating_add(datatype.size()))
+            .max();
+        match fields_end {
+            Some(fields_end) if fields_end <= point_step_size => {}
+            _ => return Err(MsgConversionError::DataLengthMismatch),
         }
 
-        let cloud_length = cloud.dimensions.width as usize * cloud.dimensions.height as usize;
-
         let data = ByteBufferView::new(
             cloud.data,
             point_step_size,
diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index e51a875..ee72db4 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -497,6 +497,18 @@ fn ordered_field_names<const N: usize, C: PointConvertible<N>>() -> Vec<String>
 }
 
 impl PointCloud2Msg {
+    /// Number of points described by the dimensions.
+    ///
+    /// # Errors
+    /// Returns an error if the length of the byte buffer does not match the dimensions.
+    pub(crate) fn checked_point_count(&self) -> Result<usize, MsgConversionError> {
+        let point_step = self.point_step as usize;
+        (self.dimensions.width as usize)
+            .checked_mul(self.dimensions.height as usize)
+            .filter(|points| points.checked_mul(point_step) == Some(self.data.len()))
+            .ok_or(MsgConversionError::DataLengthMismatch)
+    }
+
     #[inline]
     fn byte_similarity<const N: usize, C>(&self) -> Result<ByteSimilarity, MsgConversionError>
     where
-- 
2.43.0


From f35c39e6bca7dc4fe04335e6c744fad3ca2aad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 05/12] fix: only copy points that are completely inside of the
 byte buffer

try_into_vec copied without comparing the dimensions, the point step and the size
of the point with the byte buffer. It read and wrote out of bounds, read unaligned
points, ignored the height and panicked on layouts with padding in debug builds.
---
 rpcl2/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index ee72db4..614e249 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -518,7 +518,6 @@ impl PointCloud2Msg {
         let target_layout = KnownLayoutInfo::try_from(C::layout())?;
 
         debug_assert!(field_names.len() <= target_layout.fields.len());
-        debug_assert!(self.fields.len() >= target_layout.fields.len());
 
         let mut offset: u32 = 0;
         let mut field_counter = 0;
@@ -553,6 +552,11 @@ impl PointCloud2Msg {
             }
         }
 
+        // A point can only be copied as a whole if all of its bytes are part of the message.
+        if offset as usize != core::mem::size_of::<C>() || offset > self.point_step {
+            return Ok(ByteSimilarity::Different);
+        }
+
         Ok(if offset == self.point_step {
             ByteSimilarity::Equal
         } else {
@@ -762,9 +766,9 @@ impl PointCloud2Msg {
                     ByteSimilarity::Different => return Ok(self.try_into_iter()?.collect()),
                 };
 
-                let cloud_width = self.dimensions.width as usize;
+                let cloud_length = self.checked_point_count()?;
                 let point_step = self.point_step as usize;
-                let mut vec: Vec<C> = Vec::with_capacity(cloud_width);
+                let mut vec: Vec<C> = Vec::with_capacity(cloud_length);
                 if bytematch {
                     unsafe {
                         core::ptr::copy_nonoverlapping(
@@ -772,13 +776,13 @@ impl PointCloud2Msg {
                             vec.as_mut_ptr().cast::<u8>(),
                             self.data.len(),
                         );
-                        vec.set_len(cloud_width);
+                        vec.set_len(cloud_length);
                     }
                 } else {
                     unsafe {
-                        for i in 0..cloud_width {
+                        for i in 0..cloud_length {
                             let point_ptr = self.data.as_ptr().add(i * point_step).cast::<C>();
-                            let point = point_ptr.read();
+                            let point = point_ptr.read_unaligned();
                             vec.push(point);
                         }
                     }
-- 
2.43.0


From 53fe3b5344df916e81df0de2a0de6d90187e72fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 06/12] fix: do not write uninitialized padding into messages

try_from_vec copied the padding bytes of the points into the message.
---
 rpcl2/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index 614e249..b62958c 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -675,6 +675,7 @@ impl PointCloud2Msg {
     {
         match (system_endian(), Endian::default()) {
             (Endian::Big, Endian::Big) | (Endian::Little, Endian::Little) => {
+                let mut paddings: Vec<(usize, usize)> = Vec::new();
                 let (mut cloud, point_step) = {
                     let point: RPCL2Point<N> = C::default().into();
                     debug_assert!(point.fields.len() == N);
@@ -703,6 +704,7 @@ impl PointCloud2Msg {
                                 offset += size * count;
                             }
                             PointField::Padding(size) => {
+                                paddings.push((offset as usize, size as usize));
                                 offset += size;
                             }
                         }
@@ -725,6 +727,16 @@ impl PointCloud2Msg {
                         raw_data.cast::<u8>(),
                         bytes_total,
                     );
+
+                    // The padding of a point is uninitialized memory that must not end up in the message.
+                    for i in 0..vec.len() {
+                        for (offset, size) in paddings.iter() {
+                            raw_data
+                                .cast::<u8>()
+                                .add(i * point_step as usize + offset)
+                                .write_bytes(u8::default(), *size);
+                        }
+                    }
                 }
 
                 Ok(cloud
-- 
2.43.0


From 4c2b80c00fbf18e677259f79183bcb0340326aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 07/12] fix: report clouds that do not fit into the message as
 error

Point counts and row steps beyond 32 bit were truncated or wrapped silently and
the builder reduced the data length to 32 bit before checking it.
---
 rpcl2/src/lib.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index b62958c..a95888a 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -438,7 +438,7 @@ impl PointCloud2MsgBuilder {
             return Err(MsgConversionError::InvalidFieldFormat);
         }
 
-        if self.data.len() as u32 % self.point_step != 0 {
+        if self.data.len() % self.point_step as usize != 0 {
             return Err(MsgConversionError::DataLengthMismatch);
         }
 
@@ -471,6 +471,15 @@ pub struct CloudDimensions {
     pub height: u32,
 }
 
+/// Width and row step of a cloud with the given number of points in a single row.
+fn checked_row(points: usize, point_step: u32) -> Result<(u32, u32), MsgConversionError> {
+    let width = u32::try_from(points)?;
+    let row_step = width
+        .checked_mul(point_step)
+        .ok_or(MsgConversionError::NumberConversion)?;
+    Ok((width, row_step))
+}
+
 fn ordered_field_names<const N: usize, C: PointConvertible<N>>() -> Vec<String> {
     C::layout()
         .0
@@ -619,7 +628,7 @@ impl PointCloud2Msg {
                 pdata_offsets_acc,
             )
         };
-        let mut cloud_width = 0;
+        let mut cloud_width: usize = 0;
 
         iterable.into_iter().for_each(|pointdata| {
             let point: RPCL2Point<N> = pointdata.into();
@@ -634,8 +643,9 @@ impl PointCloud2Msg {
             cloud_width += 1;
         });
 
+        let (cloud_width, row_step) = checked_row(cloud_width, point_step)?;
         cloud = cloud.width(cloud_width);
-        cloud = cloud.row_step(cloud_width * point_step);
+        cloud = cloud.row_step(row_step);
 
         cloud.build()
     }
@@ -718,6 +728,7 @@ impl PointCloud2Msg {
                     )
                 };
 
+                let (width, row_step) = checked_row(vec.len(), point_step)?;
                 let bytes_total = vec.len() * point_step as usize;
                 cloud.data.resize(bytes_total, u8::default());
                 let raw_data: *mut C = cloud.data.as_mut_ptr() as *mut C;
@@ -739,10 +750,7 @@ impl PointCloud2Msg {
                     }
                 }
 
-                Ok(cloud
-                    .width(vec.len() as u32)
-                    .row_step(vec.len() as u32 * point_step)
-                    .build()?)
+                Ok(cloud.width(width).row_step(row_step).build()?)
             }
             _ => Self::try_from_iter(vec),
         }
-- 
2.43.0


From 25ea06af68a6e56cb84c1513ee568e7b775bb8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 08/12] fix: reject message fields of another datatype than the
 point field

The bytes of a field with a different datatype were silently reinterpreted.
---
 rpcl2/src/iterator.rs | 16 ++++++++++------
 rpcl2/src/lib.rs      | 22 ++++++++++++++++++++++
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/rpcl2/src/iterator.rs b/rpcl2/src/iterator.rs
index 96e4a04..24dffa9 100644
--- a/rpcl2/src/iterator.rs
+++ b/rpcl2/src/iterator.rs
@@ -286,14 +286,18 @@ where
         }
 
         let mut pdata_with_offsets = Vec::with_capacity(N);
-        for name in fields_only.iter() {
+        for (name, target) in fields_only
+            .iter()
+            .zip(crate::ordered_field_datatypes::<N, C>())
+        {
             // Same order as in the target point, the message can contain the fields in any order.
             if let Some(field) = cloud.fields.iter().find(|field| field.name == *name) {
-                pdata_with_offsets.push((
-                    field.name.clone(),
-                    field.datatype.try_into()?,
-                    field.offset as usize,
-                ));
+                let datatype = FieldDatatype::try_from(field)?;
+                if target.is_some_and(|target| !target.is_readable_from(datatype)) {
+                    return Err(MsgConversionError::InvalidFieldFormat);
+                }
+
+                pdata_with_offsets.push((field.name.clone(), datatype, field.offset as usize));
             }
         }
 
diff --git a/rpcl2/src/lib.rs b/rpcl2/src/lib.rs
index a95888a..0e2a26f 100644
--- a/rpcl2/src/lib.rs
+++ b/rpcl2/src/lib.rs
@@ -505,6 +505,20 @@ fn ordered_field_names<const N: usize, C: PointConvertible<N>>() -> Vec<String>
         .collect()
 }
 
+/// Datatypes of the fields in the order of [`ordered_field_names`], `None` when the name of the type is unknown.
+fn ordered_field_datatypes<const N: usize, C: PointConvertible<N>>() -> Vec<Option<FieldDatatype>> {
+    C::layout()
+        .0
+        .iter()
+        .filter_map(|field| match field {
+            LayoutField::Field { ty, .. } => {
+                Some(FieldDatatype::from_str(ty.to_lowercase().as_str()).ok())
+            }
+            LayoutField::Padding { .. } => None,
+        })
+        .collect()
+}
+
 impl PointCloud2Msg {
     /// Number of points described by the dimensions.
     ///
@@ -1170,6 +1184,14 @@ impl FieldDatatype {
             FieldDatatype::F64 => core::mem::size_of::<f64>(),
         }
     }
+
+    /// The packed color of [`RGB`](points::RGB) is either marked as f32 or as u32 in messages.
+    fn is_readable_from(self, message: FieldDatatype) -> bool {
+        match self {
+            FieldDatatype::RGB => matches!(message, FieldDatatype::F32 | FieldDatatype::U32),
+            datatype => datatype == message,
+        }
+    }
 }
 
 impl core::str::FromStr for FieldDatatype {
-- 
2.43.0


From 17ca7025f645efe9f6cccaef14f468207895b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 09/12] fix: name every derived field exactly once

A field with any attribute but rpcl2 (e.g. a doc comment) had no name, which moved
the names of the other fields or panicked. Raw identifiers kept their r# prefix.
---
 rpcl2-derive/src/lib.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index a3ca95a..f014724 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -6,6 +6,7 @@ use std::collections::HashMap;
 use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::{parenthesized, parse_macro_input, Data, DeriveInput, Fields, LitStr};
 
 fn get_allowed_types() -> HashMap<&'static str, usize> {
@@ -32,28 +33,27 @@ fn struct_field_rename_array(input: &DeriveInput) -> Vec<String> {
 
     let mut field_names = Vec::with_capacity(fields.len());
     for f in fields.iter() {
-        if f.attrs.is_empty() {
-            field_names.push(f.ident.as_ref().unwrap().to_token_stream().to_string());
-        } else {
-            f.attrs.iter().for_each(|attr| {
-                if attr.path().is_ident("rpcl2") {
-                    let res = attr.parse_nested_meta(|meta| {
-                        if meta.path.is_ident("rename") {
-                            let new_name;
-                            parenthesized!(new_name in meta.input);
-                            let lit: LitStr = new_name.parse()?;
-                            field_names.push(lit.value());
-                            Ok(())
-                        } else {
-                            panic!("expected `name` attribute");
-                        }
-                    });
-                    if let Err(err) = res {
-                        panic!("Error parsing attribute: {}", err);
+        // Exactly one name per field, other attributes (e.g. doc comments) do not rename it.
+        let mut field_name = f.ident.as_ref().unwrap().unraw().to_string();
+        f.attrs.iter().for_each(|attr| {
+            if attr.path().is_ident("rpcl2") {
+                let res = attr.parse_nested_meta(|meta| {
+                    if meta.path.is_ident("rename") {
+                        let new_name;
+                        parenthesized!(new_name in meta.input);
+                        let lit: LitStr = new_name.parse()?;
+                        field_name = lit.value();
+                        Ok(())
+                    } else {
+                        panic!("expected `name` attribute");
                     }
+                });
+                if let Err(err) = res {
+                    panic!("Error parsing attribute: {}", err);
                 }
-            });
-        }
+            }
+        });
+        field_names.push(field_name);
     }
 
     field_names
-- 
2.43.0


From 0a241f797e9b22697322c6d8383ba84e227d04a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 10/12] fix: derive the layout in memory order

With the default representation the compiler reorders the fields. The layout was
generated in declared order, so it did not match the memory of the struct.
---
 rpcl2-derive/src/lib.rs | 71 +++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index f014724..85fb58c 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -106,7 +106,7 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
     let field_len_token: usize = fields.len();
     let rename_arr = struct_field_rename_array(&input);
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
-    let layout = layout_of_type(&name, &input.data);
+    let layout = layout_of_type(&name, &input.data, &rename_arr);
 
     let expanded = quote! {
         unsafe impl #impl_generics ::ros_pointcloud2::PointConvertible<#field_len_token> for #name #ty_generics #where_clause {
@@ -116,15 +116,10 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
 
                 #layout
 
-                let mut rename_idx = 0;
-                let rename_arr = vec![#(#rename_arr),*];
                 let field_info: Vec<::ros_pointcloud2::LayoutField> = fields.into_iter().map(|field| {
                     match field {
-                        (0, ty, size) => {
-                            rename_idx += 1;
-                            ::ros_pointcloud2::LayoutField::new(rename_arr[rename_idx - 1], ty, size)
-                        },
-                        (1, _, size) => ::ros_pointcloud2::LayoutField::padding(size),
+                        (0, name, ty, size) => ::ros_pointcloud2::LayoutField::new(name, ty, size),
+                        (1, _, _, size) => ::ros_pointcloud2::LayoutField::padding(size),
                         _ => unreachable!(),
                     }
                 }).collect();
@@ -134,18 +129,40 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
         }
     };
 
+    // The fields of the point are in memory order, which is not the declared order for every repr.
+    let field_idents = fields.iter().map(|f| f.ident.as_ref().unwrap());
+    let memory_order = quote! {
+        const OFFSETS: [usize; #field_len_token] = [#(::core::mem::offset_of!(#name, #field_idents)),*];
+        const ORDER: [usize; #field_len_token] = {
+            let mut order = [0; #field_len_token];
+            let mut i = 0;
+            while i < #field_len_token {
+                let mut j = 0;
+                while j < #field_len_token {
+                    if OFFSETS[j] < OFFSETS[i] {
+                        order[i] += 1;
+                    }
+                    j += 1;
+                }
+                i += 1;
+            }
+            order
+        };
+    };
+
     let field_names_get = fields
         .iter()
         .enumerate()
         .map(|(idx, f)| {
             let field_name = f.ident.as_ref().unwrap();
-            quote! { #field_name: point[#idx].get() }
+            quote! { #field_name: point[ORDER[#idx]].get() }
         })
         .collect::<Vec<_>>();
 
     let from_my_point = quote! {
         impl From<ros_pointcloud2::RPCL2Point<#field_len_token>> for #name {
             fn from(point: ros_pointcloud2::RPCL2Point<#field_len_token>) -> Self {
+                #memory_order
                 Self {
                     #(#field_names_get,)*
                 }
@@ -155,16 +172,20 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
 
     let field_names_into = fields
         .iter()
-        .map(|f| {
+        .enumerate()
+        .map(|(idx, f)| {
             let field_name = f.ident.as_ref().unwrap();
-            quote! { point.#field_name.into() }
+            quote! { fields[ORDER[#idx]] = point.#field_name.into() }
         })
         .collect::<Vec<_>>();
 
     let from_custom_point = quote! {
         impl From<#name> for ros_pointcloud2::RPCL2Point<#field_len_token> {
             fn from(point: #name) -> Self {
-                [ #(#field_names_into,)* ].into()
+                #memory_order
+                let mut fields = [::ros_pointcloud2::PointData::default(); #field_len_token];
+                #(#field_names_into;)*
+                fields.into()
             }
         }
     };
@@ -176,11 +197,15 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
     })
 }
 
-fn layout_of_type(struct_name: &Ident, data: &Data) -> proc_macro2::TokenStream {
+fn layout_of_type(
+    struct_name: &Ident,
+    data: &Data,
+    names: &[String],
+) -> proc_macro2::TokenStream {
     match data {
         Data::Struct(data) => match &data.fields {
             Fields::Named(fields) => {
-                let values = fields.named.iter().map(|field| {
+                let values = fields.named.iter().zip(names).map(|(field, name)| {
                     let field_name = field.ident.as_ref().unwrap();
                     let field_ty = &field.ty;
                     let field_ty_str = Literal::string(&field_ty.to_token_stream().to_string());
@@ -189,20 +214,26 @@ fn layout_of_type(struct_name: &Ident, data: &Data) -> proc_macro2::TokenStream
                     quote! {
                         let size = ::core::mem::size_of::<#field_ty>();
                         let offset = ::core::mem::offset_of!(#struct_name, #field_name);
-                        if offset > last_field_end {
-                            fields.push((1, "", offset - last_field_end));
-                        }
-                        fields.push((0, #field_ty_str, size));
-                        last_field_end = offset + size;
+                        offsets.push((offset, #name, #field_ty_str, size));
                     }
                 });
 
                 quote! {
+                    let mut offsets = Vec::new();
                     #(#values)*
+                    offsets.sort_unstable();
+
+                    for (offset, name, ty, size) in offsets {
+                        if offset > last_field_end {
+                            fields.push((1, "", "", offset - last_field_end));
+                        }
+                        fields.push((0, name, ty, size));
+                        last_field_end = offset + size;
+                    }
 
                     let struct_size = ::std::mem::size_of::<#struct_name>();
                     if struct_size > last_field_end {
-                        fields.push((1, "", struct_size - last_field_end));
+                        fields.push((1, "", "", struct_size - last_field_end));
                     }
                 }
             }
-- 
2.43.0


From 48a878d9effcc896cee86ce8838af6970e52c82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 11/12] fix: pack colors the same way on big endian systems

The channels were stored in little endian positions, which swapped them in the
packed value on big endian hosts.
---
 rpcl2/src/points.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/rpcl2/src/points.rs b/rpcl2/src/points.rs
index 96d030f..216f428 100644
--- a/rpcl2/src/points.rs
+++ b/rpcl2/src/points.rs
@@ -67,11 +67,18 @@ impl core::fmt::Debug for RGB {
 }
 
 impl RGB {
+    // Positions of the channels in memory, the packed value is 0x00RRGGBB on every system.
+    const R: usize = if cfg!(target_endian = "big") { 1 } else { 2 };
+    const G: usize = if cfg!(target_endian = "big") { 2 } else { 1 };
+    const B: usize = if cfg!(target_endian = "big") { 3 } else { 0 };
+
     #[must_use]
     pub fn new(r: u8, g: u8, b: u8) -> Self {
-        Self {
-            unpacked: [b, g, r, 0],
-        }
+        let mut unpacked = [0; 4];
+        unpacked[Self::R] = r;
+        unpacked[Self::G] = g;
+        unpacked[Self::B] = b;
+        Self { unpacked }
     }
 
     #[must_use]
@@ -91,29 +98,29 @@ impl RGB {
 
     #[must_use]
     pub fn r(&self) -> u8 {
-        unsafe { self.unpacked[2] }
+        unsafe { self.unpacked[Self::R] }
     }
 
     #[must_use]
     pub fn g(&self) -> u8 {
-        unsafe { self.unpacked[1] }
+        unsafe { self.unpacked[Self::G] }
     }
 
     #[must_use]
     pub fn b(&self) -> u8 {
-        unsafe { self.unpacked[0] }
+        unsafe { self.unpacked[Self::B] }
     }
 
     pub fn set_r(&mut self, r: u8) {
-        unsafe { self.unpacked[2] = r }
+        unsafe { self.unpacked[Self::R] = r }
     }
 
     pub fn set_g(&mut self, g: u8) {
-        unsafe { self.unpacked[1] = g }
+        unsafe { self.unpacked[Self::G] = g }
     }
 
     pub fn set_b(&mut self, b: u8) {
-        unsafe { self.unpacked[0] = b }
+        unsafe { self.unpacked[Self::B] = b }
     }
 }
 
-- 
2.43.0


From f5fec3ad9f17764074e28bc8d15df08fa798d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 12/12] fix: derive point types without the standard library

---
 rpcl2-derive/src/lib.rs | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/rpcl2-derive/src/lib.rs b/rpcl2-derive/src/lib.rs
index 85fb58c..0518ae9 100644
--- a/rpcl2-derive/src/lib.rs
+++ b/rpcl2-derive/src/lib.rs
@@ -112,19 +112,14 @@ pub fn ros_point_derive(input: TokenStream) -> TokenStream {
         unsafe impl #impl_generics ::ros_pointcloud2::PointConvertible<#field_len_token> for #name #ty_generics #where_clause {
             fn layout() -> ::ros_pointcloud2::LayoutDescription {
                 let mut last_field_end = 0;
-                let mut fields = Vec::new();
+                // Arrays instead of Vec, the struct may be part of a no_std crate.
+                const UNUSED: ::ros_pointcloud2::LayoutField = ::ros_pointcloud2::LayoutField::Padding { size: 0 };
+                let mut fields = [UNUSED; 2 * #field_len_token + 1];
+                let mut len = 0;
 
                 #layout
 
-                let field_info: Vec<::ros_pointcloud2::LayoutField> = fields.into_iter().map(|field| {
-                    match field {
-                        (0, name, ty, size) => ::ros_pointcloud2::LayoutField::new(name, ty, size),
-                        (1, _, _, size) => ::ros_pointcloud2::LayoutField::padding(size),
-                        _ => unreachable!(),
-                    }
-                }).collect();
-
-                ::ros_pointcloud2::LayoutDescription::new(field_info.as_slice())
+                ::ros_pointcloud2::LayoutDescription::new(&fields[..len])
             }
         }
     };
@@ -212,28 +207,33 @@ fn layout_of_type(
                     let field_ty = &field.ty;
 
                     quote! {
-                        let size = ::core::mem::size_of::<#field_ty>();
-                        let offset = ::core::mem::offset_of!(#struct_name, #field_name);
-                        offsets.push((offset, #name, #field_ty_str, size));
+                        (
+                            ::core::mem::offset_of!(#struct_name, #field_name),
+                            #name,
+                            #field_ty_str,
+                            ::core::mem::size_of::<#field_ty>(),
+                        )
                     }
                 });
 
                 quote! {
-                    let mut offsets = Vec::new();
-                    #(#values)*
+                    let mut offsets = [#(#values),*];
                     offsets.sort_unstable();
 
                     for (offset, name, ty, size) in offsets {
                         if offset > last_field_end {
-                            fields.push((1, "", "", offset - last_field_end));
+                            fields[len] = ::ros_pointcloud2::LayoutField::padding(offset - last_field_end);
+                            len += 1;
                         }
-                        fields.push((0, name, ty, size));
+                        fields[len] = ::ros_pointcloud2::LayoutField::new(name, ty, size);
+                        len += 1;
                         last_field_end = offset + size;
                     }
 
-                    let struct_size = ::std::mem::size_of::<#struct_name>();
+                    let struct_size = ::core::mem::size_of::<#struct_name>();
                     if struct_size > last_field_end {
-                        fields.push((1, "", "", struct_size - last_field_end));
+                        fields[len] = ::ros_pointcloud2::LayoutField::padding(struct_size - last_field_end);
+                        len += 1;
                     }
                 }
             }
-- 
2.43.0

