From 374ac37901466291392fc1e45ba809310a5ae4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 01/11] fix: write the file identifier after the root offset

The buffer is built from the back, so writing the root offset first placed
the file identifier at bytes 0..4 and the root offset at bytes 4..8, which
made every buffer finished with a file identifier unreadable.
---
 crates/planus/src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/planus/src/builder.rs b/crates/planus/src/builder.rs
index 4c111d7..40e7213 100644
--- a/crates/planus/src/builder.rs
+++ b/crates/planus/src/builder.rs
@@ -263,8 +263,9 @@ impl Builder {
                 8,
                 <Offset<T> as Primitive>::ALIGNMENT_MASK.max(self.alignment_mask),
             ) as u32;
-            self.write(&(offset - 4 - root.offset).to_le_bytes());
+            // We are writing from the back, so the file identifier is written before the root offset
             self.write(&file_identifier);
+            self.write(&(offset - root.offset).to_le_bytes());
         } else {
             let offset = self.prepare_write(
                 4,
-- 
2.43.0


From ff0340d9f363e74f58905bb6299ec5a01c9e09b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 02/11] fix: align the elements of vectors written from arrays

Writing [T; N] aligned the length prefix instead of the elements, so the
elements of 8-byte aligned types ended up misaligned by 4 bytes.
---
 crates/planus/src/impls/array.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/crates/planus/src/impls/array.rs b/crates/planus/src/impls/array.rs
index 49d3024..801a082 100644
--- a/crates/planus/src/impls/array.rs
+++ b/crates/planus/src/impls/array.rs
@@ -1,6 +1,6 @@
 use core::mem::MaybeUninit;
 
-use crate::{builder::Builder, traits::*, Cursor, Offset, UnionVectorOffset};
+use crate::{builder::Builder, traits::*, Offset, UnionVectorOffset};
 
 impl<T, P, const N: usize> WriteAsOffset<[P]> for [T; N]
 where
@@ -16,22 +16,25 @@ where
         //       https://github.com/rust-lang/rust/issues/80908
         let tmp =
             unsafe { (&tmp as *const [MaybeUninit<T::Value>; N] as *const [T::Value; N]).read() };
+        // The elements must be aligned to `P::ALIGNMENT`, not the length prefix in front of them
+        // SAFETY: The inner closure always initializes the entire buffer, because it calls `write_values` with `N` values each of length `T::STRIDE`.
         unsafe {
             builder.write_with(
-                4 + T::STRIDE.checked_mul(self.len()).unwrap(),
-                P::ALIGNMENT_MASK.max(3),
+                T::STRIDE.checked_mul(N).unwrap(),
+                P::ALIGNMENT_MASK.max(u32::ALIGNMENT_MASK),
                 |buffer_position, bytes| {
-                    let bytes = bytes.as_mut_ptr();
-
-                    (self.len() as u32).write(
-                        Cursor::new(&mut *(bytes as *mut [MaybeUninit<u8>; 4])),
-                        buffer_position,
-                    );
-
-                    T::write_values(&tmp, bytes.add(4), buffer_position - 4);
+                    T::write_values(&tmp, bytes.as_mut_ptr(), buffer_position);
                 },
-            )
-        };
+            );
+        }
+
+        // SAFETY: The inner closure always initializes the entire buffer, because it calls `copy_from_slice` with an array of len 4
+        unsafe {
+            builder.write_with(4, 0, |_buffer_position, bytes| {
+                let len = (N as u32).to_le_bytes().map(MaybeUninit::new);
+                bytes.copy_from_slice(&len);
+            });
+        }
         builder.current_offset()
     }
 }
-- 
2.43.0


From 76973c21a32ec5213e0192891ab15fc5f655136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 03/11] fix: return an error when half of a union vector is
 missing

Buffers are untrusted, so a vtable with only one of the two entries of a
union vector has to be an error instead of a panic.
---
 crates/planus/src/table_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/planus/src/table_reader.rs b/crates/planus/src/table_reader.rs
index 981ca94..7912226 100644
--- a/crates/planus/src/table_reader.rs
+++ b/crates/planus/src/table_reader.rs
@@ -163,7 +163,8 @@ impl<'buf> Table<'buf> {
             let values_offset = u16::from_le_bytes(offset[2..].try_into().unwrap()) as usize;
             match (tags_offset, values_offset) {
                 (0, 0) => Ok(None),
-                (0, _) | (_, 0) => todo!(),
+                // A vector of tags without a vector of values (or the other way around)
+                (0, _) | (_, 0) => Err(make_error(ErrorKind::InvalidOffset)),
                 (tags_offset, values_offset) => Ok(Some(
                     T::from_buffer(self.object, tags_offset, values_offset).map_err(make_error)?,
                 )),
-- 
2.43.0


From 42a7e89b189c9057d991ca199748c11a14ade331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 04/11] fix: union vector index assertion used four bytes per
 tag

---
 crates/planus/src/union_vectors/union_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/union_vectors/union_vector.rs b/crates/planus/src/union_vectors/union_vector.rs
index 82749cd..e677306 100644
--- a/crates/planus/src/union_vectors/union_vector.rs
+++ b/crates/planus/src/union_vectors/union_vector.rs
@@ -420,7 +420,7 @@ impl<'buf, T: VectorReadUnion<'buf>> UnionVectorIndex<'buf, T> for usize {
     #[inline]
     unsafe fn get_unchecked(self, vector: UnionVector<'buf, T>) -> Self::Output {
         debug_assert!(self < vector.len);
-        debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.tags.len());
+        debug_assert!(vector.len <= vector.tags.len());
         debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.values.len());
         let tag = *vector.tags.buffer.get_unchecked(self);
         <T as VectorReadUnion>::from_buffer(vector.values, tag, 4 * self)
-- 
2.43.0


From b7b37241a6ad4bc9a93f9e237a9da5f8a758afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 05/11] fix: accept digit separators in integer literals

---
 .../src/intermediate_language/translation.rs  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 48d0049..770c75f 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -322,17 +322,19 @@ impl<'a> Translator<'a> {
         }
         let base_t = T::from(base).unwrap();
         let mut result = T::from(0u8).unwrap();
+        let mut seen_digit = false;
         for c in v {
             let cur = match c {
+                b'_' => continue,
                 b'0'..=b'9' => c - b'0',
                 b'a'..=b'f' if base == 16 => c - b'a' + 0xa,
                 b'A'..=b'F' if base == 16 => c - b'A' + 0xa,
                 _ => {
-                    // TODO error message
-                    // Can it even happen?
+                    self.emit_invalid_integer(file_id, span);
                     return None;
                 }
             };
+            seen_digit = true;
 
             match result.checked_mul(&base_t).and_then(|v| {
                 if is_negative {
@@ -358,9 +360,22 @@ impl<'a> Translator<'a> {
             }
         }
 
+        if !seen_digit {
+            self.emit_invalid_integer(file_id, span);
+            return None;
+        }
+
         Some(result)
     }
 
+    fn emit_invalid_integer(&self, file_id: FileId, span: Span) {
+        self.ctx.emit_error(
+            ErrorKind::NUMERICAL_PARSE_ERROR,
+            [Label::primary(file_id, span)],
+            Some("Invalid integer literal"),
+        );
+    }
+
     fn translate_float(
         &self,
         _span: Span,
-- 
2.43.0


From 6259e35ca6c70272b3a633f3106f85bd98aa7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 06/11] fix: keep the sign of negative floating point defaults

---
 .../src/intermediate_language/translation.rs         | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 770c75f..c3726c0 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -379,7 +379,7 @@ impl<'a> Translator<'a> {
     fn translate_float(
         &self,
         _span: Span,
-        _is_negative: bool,
+        is_negative: bool,
         v: &str,
         type_: &ast::FloatType,
     ) -> Option<FloatLiteral> {
@@ -388,8 +388,14 @@ impl<'a> Translator<'a> {
         // TODO error messages
         // TODO: hex parsing and other formats
         Some(match type_ {
-            ast::FloatType::F32 => F32(v.parse().unwrap()),
-            ast::FloatType::F64 => F64(v.parse().unwrap()),
+            ast::FloatType::F32 => {
+                let v: f32 = v.parse().unwrap();
+                F32(if is_negative { -v } else { v })
+            }
+            ast::FloatType::F64 => {
+                let v: f64 = v.parse().unwrap();
+                F64(if is_negative { -v } else { v })
+            }
         })
     }
 
-- 
2.43.0


From e7ff28477b536116570aa0a5519d68e5fbc63245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 07/11] fix: report unsupported floating point literals instead
 of panicking

---
 .../src/intermediate_language/translation.rs  | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index c3726c0..4495cf3 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -378,25 +378,34 @@ impl<'a> Translator<'a> {
 
     fn translate_float(
         &self,
-        _span: Span,
+        file_id: FileId,
+        span: Span,
         is_negative: bool,
         v: &str,
         type_: &ast::FloatType,
     ) -> Option<FloatLiteral> {
         use FloatLiteral::*;
 
-        // TODO error messages
         // TODO: hex parsing and other formats
-        Some(match type_ {
-            ast::FloatType::F32 => {
-                let v: f32 = v.parse().unwrap();
-                F32(if is_negative { -v } else { v })
-            }
-            ast::FloatType::F64 => {
-                let v: f64 = v.parse().unwrap();
-                F64(if is_negative { -v } else { v })
+        let literal = match type_ {
+            ast::FloatType::F32 => v
+                .parse::<f32>()
+                .map(|v| F32(if is_negative { -v } else { v })),
+            ast::FloatType::F64 => v
+                .parse::<f64>()
+                .map(|v| F64(if is_negative { -v } else { v })),
+        };
+        match literal {
+            Ok(literal) => Some(literal),
+            Err(_) => {
+                self.ctx.emit_error(
+                    ErrorKind::NUMERICAL_PARSE_ERROR,
+                    [Label::primary(file_id, span)],
+                    Some("Unsupported floating point literal"),
+                );
+                None
             }
-        })
+        }
     }
 
     fn translate_literal(
@@ -460,7 +469,7 @@ impl<'a> Translator<'a> {
                 | LiteralKind::Integer { is_negative, value },
                 SimpleType(Float(type_)),
             ) => self
-                .translate_float(literal.span, *is_negative, value, type_)
+                .translate_float(current_file_id, literal.span, *is_negative, value, type_)
                 .map(Literal::Float),
             (LiteralKind::String(s), String) => Some(Literal::String(s.clone())),
             (LiteralKind::List(literals), Vector(type_)) => {
-- 
2.43.0


From 43fe45fb22128c1f801d2c9d376b8903abb748cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 08/11] fix: reject implicit enum values that do not fit the
 enum type

---
 .../src/intermediate_language/translation.rs  | 22 +++++++++++++------
 crates/planus-types/src/intermediate.rs       | 14 ++++++++++++
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 4495cf3..c0aa440 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1205,11 +1205,10 @@ impl<'a> Translator<'a> {
         }
 
         let mut variants: IndexMap<IntegerLiteral, EnumVariant> = IndexMap::new();
-        let mut next_value = IntegerLiteral::default_value_from_type(&decl.type_);
+        let mut next_value = Some(IntegerLiteral::default_value_from_type(&decl.type_));
         for (ident, variant) in decl.variants.iter() {
-            let mut value = next_value;
             let name = self.ctx.resolve_identifier(*ident);
-            if let Some(assignment) = &variant.value {
+            let value = if let Some(assignment) = &variant.value {
                 if let Some(v) = self.translate_integer(
                     current_file_id,
                     assignment.span,
@@ -1217,11 +1216,20 @@ impl<'a> Translator<'a> {
                     &assignment.value,
                     &decl.type_,
                 ) {
-                    value = v;
+                    v
                 } else {
                     continue;
-                };
-            }
+                }
+            } else if let Some(v) = next_value {
+                v
+            } else {
+                self.ctx.emit_error(
+                    ErrorKind::NUMERICAL_RANGE_ERROR,
+                    [Label::primary(current_file_id, variant.span)],
+                    Some("The implicit value of this variant is out of range for the enum type"),
+                );
+                continue;
+            };
             match variants.entry(value) {
                 Entry::Occupied(entry) => {
                     self.ctx.emit_error(
@@ -1245,7 +1253,7 @@ impl<'a> Translator<'a> {
                     });
                 }
             }
-            next_value = value.next();
+            next_value = value.checked_next();
         }
         Enum {
             variants,
diff --git a/crates/planus-types/src/intermediate.rs b/crates/planus-types/src/intermediate.rs
index c59eb5b..94788fc 100644
--- a/crates/planus-types/src/intermediate.rs
+++ b/crates/planus-types/src/intermediate.rs
@@ -624,6 +624,20 @@ impl IntegerLiteral {
             Self::I64(n) => Self::I64(n.wrapping_add(1)),
         }
     }
+
+    /// The next value, or `None` if it does not fit in the type
+    pub fn checked_next(&self) -> Option<Self> {
+        Some(match self {
+            Self::U8(n) => Self::U8(n.checked_add(1)?),
+            Self::I8(n) => Self::I8(n.checked_add(1)?),
+            Self::U16(n) => Self::U16(n.checked_add(1)?),
+            Self::I16(n) => Self::I16(n.checked_add(1)?),
+            Self::U32(n) => Self::U32(n.checked_add(1)?),
+            Self::I32(n) => Self::I32(n.checked_add(1)?),
+            Self::U64(n) => Self::U64(n.checked_add(1)?),
+            Self::I64(n) => Self::I64(n.checked_add(1)?),
+        })
+    }
 }
 
 impl From<&crate::ast::BuiltinType> for TypeKind {
-- 
2.43.0


From c796ff5761fb70f6b3e49cb42dc8ea2ef27c955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 09/11] fix: reject field ids that do not fit in a vtable

---
 .../src/intermediate_language/translation.rs     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index c0aa440..179b4c2 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -971,11 +971,19 @@ impl<'a> Translator<'a> {
             }
         }
 
-        if type_.kind.is_type_with_tag() {
-            *next_vtable_index = vtable_index + 2;
-        } else {
-            *next_vtable_index = vtable_index + 1;
+        // The size of a vtable is stored as an u16: two bytes per slot plus a four byte header
+        const MAX_VTABLE_SLOTS: u32 = (u16::MAX as u32 - 4) / 2;
+        let slots = if type_.kind.is_type_with_tag() { 2 } else { 1 };
+        if vtable_index > MAX_VTABLE_SLOTS - slots {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_RANGE_ERROR,
+                [Label::primary(current_file_id, field.span)],
+                Some("The id of this field is too large"),
+            );
+            *has_id_error = true;
+            return None;
         }
+        *next_vtable_index = vtable_index + slots;
 
         *max_vtable_size = (*max_vtable_size).max(2 * *next_vtable_index + 4);
 
-- 
2.43.0


From 096679d87dd228fed7164654cd406d63ad333392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 10/11] fix: do not let force_align misalign the other fields
 of a table

---
 .../src/intermediate_language/translation.rs           | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 179b4c2..db69b46 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1495,7 +1495,7 @@ impl<'a> Translator<'a> {
             if let DeclarationKind::Table(decl_kind) = &mut decl.kind {
                 for field in decl_kind.fields.values_mut() {
                     let mut tag_kind = TableFieldTagKind::None;
-                    let (value_size, mut alignment) = match &field.type_.kind {
+                    let (value_size, alignment) = match &field.type_.kind {
                         TypeKind::Table(_) | TypeKind::String => (4, 4),
                         TypeKind::Vector(inner) => {
                             if matches!(&inner.kind, TypeKind::Union(_)) {
@@ -1534,9 +1534,11 @@ impl<'a> Translator<'a> {
                     };
                     if let Some((forced_alignment, forced_alignment_span)) = field.forced_alignment
                     {
-                        if alignment <= forced_alignment {
-                            alignment = forced_alignment;
-                        } else {
+                        // Generated code only aligns fields to their natural alignment and relies
+                        // on the fields being ordered by it, so a forced alignment must not
+                        // influence the order.
+                        max_alignment = max_alignment.max(forced_alignment);
+                        if alignment > forced_alignment {
                             self.ctx.emit_error(
                                 ErrorKind::MISC_SEMANTIC_ERROR,
                                 [
-- 
2.43.0


From 7e40d83c53b686790306b5660fb03674eafea953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 11/11] verif: proof hooks behind cfg(kani)

---
 crates/planus/src/backvec.rs | 18 ++++++++++++++++++
 crates/planus/src/lib.rs     | 30 +++++++++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/crates/planus/src/backvec.rs b/crates/planus/src/backvec.rs
index 0eb1f19..26adf9b 100644
--- a/crates/planus/src/backvec.rs
+++ b/crates/planus/src/backvec.rs
@@ -115,6 +115,24 @@ impl BackVec {
     }
 }
 
+#[cfg(kani)]
+impl BackVec {
+    /// A `BackVec` whose `len` last bytes are not backed by memory: only usable for proofs
+    /// about the bytes written in front of them, and must not be dropped.
+    pub unsafe fn verif_window(ptr: NonNull<u8>, free: usize, len: usize) -> Self {
+        Self {
+            ptr,
+            offset: free,
+            capacity: free + len,
+        }
+    }
+
+    /// The first `len` bytes
+    pub unsafe fn verif_front(&self, len: usize) -> &[u8] {
+        core::slice::from_raw_parts(self.ptr.as_ptr().add(self.offset), len)
+    }
+}
+
 impl Drop for BackVec {
     fn drop(&mut self) {
         unsafe {
diff --git a/crates/planus/src/lib.rs b/crates/planus/src/lib.rs
index a1db2d3..ac82f87 100644
--- a/crates/planus/src/lib.rs
+++ b/crates/planus/src/lib.rs
@@ -1,4 +1,5 @@
-#![deny(missing_docs)]
+#![cfg_attr(not(kani), deny(missing_docs))]
+#![allow(unexpected_cfgs)] // cfg(kani)
 #![doc = include_str!("../README.md")]
 #![cfg_attr(not(feature = "std"), no_std)]
 mod backvec;
@@ -37,6 +38,33 @@ pub use crate::{
     vectors::Vector,
 };
 
+// Access to private items for the proof harnesses: only compiled by `cargo kani`
+#[cfg(kani)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::backvec::BackVec;
+
+    pub fn set_backvec(builder: &mut crate::Builder, backvec: BackVec) {
+        core::mem::forget(core::mem::replace(&mut builder.inner, backvec));
+    }
+
+    pub fn prepare_write(
+        builder: &mut crate::Builder,
+        size: usize,
+        alignment_mask: usize,
+    ) -> usize {
+        builder.prepare_write(size, alignment_mask)
+    }
+
+    pub fn write(builder: &mut crate::Builder, buffer: &[u8]) {
+        builder.write(buffer)
+    }
+
+    pub fn write_vtable(builder: &mut crate::Builder, vtable: &[u8]) -> usize {
+        builder.write_vtable(vtable)
+    }
+}
+
 #[doc(hidden)]
 pub const fn check_version_compatibility(s: &str) {
     match s.as_bytes() {
-- 
2.43.0

