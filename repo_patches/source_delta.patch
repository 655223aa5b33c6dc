From fb63da5ef8dc80b5013afd894f22b7186cef7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 01/35] fix: check the number of tags instead of four times
 that when indexing union vectors

---
 crates/planus/src/union_vectors/union_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/union_vectors/union_vector.rs b/crates/planus/src/union_vectors/union_vector.rs
index 82749cd..e677306 100644
--- a/crates/planus/src/union_vectors/union_vector.rs
+++ b/crates/planus/src/union_vectors/union_vector.rs
@@ -420,7 +420,7 @@ impl<'buf, T: VectorReadUnion<'buf>> UnionVectorIndex<'buf, T> for usize {
     #[inline]
     unsafe fn get_unchecked(self, vector: UnionVector<'buf, T>) -> Self::Output {
         debug_assert!(self < vector.len);
-        debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.tags.len());
+        debug_assert!(vector.len <= vector.tags.len());
         debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.values.len());
         let tag = *vector.tags.buffer.get_unchecked(self);
         <T as VectorReadUnion>::from_buffer(vector.values, tag, 4 * self)
-- 
2.43.0


From 00051f899742fd901e7d7e6a70289ea042132ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 02/35] fix: store the file identifier at bytes 4 to 8, after
 the root offset

---
 crates/planus/src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/planus/src/builder.rs b/crates/planus/src/builder.rs
index 4c111d7..fc70514 100644
--- a/crates/planus/src/builder.rs
+++ b/crates/planus/src/builder.rs
@@ -263,8 +263,9 @@ impl Builder {
                 8,
                 <Offset<T> as Primitive>::ALIGNMENT_MASK.max(self.alignment_mask),
             ) as u32;
-            self.write(&(offset - 4 - root.offset).to_le_bytes());
+            // The buffer is written from the back, so the identifier goes first
             self.write(&file_identifier);
+            self.write(&(offset - root.offset).to_le_bytes());
         } else {
             let offset = self.prepare_write(
                 4,
-- 
2.43.0


From b74ca9f11adeb6289201a76fb639cbbf31138510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 03/35] fix: align the elements of vectors written from arrays

---
 crates/planus/src/impls/array.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/planus/src/impls/array.rs b/crates/planus/src/impls/array.rs
index 49d3024..9e52099 100644
--- a/crates/planus/src/impls/array.rs
+++ b/crates/planus/src/impls/array.rs
@@ -17,20 +17,20 @@ where
         let tmp =
             unsafe { (&tmp as *const [MaybeUninit<T::Value>; N] as *const [T::Value; N]).read() };
         unsafe {
+            // It is the elements that have to be aligned, not the length in front of them
             builder.write_with(
-                4 + T::STRIDE.checked_mul(self.len()).unwrap(),
+                T::STRIDE.checked_mul(self.len()).unwrap(),
                 P::ALIGNMENT_MASK.max(3),
                 |buffer_position, bytes| {
-                    let bytes = bytes.as_mut_ptr();
-
-                    (self.len() as u32).write(
-                        Cursor::new(&mut *(bytes as *mut [MaybeUninit<u8>; 4])),
-                        buffer_position,
-                    );
-
-                    T::write_values(&tmp, bytes.add(4), buffer_position - 4);
+                    T::write_values(&tmp, bytes.as_mut_ptr(), buffer_position);
                 },
-            )
+            );
+            builder.write_with(4, 0, |buffer_position, bytes| {
+                (self.len() as u32).write(
+                    Cursor::new(&mut *(bytes.as_mut_ptr() as *mut [MaybeUninit<u8>; 4])),
+                    buffer_position,
+                );
+            });
         };
         builder.current_offset()
     }
-- 
2.43.0


From a86dd473826722206fdab5b410d34463a3b5f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 04/35] fix: accept string offsets for fields with a default
 value

---
 crates/planus/src/impls/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/impls/offset.rs b/crates/planus/src/impls/offset.rs
index d31165b..d069f90 100644
--- a/crates/planus/src/impls/offset.rs
+++ b/crates/planus/src/impls/offset.rs
@@ -40,7 +40,7 @@ impl<T: ?Sized> WriteAsOptional<Offset<T>> for Offset<T> {
     }
 }
 
-impl<T: ?Sized, D> WriteAsDefault<Offset<T>, D> for Offset<T> {
+impl<T: ?Sized, D: ?Sized> WriteAsDefault<Offset<T>, D> for Offset<T> {
     type Prepared = Self;
     #[inline]
     fn prepare(&self, _builder: &mut Builder, _default: &D) -> Option<Self> {
-- 
2.43.0


From 83c1062011d68fc3fcacd2307b47bae9b8f37f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 05/35] fix: return an error for union vectors with only tags
 or only values

---
 crates/planus/src/table_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/table_reader.rs b/crates/planus/src/table_reader.rs
index 981ca94..6da41df 100644
--- a/crates/planus/src/table_reader.rs
+++ b/crates/planus/src/table_reader.rs
@@ -163,7 +163,7 @@ impl<'buf> Table<'buf> {
             let values_offset = u16::from_le_bytes(offset[2..].try_into().unwrap()) as usize;
             match (tags_offset, values_offset) {
                 (0, 0) => Ok(None),
-                (0, _) | (_, 0) => todo!(),
+                (0, _) | (_, 0) => Err(make_error(ErrorKind::InvalidOffset)),
                 (tags_offset, values_offset) => Ok(Some(
                     T::from_buffer(self.object, tags_offset, values_offset).map_err(make_error)?,
                 )),
-- 
2.43.0


From 242732ebce08b7a5111828b1d1c376469f59598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 06/35] fix: accept digit separators in integer literals and
 report integers without digits

---
 .../src/intermediate_language/translation.rs  | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 48d0049..0082e00 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -322,17 +322,17 @@ impl<'a> Translator<'a> {
         }
         let base_t = T::from(base).unwrap();
         let mut result = T::from(0u8).unwrap();
+        let mut seen_digit = false;
         for c in v {
             let cur = match c {
                 b'0'..=b'9' => c - b'0',
                 b'a'..=b'f' if base == 16 => c - b'a' + 0xa,
                 b'A'..=b'F' if base == 16 => c - b'A' + 0xa,
-                _ => {
-                    // TODO error message
-                    // Can it even happen?
-                    return None;
-                }
+                // digit separators
+                b'_' => continue,
+                _ => unreachable!("the lexer only accepts digits and digit separators"),
             };
+            seen_digit = true;
 
             match result.checked_mul(&base_t).and_then(|v| {
                 if is_negative {
@@ -358,6 +358,15 @@ impl<'a> Translator<'a> {
             }
         }
 
+        if !seen_digit {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_PARSE_ERROR,
+                [Label::primary(file_id, span)],
+                Some("Integer has no digits"),
+            );
+            return None;
+        }
+
         Some(result)
     }
 
-- 
2.43.0


From 6573e9e011224f79664f245f290e60ba70b5646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 07/35] fix: accept the escape sequence for a backslash in
 strings

---
 crates/planus-lexer/src/text_lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/planus-lexer/src/text_lexer.rs b/crates/planus-lexer/src/text_lexer.rs
index 64eaa10..6939b7f 100644
--- a/crates/planus-lexer/src/text_lexer.rs
+++ b/crates/planus-lexer/src/text_lexer.rs
@@ -55,6 +55,7 @@ impl Text {
                     "\"" => out.push('"'),
                     "'" => out.push('\''),
                     "/" => out.push('/'),
+                    "\\" => out.push('\\'),
                     _ => {
                         error.get_or_insert(LexicalError::new("Invalid escape sequence", span));
                     }
-- 
2.43.0


From 0e0071a8ccadcfc003ef7fc7919f0387a8be8b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:44 +0000
Subject: [PATCH 08/35] fix: report float literals that are unparsable or out
 of range, and keep their sign

---
 .../src/intermediate_language/translation.rs  | 55 ++++++++++++++++---
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 0082e00..01f8fdf 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -372,18 +372,59 @@ impl<'a> Translator<'a> {
 
     fn translate_float(
         &self,
-        _span: Span,
-        _is_negative: bool,
+        file_id: FileId,
+        span: Span,
+        is_negative: bool,
         v: &str,
         type_: &ast::FloatType,
     ) -> Option<FloatLiteral> {
         use FloatLiteral::*;
 
-        // TODO error messages
-        // TODO: hex parsing and other formats
+        let invalid = |error_kind, msg: &str| {
+            self.ctx
+                .emit_error(error_kind, [Label::primary(file_id, span)], Some(msg));
+        };
+
+        let v = v.replace('_', "");
+        let digits = if let Some(hex) = v.strip_prefix("0x").or_else(|| v.strip_prefix("0X")) {
+            match u128::from_str_radix(hex, 16) {
+                Ok(value) => value.to_string(),
+                Err(_) => {
+                    // TODO: support hexadecimal floats
+                    invalid(
+                        ErrorKind::NUMERICAL_PARSE_ERROR,
+                        "Hexadecimal floating point literals are not supported",
+                    );
+                    return None;
+                }
+            }
+        } else {
+            v
+        };
+
+        macro_rules! parse {
+            ($type_:ty) => {
+                match digits.parse::<$type_>() {
+                    Ok(value) if value.is_infinite() && digits != "inf" => {
+                        invalid(
+                            ErrorKind::NUMERICAL_RANGE_ERROR,
+                            concat!("Float is out of range for type ", stringify!($type_)),
+                        );
+                        return None;
+                    }
+                    Ok(value) if is_negative => -value,
+                    Ok(value) => value,
+                    Err(_) => {
+                        invalid(ErrorKind::NUMERICAL_PARSE_ERROR, "Invalid float");
+                        return None;
+                    }
+                }
+            };
+        }
+
         Some(match type_ {
-            ast::FloatType::F32 => F32(v.parse().unwrap()),
-            ast::FloatType::F64 => F64(v.parse().unwrap()),
+            ast::FloatType::F32 => F32(parse!(f32)),
+            ast::FloatType::F64 => F64(parse!(f64)),
         })
     }
 
@@ -448,7 +489,7 @@ impl<'a> Translator<'a> {
                 | LiteralKind::Integer { is_negative, value },
                 SimpleType(Float(type_)),
             ) => self
-                .translate_float(literal.span, *is_negative, value, type_)
+                .translate_float(current_file_id, literal.span, *is_negative, value, type_)
                 .map(Literal::Float),
             (LiteralKind::String(s), String) => Some(Literal::String(s.clone())),
             (LiteralKind::List(literals), Vector(type_)) => {
-- 
2.43.0


From 5b08fe4cc6d9164284a9df9d44954b841820e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:44 +0000
Subject: [PATCH 09/35] fix: generate valid code for infinite and NaN defaults

---
 crates/planus-codegen/src/rust/mod.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index bc91782..9021b7e 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -10,7 +10,9 @@ use eyre::Context;
 use heck::{ToSnakeCase, ToUpperCamelCase};
 use planus_types::{
     ast::{FloatType, IntegerType},
-    intermediate::{self, AbsolutePath, AssignMode, DeclarationIndex, Literal, TableFieldTagKind},
+    intermediate::{
+        self, AbsolutePath, AssignMode, DeclarationIndex, FloatLiteral, Literal, TableFieldTagKind,
+    },
 };
 
 use super::backend::{
@@ -863,8 +865,9 @@ impl Backend for RustBackend {
                         read_type = vtable_type.clone();
                         owned_type = vtable_type.clone();
                         create_trait = format!("WriteAsDefault<{owned_type}, {owned_type}>");
-                        impl_default_code = format!("{lit}").into();
+                        let lit = float_literal(lit);
                         serialize_default = Some(format!("&{lit}").into());
+                        impl_default_code = lit.into();
                         deserialize_default = Some(impl_default_code.clone());
                     }
                     AssignMode::Optional => {
@@ -1038,6 +1041,22 @@ fn integer_type(type_: &IntegerType) -> &'static str {
     }
 }
 
+fn float_literal(lit: &FloatLiteral) -> String {
+    let (type_, value) = match *lit {
+        FloatLiteral::F32(v) => ("f32", f64::from(v)),
+        FloatLiteral::F64(v) => ("f64", v),
+    };
+    if value.is_nan() {
+        format!("::core::primitive::{type_}::NAN")
+    } else if value == f64::INFINITY {
+        format!("::core::primitive::{type_}::INFINITY")
+    } else if value == f64::NEG_INFINITY {
+        format!("::core::primitive::{type_}::NEG_INFINITY")
+    } else {
+        format!("{lit}")
+    }
+}
+
 fn float_type(type_: &FloatType) -> &'static str {
     match &type_ {
         FloatType::F32 => "f32",
-- 
2.43.0


From b9baa514abfdbd487433735c4f4a84c09c6f4b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:25 +0000
Subject: [PATCH 10/35] fix: keep type descriptions aligned with declarations
 when a declaration is a duplicate

---
 .../src/intermediate_language/translation.rs                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 01f8fdf..9c1827a 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -88,6 +88,7 @@ impl<'a> Translator<'a> {
             .extend(schema.docstrings.locations.iter().cloned());
         namespace.docstrings.default_docstring = default_docstring_for_namespace(&namespace_path);
 
+        let mut new_declarations = Vec::new();
         for decl in schema.type_declarations.values() {
             let name = self.ctx.resolve_identifier(decl.identifier.value);
             match self
@@ -112,10 +113,11 @@ impl<'a> Translator<'a> {
                         .declaration_ids
                         .insert(name, DeclarationIndex(entry.index()));
                     entry.insert(decl.clone());
+                    new_declarations.push(decl);
                 }
             }
         }
-        for decl in schema.type_declarations.values() {
+        for decl in new_declarations {
             self.descriptions.push(match &decl.kind {
                 ast::TypeDeclarationKind::Table(_) => TypeDescription::Table,
                 ast::TypeDeclarationKind::Struct(_) => TypeDescription::Struct {
-- 
2.43.0


From 0878d602f199e3c0da10d760a174f6345eecfedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:03 +0000
Subject: [PATCH 11/35] fix: report implicit enum values past the largest value
 of the type

---
 .../src/intermediate_language/translation.rs  | 22 +++++++++++++------
 crates/planus-types/src/intermediate.rs       | 15 +++++++++++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 9c1827a..8371f4f 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1227,11 +1227,10 @@ impl<'a> Translator<'a> {
         }
 
         let mut variants: IndexMap<IntegerLiteral, EnumVariant> = IndexMap::new();
-        let mut next_value = IntegerLiteral::default_value_from_type(&decl.type_);
+        let mut next_value = Some(IntegerLiteral::default_value_from_type(&decl.type_));
         for (ident, variant) in decl.variants.iter() {
-            let mut value = next_value;
             let name = self.ctx.resolve_identifier(*ident);
-            if let Some(assignment) = &variant.value {
+            let value = if let Some(assignment) = &variant.value {
                 if let Some(v) = self.translate_integer(
                     current_file_id,
                     assignment.span,
@@ -1239,11 +1238,20 @@ impl<'a> Translator<'a> {
                     &assignment.value,
                     &decl.type_,
                 ) {
-                    value = v;
+                    v
                 } else {
                     continue;
-                };
-            }
+                }
+            } else if let Some(value) = next_value {
+                value
+            } else {
+                self.ctx.emit_error(
+                    ErrorKind::NUMERICAL_RANGE_ERROR,
+                    [Label::primary(current_file_id, variant.span)],
+                    Some("The implicit value of this variant is out of range for the type of the enum"),
+                );
+                continue;
+            };
             match variants.entry(value) {
                 Entry::Occupied(entry) => {
                     self.ctx.emit_error(
@@ -1267,7 +1275,7 @@ impl<'a> Translator<'a> {
                     });
                 }
             }
-            next_value = value.next();
+            next_value = value.checked_next();
         }
         Enum {
             variants,
diff --git a/crates/planus-types/src/intermediate.rs b/crates/planus-types/src/intermediate.rs
index c59eb5b..e995925 100644
--- a/crates/planus-types/src/intermediate.rs
+++ b/crates/planus-types/src/intermediate.rs
@@ -624,6 +624,21 @@ impl IntegerLiteral {
             Self::I64(n) => Self::I64(n.wrapping_add(1)),
         }
     }
+
+    /// The successor of this value, or `None` if it is the largest value of its type
+    #[must_use]
+    pub fn checked_next(&self) -> Option<Self> {
+        match self {
+            Self::U8(n) => n.checked_add(1).map(Self::U8),
+            Self::I8(n) => n.checked_add(1).map(Self::I8),
+            Self::U16(n) => n.checked_add(1).map(Self::U16),
+            Self::I16(n) => n.checked_add(1).map(Self::I16),
+            Self::U32(n) => n.checked_add(1).map(Self::U32),
+            Self::I32(n) => n.checked_add(1).map(Self::I32),
+            Self::U64(n) => n.checked_add(1).map(Self::U64),
+            Self::I64(n) => n.checked_add(1).map(Self::I64),
+        }
+    }
 }
 
 impl From<&crate::ast::BuiltinType> for TypeKind {
-- 
2.43.0


From d9ea697f97f2a54f6e7cfb84a410e331091eb8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 12/35] fix: give the pretty printer the source when it prints
 union variant types

---
 crates/planus-translation/src/ast_convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/ast_convert.rs b/crates/planus-translation/src/ast_convert.rs
index f0a913d..8fcfe2e 100644
--- a/crates/planus-translation/src/ast_convert.rs
+++ b/crates/planus-translation/src/ast_convert.rs
@@ -918,7 +918,8 @@ impl CstConverter<'_> {
         } else {
             let mut type_name = String::new();
             // TODO: figure out if we should keep maintaining that entire pretty printer or do something simpler
-            let mut printer = PrettyPrinter::new(&mut type_name, "");
+            let source = self.ctx.get_source(self.schema.file_id);
+            let mut printer = PrettyPrinter::new(&mut type_name, source);
             printer.write_type(&variant.type_).unwrap();
             let default_docstring =
                 format!("The variant of type `{type_name}` in the union `{parent_ident}`",);
-- 
2.43.0


From 51d8bc8831d10932f70362bfb75e604c18d819db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:46 +0000
Subject: [PATCH 13/35] fix: report unreadable files when formatting instead of
 panicking

---
 crates/planus-translation/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/lib.rs b/crates/planus-translation/src/lib.rs
index 10c8779..543b870 100644
--- a/crates/planus-translation/src/lib.rs
+++ b/crates/planus-translation/src/lib.rs
@@ -25,7 +25,7 @@ pub use intermediate_language::{translate_files, translate_files_with_options};
 
 pub fn format_file(path: &impl AsRef<Path>, ignore_errors: bool) -> Option<String> {
     let mut ctx = ctx::Ctx::default();
-    let file_id = ctx.add_file(path, []).unwrap();
+    let file_id = ctx.add_file(path, [])?;
     if let Some(parsed) = ctx.parse_file(file_id) {
         if ctx.has_errors() && !ignore_errors {
             None
-- 
2.43.0


From 47a559806831930cc9b1628cc2c6861bfd67dadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 14/35] fix: reject field ids and tables that do not fit the 16
 bit size of a vtable

---
 .../src/intermediate_language/translation.rs  | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 8371f4f..7c79f58 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -949,12 +949,25 @@ impl<'a> Translator<'a> {
                     value,
                     is_negative,
                 }) => {
-                    if let Some(new_index) = self.translate_integer_generic::<u32>(
-                        current_file_id,
-                        *span,
-                        *is_negative,
-                        value,
-                    ) {
+                    let new_index = self
+                        .translate_integer_generic::<u32>(
+                            current_file_id,
+                            *span,
+                            *is_negative,
+                            value,
+                        )
+                        .filter(|new_index| {
+                            let fits = *new_index <= u32::from(u16::MAX);
+                            if !fits {
+                                self.ctx.emit_error(
+                                    ErrorKind::NUMERICAL_RANGE_ERROR,
+                                    [Label::primary(current_file_id, *span)],
+                                    Some("Ids cannot be larger than 65535"),
+                                );
+                            }
+                            fits
+                        });
+                    if let Some(new_index) = new_index {
                         if type_.kind.is_type_with_tag() {
                             if new_index > 0 {
                                 // The specification says that the id assignment for unions specifies the second
@@ -1154,6 +1167,17 @@ impl<'a> Translator<'a> {
             })
             .collect::<IndexMap<_, _>>();
 
+        if max_vtable_size > u16::MAX as u32 {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_RANGE_ERROR,
+                [Label::primary(current_file_id, definition_span)],
+                Some(&format!(
+                    "Table needs a vtable of {max_vtable_size} bytes, but the largest possible size is {} bytes",
+                    u16::MAX
+                )),
+            );
+        }
+
         let mut seen_vtable_ids: BTreeMap<u32, Span> = BTreeMap::new();
         let mut insert = |vtable_index, span| match seen_vtable_ids.entry(vtable_index) {
             btree_map::Entry::Vacant(entry) => {
-- 
2.43.0


From db9583487e2b52bfe5e55b3a8930c42e3f6072b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 15/35] fix: reject structs and tables whose size overflows
 instead of panicking or truncating it

---
 .../src/intermediate_language/translation.rs  | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 7c79f58..b88d26d 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1434,8 +1434,26 @@ impl<'a> Translator<'a> {
             }};
         }
 
-        fn round_up(value: u32, alignment: u32) -> u32 {
-            value.div_ceil(alignment) * alignment
+        fn round_up(value: u32, alignment: u32) -> Option<u32> {
+            value.div_ceil(alignment).checked_mul(alignment)
+        }
+
+        macro_rules! checked_size {
+            ($value:expr) => {
+                match $value {
+                    Some(value) => value,
+                    None => {
+                        let (ast_decl, _ast_kind) = get_ast_decl!();
+                        self.ctx.emit_error(
+                            ErrorKind::NUMERICAL_RANGE_ERROR,
+                            [Label::primary(ast_decl.file_id, ast_decl.definition_span)],
+                            Some("Struct is too large"),
+                        );
+                        parents.pop();
+                        return None;
+                    }
+                }
+            };
         }
 
         let mut offset = 0;
@@ -1466,8 +1484,8 @@ impl<'a> Translator<'a> {
                 | SimpleType::Float(FloatType::F64) => (8, 8),
             };
 
+            offset = checked_size!(round_up(offset, cur_alignment));
             let (_ast_decl, ast_kind) = get_ast_decl!();
-            offset = round_up(offset, cur_alignment);
             let decl = get_struct_decl!();
             decl.fields[field_id].offset = offset;
             decl.fields[field_id].size = cur_size;
@@ -1475,7 +1493,7 @@ impl<'a> Translator<'a> {
                 decl.fields[field_id - 1].padding_after_field =
                     offset - decl.fields[field_id - 1].offset - decl.fields[field_id - 1].size;
             }
-            offset += cur_size;
+            offset = checked_size!(offset.checked_add(cur_size));
             if max_alignment_span.is_none() || max_alignment < cur_alignment {
                 max_alignment_span = Some(ast_kind.fields[field_id].type_.span);
                 max_alignment = cur_alignment;
@@ -1508,7 +1526,7 @@ impl<'a> Translator<'a> {
             }
         }
 
-        offset = round_up(offset, max_alignment);
+        offset = checked_size!(round_up(offset, max_alignment));
         let decl = get_struct_decl!();
         if let Some((_, last_field)) = decl.fields.last_mut() {
             last_field.padding_after_field = offset - last_field.offset - last_field.size;
@@ -1599,6 +1617,16 @@ impl<'a> Translator<'a> {
                     field.object_alignment = alignment;
                     field.object_alignment_mask = alignment - 1;
                 }
+                if max_size > u16::MAX as u32 {
+                    self.ctx.emit_error(
+                        ErrorKind::NUMERICAL_RANGE_ERROR,
+                        [Label::primary(decl.file_id, decl.definition_span)],
+                        Some(&format!(
+                            "The fields of the table take {max_size} bytes, but the largest possible size is {} bytes",
+                            u16::MAX
+                        )),
+                    );
+                }
                 decl_kind.max_size = max_size;
                 decl_kind.max_alignment = max_alignment;
                 let mut indices = (0..decl_kind.fields.len()).collect::<Vec<_>>();
-- 
2.43.0


From 11940532f073d61ef50f807a66efc84d6f9ae8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 16/35] fix: reject union variants that share a name and unions
 with more than 255 variants

---
 .../src/intermediate_language/translation.rs  | 91 +++++++++++++------
 1 file changed, 63 insertions(+), 28 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index b88d26d..a498145 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1,4 +1,4 @@
-use std::collections::{btree_map, BTreeMap, HashSet};
+use std::collections::{btree_map, BTreeMap, BTreeSet, HashSet};
 
 use codespan::{FileId, Span};
 use codespan_reporting::diagnostic::Label;
@@ -1323,39 +1323,74 @@ impl<'a> Translator<'a> {
             );
         }
 
-        let variants = decl
+        let explicit_names: BTreeSet<String> = decl
             .variants
             .values()
-            .filter_map(|variant| {
-                let type_ =
-                    self.translate_type(current_namespace, current_file_id, &variant.type_)?;
-                self.check_valid_union_variant_type(
-                    current_file_id,
-                    &type_,
-                    variant.ident.is_some(),
-                );
-
-                let name = if let Some(ident) = variant.ident {
-                    self.ctx.resolve_identifier(ident.value)
+            .filter_map(|variant| variant.ident.as_ref())
+            .map(|ident| self.ctx.resolve_identifier(ident.value))
+            .collect();
+        let mut variants: IndexMap<String, UnionVariant> = IndexMap::new();
+        for variant in decl.variants.values() {
+            let Some(type_) =
+                self.translate_type(current_namespace, current_file_id, &variant.type_)
+            else {
+                continue;
+            };
+            self.check_valid_union_variant_type(current_file_id, &type_, variant.ident.is_some());
+
+            let name = if let Some(ident) = variant.ident {
+                self.ctx.resolve_identifier(ident.value)
+            } else if let ast::TypeKind::Path(p) = &variant.type_.kind {
+                let parts: Vec<_> = p
+                    .parts
+                    .iter()
+                    .map(|part| self.ctx.resolve_identifier(*part))
+                    .collect();
+                let name = parts.last().unwrap();
+                // Types of different namespaces can share a name
+                if variants.contains_key(name) || explicit_names.contains(name) {
+                    parts.join("_")
                 } else {
-                    // TODO: make sure this is unique
-                    match &variant.type_.kind {
-                        ast::TypeKind::Path(p) => {
-                            self.ctx.resolve_identifier(*p.parts.last().unwrap())
-                        }
-                        _ => String::default(),
-                    }
-                };
+                    name.clone()
+                }
+            } else {
+                continue;
+            };
 
-                Some((
-                    name,
-                    UnionVariant {
+            match variants.entry(name) {
+                Entry::Occupied(entry) => {
+                    self.ctx.emit_error(
+                        ErrorKind::FIELD_DEFINED_TWICE,
+                        [
+                            Label::secondary(current_file_id, entry.get().type_.span)
+                                .with_message("first variant was here"),
+                            Label::primary(current_file_id, type_.span)
+                                .with_message("second variant was here"),
+                        ],
+                        Some(&format!(
+                            "Union has multiple variants with the name {}",
+                            entry.key()
+                        )),
+                    );
+                }
+                Entry::Vacant(entry) => {
+                    entry.insert(UnionVariant {
                         type_,
                         docstrings: variant.docstrings.clone(),
-                    },
-                ))
-            })
-            .collect();
+                    });
+                }
+            }
+        }
+        if variants.len() > u8::MAX as usize {
+            self.ctx.emit_error(
+                ErrorKind::MISC_SEMANTIC_ERROR,
+                decl.variants
+                    .values()
+                    .nth(u8::MAX as usize)
+                    .map(|variant| Label::primary(current_file_id, variant.type_.span)),
+                Some("Unions cannot have more than 255 variants"),
+            );
+        }
         Union { variants }
     }
 
-- 
2.43.0


From 04d4040893bd4b642cfcfde03205eb80471b6115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:45 +0000
Subject: [PATCH 17/35] fix: report root types that do not exist or are not
 tables

---
 .../src/intermediate_language/translation.rs   | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index a498145..6d27099 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -22,6 +22,7 @@ pub struct Translator<'a> {
     declarations: IndexMap<AbsolutePath, Declaration>,
     namespaces: IndexMap<AbsolutePath, Namespace>,
     descriptions: Vec<TypeDescription>,
+    root_types: Vec<(AbsolutePath, FileId, ast::Type)>,
 }
 
 #[derive(Clone)]
@@ -60,6 +61,7 @@ impl<'a> Translator<'a> {
             declarations: Default::default(),
             descriptions: Default::default(),
             namespaces: Default::default(),
+            root_types: Default::default(),
         }
     }
 
@@ -71,6 +73,11 @@ impl<'a> Translator<'a> {
             AbsolutePath::ROOT_PATH
         };
 
+        if let Some((_span, type_)) = &schema.root_type {
+            self.root_types
+                .push((namespace_path.clone(), schema.file_id, type_.clone()));
+        }
+
         let namespace_entry = self.namespaces.entry(namespace_path.clone());
         let mut namespace_index = namespace_entry.index();
         let namespace = namespace_entry.or_default();
@@ -1706,6 +1713,17 @@ impl<'a> Translator<'a> {
                 ),
             );
         }
+        for (namespace, file_id, type_) in &self.root_types {
+            if let Some(root_type) = self.translate_type(namespace, *file_id, type_) {
+                if !matches!(root_type.kind, TypeKind::Table(_)) {
+                    self.ctx.emit_error(
+                        ErrorKind::TYPE_ERROR,
+                        [Label::primary(*file_id, type_.span)],
+                        Some("The root type must be a table"),
+                    );
+                }
+            }
+        }
         let mut parents = IndexMap::new();
         for i in 0..self.ast_declarations.len() {
             self.resolve_struct_sizes(&mut parents, i);
-- 
2.43.0


From 82d9a846b34eb79c9e715481663f130d7c807f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 18/35] fix: label vtable entries in the inspector by their
 vtable slot instead of by declaration order

---
 .../planus-buffer-inspection/src/children.rs  | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/children.rs b/crates/planus-buffer-inspection/src/children.rs
index f0f6d50..904579a 100644
--- a/crates/planus-buffer-inspection/src/children.rs
+++ b/crates/planus-buffer-inspection/src/children.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 
-use planus_types::{ast::IntegerType, intermediate::TypeKind};
+use planus_types::ast::IntegerType;
 
 use crate::{
     object_info::DeclarationInfo, ArrayObject, BoolObject, ByteIndex, EnumObject, FloatObject,
@@ -70,21 +70,15 @@ impl<'a> Children<'a> for VTableObject {
                 1 => callback(Some(Cow::Borrowed("#table_size")), object),
                 n => {
                     let n = n - 2;
-                    if let Some((k, v)) = decl.fields.get_index(n) {
-                        if matches!(v.type_.kind, TypeKind::Union(_)) {
-                            callback(Some(Cow::Owned(format!("offset[union_tag[{k}]]"))), object)
-                        } else {
-                            callback(Some(Cow::Owned(format!("offset[{k}]"))), object)
+                    let name = match decl.get_field_for_vtable_index(n as u32) {
+                        Some((k, _v, true)) => format!("offset[union_tag[{k}]]"),
+                        Some((k, v, false)) if v.type_.kind.is_type_with_tag() => {
+                            format!("offset[union[{k}]]")
                         }
-                    } else if let Some((k, _v)) = decl
-                        .fields
-                        .get_index(n - 1)
-                        .filter(|(_k, v)| matches!(v.type_.kind, TypeKind::Union(_)))
-                    {
-                        callback(Some(Cow::Owned(format!("offset[union[{k}]]"))), object)
-                    } else {
-                        callback(Some(Cow::Owned(format!("offset[{n}]"))), object)
-                    }
+                        Some((k, _v, false)) => format!("offset[{k}]"),
+                        None => format!("offset[{n}]"),
+                    };
+                    callback(Some(Cow::Owned(name)), object)
                 }
             }
         }
-- 
2.43.0


From 4741df0933928510945e2625252a1869e26d2312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 19/35] fix: do not panic in the inspector on fields from a
 newer version of the schema

---
 crates/planus-buffer-inspection/src/children.rs | 8 ++++++--
 crates/planus-buffer-inspection/src/lib.rs      | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/children.rs b/crates/planus-buffer-inspection/src/children.rs
index 904579a..2e07f06 100644
--- a/crates/planus-buffer-inspection/src/children.rs
+++ b/crates/planus-buffer-inspection/src/children.rs
@@ -105,8 +105,12 @@ impl<'a> Children<'a> for TableObject {
             if offset == 0 {
                 continue;
             }
-            let (field_name, _field_decl, is_union_tag) =
-                decl.get_field_for_vtable_index(i as u32).unwrap();
+            let Some((field_name, _field_decl, is_union_tag)) =
+                decl.get_field_for_vtable_index(i as u32)
+            else {
+                // A field from a newer version of the schema
+                continue;
+            };
             let field_name = if is_union_tag {
                 Cow::Owned(format!("union_key[{field_name}]"))
             } else {
diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index 92b1e9d..a8b9b76 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -491,8 +491,11 @@ impl TableObject {
         };
 
         let offset = self.offset + object_offset as u32;
-        let (_field_name, field_decl, is_union_tag) =
-            decl.get_field_for_vtable_index(field_index).unwrap();
+        let Some((_field_name, field_decl, is_union_tag)) =
+            decl.get_field_for_vtable_index(field_index)
+        else {
+            return Ok(None);
+        };
         let object = match field_decl.type_.kind {
             TypeKind::Table(declaration) => Object::Offset(OffsetObject {
                 offset,
-- 
2.43.0


From 560a32af617af57fae31bb36846880a10ac1697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 20/35] fix: do not underflow in the inspector on the union tag
 0

---
 crates/planus-buffer-inspection/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index a8b9b76..d3c71e3 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -278,10 +278,10 @@ impl UnionTagObject {
         buffer: &InspectableFlatbuffer<'a>,
     ) -> Result<Option<(&'a str, &'a UnionVariant)>> {
         let decl = self.resolve_declaration(buffer);
-        if let Some((k, v)) = decl
-            .variants
-            .get_index(self.tag_value(buffer)? as usize - 1)
-        {
+        let Some(index) = (self.tag_value(buffer)? as usize).checked_sub(1) else {
+            return Ok(None);
+        };
+        if let Some((k, v)) = decl.variants.get_index(index) {
             Ok(Some((k, v)))
         } else {
             Ok(None)
@@ -662,7 +662,10 @@ impl UnionObject {
         buffer: &InspectableFlatbuffer<'a>,
     ) -> Result<Option<(&'a str, &'a UnionVariant)>> {
         let decl = self.resolve_declaration(buffer);
-        if let Some((k, v)) = decl.variants.get_index(self.tag as usize - 1) {
+        let Some(index) = (self.tag as usize).checked_sub(1) else {
+            return Ok(None);
+        };
+        if let Some((k, v)) = decl.variants.get_index(index) {
             Ok(Some((k, v)))
         } else {
             Ok(None)
-- 
2.43.0


From 4ba3f07cfd5455fb5d7af77851480f713ae4d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 21/35] fix: support struct members of unions in the inspector

---
 crates/planus-buffer-inspection/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index d3c71e3..4fa4b2b 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -219,6 +219,7 @@ pub struct OffsetObject<'a> {
 pub enum OffsetObjectKind<'a> {
     VTable(DeclarationIndex),
     Table(DeclarationIndex),
+    Struct(DeclarationIndex),
     Vector(&'a Type),
     UnionVectorTags {
         declaration: DeclarationIndex,
@@ -383,6 +384,10 @@ impl<'a> OffsetObject<'a> {
                 offset,
                 declaration,
             })),
+            OffsetObjectKind::Struct(declaration) => Ok(Object::Struct(StructObject {
+                offset,
+                declaration,
+            })),
             OffsetObjectKind::Vector(type_) => Ok(Object::Vector(VectorObject { offset, type_ })),
             OffsetObjectKind::UnionVector {
                 declaration,
@@ -416,6 +421,9 @@ impl<'a> OffsetObject<'a> {
             OffsetObjectKind::Table(index) => {
                 Cow::Owned(format!("&table {}", declarations.get_declaration(index).0))
             }
+            OffsetObjectKind::Struct(index) => {
+                Cow::Owned(format!("&struct {}", declarations.get_declaration(index).0))
+            }
             OffsetObjectKind::Vector(type_) => {
                 Cow::Owned(format!("&[{}]", declarations.format_type_kind(&type_.kind)))
             }
@@ -640,6 +648,9 @@ impl UnionObject {
                     TypeKind::Table(index) => OffsetObjectKind::Table(*index),
                     TypeKind::Vector(type_) => OffsetObjectKind::Vector(type_),
                     TypeKind::String => OffsetObjectKind::String,
+                    TypeKind::SimpleType(SimpleType::Struct(index)) => {
+                        OffsetObjectKind::Struct(*index)
+                    }
                     TypeKind::Array(_, _) | TypeKind::SimpleType(_) | TypeKind::Union(_) => {
                         panic!("Inconsistent declarations")
                     }
-- 
2.43.0


From 600f27deab2bc02cc9151965070ec6515f9beff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 22/35] fix: do not panic in the inspector when drawing on a
 small terminal

---
 crates/planus-inspector/src/lib.rs |  2 +-
 crates/planus-inspector/src/ui.rs  | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index 7ae8af6..0195d73 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -73,7 +73,7 @@ impl HexViewState {
     }
 
     pub fn update_for_area(&mut self, buffer_len: usize, byte_index: usize, area: Rect) {
-        let remaining_width = area.width as usize - self.max_offset_hex_digits - 2;
+        let remaining_width = (area.width as usize).saturating_sub(self.max_offset_hex_digits + 2);
         let eight_groups = (remaining_width + 1) / 25;
         self.line_size = eight_groups * 8;
 
diff --git a/crates/planus-inspector/src/ui.rs b/crates/planus-inspector/src/ui.rs
index 88f0101..f5b5de0 100644
--- a/crates/planus-inspector/src/ui.rs
+++ b/crates/planus-inspector/src/ui.rs
@@ -110,7 +110,7 @@ pub fn draw(f: &mut Frame, inspector: &mut Inspector) {
             let mut area = centered_rect(20, 20, f.area());
             area.height = 3;
             area.width = 21;
-            area
+            area.intersection(f.area())
         } else {
             centered_rect(60, 60, f.area())
         };
@@ -273,7 +273,8 @@ impl<'a> ViewState<'a> {
         if let Some(info_view_data) = &mut self.info_view_data {
             if area.height <= 4 {
                 info_view_data.first_line_shown = info_view_data.first_line_shown.clamp(
-                    (info_view_data.lines.index() + 1).saturating_sub(inner_area.height as usize),
+                    (info_view_data.lines.index() + 1)
+                        .saturating_sub((inner_area.height as usize).max(1)),
                     info_view_data.lines.index(),
                 );
             } else {
@@ -667,7 +668,7 @@ impl Widget for ObjectViewWidget<'_> {
                     area.left() + line.indentation as u16,
                     area.top() + line_index as u16,
                     &line.line,
-                    area.width as usize - line.indentation,
+                    (area.width as usize).saturating_sub(line.indentation),
                     style,
                 );
 
@@ -773,7 +774,13 @@ impl Widget for TreeStateWidget<'_, '_> {
             return;
         }
 
-        for (i, line) in self.tree_state.lines.iter().enumerate() {
+        for (i, line) in self
+            .tree_state
+            .lines
+            .iter()
+            .enumerate()
+            .take(area.height as usize)
+        {
             let style = if i == self.tree_state.lines.index() {
                 CURSOR_STYLE
             } else {
@@ -790,7 +797,7 @@ impl Widget for TreeStateWidget<'_, '_> {
                 area.left() + 2 * line.indent_level as u16,
                 area.top() + i as u16,
                 format!("{}{suffix}", line.node.text),
-                area.width as usize - line.indent_level,
+                (area.width as usize).saturating_sub(2 * line.indent_level),
                 style,
             );
         }
-- 
2.43.0


From b23e24b6b8ba268234be732f5cca23035ce4c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 23/35] fix: do not panic in the inspector when no offset is
 entered

---
 crates/planus-inspector/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index 0195d73..2d70660 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -634,7 +634,10 @@ impl<'a> Inspector<'a> {
                     input.push(c.to_ascii_lowercase());
                 }
                 KeyCode::Enter => {
-                    let addr = usize::from_str_radix(input, 16).unwrap();
+                    let Ok(addr) = usize::from_str_radix(input, 16) else {
+                        // Nothing was entered
+                        return None;
+                    };
                     self.view_stack.push(self.view_state.clone());
                     self.update_byte_pos(addr);
                     self.active_window = ActiveWindow::HexView;
-- 
2.43.0


From d369b94be72e97e06c7e5785da160a2dd32247e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 24/35] fix: do not panic in the inspector when the selected
 lines are outside the shown part of the object

---
 crates/planus-inspector/src/ui.rs | 53 +++++++++++++++++--------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/crates/planus-inspector/src/ui.rs b/crates/planus-inspector/src/ui.rs
index f5b5de0..7d6915d 100644
--- a/crates/planus-inspector/src/ui.rs
+++ b/crates/planus-inspector/src/ui.rs
@@ -625,30 +625,35 @@ impl Widget for ObjectViewWidget<'_> {
 
         if let Some(info_view_data) = &self.info_view_data {
             let selected_line = info_view_data.lines.cur();
-            let mut inner_area = area;
-
-            inner_area.x += selected_line.indentation as u16;
-            inner_area.width =
-                (inner_area.width as usize).saturating_sub(selected_line.indentation) as u16;
-
-            let first_selected_line = selected_line
-                .start_line_index
-                .max(info_view_data.first_line_shown)
-                - info_view_data.first_line_shown;
-            let last_selected_line = selected_line
-                .end_line_index
-                .min(info_view_data.first_line_shown + area.height as usize - 1)
-                - info_view_data.first_line_shown;
-            inner_area.y += first_selected_line as u16;
-            inner_area.height =
-                (inner_area.height as usize).saturating_sub(first_selected_line) as u16;
-
-            inner_area.width = (inner_area.width as usize).min(selected_line.object_width) as u16;
-            inner_area.height = (inner_area.height as usize)
-                .min(last_selected_line - first_selected_line + 1)
-                as u16;
-
-            buf.set_style(inner_area, INNER_AREA_STYLE);
+            let last_line_shown = info_view_data.first_line_shown + area.height as usize - 1;
+            let is_shown = selected_line.start_line_index <= last_line_shown
+                && selected_line.end_line_index >= info_view_data.first_line_shown;
+
+            if is_shown {
+                let mut inner_area = area;
+
+                inner_area.x += selected_line.indentation as u16;
+                inner_area.width =
+                    (inner_area.width as usize).saturating_sub(selected_line.indentation) as u16;
+
+                let first_selected_line = selected_line
+                    .start_line_index
+                    .max(info_view_data.first_line_shown)
+                    - info_view_data.first_line_shown;
+                let last_selected_line = selected_line.end_line_index.min(last_line_shown)
+                    - info_view_data.first_line_shown;
+                inner_area.y += first_selected_line as u16;
+                inner_area.height =
+                    (inner_area.height as usize).saturating_sub(first_selected_line) as u16;
+
+                inner_area.width =
+                    (inner_area.width as usize).min(selected_line.object_width) as u16;
+                inner_area.height = (inner_area.height as usize)
+                    .min(last_selected_line - first_selected_line + 1)
+                    as u16;
+
+                buf.set_style(inner_area, INNER_AREA_STYLE);
+            }
 
             for (line_index, (i, line)) in info_view_data
                 .lines
-- 
2.43.0


From e5422eea93182941cc077016513f4ab9d829bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 25/35] fix: generate valid identifiers for names without
 letters or starting with a digit

---
 crates/planus-codegen/src/rust/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 9021b7e..ac788d1 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -121,8 +121,18 @@ pub struct RpcMethod {}
 
 const BINDING_KIND_TYPES: &str = "types";
 
+/// The conversions to snake case and camel case drop underscores, and what is
+/// left of names like `_1` or `__` is not a valid identifier in Rust.
+fn to_identifier(name: String) -> String {
+    match name.chars().next() {
+        None => "__".to_string(),
+        Some(c) if c.is_ascii_digit() => format!("_{name}"),
+        Some(_) => name,
+    }
+}
+
 fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>) -> String {
-    let name = path.to_snake_case().into();
+    let name = to_identifier(path.to_snake_case()).into();
     namespace_names
         .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
@@ -130,7 +140,7 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 }
 
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
-    let name = path.to_upper_camel_case().into();
+    let name = to_identifier(path.to_upper_camel_case()).into();
     declaration_names
         .declaration_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
@@ -142,7 +152,7 @@ fn reserve_field_name(
     binding_kind: &'static str,
     declaration_names: &mut DeclarationNames<'_, '_>,
 ) -> String {
-    let name = path.to_snake_case().into();
+    let name = to_identifier(path.to_snake_case()).into();
     declaration_names
         .declaration_names
         .try_reserve_repeat(binding_kind, name, '_')
@@ -154,7 +164,7 @@ fn reserve_rust_enum_variant_name(
     binding_kind: &'static str,
     declaration_names: &mut DeclarationNames<'_, '_>,
 ) -> String {
-    let name = path.to_upper_camel_case().into();
+    let name = to_identifier(path.to_upper_camel_case()).into();
     declaration_names
         .declaration_names
         .try_reserve_repeat(binding_kind, name, '_')
@@ -380,7 +390,7 @@ impl Backend for RustBackend {
             "name",
             &mut translation_context.declaration_names,
         );
-        let mut name_with_as = format!("{field_name}_as").to_snake_case();
+        let mut name_with_as = to_identifier(format!("{field_name}_as").to_snake_case());
         if name_with_as == "as" {
             name_with_as = format!("{field_name}_as");
         }
-- 
2.43.0


From 69afc2bb973f4ba4480dc4bc4023982a7c387e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 26/35] fix: reserve the names of types and modules in the
 module they are generated in

---
 crates/planus-codegen/src/backend.rs          |  2 +-
 .../planus-codegen/src/backend_translation.rs | 22 +++++++++++--------
 crates/planus-codegen/src/rust/mod.rs         |  2 +-
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/planus-codegen/src/backend.rs b/crates/planus-codegen/src/backend.rs
index b30dae7..becda27 100644
--- a/crates/planus-codegen/src/backend.rs
+++ b/crates/planus-codegen/src/backend.rs
@@ -21,7 +21,7 @@ pub struct NamespaceNames<'a, 'keywords> {
 
 pub struct DeclarationNames<'a, 'keywords> {
     pub _global_names: &'a mut Names<'keywords>,
-    pub _namespace_names: &'a mut Names<'keywords>,
+    pub namespace_names: &'a mut Names<'keywords>,
     pub declaration_names: &'a mut Names<'keywords>,
 }
 
diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index bd36a66..3adf71a 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -418,12 +418,16 @@ pub fn run_backend<B: ?Sized + Backend>(
     let translated_namespaces = declarations
         .namespaces
         .iter()
-        .zip(&mut namespace_names)
-        .map(|((namespace_name, namespace), namespace_names)| {
+        .map(|(namespace_name, namespace)| {
+            // The name of a namespace must be unique in its parent
+            let parent = AbsolutePath(
+                namespace_name.0[..namespace_name.0.len().saturating_sub(1)].to_vec(),
+            );
+            let parent_index = declarations.namespaces.get_index_of(&parent).unwrap();
             backend.generate_namespace(
                 &mut NamespaceNames {
                     _global_names: global_names,
-                    namespace_names,
+                    namespace_names: &mut namespace_names[parent_index],
                 },
                 namespace_name,
                 namespace,
@@ -442,7 +446,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_table(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -456,7 +460,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_struct(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -470,7 +474,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_enum(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -484,7 +488,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_union(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -528,7 +532,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                                 &mut DeclarationTranslationContext {
                                     declaration_names: DeclarationNames {
                                         _global_names: global_names,
-                                        _namespace_names: namespace_names,
+                                        namespace_names,
                                         declaration_names,
                                     },
                                     translated_namespaces: &translated_namespaces,
@@ -557,7 +561,7 @@ pub fn run_backend<B: ?Sized + Backend>(
         let mut translation_context = DeclarationTranslationContext {
             declaration_names: DeclarationNames {
                 _global_names: global_names,
-                _namespace_names: namespace_names,
+                namespace_names,
                 declaration_names,
             },
             translated_namespaces: &translated_namespaces,
diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index ac788d1..1c62439 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -142,7 +142,7 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
     let name = to_identifier(path.to_upper_camel_case()).into();
     declaration_names
-        .declaration_names
+        .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
         .into()
 }
-- 
2.43.0


From 5d4e93271a255fc22051c9818d89adad14610609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 27/35] fix: do not call the getters of struct fields named
 hash, cmp or partial_cmp instead of the trait methods

---
 .../src/templates/rust/struct.template         | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/planus-codegen/src/templates/rust/struct.template b/crates/planus-codegen/src/templates/rust/struct.template
index 12d6251..8592dff 100644
--- a/crates/planus-codegen/src/templates/rust/struct.template
+++ b/crates/planus-codegen/src/templates/rust/struct.template
@@ -156,9 +156,9 @@ impl<'a, 'b> ::core::cmp::PartialEq<{{ info.ref_name }}<'a>> for {{ info.ref_nam
         fn cmp(&self, other: &{{info.ref_name}}<'_>) -> ::core::cmp::Ordering {
             {% for field in fields -%}
                 {% if loop.first %}
-                self.{{field.info.name}}().cmp(&other.{{field.info.name}}())
+                ::core::cmp::Ord::cmp(&self.{{field.info.name}}(), &other.{{field.info.name}}())
                 {% else %}
-                .then_with(|| self.{{field.info.name}}().cmp(&other.{{field.info.name}}()))
+                .then_with(|| ::core::cmp::Ord::cmp(&self.{{field.info.name}}(), &other.{{field.info.name}}()))
                 {% endif %}
             {%- endfor %}
         }
@@ -167,7 +167,7 @@ impl<'a, 'b> ::core::cmp::PartialEq<{{ info.ref_name }}<'a>> for {{ info.ref_nam
     impl<'a> ::core::hash::Hash for {{ info.ref_name }}<'a> {
         fn hash<H: ::core::hash::Hasher>(&self, state: &mut H) {
             {% for field in fields -%}
-                self.{{field.info.name}}().hash(state);
+                ::core::hash::Hash::hash(&self.{{field.info.name}}(), state);
             {%- endfor %}
         }
     }
@@ -175,10 +175,16 @@ impl<'a, 'b> ::core::cmp::PartialEq<{{ info.ref_name }}<'a>> for {{ info.ref_nam
     impl<'a, 'b> ::core::cmp::PartialOrd<{{ info.ref_name }}<'a>> for {{ info.ref_name }}<'b> {
         fn partial_cmp(&self, other: &{{info.ref_name}}<'_>) -> ::core::option::Option<::core::cmp::Ordering> {
             {% for field in fields -%}
-                {% if loop.last %}
+                {%- let is_struct = field.info.getter_return_type.ends_with("<'a>") -%}
+                {%- if !loop.last %}
+                match
+                {%- endif %}
+                {% if is_struct -%}
+                ::core::cmp::PartialOrd::partial_cmp(&self.{{field.info.name}}(), &other.{{field.info.name}}())
+                {%- else -%}
                 self.{{field.info.name}}().partial_cmp(&other.{{field.info.name}}())
-                {% else %}
-                match self.{{field.info.name}}().partial_cmp(&other.{{field.info.name}}()) {
+                {%- endif -%}
+                {%- if !loop.last %} {
                     ::core::option::Option::Some(::core::cmp::Ordering::Equal) => (),
                     o => return o,
                 }
-- 
2.43.0


From 76e70760b19579b91728a2662040ec1a99ac1359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 28/35] fix: allow types named like the generic parameters of
 the generated code

---
 crates/planus-codegen/src/rust/mod.rs         | 26 ++++++++++++++++---
 .../src/templates/rust/table.template         | 22 ++++++++--------
 .../src/templates/rust/union.template         | 12 ++++-----
 3 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 1c62439..d686737 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -35,6 +35,7 @@ pub struct Namespace {
 #[derive(Clone, Debug)]
 pub struct Table {
     pub owned_name: String,
+    pub owned_path: String,
     pub ref_name: String,
     pub builder_name: String,
     pub should_do_default: bool,
@@ -94,6 +95,7 @@ pub struct EnumVariant {
 #[derive(Clone, Debug)]
 pub struct Union {
     pub owned_name: String,
+    pub owned_path: String,
     pub builder_name: String,
     pub ref_name: String,
     pub ref_name_with_lifetime: String,
@@ -140,13 +142,27 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 }
 
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
-    let name = to_identifier(path.to_upper_camel_case()).into();
+    let mut name = to_identifier(path.to_upper_camel_case());
+    if name == "N" {
+        // The name of the const parameters in the generated code, which are looked up as types first
+        name.push('_');
+    }
+    let name = name.into();
     declaration_names
         .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
         .into()
 }
 
+/// The path to a type from the implementations for its builder, whose type parameters are called
+/// `T` or `T0`, `T1` and so on.
+fn format_owned_path(owned_name: &str) -> String {
+    match owned_name.strip_prefix('T') {
+        Some(number) if number.bytes().all(|c| c.is_ascii_digit()) => format!("self::{owned_name}"),
+        _ => owned_name.to_string(),
+    }
+}
+
 fn reserve_field_name(
     path: &str,
     binding_kind: &'static str,
@@ -309,8 +325,10 @@ impl Backend for RustBackend {
         _decl: &intermediate::Table,
     ) -> Table {
         let decl_name = decl_name.0.last().unwrap();
+        let owned_name = reserve_type_name(decl_name, declaration_names);
         Table {
-            owned_name: reserve_type_name(decl_name, declaration_names),
+            owned_path: format_owned_path(&owned_name),
+            owned_name,
             ref_name: reserve_type_name(&format!("{decl_name}Ref"), declaration_names),
             builder_name: reserve_type_name(&format!("{decl_name}Builder"), declaration_names),
             should_do_default: self.default_analysis[decl_id.0],
@@ -362,8 +380,10 @@ impl Backend for RustBackend {
         let decl_name = decl_name.0.last().unwrap();
         let ref_name = reserve_type_name(&format!("{decl_name}Ref"), declaration_names);
         let builder_name = reserve_type_name(&format!("{decl_name}Builder"), declaration_names);
+        let owned_name = reserve_type_name(decl_name, declaration_names);
         Union {
-            owned_name: reserve_type_name(decl_name, declaration_names),
+            owned_path: format_owned_path(&owned_name),
+            owned_name,
             builder_name,
             ref_name_with_lifetime: if decl.variants.is_empty() {
                 ref_name.clone()
diff --git a/crates/planus-codegen/src/templates/rust/table.template b/crates/planus-codegen/src/templates/rust/table.template
index 252b1ac..9b92feb 100644
--- a/crates/planus-codegen/src/templates/rust/table.template
+++ b/crates/planus-codegen/src/templates/rust/table.template
@@ -227,8 +227,8 @@ impl<
 )> {
     /// Finish writing the builder to get an [Offset](::planus::Offset) to a serialized [{{info.owned_name}}].
     #[inline]
-    pub fn finish(self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{ info.owned_name }}>
-        where Self: ::planus::WriteAsOffset<{{ info.owned_name }}>
+    pub fn finish(self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{ info.owned_path }}>
+        where Self: ::planus::WriteAsOffset<{{ info.owned_path }}>
     {
         ::planus::WriteAsOffset::prepare(&self, builder)
     }
@@ -238,15 +238,15 @@ impl<
     {% for field in fields.declaration_order() %}
         T{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
     {% endfor %}
-> ::planus::WriteAs<::planus::Offset<{{info.owned_name}}>> for {{ info.builder_name }}<(
+> ::planus::WriteAs<::planus::Offset<{{ info.owned_path }}>> for {{ info.builder_name }}<(
     {% for field in 0..fields.declaration_order().count() %}
         T{{loop.index0}},
     {% endfor %}
 )> {
-    type Prepared = ::planus::Offset<{{ info.owned_name }}>;
+    type Prepared = ::planus::Offset<{{ info.owned_path }}>;
 
     #[inline]
-    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{info.owned_name}}> {
+    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{ info.owned_path }}> {
         ::planus::WriteAsOffset::prepare(self, builder)
     }
 }
@@ -255,15 +255,15 @@ impl<
     {% for field in fields.declaration_order() %}
         T{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
     {% endfor %}
-> ::planus::WriteAsOptional<::planus::Offset<{{info.owned_name}}>> for {{ info.builder_name }}<(
+> ::planus::WriteAsOptional<::planus::Offset<{{ info.owned_path }}>> for {{ info.builder_name }}<(
     {% for field in 0..fields.declaration_order().count() %}
         T{{loop.index0}},
     {% endfor %}
 )> {
-    type Prepared = ::planus::Offset<{{ info.owned_name }}>;
+    type Prepared = ::planus::Offset<{{ info.owned_path }}>;
 
     #[inline]
-    fn prepare(&self, builder: &mut ::planus::Builder) -> ::core::option::Option<::planus::Offset<{{info.owned_name}}>> {
+    fn prepare(&self, builder: &mut ::planus::Builder) -> ::core::option::Option<::planus::Offset<{{ info.owned_path }}>> {
         ::core::option::Option::Some(::planus::WriteAsOffset::prepare(self, builder))
     }
 }
@@ -272,13 +272,13 @@ impl<
     {% for field in fields.declaration_order() %}
         T{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
     {% endfor %}
-> ::planus::WriteAsOffset<{{info.owned_name}}> for {{ info.builder_name }}<(
+> ::planus::WriteAsOffset<{{ info.owned_path }}> for {{ info.builder_name }}<(
     {% for field in 0..fields.declaration_order().count() %}
         T{{loop.index0}},
     {% endfor %}
 )> {
     #[inline]
-    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{info.owned_name}}> {
+    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::Offset<{{ info.owned_path }}> {
         {% if fields.declaration_order().count() != 0 %}
         let (
             {% for _ in fields.declaration_order() %}
@@ -286,7 +286,7 @@ impl<
             {% endfor %}
         ) = &self.0;
         {%- endif -%}
-        {{ info.owned_name }}::create(
+        {{ info.owned_path }}::create(
             builder,
             {% for _ in fields.declaration_order() %}
                 v{{loop.index0}},
diff --git a/crates/planus-codegen/src/templates/rust/union.template b/crates/planus-codegen/src/templates/rust/union.template
index 195d9d7..3d0fc86 100644
--- a/crates/planus-codegen/src/templates/rust/union.template
+++ b/crates/planus-codegen/src/templates/rust/union.template
@@ -86,28 +86,28 @@ impl {{ info.builder_name }}<::planus::Uninitialized> {
 impl<const N: u8, T> {{ info.builder_name }}<::planus::Initialized<N, T>> {
     /// Finish writing the builder to get an [UnionOffset](::planus::UnionOffset) to a serialized [{{info.owned_name}}].
     #[inline]
-    pub fn finish(self, builder: &mut ::planus::Builder) -> ::planus::UnionOffset<{{ info.owned_name }}>
-        where Self: ::planus::WriteAsUnion<{{info.owned_name}}>
+    pub fn finish(self, builder: &mut ::planus::Builder) -> ::planus::UnionOffset<{{ info.owned_path }}>
+        where Self: ::planus::WriteAsUnion<{{ info.owned_path }}>
     {
         ::planus::WriteAsUnion::prepare(&self, builder)
     }
 }
 
 {% for variant in variants -%}
-impl<T> ::planus::WriteAsUnion<{{info.owned_name}}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, T>>
+impl<T> ::planus::WriteAsUnion<{{ info.owned_path }}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, T>>
     where T: ::planus::{{variant.create_trait}}
 {
     #[inline]
-    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::UnionOffset<{{info.owned_name}}> {
+    fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::UnionOffset<{{ info.owned_path }}> {
         ::planus::UnionOffset::new({{loop.index}}, (self.0).0.prepare(builder).downcast())
     }
 }
 
-impl<T> ::planus::WriteAsOptionalUnion<{{info.owned_name}}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, T>>
+impl<T> ::planus::WriteAsOptionalUnion<{{ info.owned_path }}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, T>>
     where T: ::planus::{{variant.create_trait}}
 {
     #[inline]
-    fn prepare(&self, builder: &mut ::planus::Builder) -> ::core::option::Option<::planus::UnionOffset<{{info.owned_name}}>> {
+    fn prepare(&self, builder: &mut ::planus::Builder) -> ::core::option::Option<::planus::UnionOffset<{{ info.owned_path }}>> {
         ::core::option::Option::Some(::planus::WriteAsUnion::prepare(self, builder))
     }
 }
-- 
2.43.0


From 98585d68eb2ace196c8bec33a416b86ad85569f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 29/35] fix: escape the keyword gen of edition 2024

---
 crates/planus-codegen/src/rust/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index d686737..2ee35f0 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -301,7 +301,7 @@ impl Backend for RustBackend {
         "mut", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait",
         "true", "type", "union", "unsafe", "use", "where", "while", "abstract", "become", "box",
         "do", "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield",
-        "_",
+        "gen", "_",
     ];
 
     fn generate_namespace(
-- 
2.43.0


From c7e5f0bb0bf56ea230981fc9851b10bf5875b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 30/35] fix: escape string defaults in the labels of dot graphs

---
 crates/planus-codegen/src/dot/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/planus-codegen/src/dot/mod.rs b/crates/planus-codegen/src/dot/mod.rs
index 46db5cb..ff47871 100644
--- a/crates/planus-codegen/src/dot/mod.rs
+++ b/crates/planus-codegen/src/dot/mod.rs
@@ -98,6 +98,24 @@ impl DotBackend {
     }
 }
 
+/// Escapes text for use in an HTML-like label.
+fn escape_label(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            // These characters are not allowed in XML, even when escaped
+            '\u{fffe}' | '\u{ffff}' => escaped.extend(c.escape_default()),
+            c if c.is_control() => escaped.extend(c.escape_default()),
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 fn get_name(type_: &ResolvedType<'_, DotBackend>) -> (Cow<'static, str>, Option<DeclarationIndex>) {
     match type_ {
         ResolvedType::Struct(_, _, Struct { name, decl_id }, _) => {
@@ -242,7 +260,9 @@ impl Backend for DotBackend {
                 AssignMode::HasDefault(Literal::EnumTag { variant_index, .. }),
                 ResolvedType::Enum(_, _, _, _, variants),
             ) => format!("default {}", variants[*variant_index].name).into(),
-            (AssignMode::HasDefault(default), _) => format!("default {default}").into(),
+            (AssignMode::HasDefault(default), _) => {
+                format!("default {}", escape_label(&default.to_string())).into()
+            }
         };
 
         TableField {
-- 
2.43.0


From 76757d01b83e8e4f11663fd298fd678b5bb20907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 31/35] fix: do not implement Default for tables that require
 themselves

---
 crates/planus-codegen/src/rust/analysis.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/planus-codegen/src/rust/analysis.rs b/crates/planus-codegen/src/rust/analysis.rs
index e057f21..1d8c913 100644
--- a/crates/planus-codegen/src/rust/analysis.rs
+++ b/crates/planus-codegen/src/rust/analysis.rs
@@ -12,14 +12,11 @@ impl DeclarationAnalysis for DefaultAnalysis {
         &mut self,
         _declarations: &Declarations,
         _decl_id: DeclarationIndex,
-        declaration: &Declaration,
+        _declaration: &Declaration,
     ) -> Self::State {
-        match declaration.kind {
-            DeclarationKind::Table(_) | DeclarationKind::Struct(_) => true,
-            DeclarationKind::Enum(_)
-            | DeclarationKind::Union(_)
-            | DeclarationKind::RpcService(_) => false,
-        }
+        // Tables that require themselves have no default, so a default is only
+        // possible when it can be built out of the defaults found so far
+        false
     }
 
     fn update_state(
@@ -29,10 +26,10 @@ impl DeclarationAnalysis for DefaultAnalysis {
         declaration: &Declaration,
         defaults_possible: &mut [Self::State],
     ) -> WasChanged {
-        if !defaults_possible[decl_id.0] {
+        if defaults_possible[decl_id.0] {
             return WasChanged::NoChange;
         }
-        let mut cur_default_possible = defaults_possible[decl_id.0];
+        let mut cur_default_possible = true;
 
         match &declaration.kind {
             DeclarationKind::Table(decl) => {
-- 
2.43.0


From caeea4f27e0d73141a008e60be964464fbe4a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 32/35] fix: align the fields of tables with force_align and
 the fields after them

---
 .../planus-codegen/src/backend_translation.rs | 26 ++++++++-
 .../src/templates/rust/table.template         | 23 +++++++-
 .../src/intermediate_language/translation.rs  | 31 +++++++---
 crates/planus/src/table_writer.rs             | 57 ++++++++++++++++++-
 4 files changed, 120 insertions(+), 17 deletions(-)

diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index 3adf71a..1f9c3bd 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -93,6 +93,7 @@ impl<V> std::ops::Deref for BackendVariant<V> {
 #[derive(Debug, Clone)]
 pub struct BackendTableFields<F> {
     fields: VecMap<(NameAndDocstrings, F)>,
+    forced_alignments: VecMap<u32>,
     declaration_order: Vec<(usize, u32, BackendTableFieldType)>,
     alignment_order: Vec<(usize, u32, BackendTableFieldType)>,
 }
@@ -185,9 +186,17 @@ impl<F> BackendTableFields<F> {
                 decl.fields[*index].object_alignment
             })
         });
+        let forced_alignments = decl
+            .fields
+            .values()
+            .enumerate()
+            .filter(|(_, field)| field.forced_alignment.is_some())
+            .map(|(index, field)| (index, field.object_alignment))
+            .collect();
 
         BackendTableFields {
             fields,
+            forced_alignments,
             declaration_order,
             alignment_order,
         }
@@ -201,6 +210,11 @@ impl<F> BackendTableFields<F> {
                 move |&(index, vtable_index, field_type)| BackendTableField {
                     field_type,
                     vtable_index,
+                    forced_alignment: if field_type.is_key() {
+                        None
+                    } else {
+                        self.forced_alignments.get(index).copied()
+                    },
                     name_and_docs: &self.fields[index].0,
                     info: &self.fields[index].1,
                 },
@@ -214,6 +228,11 @@ impl<F> BackendTableFields<F> {
                 move |&(index, vtable_index, field_type)| BackendTableField {
                     field_type,
                     vtable_index,
+                    forced_alignment: if field_type.is_key() {
+                        None
+                    } else {
+                        self.forced_alignments.get(index).copied()
+                    },
                     name_and_docs: &self.fields[index].0,
                     info: &self.fields[index].1,
                 },
@@ -229,6 +248,7 @@ impl<F> Default for BackendTableFields<F> {
     fn default() -> Self {
         Self {
             fields: Default::default(),
+            forced_alignments: Default::default(),
             declaration_order: Default::default(),
             alignment_order: Default::default(),
         }
@@ -238,6 +258,7 @@ impl<F> Default for BackendTableFields<F> {
 pub struct BackendTableField<'a, F> {
     pub field_type: BackendTableFieldType,
     pub vtable_index: u32,
+    pub forced_alignment: Option<u32>,
     pub info: &'a F,
     pub name_and_docs: &'a NameAndDocstrings,
 }
@@ -420,9 +441,8 @@ pub fn run_backend<B: ?Sized + Backend>(
         .iter()
         .map(|(namespace_name, namespace)| {
             // The name of a namespace must be unique in its parent
-            let parent = AbsolutePath(
-                namespace_name.0[..namespace_name.0.len().saturating_sub(1)].to_vec(),
-            );
+            let parent =
+                AbsolutePath(namespace_name.0[..namespace_name.0.len().saturating_sub(1)].to_vec());
             let parent_index = declarations.namespaces.get_index_of(&parent).unwrap();
             backend.generate_namespace(
                 &mut NamespaceNames {
diff --git a/crates/planus-codegen/src/templates/rust/table.template b/crates/planus-codegen/src/templates/rust/table.template
index 9b92feb..dd56477 100644
--- a/crates/planus-codegen/src/templates/rust/table.template
+++ b/crates/planus-codegen/src/templates/rust/table.template
@@ -67,7 +67,12 @@ impl {{info.owned_name}} {
                 {%- else if field.field_type == BackendTableFieldType::UnionKeyVector -%}
                 table_writer.write_entry::<::planus::Offset<[u8]>>({{field.vtable_index}});
                 {%- else -%}
+                {%- match field.forced_alignment -%}
+                {%- when Some with (forced_alignment) -%}
+                table_writer.write_entry_aligned::<{{field.info.vtable_type}}, {{forced_alignment}}>({{field.vtable_index}});
+                {%- when None -%}
                 table_writer.write_entry::<{{field.info.vtable_type}}>({{field.vtable_index}});
+                {%- endmatch -%}
                 {%- endif -%}
             {%- if field.info.read_type.starts_with("::core::option::Option<") || field.info.serialize_default.is_some() -%}
             }
@@ -85,10 +90,22 @@ impl {{info.owned_name}} {
                     {%- endif -%}
                         {%- match field.field_type -%}
                         {%- when BackendTableFieldType::UnionKey -%} object_writer.write::<_, _, 1>(&prepared_{{field.info.create_name}}.tag());
-                        {%- when BackendTableFieldType::UnionValue -%} object_writer.write::<_, _, {{field.info.primitive_size}}>(&prepared_{{field.info.create_name}}.offset());
+                        {%- when BackendTableFieldType::UnionValue -%}
+                        {%- match field.forced_alignment -%}
+                        {%- when Some with (forced_alignment) -%} object_writer.write_aligned::<_, _, {{field.info.primitive_size}}, {{forced_alignment}}>(&prepared_{{field.info.create_name}}.offset());
+                        {%- when None -%} object_writer.write::<_, _, {{field.info.primitive_size}}>(&prepared_{{field.info.create_name}}.offset());
+                        {%- endmatch -%}
                         {%- when BackendTableFieldType::UnionKeyVector -%} object_writer.write::<_, _, 4>(&prepared_{{field.info.create_name}}.tags_offset());
-                        {%- when BackendTableFieldType::UnionValueVector -%} object_writer.write::<_, _, 4>(&prepared_{{field.info.create_name}}.values_offset());
-                        {%- when BackendTableFieldType::Other -%} object_writer.write::<_, _, {{field.info.primitive_size}}>(&prepared_{{field.info.create_name}});
+                        {%- when BackendTableFieldType::UnionValueVector -%}
+                        {%- match field.forced_alignment -%}
+                        {%- when Some with (forced_alignment) -%} object_writer.write_aligned::<_, _, 4, {{forced_alignment}}>(&prepared_{{field.info.create_name}}.values_offset());
+                        {%- when None -%} object_writer.write::<_, _, 4>(&prepared_{{field.info.create_name}}.values_offset());
+                        {%- endmatch -%}
+                        {%- when BackendTableFieldType::Other -%}
+                        {%- match field.forced_alignment -%}
+                        {%- when Some with (forced_alignment) -%} object_writer.write_aligned::<_, _, {{field.info.primitive_size}}, {{forced_alignment}}>(&prepared_{{field.info.create_name}});
+                        {%- when None -%} object_writer.write::<_, _, {{field.info.primitive_size}}>(&prepared_{{field.info.create_name}});
+                        {%- endmatch -%}
                         {%- endmatch -%}
                     {%- if field.info.read_type.starts_with("::core::option::Option<") || field.info.serialize_default.is_some() -%}
                     }
diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 6d27099..a2feed6 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1659,6 +1659,29 @@ impl<'a> Translator<'a> {
                     field.object_alignment = alignment;
                     field.object_alignment_mask = alignment - 1;
                 }
+                let mut indices = (0..decl_kind.fields.len()).collect::<Vec<_>>();
+                indices.sort_by(|&i, &j| {
+                    std::cmp::Ord::cmp(
+                        &decl_kind.fields[i].object_alignment,
+                        &decl_kind.fields[j].object_alignment,
+                    )
+                    .reverse()
+                });
+                // The size of a field is a multiple of its alignment unless the alignment is forced.
+                // When it is not, the fields after it can need padding in front of them.
+                let mut granularity = u32::MAX;
+                for &index in &indices {
+                    let field = &decl_kind.fields[index];
+                    if let TableFieldTagKind::UnionTagVector = field.object_tag_kind {
+                        granularity = granularity.min(field.object_tag_kind.size());
+                    }
+                    max_size =
+                        max_size.saturating_add(field.object_alignment.saturating_sub(granularity));
+                    granularity = granularity.min(
+                        1u32.checked_shl(field.object_value_size.trailing_zeros())
+                            .unwrap_or(u32::MAX),
+                    );
+                }
                 if max_size > u16::MAX as u32 {
                     self.ctx.emit_error(
                         ErrorKind::NUMERICAL_RANGE_ERROR,
@@ -1671,14 +1694,6 @@ impl<'a> Translator<'a> {
                 }
                 decl_kind.max_size = max_size;
                 decl_kind.max_alignment = max_alignment;
-                let mut indices = (0..decl_kind.fields.len()).collect::<Vec<_>>();
-                indices.sort_by(|&i, &j| {
-                    std::cmp::Ord::cmp(
-                        &decl_kind.fields[i].object_alignment,
-                        &decl_kind.fields[j].object_alignment,
-                    )
-                    .reverse()
-                });
                 decl_kind.alignment_order = indices;
             }
         }
diff --git a/crates/planus/src/table_writer.rs b/crates/planus/src/table_writer.rs
index 4293a93..b0346ca 100644
--- a/crates/planus/src/table_writer.rs
+++ b/crates/planus/src/table_writer.rs
@@ -25,13 +25,36 @@ fn write_array<const N: usize, const M: usize>(buf: &mut [u8; N], offset: usize,
     buf[offset..offset + M].copy_from_slice(&data)
 }
 
+/// The number of bytes from a position up to the next aligned position
+fn padding(position: usize, alignment_mask: usize) -> usize {
+    position.wrapping_neg() & alignment_mask
+}
+
 impl<const VTABLE_MAX_BYTES: usize> TableWriter<VTABLE_MAX_BYTES> {
     /// # Safety
     ///
     /// Must be called in alignment order with the most-aligned object first
     #[inline]
     pub fn write_entry<P: Primitive>(&mut self, vtable_index: usize) {
-        self.object_alignment_mask = self.object_alignment_mask.max(P::ALIGNMENT_MASK);
+        self.write_entry_aligned::<P, 1>(vtable_index)
+    }
+
+    /// Like [`write_entry`](Self::write_entry) for a field which must be aligned to at least `ALIGNMENT` bytes
+    ///
+    /// # Safety
+    ///
+    /// Must be called in alignment order with the most-aligned object first
+    #[inline]
+    pub fn write_entry_aligned<P: Primitive, const ALIGNMENT: usize>(
+        &mut self,
+        vtable_index: usize,
+    ) {
+        let alignment_mask = P::ALIGNMENT_MASK.max(ALIGNMENT - 1);
+        self.object_alignment_mask = self.object_alignment_mask.max(alignment_mask);
+
+        // A field with a forced alignment can have a size that is not a multiple of it. It is the
+        // part after the vtable offset which is aligned when writing it.
+        self.object_size += padding(self.object_size - 4, alignment_mask);
 
         let offset = 2 * (vtable_index + 2); // 2 bytes per index, skip the vtable size and object size
 
@@ -65,7 +88,11 @@ impl<const VTABLE_MAX_BYTES: usize> TableWriter<VTABLE_MAX_BYTES> {
             self.object_size - 4,
             self.object_alignment_mask,
             |offset, bytes| {
-                f(&mut ObjectWriter { offset, bytes });
+                f(&mut ObjectWriter {
+                    offset,
+                    position: 0,
+                    bytes,
+                });
             },
         );
         builder.write_with(4, 0, |buffer_position, bytes| {
@@ -80,6 +107,7 @@ impl<const VTABLE_MAX_BYTES: usize> TableWriter<VTABLE_MAX_BYTES> {
 #[doc(hidden)]
 pub struct ObjectWriter<'a> {
     offset: u32,
+    position: usize,
     bytes: &'a mut [MaybeUninit<u8>],
 }
 
@@ -91,14 +119,37 @@ impl ObjectWriter<'_> {
     pub unsafe fn write<P: Primitive, T: WriteAsPrimitive<P>, const SIZE: usize>(
         &mut self,
         value: &T,
+    ) {
+        self.write_aligned::<P, T, SIZE, 1>(value)
+    }
+
+    /// Like [`write`](Self::write) for a field which must be aligned to at least `ALIGNMENT` bytes
+    ///
+    /// # Safety
+    ///
+    /// Must be called in alignment order with the most-aligned object first
+    #[inline(always)]
+    pub unsafe fn write_aligned<
+        P: Primitive,
+        T: WriteAsPrimitive<P>,
+        const SIZE: usize,
+        const ALIGNMENT: usize,
+    >(
+        &mut self,
+        value: &T,
     ) {
         assert_eq!(P::SIZE, SIZE);
-        let (cur, remaining) = mem::take(&mut self.bytes).split_at_mut(P::SIZE);
+        let padding = padding(self.position, P::ALIGNMENT_MASK.max(ALIGNMENT - 1));
+        let (skipped, remaining) = mem::take(&mut self.bytes).split_at_mut(padding);
+        skipped.fill(MaybeUninit::new(0));
+        self.offset -= padding as u32;
+        let (cur, remaining) = remaining.split_at_mut(P::SIZE);
         self.bytes = remaining;
         value.write(
             array_init_cursor::Cursor::<'_, u8, SIZE>::new(cur.try_into().unwrap()),
             self.offset,
         );
         self.offset -= P::SIZE as u32;
+        self.position += padding + P::SIZE;
     }
 }
-- 
2.43.0


From f00df7ebfccbf9feabcd2eb500adc9cb88b9a6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 33/35] fix: do not cycle interpretations while a c is typed
 into the offset dialogue

---
 crates/planus-inspector/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index 2d70660..d42cbec 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -448,7 +448,7 @@ impl<'a> Inspector<'a> {
                 self.should_quit = true;
                 false
             }
-            KeyCode::Char('c') => {
+            KeyCode::Char('c') if self.modal.is_none() => {
                 if let Some(info_view_data) = &mut self.view_state.info_view_data {
                     info_view_data.set_interpretation_index(
                         &self.object_mapping,
-- 
2.43.0


From b25a67899478f62dd94aba93fff2f8623d92d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 34/35] fix: report a union vector whose vtable ends between
 its tags and values

The reader returned an error when only one of the two entries was set, unless
the vtable ended before the second one, in which case the field was silently
absent.
---
 crates/planus/src/table_reader.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/planus/src/table_reader.rs b/crates/planus/src/table_reader.rs
index 6da41df..70fb4d0 100644
--- a/crates/planus/src/table_reader.rs
+++ b/crates/planus/src/table_reader.rs
@@ -158,18 +158,18 @@ impl<'buf> Table<'buf> {
             error_kind,
         };
 
-        if let Some(offset) = self.vtable.get(2 * vtable_offset..2 * (vtable_offset + 2)) {
-            let tags_offset = u16::from_le_bytes(offset[..2].try_into().unwrap()) as usize;
-            let values_offset = u16::from_le_bytes(offset[2..].try_into().unwrap()) as usize;
-            match (tags_offset, values_offset) {
-                (0, 0) => Ok(None),
-                (0, _) | (_, 0) => Err(make_error(ErrorKind::InvalidOffset)),
-                (tags_offset, values_offset) => Ok(Some(
-                    T::from_buffer(self.object, tags_offset, values_offset).map_err(make_error)?,
-                )),
-            }
-        } else {
-            Ok(None)
+        // The vtable can end between the two entries
+        let offset = |index: usize| {
+            let offset = self.vtable.get(2 * index..2 * (index + 1));
+            u16::from_le_bytes(offset.unwrap_or(&[0, 0]).try_into().unwrap()) as usize
+        };
+
+        match (offset(vtable_offset), offset(vtable_offset + 1)) {
+            (0, 0) => Ok(None),
+            (0, _) | (_, 0) => Err(make_error(ErrorKind::InvalidOffset)),
+            (tags_offset, values_offset) => Ok(Some(
+                T::from_buffer(self.object, tags_offset, values_offset).map_err(make_error)?,
+            )),
         }
     }
 
-- 
2.43.0


From 13db66f8686bf0dc8ea54cddc0d94fcbc0333033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 35/35] fix: leave deprecated fields out of the Eq and Default
 analyses

Deprecated fields are not part of the generated types, but a table with a
deprecated float still lost Eq, Ord and Hash, and one with a deprecated
required union lost Default.
---
 crates/planus-codegen/src/rust/analysis.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/planus-codegen/src/rust/analysis.rs b/crates/planus-codegen/src/rust/analysis.rs
index 1d8c913..86cb994 100644
--- a/crates/planus-codegen/src/rust/analysis.rs
+++ b/crates/planus-codegen/src/rust/analysis.rs
@@ -33,7 +33,8 @@ impl DeclarationAnalysis for DefaultAnalysis {
 
         match &declaration.kind {
             DeclarationKind::Table(decl) => {
-                for field in decl.fields.values() {
+                // Deprecated fields are not part of the generated types
+                for field in decl.fields.values().filter(|field| !field.deprecated) {
                     if matches!(
                         field.assign_mode,
                         AssignMode::Optional | AssignMode::HasDefault(_)
@@ -145,7 +146,8 @@ impl DeclarationAnalysis for EqAnalysis {
 
         match &declaration.kind {
             DeclarationKind::Table(decl) => {
-                for field in decl.fields.values() {
+                // Deprecated fields are not part of the generated types
+                for field in decl.fields.values().filter(|field| !field.deprecated) {
                     if !eq_possible_type_kind(eq_possible, &field.type_.kind) {
                         cur_eq_possible = false;
                         break;
-- 
2.43.0

