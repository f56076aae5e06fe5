From f7d5a49ca83dc53fc510dbc739a208adace8d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 01/30] fix: do not assert four bytes per tag when indexing a
 union vector

---
 crates/planus/src/union_vectors/union_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/union_vectors/union_vector.rs b/crates/planus/src/union_vectors/union_vector.rs
index 82749cd..e677306 100644
--- a/crates/planus/src/union_vectors/union_vector.rs
+++ b/crates/planus/src/union_vectors/union_vector.rs
@@ -420,7 +420,7 @@ impl<'buf, T: VectorReadUnion<'buf>> UnionVectorIndex<'buf, T> for usize {
     #[inline]
     unsafe fn get_unchecked(self, vector: UnionVector<'buf, T>) -> Self::Output {
         debug_assert!(self < vector.len);
-        debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.tags.len());
+        debug_assert!(vector.len <= vector.tags.len());
         debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.values.len());
         let tag = *vector.tags.buffer.get_unchecked(self);
         <T as VectorReadUnion>::from_buffer(vector.values, tag, 4 * self)
-- 
2.43.0


From 98633b981ee8e6daaa51fe3bad145d66d579a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 02/30] fix: return an error for a union vector with only one
 of its two slots

---
 crates/planus/src/table_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/table_reader.rs b/crates/planus/src/table_reader.rs
index 981ca94..cf9a0eb 100644
--- a/crates/planus/src/table_reader.rs
+++ b/crates/planus/src/table_reader.rs
@@ -163,7 +163,7 @@ impl<'buf> Table<'buf> {
             let values_offset = u16::from_le_bytes(offset[2..].try_into().unwrap()) as usize;
             match (tags_offset, values_offset) {
                 (0, 0) => Ok(None),
-                (0, _) | (_, 0) => todo!(),
+                (0, _) | (_, 0) => Err(make_error(ErrorKind::MissingRequired)),
                 (tags_offset, values_offset) => Ok(Some(
                     T::from_buffer(self.object, tags_offset, values_offset).map_err(make_error)?,
                 )),
-- 
2.43.0


From d23c51cc648568ed62a353b723c7e07db31422d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 03/30] fix: align the elements of a vector written from an
 array

---
 crates/planus/src/impls/array.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/planus/src/impls/array.rs b/crates/planus/src/impls/array.rs
index 49d3024..789739b 100644
--- a/crates/planus/src/impls/array.rs
+++ b/crates/planus/src/impls/array.rs
@@ -18,19 +18,22 @@ where
             unsafe { (&tmp as *const [MaybeUninit<T::Value>; N] as *const [T::Value; N]).read() };
         unsafe {
             builder.write_with(
-                4 + T::STRIDE.checked_mul(self.len()).unwrap(),
-                P::ALIGNMENT_MASK.max(3),
+                T::STRIDE.checked_mul(self.len()).unwrap(),
+                P::ALIGNMENT_MASK.max(u32::ALIGNMENT_MASK),
                 |buffer_position, bytes| {
                     let bytes = bytes.as_mut_ptr();
 
-                    (self.len() as u32).write(
-                        Cursor::new(&mut *(bytes as *mut [MaybeUninit<u8>; 4])),
-                        buffer_position,
-                    );
-
-                    T::write_values(&tmp, bytes.add(4), buffer_position - 4);
+                    T::write_values(&tmp, bytes, buffer_position);
                 },
-            )
+            );
+            builder.write_with(4, 0, |buffer_position, bytes| {
+                let bytes = bytes.as_mut_ptr();
+
+                (self.len() as u32).write(
+                    Cursor::new(&mut *(bytes as *mut [MaybeUninit<u8>; 4])),
+                    buffer_position,
+                );
+            });
         };
         builder.current_offset()
     }
-- 
2.43.0


From 13cb137d17a0deb33828d7331ccf6a90df8ad4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 04/30] fix: accept digit separators in integer literals and
 reject literals without digits

---
 .../src/intermediate_language/translation.rs         | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 48d0049..a6cf480 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -322,17 +322,20 @@ impl<'a> Translator<'a> {
         }
         let base_t = T::from(base).unwrap();
         let mut result = T::from(0u8).unwrap();
+        let mut seen_digit = false;
         for c in v {
             let cur = match c {
                 b'0'..=b'9' => c - b'0',
                 b'a'..=b'f' if base == 16 => c - b'a' + 0xa,
                 b'A'..=b'F' if base == 16 => c - b'A' + 0xa,
+                b'_' => continue,
                 _ => {
                     // TODO error message
                     // Can it even happen?
                     return None;
                 }
             };
+            seen_digit = true;
 
             match result.checked_mul(&base_t).and_then(|v| {
                 if is_negative {
@@ -358,6 +361,15 @@ impl<'a> Translator<'a> {
             }
         }
 
+        if !seen_digit {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_PARSE_ERROR,
+                [Label::primary(file_id, span)],
+                Some("Integer has no digits"),
+            );
+            return None;
+        }
+
         Some(result)
     }
 
-- 
2.43.0


From fc10ce734892be4ab859de8feeb5d577629a7674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 05/30] fix: honour the sign, separators, hexadecimal digits
 and range of floating point defaults

---
 crates/planus-codegen/src/rust/mod.rs         |  24 +++-
 .../src/intermediate_language/translation.rs  | 123 ++++++++++++++++--
 2 files changed, 135 insertions(+), 12 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index bc91782..c069d0f 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -10,7 +10,9 @@ use eyre::Context;
 use heck::{ToSnakeCase, ToUpperCamelCase};
 use planus_types::{
     ast::{FloatType, IntegerType},
-    intermediate::{self, AbsolutePath, AssignMode, DeclarationIndex, Literal, TableFieldTagKind},
+    intermediate::{
+        self, AbsolutePath, AssignMode, DeclarationIndex, FloatLiteral, Literal, TableFieldTagKind,
+    },
 };
 
 use super::backend::{
@@ -863,8 +865,8 @@ impl Backend for RustBackend {
                         read_type = vtable_type.clone();
                         owned_type = vtable_type.clone();
                         create_trait = format!("WriteAsDefault<{owned_type}, {owned_type}>");
-                        impl_default_code = format!("{lit}").into();
-                        serialize_default = Some(format!("&{lit}").into());
+                        impl_default_code = float_literal(lit).into();
+                        serialize_default = Some(format!("&{impl_default_code}").into());
                         deserialize_default = Some(impl_default_code.clone());
                     }
                     AssignMode::Optional => {
@@ -1038,6 +1040,22 @@ fn integer_type(type_: &IntegerType) -> &'static str {
     }
 }
 
+fn float_literal(lit: &FloatLiteral) -> String {
+    let (type_, value) = match lit {
+        FloatLiteral::F32(value) => ("f32", f64::from(*value)),
+        FloatLiteral::F64(value) => ("f64", *value),
+    };
+    if value.is_nan() {
+        format!("::core::primitive::{type_}::NAN")
+    } else if value.is_infinite() && value > 0.0 {
+        format!("::core::primitive::{type_}::INFINITY")
+    } else if value.is_infinite() {
+        format!("::core::primitive::{type_}::NEG_INFINITY")
+    } else {
+        lit.to_string()
+    }
+}
+
 fn float_type(type_: &FloatType) -> &'static str {
     match &type_ {
         FloatType::F32 => "f32",
diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index a6cf480..4aa72e4 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -375,19 +375,57 @@ impl<'a> Translator<'a> {
 
     fn translate_float(
         &self,
-        _span: Span,
-        _is_negative: bool,
+        file_id: FileId,
+        span: Span,
+        is_negative: bool,
         v: &str,
         type_: &ast::FloatType,
     ) -> Option<FloatLiteral> {
         use FloatLiteral::*;
 
-        // TODO error messages
-        // TODO: hex parsing and other formats
-        Some(match type_ {
-            ast::FloatType::F32 => F32(v.parse().unwrap()),
-            ast::FloatType::F64 => F64(v.parse().unwrap()),
-        })
+        let v: String = v.chars().filter(|&c| c != '_').collect();
+        let hex = v.strip_prefix("0x").or_else(|| v.strip_prefix("0X"));
+        let (value, is_infinite) = match type_ {
+            ast::FloatType::F32 => {
+                let value = match hex {
+                    // The value is already rounded to the precision of an f32
+                    Some(hex) => parse_hex_float(hex, f32::MANTISSA_DIGITS, f32::MIN_EXP)
+                        .map(|value| value as f32),
+                    None => v.parse::<f32>().ok(),
+                };
+                let value = value.map(|value| if is_negative { -value } else { value });
+                (value.map(F32), value.is_some_and(f32::is_infinite))
+            }
+            ast::FloatType::F64 => {
+                let value = match hex {
+                    Some(hex) => parse_hex_float(hex, f64::MANTISSA_DIGITS, f64::MIN_EXP),
+                    None => v.parse::<f64>().ok(),
+                };
+                let value = value.map(|value| if is_negative { -value } else { value });
+                (value.map(F64), value.is_some_and(f64::is_infinite))
+            }
+        };
+
+        if value.is_none() {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_PARSE_ERROR,
+                [Label::primary(file_id, span)],
+                Some("Invalid floating point literal"),
+            );
+            return None;
+        }
+        if is_infinite && v != "inf" {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_RANGE_ERROR,
+                [Label::primary(file_id, span)],
+                Some(&format!(
+                    "Floating point literal is out of range for type {}",
+                    type_.flatbuffer_name()
+                )),
+            );
+            return None;
+        }
+        value
     }
 
     fn translate_literal(
@@ -451,7 +489,7 @@ impl<'a> Translator<'a> {
                 | LiteralKind::Integer { is_negative, value },
                 SimpleType(Float(type_)),
             ) => self
-                .translate_float(literal.span, *is_negative, value, type_)
+                .translate_float(current_file_id, literal.span, *is_negative, value, type_)
                 .map(Literal::Float),
             (LiteralKind::String(s), String) => Some(Literal::String(s.clone())),
             (LiteralKind::List(literals), Vector(type_)) => {
@@ -1631,3 +1669,70 @@ impl<'a> Translator<'a> {
         }
     }
 }
+
+/// Parses the digits after the `0x` of a hexadecimal floating point literal, rounding to
+/// the nearest value (ties to even) with `precision` bits of mantissa and the given
+/// minimal exponent. Returns infinity for values that are too large for an `f64`.
+fn parse_hex_float(s: &str, precision: u32, min_exp: i32) -> Option<f64> {
+    let (digits, exponent) = match s.split_once(['p', 'P']) {
+        Some((digits, exponent)) => (digits, exponent),
+        None => (s, "0"),
+    };
+    let mut mantissa = 0u128;
+    let mut shift = 0i64;
+    let mut seen_digit = false;
+    let mut seen_period = false;
+    for c in digits.chars() {
+        if c == '.' && !seen_period {
+            seen_period = true;
+            continue;
+        }
+        let digit = c.to_digit(16)? as u128;
+        seen_digit = true;
+        if mantissa >> 120 == 0 {
+            mantissa = mantissa << 4 | digit;
+            shift -= if seen_period { 4 } else { 0 };
+        } else {
+            mantissa |= (digit != 0) as u128;
+            shift += if seen_period { 0 } else { 4 };
+        }
+    }
+    if !seen_digit {
+        return None;
+    }
+    if mantissa == 0 {
+        return Some(0.0);
+    }
+
+    // An exponent that does not even fit in an i64 is either far too large or far too small
+    let exponent = match exponent.parse::<i64>() {
+        Ok(exponent) => exponent.clamp(-(1 << 40), 1 << 40),
+        Err(_) if exponent.trim_start_matches(['+', '-']).is_empty() => return None,
+        Err(_) if exponent.starts_with('-') => -(1 << 40),
+        Err(_) => 1 << 40,
+    };
+    let mut exponent = exponent + shift;
+
+    // Drop the bits which cannot be represented
+    let bits = (u128::BITS - mantissa.leading_zeros()) as i64;
+    let excess = (bits - precision as i64).max(min_exp as i64 - precision as i64 - exponent);
+    if excess > 0 {
+        if excess > bits {
+            return Some(0.0);
+        }
+        let half = 1u128 << (excess - 1);
+        let remainder = mantissa & (half | (half - 1));
+        mantissa = (mantissa >> 1) >> (excess - 1);
+        if remainder > half || (remainder == half && mantissa & 1 == 1) {
+            mantissa += 1;
+        }
+        exponent += excess;
+    }
+
+    let mut value = mantissa as f64;
+    let exponent = exponent.clamp(-2200, 2200) as i32;
+    for step in [exponent / 3, exponent / 3, exponent - 2 * (exponent / 3)] {
+        value *= 2f64.powi(step);
+    }
+    Some(value)
+}
-- 
2.43.0


From ca82b542900571ba29887553239cdde2aa51bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:23 +0000
Subject: [PATCH 06/30] fix: reject enums that count past the range of their
 type

---
 .../src/intermediate_language/translation.rs  | 25 +++++++++++++------
 crates/planus-types/src/intermediate.rs       | 14 +++++++++++
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 4aa72e4..126de81 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1225,11 +1225,10 @@ impl<'a> Translator<'a> {
         }
 
         let mut variants: IndexMap<IntegerLiteral, EnumVariant> = IndexMap::new();
-        let mut next_value = IntegerLiteral::default_value_from_type(&decl.type_);
+        let mut next_value = Some(IntegerLiteral::default_value_from_type(&decl.type_));
         for (ident, variant) in decl.variants.iter() {
-            let mut value = next_value;
             let name = self.ctx.resolve_identifier(*ident);
-            if let Some(assignment) = &variant.value {
+            let value = if let Some(assignment) = &variant.value {
                 if let Some(v) = self.translate_integer(
                     current_file_id,
                     assignment.span,
@@ -1237,11 +1236,23 @@ impl<'a> Translator<'a> {
                     &assignment.value,
                     &decl.type_,
                 ) {
-                    value = v;
+                    v
                 } else {
                     continue;
-                };
-            }
+                }
+            } else if let Some(v) = next_value {
+                v
+            } else {
+                self.ctx.emit_error(
+                    ErrorKind::NUMERICAL_RANGE_ERROR,
+                    [Label::primary(current_file_id, variant.span)],
+                    Some(&format!(
+                        "The value of this variant is out of range for type {}",
+                        decl.type_.flatbuffer_name()
+                    )),
+                );
+                continue;
+            };
             match variants.entry(value) {
                 Entry::Occupied(entry) => {
                     self.ctx.emit_error(
@@ -1265,7 +1276,7 @@ impl<'a> Translator<'a> {
                     });
                 }
             }
-            next_value = value.next();
+            next_value = value.checked_next();
         }
         Enum {
             variants,
diff --git a/crates/planus-types/src/intermediate.rs b/crates/planus-types/src/intermediate.rs
index c59eb5b..0938cb7 100644
--- a/crates/planus-types/src/intermediate.rs
+++ b/crates/planus-types/src/intermediate.rs
@@ -624,6 +624,20 @@ impl IntegerLiteral {
             Self::I64(n) => Self::I64(n.wrapping_add(1)),
         }
     }
+
+    #[must_use]
+    pub fn checked_next(&self) -> Option<Self> {
+        Some(match self {
+            Self::U8(n) => Self::U8(n.checked_add(1)?),
+            Self::I8(n) => Self::I8(n.checked_add(1)?),
+            Self::U16(n) => Self::U16(n.checked_add(1)?),
+            Self::I16(n) => Self::I16(n.checked_add(1)?),
+            Self::U32(n) => Self::U32(n.checked_add(1)?),
+            Self::I32(n) => Self::I32(n.checked_add(1)?),
+            Self::U64(n) => Self::U64(n.checked_add(1)?),
+            Self::I64(n) => Self::I64(n.checked_add(1)?),
+        })
+    }
 }
 
 impl From<&crate::ast::BuiltinType> for TypeKind {
-- 
2.43.0


From 5bcf1e864709435fb646878bc27e401c2781ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 07/30] fix: keep declaration kinds in step with declarations
 when one is skipped as a duplicate

---
 .../src/intermediate_language/translation.rs                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 126de81..9dd55e3 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -88,6 +88,7 @@ impl<'a> Translator<'a> {
             .extend(schema.docstrings.locations.iter().cloned());
         namespace.docstrings.default_docstring = default_docstring_for_namespace(&namespace_path);
 
+        let mut new_declarations = Vec::new();
         for decl in schema.type_declarations.values() {
             let name = self.ctx.resolve_identifier(decl.identifier.value);
             match self
@@ -112,10 +113,11 @@ impl<'a> Translator<'a> {
                         .declaration_ids
                         .insert(name, DeclarationIndex(entry.index()));
                     entry.insert(decl.clone());
+                    new_declarations.push(decl);
                 }
             }
         }
-        for decl in schema.type_declarations.values() {
+        for decl in new_declarations {
             self.descriptions.push(match &decl.kind {
                 ast::TypeDeclarationKind::Table(_) => TypeDescription::Table,
                 ast::TypeDeclarationKind::Struct(_) => TypeDescription::Struct {
-- 
2.43.0


From 824b973d24929fb0c11944f74fe40900b28a84ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 08/30] fix: reject field ids that do not fit into a vtable

---
 .../src/intermediate_language/translation.rs  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 9dd55e3..0a1060f 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -24,6 +24,9 @@ pub struct Translator<'a> {
     descriptions: Vec<TypeDescription>,
 }
 
+/// The size of a vtable is stored in 16 bits, and includes the sizes of the vtable and the object
+const MAX_VTABLE_SLOTS: u32 = (u16::MAX as u32 - 4) / 2;
+
 #[derive(Clone)]
 enum TypeDescription {
     Table,
@@ -993,11 +996,19 @@ impl<'a> Translator<'a> {
             }
         }
 
-        if type_.kind.is_type_with_tag() {
-            *next_vtable_index = vtable_index + 2;
-        } else {
-            *next_vtable_index = vtable_index + 1;
+        let slots = if type_.kind.is_type_with_tag() { 2 } else { 1 };
+        if vtable_index > MAX_VTABLE_SLOTS - slots {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_RANGE_ERROR,
+                [Label::primary(current_file_id, field.span)],
+                Some(&format!(
+                    "The id of this field is too large, a table has room for {MAX_VTABLE_SLOTS} ids"
+                )),
+            );
+            *has_id_error = true;
+            vtable_index = 0;
         }
+        *next_vtable_index = vtable_index + slots;
 
         *max_vtable_size = (*max_vtable_size).max(2 * *next_vtable_index + 4);
 
-- 
2.43.0


From d35824bfdee22371f1faeef2accdd929cbeafc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:29 +0000
Subject: [PATCH 09/30] fix: reject structs whose size overflows

---
 .../src/intermediate_language/translation.rs  | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 0a1060f..e578c34 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1424,8 +1424,26 @@ impl<'a> Translator<'a> {
             }};
         }
 
-        fn round_up(value: u32, alignment: u32) -> u32 {
-            value.div_ceil(alignment) * alignment
+        fn round_up(value: u32, alignment: u32) -> Option<u32> {
+            value.checked_next_multiple_of(alignment)
+        }
+
+        macro_rules! check_size {
+            ($size:expr) => {
+                match $size.filter(|&size| size <= i32::MAX as u32) {
+                    Some(size) => size,
+                    None => {
+                        let (ast_decl, _) = get_ast_decl!();
+                        self.ctx.emit_error(
+                            ErrorKind::NUMERICAL_RANGE_ERROR,
+                            [Label::primary(ast_decl.file_id, ast_decl.definition_span)],
+                            Some("Struct is too large"),
+                        );
+                        parents.pop();
+                        return None;
+                    }
+                }
+            };
         }
 
         let mut offset = 0;
@@ -1456,8 +1474,8 @@ impl<'a> Translator<'a> {
                 | SimpleType::Float(FloatType::F64) => (8, 8),
             };
 
+            offset = check_size!(round_up(offset, cur_alignment));
             let (_ast_decl, ast_kind) = get_ast_decl!();
-            offset = round_up(offset, cur_alignment);
             let decl = get_struct_decl!();
             decl.fields[field_id].offset = offset;
             decl.fields[field_id].size = cur_size;
@@ -1465,7 +1483,7 @@ impl<'a> Translator<'a> {
                 decl.fields[field_id - 1].padding_after_field =
                     offset - decl.fields[field_id - 1].offset - decl.fields[field_id - 1].size;
             }
-            offset += cur_size;
+            offset = check_size!(offset.checked_add(cur_size));
             if max_alignment_span.is_none() || max_alignment < cur_alignment {
                 max_alignment_span = Some(ast_kind.fields[field_id].type_.span);
                 max_alignment = cur_alignment;
@@ -1498,7 +1516,7 @@ impl<'a> Translator<'a> {
             }
         }
 
-        offset = round_up(offset, max_alignment);
+        offset = check_size!(round_up(offset, max_alignment));
         let decl = get_struct_decl!();
         if let Some((_, last_field)) = decl.fields.last_mut() {
             last_field.padding_after_field = offset - last_field.offset - last_field.size;
-- 
2.43.0


From 8bba5ba84104285a011130d62d2b31037e30132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:29 +0000
Subject: [PATCH 10/30] fix: reject tables whose fields do not fit into one
 object

---
 .../src/intermediate_language/translation.rs           | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index e578c34..e367577 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1538,6 +1538,7 @@ impl<'a> Translator<'a> {
         for decl in self.declarations.values_mut() {
             let mut max_size = 4u32;
             let mut max_alignment = 0;
+            let mut is_valid = true;
             if let DeclarationKind::Table(decl_kind) = &mut decl.kind {
                 for field in decl_kind.fields.values_mut() {
                     let mut tag_kind = TableFieldTagKind::None;
@@ -1601,12 +1602,21 @@ impl<'a> Translator<'a> {
                         }
                     }
                     max_size = max_size.saturating_add(value_size + tag_kind.size());
+                    is_valid &= value_size != u32::MAX;
                     max_alignment = max_alignment.max(alignment);
                     field.object_value_size = value_size;
                     field.object_tag_kind = tag_kind;
                     field.object_alignment = alignment;
                     field.object_alignment_mask = alignment - 1;
                 }
+                if is_valid && max_size > u16::MAX as u32 {
+                    // The size of an object and the offsets of its fields are stored in 16 bits
+                    self.ctx.emit_error(
+                        ErrorKind::NUMERICAL_RANGE_ERROR,
+                        [Label::primary(decl.file_id, decl.definition_span)],
+                        Some("The fields of this table are too large to fit into one object"),
+                    );
+                }
                 decl_kind.max_size = max_size;
                 decl_kind.max_alignment = max_alignment;
                 let mut indices = (0..decl_kind.fields.len()).collect::<Vec<_>>();
-- 
2.43.0


From 81d48c747b2772eb74146befac651bb45f975477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:29 +0000
Subject: [PATCH 11/30] fix: reject unions with equally named or too many
 variants

---
 .../src/intermediate_language/translation.rs  | 59 ++++++++++++++++++-
 1 file changed, 57 insertions(+), 2 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index e367577..32055c2 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1313,6 +1313,30 @@ impl<'a> Translator<'a> {
             );
         }
 
+        if decl.variants.len() > u8::MAX as usize {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_RANGE_ERROR,
+                decl.variants
+                    .values()
+                    .nth(u8::MAX as usize)
+                    .map(|variant| Label::primary(current_file_id, variant.span)),
+                Some("Unions cannot have more than 255 variants"),
+            );
+        }
+
+        // A variant without an identifier is named after the last part of the path of its type,
+        // or after the full path when other variants would get that name too.
+        let last_part = |variant: &ast::UnionVariant| match (&variant.ident, &variant.type_.kind) {
+            (Some(ident), _) => Some(ident.value),
+            (None, ast::TypeKind::Path(p)) => p.parts.last().copied(),
+            (None, _) => None,
+        };
+        let mut uses: IndexMap<ast::RawIdentifier, usize> = IndexMap::new();
+        for name in decl.variants.values().filter_map(last_part) {
+            *uses.entry(name).or_default() += 1;
+        }
+
+        let mut spans: IndexMap<String, Span> = IndexMap::new();
         let variants = decl
             .variants
             .values()
@@ -1328,15 +1352,46 @@ impl<'a> Translator<'a> {
                 let name = if let Some(ident) = variant.ident {
                     self.ctx.resolve_identifier(ident.value)
                 } else {
-                    // TODO: make sure this is unique
                     match &variant.type_.kind {
                         ast::TypeKind::Path(p) => {
-                            self.ctx.resolve_identifier(*p.parts.last().unwrap())
+                            let last_part = p.parts.last().unwrap();
+                            let parts = if uses[last_part] > 1 {
+                                p.parts.as_slice()
+                            } else {
+                                std::slice::from_ref(last_part)
+                            };
+                            parts
+                                .iter()
+                                .map(|part| self.ctx.resolve_identifier(*part))
+                                .collect::<Vec<_>>()
+                                .join("_")
                         }
                         _ => String::default(),
                     }
                 };
 
+                match spans.entry(name.clone()) {
+                    // Builtin types without a variant name have already been rejected
+                    Entry::Occupied(_) if name.is_empty() => (),
+                    Entry::Occupied(entry) => {
+                        self.ctx.emit_error(
+                            ErrorKind::FIELD_DEFINED_TWICE,
+                            [
+                                Label::secondary(current_file_id, *entry.get())
+                                    .with_message("first variant was here"),
+                                Label::secondary(current_file_id, variant.span)
+                                    .with_message("second variant was here"),
+                            ],
+                            Some(&format!(
+                                "cannot define union variant with name {name} twice"
+                            )),
+                        );
+                    }
+                    Entry::Vacant(entry) => {
+                        entry.insert(variant.span);
+                    }
+                }
+
                 Some((
                     name,
                     UnionVariant {
-- 
2.43.0


From bf0e3c82a12779c024dcd52ef09662001263a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 12/30] fix: accept escaped backslashes in string literals

---
 crates/planus-lexer/src/text_lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/planus-lexer/src/text_lexer.rs b/crates/planus-lexer/src/text_lexer.rs
index 64eaa10..6939b7f 100644
--- a/crates/planus-lexer/src/text_lexer.rs
+++ b/crates/planus-lexer/src/text_lexer.rs
@@ -55,6 +55,7 @@ impl Text {
                     "\"" => out.push('"'),
                     "'" => out.push('\''),
                     "/" => out.push('/'),
+                    "\\" => out.push('\\'),
                     _ => {
                         error.get_or_insert(LexicalError::new("Invalid escape sequence", span));
                     }
-- 
2.43.0


From ebb7da91675c06cb8960902baeb5beefeec73850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 13/30] fix: write the file identifier after the root offset,
 where readers expect it

---
 crates/planus/src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/planus/src/builder.rs b/crates/planus/src/builder.rs
index 4c111d7..4b4be4f 100644
--- a/crates/planus/src/builder.rs
+++ b/crates/planus/src/builder.rs
@@ -263,8 +263,9 @@ impl Builder {
                 8,
                 <Offset<T> as Primitive>::ALIGNMENT_MASK.max(self.alignment_mask),
             ) as u32;
-            self.write(&(offset - 4 - root.offset).to_le_bytes());
+            // The buffer is written back to front: the identifier comes after the root offset
             self.write(&file_identifier);
+            self.write(&(offset - root.offset).to_le_bytes());
         } else {
             let offset = self.prepare_write(
                 4,
-- 
2.43.0


From e67643becfcf3e8ce239dcf6b00e56cc60fe9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:13 +0000
Subject: [PATCH 14/30] fix: naming a union variant's type no longer panics on
 a string array size

---
 crates/planus-translation/src/ast_convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/ast_convert.rs b/crates/planus-translation/src/ast_convert.rs
index f0a913d..8fcfe2e 100644
--- a/crates/planus-translation/src/ast_convert.rs
+++ b/crates/planus-translation/src/ast_convert.rs
@@ -918,7 +918,8 @@ impl CstConverter<'_> {
         } else {
             let mut type_name = String::new();
             // TODO: figure out if we should keep maintaining that entire pretty printer or do something simpler
-            let mut printer = PrettyPrinter::new(&mut type_name, "");
+            let source = self.ctx.get_source(self.schema.file_id);
+            let mut printer = PrettyPrinter::new(&mut type_name, source);
             printer.write_type(&variant.type_).unwrap();
             let default_docstring =
                 format!("The variant of type `{type_name}` in the union `{parent_ident}`",);
-- 
2.43.0


From 23b7179e566733404fb2058bf24d41975560ac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:29 +0000
Subject: [PATCH 15/30] fix: format reports a file that cannot be read instead
 of panicking

---
 crates/planus-translation/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/lib.rs b/crates/planus-translation/src/lib.rs
index 10c8779..543b870 100644
--- a/crates/planus-translation/src/lib.rs
+++ b/crates/planus-translation/src/lib.rs
@@ -25,7 +25,7 @@ pub use intermediate_language::{translate_files, translate_files_with_options};
 
 pub fn format_file(path: &impl AsRef<Path>, ignore_errors: bool) -> Option<String> {
     let mut ctx = ctx::Ctx::default();
-    let file_id = ctx.add_file(path, []).unwrap();
+    let file_id = ctx.add_file(path, [])?;
     if let Some(parsed) = ctx.parse_file(file_id) {
         if ctx.has_errors() && !ignore_errors {
             None
-- 
2.43.0


From 31993452f692f4ca3c9e029f8d2a1f514519f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 16/30] fix: label the entries of a vtable by the slot they are
 in

---
 .../planus-buffer-inspection/src/children.rs  | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/children.rs b/crates/planus-buffer-inspection/src/children.rs
index f0f6d50..d5c4506 100644
--- a/crates/planus-buffer-inspection/src/children.rs
+++ b/crates/planus-buffer-inspection/src/children.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 
-use planus_types::{ast::IntegerType, intermediate::TypeKind};
+use planus_types::ast::IntegerType;
 
 use crate::{
     object_info::DeclarationInfo, ArrayObject, BoolObject, ByteIndex, EnumObject, FloatObject,
@@ -70,21 +70,15 @@ impl<'a> Children<'a> for VTableObject {
                 1 => callback(Some(Cow::Borrowed("#table_size")), object),
                 n => {
                     let n = n - 2;
-                    if let Some((k, v)) = decl.fields.get_index(n) {
-                        if matches!(v.type_.kind, TypeKind::Union(_)) {
-                            callback(Some(Cow::Owned(format!("offset[union_tag[{k}]]"))), object)
-                        } else {
-                            callback(Some(Cow::Owned(format!("offset[{k}]"))), object)
+                    let name = match decl.get_field_for_vtable_index(n as u32) {
+                        Some((k, _, true)) => format!("offset[union_tag[{k}]]"),
+                        Some((k, v, false)) if v.type_.kind.is_type_with_tag() => {
+                            format!("offset[union[{k}]]")
                         }
-                    } else if let Some((k, _v)) = decl
-                        .fields
-                        .get_index(n - 1)
-                        .filter(|(_k, v)| matches!(v.type_.kind, TypeKind::Union(_)))
-                    {
-                        callback(Some(Cow::Owned(format!("offset[union[{k}]]"))), object)
-                    } else {
-                        callback(Some(Cow::Owned(format!("offset[{n}]"))), object)
-                    }
+                        Some((k, _, false)) => format!("offset[{k}]"),
+                        None => format!("offset[{n}]"),
+                    };
+                    callback(Some(Cow::Owned(name)), object)
                 }
             }
         }
-- 
2.43.0


From 51f08cb2b6639caa1147c7f926b9f46caff1f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 17/30] fix: inspect tables with fields from a newer version of
 the schema

---
 crates/planus-buffer-inspection/src/children.rs | 8 ++++++--
 crates/planus-buffer-inspection/src/lib.rs      | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/children.rs b/crates/planus-buffer-inspection/src/children.rs
index d5c4506..a2e6ae1 100644
--- a/crates/planus-buffer-inspection/src/children.rs
+++ b/crates/planus-buffer-inspection/src/children.rs
@@ -105,8 +105,12 @@ impl<'a> Children<'a> for TableObject {
             if offset == 0 {
                 continue;
             }
-            let (field_name, _field_decl, is_union_tag) =
-                decl.get_field_for_vtable_index(i as u32).unwrap();
+            let Some((field_name, _field_decl, is_union_tag)) =
+                decl.get_field_for_vtable_index(i as u32)
+            else {
+                // A field from a newer version of the schema
+                continue;
+            };
             let field_name = if is_union_tag {
                 Cow::Owned(format!("union_key[{field_name}]"))
             } else {
diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index 92b1e9d..a8b9b76 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -491,8 +491,11 @@ impl TableObject {
         };
 
         let offset = self.offset + object_offset as u32;
-        let (_field_name, field_decl, is_union_tag) =
-            decl.get_field_for_vtable_index(field_index).unwrap();
+        let Some((_field_name, field_decl, is_union_tag)) =
+            decl.get_field_for_vtable_index(field_index)
+        else {
+            return Ok(None);
+        };
         let object = match field_decl.type_.kind {
             TypeKind::Table(declaration) => Object::Offset(OffsetObject {
                 offset,
-- 
2.43.0


From f2277c247b203ce06d16a17609120a2c12cbe16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 18/30] fix: inspect unions that hold a struct

---
 crates/planus-buffer-inspection/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index a8b9b76..2f21d54 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -219,6 +219,7 @@ pub struct OffsetObject<'a> {
 pub enum OffsetObjectKind<'a> {
     VTable(DeclarationIndex),
     Table(DeclarationIndex),
+    Struct(DeclarationIndex),
     Vector(&'a Type),
     UnionVectorTags {
         declaration: DeclarationIndex,
@@ -383,6 +384,10 @@ impl<'a> OffsetObject<'a> {
                 offset,
                 declaration,
             })),
+            OffsetObjectKind::Struct(declaration) => Ok(Object::Struct(StructObject {
+                offset,
+                declaration,
+            })),
             OffsetObjectKind::Vector(type_) => Ok(Object::Vector(VectorObject { offset, type_ })),
             OffsetObjectKind::UnionVector {
                 declaration,
@@ -416,6 +421,9 @@ impl<'a> OffsetObject<'a> {
             OffsetObjectKind::Table(index) => {
                 Cow::Owned(format!("&table {}", declarations.get_declaration(index).0))
             }
+            OffsetObjectKind::Struct(index) => {
+                Cow::Owned(format!("&struct {}", declarations.get_declaration(index).0))
+            }
             OffsetObjectKind::Vector(type_) => {
                 Cow::Owned(format!("&[{}]", declarations.format_type_kind(&type_.kind)))
             }
@@ -640,6 +648,9 @@ impl UnionObject {
                     TypeKind::Table(index) => OffsetObjectKind::Table(*index),
                     TypeKind::Vector(type_) => OffsetObjectKind::Vector(type_),
                     TypeKind::String => OffsetObjectKind::String,
+                    TypeKind::SimpleType(SimpleType::Struct(index)) => {
+                        OffsetObjectKind::Struct(*index)
+                    }
                     TypeKind::Array(_, _) | TypeKind::SimpleType(_) | TypeKind::Union(_) => {
                         panic!("Inconsistent declarations")
                     }
-- 
2.43.0


From a47ddb57834b03ca379c83b457908723a97e8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 19/30] fix: inspect unions without a value

---
 crates/planus-buffer-inspection/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index 2f21d54..5f12721 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -279,9 +279,9 @@ impl UnionTagObject {
         buffer: &InspectableFlatbuffer<'a>,
     ) -> Result<Option<(&'a str, &'a UnionVariant)>> {
         let decl = self.resolve_declaration(buffer);
-        if let Some((k, v)) = decl
-            .variants
-            .get_index(self.tag_value(buffer)? as usize - 1)
+        if let Some((k, v)) = (self.tag_value(buffer)? as usize)
+            .checked_sub(1)
+            .and_then(|index| decl.variants.get_index(index))
         {
             Ok(Some((k, v)))
         } else {
@@ -673,7 +673,10 @@ impl UnionObject {
         buffer: &InspectableFlatbuffer<'a>,
     ) -> Result<Option<(&'a str, &'a UnionVariant)>> {
         let decl = self.resolve_declaration(buffer);
-        if let Some((k, v)) = decl.variants.get_index(self.tag as usize - 1) {
+        if let Some((k, v)) = (self.tag as usize)
+            .checked_sub(1)
+            .and_then(|index| decl.variants.get_index(index))
+        {
             Ok(Some((k, v)))
         } else {
             Ok(None)
-- 
2.43.0


From 78b5f3321f6e59d62dcf158935500fc352e0dafc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 20/30] fix: confirming an empty address in the inspector no
 longer panics

---
 crates/planus-inspector/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index 7ae8af6..add5b43 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -634,11 +634,12 @@ impl<'a> Inspector<'a> {
                     input.push(c.to_ascii_lowercase());
                 }
                 KeyCode::Enter => {
-                    let addr = usize::from_str_radix(input, 16).unwrap();
-                    self.view_stack.push(self.view_state.clone());
-                    self.update_byte_pos(addr);
-                    self.active_window = ActiveWindow::HexView;
-                    return None;
+                    if let Ok(addr) = usize::from_str_radix(input, 16) {
+                        self.view_stack.push(self.view_state.clone());
+                        self.update_byte_pos(addr);
+                        self.active_window = ActiveWindow::HexView;
+                        return None;
+                    }
                 }
                 KeyCode::Backspace => {
                     input.pop();
-- 
2.43.0


From 15bfb5104334c3f1e8a8f977b451634c554d9031 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 21/30] fix: draw the inspector on terminals too small for its
 contents

---
 crates/planus-inspector/src/lib.rs |  2 +-
 crates/planus-inspector/src/ui.rs  | 74 +++++++++++++++++-------------
 2 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index add5b43..5a33ce3 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -73,7 +73,7 @@ impl HexViewState {
     }
 
     pub fn update_for_area(&mut self, buffer_len: usize, byte_index: usize, area: Rect) {
-        let remaining_width = area.width as usize - self.max_offset_hex_digits - 2;
+        let remaining_width = (area.width as usize).saturating_sub(self.max_offset_hex_digits + 2);
         let eight_groups = (remaining_width + 1) / 25;
         self.line_size = eight_groups * 8;
 
diff --git a/crates/planus-inspector/src/ui.rs b/crates/planus-inspector/src/ui.rs
index 88f0101..f2c82c3 100644
--- a/crates/planus-inspector/src/ui.rs
+++ b/crates/planus-inspector/src/ui.rs
@@ -110,7 +110,7 @@ pub fn draw(f: &mut Frame, inspector: &mut Inspector) {
             let mut area = centered_rect(20, 20, f.area());
             area.height = 3;
             area.width = 21;
-            area
+            area.intersection(f.area())
         } else {
             centered_rect(60, 60, f.area())
         };
@@ -273,7 +273,8 @@ impl<'a> ViewState<'a> {
         if let Some(info_view_data) = &mut self.info_view_data {
             if area.height <= 4 {
                 info_view_data.first_line_shown = info_view_data.first_line_shown.clamp(
-                    (info_view_data.lines.index() + 1).saturating_sub(inner_area.height as usize),
+                    (info_view_data.lines.index() + 1)
+                        .saturating_sub(inner_area.height.max(1) as usize),
                     info_view_data.lines.index(),
                 );
             } else {
@@ -618,36 +619,41 @@ impl Widget for ObjectViewWidget<'_> {
             }
             None => area,
         };
-        if area.height == 0 {
+        if area.is_empty() {
             return;
         }
 
         if let Some(info_view_data) = &self.info_view_data {
             let selected_line = info_view_data.lines.cur();
-            let mut inner_area = area;
-
-            inner_area.x += selected_line.indentation as u16;
-            inner_area.width =
-                (inner_area.width as usize).saturating_sub(selected_line.indentation) as u16;
-
-            let first_selected_line = selected_line
-                .start_line_index
-                .max(info_view_data.first_line_shown)
-                - info_view_data.first_line_shown;
-            let last_selected_line = selected_line
-                .end_line_index
-                .min(info_view_data.first_line_shown + area.height as usize - 1)
-                - info_view_data.first_line_shown;
-            inner_area.y += first_selected_line as u16;
-            inner_area.height =
-                (inner_area.height as usize).saturating_sub(first_selected_line) as u16;
-
-            inner_area.width = (inner_area.width as usize).min(selected_line.object_width) as u16;
-            inner_area.height = (inner_area.height as usize)
-                .min(last_selected_line - first_selected_line + 1)
-                as u16;
-
-            buf.set_style(inner_area, INNER_AREA_STYLE);
+            let first_line_shown = info_view_data.first_line_shown;
+            let last_line_shown = first_line_shown + area.height as usize - 1;
+
+            // The selected line might be scrolled out of view in a preview
+            if selected_line.start_line_index <= last_line_shown
+                && first_line_shown <= selected_line.end_line_index
+            {
+                let mut inner_area = area;
+
+                inner_area.x += selected_line.indentation as u16;
+                inner_area.width =
+                    (inner_area.width as usize).saturating_sub(selected_line.indentation) as u16;
+
+                let first_selected_line =
+                    selected_line.start_line_index.max(first_line_shown) - first_line_shown;
+                let last_selected_line =
+                    selected_line.end_line_index.min(last_line_shown) - first_line_shown;
+                inner_area.y += first_selected_line as u16;
+                inner_area.height =
+                    (inner_area.height as usize).saturating_sub(first_selected_line) as u16;
+
+                inner_area.width =
+                    (inner_area.width as usize).min(selected_line.object_width) as u16;
+                inner_area.height = (inner_area.height as usize)
+                    .min(last_selected_line - first_selected_line + 1)
+                    as u16;
+
+                buf.set_style(inner_area, INNER_AREA_STYLE);
+            }
 
             for (line_index, (i, line)) in info_view_data
                 .lines
@@ -667,7 +673,7 @@ impl Widget for ObjectViewWidget<'_> {
                     area.left() + line.indentation as u16,
                     area.top() + line_index as u16,
                     &line.line,
-                    area.width as usize - line.indentation,
+                    (area.width as usize).saturating_sub(line.indentation),
                     style,
                 );
 
@@ -769,11 +775,17 @@ impl Widget for TreeStateWidget<'_, '_> {
             }
             None => area,
         };
-        if area.height == 0 {
+        if area.is_empty() {
             return;
         }
 
-        for (i, line) in self.tree_state.lines.iter().enumerate() {
+        for (i, line) in self
+            .tree_state
+            .lines
+            .iter()
+            .enumerate()
+            .take(area.height as usize)
+        {
             let style = if i == self.tree_state.lines.index() {
                 CURSOR_STYLE
             } else {
@@ -790,7 +802,7 @@ impl Widget for TreeStateWidget<'_, '_> {
                 area.left() + 2 * line.indent_level as u16,
                 area.top() + i as u16,
                 format!("{}{suffix}", line.node.text),
-                area.width as usize - line.indent_level,
+                (area.width as usize).saturating_sub(2 * line.indent_level),
                 style,
             );
         }
-- 
2.43.0


From aaa51136eefc5c72e1652edd4853ab7071cae9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 22/30] fix: generate valid names for identifiers that start
 with an underscore and a digit

---
 crates/planus-codegen/src/rust/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index c069d0f..428b9ce 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -121,8 +121,18 @@ pub struct RpcMethod {}
 
 const BINDING_KIND_TYPES: &str = "types";
 
+/// Rust identifiers cannot start with a digit, even though removing the leading
+/// underscores of a valid name can leave one there.
+fn avoid_leading_digit(name: String) -> String {
+    if name.starts_with(|c: char| c.is_ascii_digit()) {
+        format!("_{name}")
+    } else {
+        name
+    }
+}
+
 fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>) -> String {
-    let name = path.to_snake_case().into();
+    let name = avoid_leading_digit(path.to_snake_case()).into();
     namespace_names
         .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
@@ -130,7 +140,7 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 }
 
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
-    let name = path.to_upper_camel_case().into();
+    let name = avoid_leading_digit(path.to_upper_camel_case()).into();
     declaration_names
         .declaration_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
@@ -142,7 +152,7 @@ fn reserve_field_name(
     binding_kind: &'static str,
     declaration_names: &mut DeclarationNames<'_, '_>,
 ) -> String {
-    let name = path.to_snake_case().into();
+    let name = avoid_leading_digit(path.to_snake_case()).into();
     declaration_names
         .declaration_names
         .try_reserve_repeat(binding_kind, name, '_')
@@ -154,7 +164,7 @@ fn reserve_rust_enum_variant_name(
     binding_kind: &'static str,
     declaration_names: &mut DeclarationNames<'_, '_>,
 ) -> String {
-    let name = path.to_upper_camel_case().into();
+    let name = avoid_leading_digit(path.to_upper_camel_case()).into();
     declaration_names
         .declaration_names
         .try_reserve_repeat(binding_kind, name, '_')
@@ -380,7 +390,7 @@ impl Backend for RustBackend {
             "name",
             &mut translation_context.declaration_names,
         );
-        let mut name_with_as = format!("{field_name}_as").to_snake_case();
+        let mut name_with_as = avoid_leading_digit(format!("{field_name}_as").to_snake_case());
         if name_with_as == "as" {
             name_with_as = format!("{field_name}_as");
         }
-- 
2.43.0


From e65e678ad396a5fa74346bb89466fc021e995f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 23/30] fix: give declarations of a namespace distinct Rust
 names

---
 crates/planus-codegen/src/backend.rs             |  2 +-
 crates/planus-codegen/src/backend_translation.rs | 12 ++++++------
 crates/planus-codegen/src/rust/mod.rs            |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/planus-codegen/src/backend.rs b/crates/planus-codegen/src/backend.rs
index b30dae7..becda27 100644
--- a/crates/planus-codegen/src/backend.rs
+++ b/crates/planus-codegen/src/backend.rs
@@ -21,7 +21,7 @@ pub struct NamespaceNames<'a, 'keywords> {
 
 pub struct DeclarationNames<'a, 'keywords> {
     pub _global_names: &'a mut Names<'keywords>,
-    pub _namespace_names: &'a mut Names<'keywords>,
+    pub namespace_names: &'a mut Names<'keywords>,
     pub declaration_names: &'a mut Names<'keywords>,
 }
 
diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index bd36a66..e2316d9 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -442,7 +442,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_table(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -456,7 +456,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_struct(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -470,7 +470,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_enum(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -484,7 +484,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_union(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -528,7 +528,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                                 &mut DeclarationTranslationContext {
                                     declaration_names: DeclarationNames {
                                         _global_names: global_names,
-                                        _namespace_names: namespace_names,
+                                        namespace_names,
                                         declaration_names,
                                     },
                                     translated_namespaces: &translated_namespaces,
@@ -557,7 +557,7 @@ pub fn run_backend<B: ?Sized + Backend>(
         let mut translation_context = DeclarationTranslationContext {
             declaration_names: DeclarationNames {
                 _global_names: global_names,
-                _namespace_names: namespace_names,
+                namespace_names,
                 declaration_names,
             },
             translated_namespaces: &translated_namespaces,
diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 428b9ce..1384095 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -142,7 +142,7 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
     let name = avoid_leading_digit(path.to_upper_camel_case()).into();
     declaration_names
-        .declaration_names
+        .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
         .into()
 }
-- 
2.43.0


From 93644a30f6d72cfef253a9d849679b7529b48809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 24/30] fix: give namespaces of a parent distinct module names

---
 crates/planus-codegen/src/backend_translation.rs | 12 +++++++++---
 crates/planus-codegen/src/rust/mod.rs            |  6 ++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index e2316d9..54151ce 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -418,12 +418,18 @@ pub fn run_backend<B: ?Sized + Backend>(
     let translated_namespaces = declarations
         .namespaces
         .iter()
-        .zip(&mut namespace_names)
-        .map(|((namespace_name, namespace), namespace_names)| {
+        .enumerate()
+        .map(|(index, (namespace_name, namespace))| {
+            // The name of a namespace is one of the names inside its parent
+            let mut parent_name = namespace_name.clone();
+            let parent = parent_name
+                .pop()
+                .and_then(|_| declarations.namespaces.get_index_of(&parent_name))
+                .unwrap_or(index);
             backend.generate_namespace(
                 &mut NamespaceNames {
                     _global_names: global_names,
-                    namespace_names,
+                    namespace_names: &mut namespace_names[parent],
                 },
                 namespace_name,
                 namespace,
diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 1384095..546e20b 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -294,6 +294,12 @@ impl Backend for RustBackend {
         namespace_name: &AbsolutePath,
         _namespace: &intermediate::Namespace,
     ) -> Namespace {
+        if namespace_name.0.len() <= 1 {
+            // The module generated for the root namespace would shadow this name
+            namespace_names
+                .namespace_names
+                .try_reserve(BINDING_KIND_TYPES, "root");
+        }
         let name = namespace_name.0.last().map_or_else(String::new, |name| {
             reserve_module_name(name, namespace_names)
         });
-- 
2.43.0


From 44f9c13c32a8e05c98b1403a861b756a0a21b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 25/30] fix: keep generic parameters apart from the generated
 types

---
 crates/planus-codegen/src/lib.rs              |  1 +
 crates/planus-codegen/src/rust/mod.rs         | 42 ++++++++++++++++++-
 .../src/templates/rust/enum.template          |  2 +-
 .../src/templates/rust/struct.template        |  2 +-
 .../src/templates/rust/table.template         | 30 ++++++-------
 .../src/templates/rust/union.template         | 20 ++++-----
 6 files changed, 68 insertions(+), 29 deletions(-)

diff --git a/crates/planus-codegen/src/lib.rs b/crates/planus-codegen/src/lib.rs
index 2f6d2ae..29d8d4d 100644
--- a/crates/planus-codegen/src/lib.rs
+++ b/crates/planus-codegen/src/lib.rs
@@ -31,6 +31,7 @@ pub fn generate_rust(declarations: &Declarations, format: bool) -> eyre::Result<
             default_analysis,
             eq_analysis,
             infallible_analysis,
+            const_parameter: rust::const_parameter(declarations),
         },
         declarations,
     );
diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 546e20b..c37202a 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -25,6 +25,7 @@ pub struct RustBackend {
     pub default_analysis: Vec<bool>,
     pub eq_analysis: Vec<bool>,
     pub infallible_analysis: Vec<bool>,
+    pub const_parameter: &'static str,
 }
 
 #[derive(Clone, Debug)]
@@ -37,6 +38,7 @@ pub struct Table {
     pub owned_name: String,
     pub ref_name: String,
     pub builder_name: String,
+    pub type_parameter: &'static str,
     pub should_do_default: bool,
     pub should_do_eq: bool,
 }
@@ -68,6 +70,7 @@ pub struct Struct {
     pub should_do_default: bool,
     pub should_do_eq: bool,
     pub should_do_infallible_conversion: bool,
+    pub const_parameter: &'static str,
 }
 
 #[derive(Clone, Debug)]
@@ -83,6 +86,7 @@ pub struct StructField {
 pub struct Enum {
     pub name: String,
     pub repr_type: String,
+    pub const_parameter: &'static str,
 }
 
 #[derive(Clone, Debug)]
@@ -99,6 +103,8 @@ pub struct Union {
     pub ref_name_with_lifetime: String,
     pub should_do_eq: bool,
     pub should_do_infallible_conversion: bool,
+    pub const_parameter: &'static str,
+    pub type_parameter: &'static str,
 }
 
 #[derive(Clone, Debug)]
@@ -131,6 +137,31 @@ fn avoid_leading_digit(name: String) -> String {
     }
 }
 
+/// The name of the const parameters in the generated code. It must not be the
+/// name of a generated type, since that would be preferred inside generic arguments.
+pub fn const_parameter(declarations: &intermediate::Declarations) -> &'static str {
+    let is_n = |path: &AbsolutePath| {
+        path.0
+            .last()
+            .is_some_and(|s| s.to_upper_camel_case() == "N")
+    };
+    if declarations.declarations.keys().any(is_n) {
+        // Names of types never have an underscore in the middle
+        "N_VALUE"
+    } else {
+        "N"
+    }
+}
+
+/// The name (or the start of the names) of the type parameters of a builder.
+/// It must not shadow the type being built.
+fn type_parameter(owned_name: &str) -> &'static str {
+    match owned_name.strip_prefix('T') {
+        Some(rest) if rest.chars().all(|c| c.is_ascii_digit()) => "V",
+        _ => "T",
+    }
+}
+
 fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>) -> String {
     let name = avoid_leading_digit(path.to_snake_case()).into();
     namespace_names
@@ -315,8 +346,10 @@ impl Backend for RustBackend {
         _decl: &intermediate::Table,
     ) -> Table {
         let decl_name = decl_name.0.last().unwrap();
+        let owned_name = reserve_type_name(decl_name, declaration_names);
         Table {
-            owned_name: reserve_type_name(decl_name, declaration_names),
+            type_parameter: type_parameter(&owned_name),
+            owned_name,
             ref_name: reserve_type_name(&format!("{decl_name}Ref"), declaration_names),
             builder_name: reserve_type_name(&format!("{decl_name}Builder"), declaration_names),
             should_do_default: self.default_analysis[decl_id.0],
@@ -339,6 +372,7 @@ impl Backend for RustBackend {
             should_do_default: self.default_analysis[decl_id.0],
             should_do_eq: self.eq_analysis[decl_id.0],
             should_do_infallible_conversion: self.infallible_analysis[decl_id.0],
+            const_parameter: self.const_parameter,
         }
     }
 
@@ -354,6 +388,7 @@ impl Backend for RustBackend {
         Enum {
             name: reserve_type_name(decl_name, declaration_names),
             repr_type: format!("{:?}", decl.type_).to_lowercase(),
+            const_parameter: self.const_parameter,
         }
     }
 
@@ -368,8 +403,11 @@ impl Backend for RustBackend {
         let decl_name = decl_name.0.last().unwrap();
         let ref_name = reserve_type_name(&format!("{decl_name}Ref"), declaration_names);
         let builder_name = reserve_type_name(&format!("{decl_name}Builder"), declaration_names);
+        let owned_name = reserve_type_name(decl_name, declaration_names);
         Union {
-            owned_name: reserve_type_name(decl_name, declaration_names),
+            const_parameter: self.const_parameter,
+            type_parameter: type_parameter(&owned_name),
+            owned_name,
             builder_name,
             ref_name_with_lifetime: if decl.variants.is_empty() {
                 ref_name.clone()
diff --git a/crates/planus-codegen/src/templates/rust/enum.template b/crates/planus-codegen/src/templates/rust/enum.template
index 9c58321..fd52d7e 100644
--- a/crates/planus-codegen/src/templates/rust/enum.template
+++ b/crates/planus-codegen/src/templates/rust/enum.template
@@ -52,7 +52,7 @@ unsafe impl ::planus::Primitive for {{ info.name }} {
 
 impl ::planus::WriteAsPrimitive<{{ info.name }}> for {{ info.name }} {
     #[inline]
-    fn write<const N: usize>(&self, cursor: ::planus::Cursor<'_, N>, buffer_position: u32) {
+    fn write<const {{info.const_parameter}}: usize>(&self, cursor: ::planus::Cursor<'_, {{info.const_parameter}}>, buffer_position: u32) {
         (*self as {{ info.repr_type }}).write(cursor, buffer_position);
     }
 }
diff --git a/crates/planus-codegen/src/templates/rust/struct.template b/crates/planus-codegen/src/templates/rust/struct.template
index 12d6251..11bef02 100644
--- a/crates/planus-codegen/src/templates/rust/struct.template
+++ b/crates/planus-codegen/src/templates/rust/struct.template
@@ -25,7 +25,7 @@ unsafe impl ::planus::Primitive for {{ info.owned_name }} {
 #[allow(clippy::identity_op)]
 impl ::planus::WriteAsPrimitive<{{ info.owned_name }}> for {{ info.owned_name }} {
     #[inline]
-    fn write<const N: usize>(&self, cursor: ::planus::Cursor<'_, N>, buffer_position: u32) {
+    fn write<const {{info.const_parameter}}: usize>(&self, cursor: ::planus::Cursor<'_, {{info.const_parameter}}>, buffer_position: u32) {
         {% for field in fields -%}
             let (cur, cursor) = cursor.split::<{{ field.size }} , {{ size - field.offset - field.size }}>();
             self.{{ field.info.name }}.write(cur, buffer_position - {{ field.offset }});
diff --git a/crates/planus-codegen/src/templates/rust/table.template b/crates/planus-codegen/src/templates/rust/table.template
index 252b1ac..f0633fb 100644
--- a/crates/planus-codegen/src/templates/rust/table.template
+++ b/crates/planus-codegen/src/templates/rust/table.template
@@ -147,13 +147,13 @@ pub struct {{ info.builder_name }}<State>(State);
 {% for field in fields.declaration_order() -%}
 impl<
     {% for i in 0..loop.index0 %}
-        T{{i}},
+        {{info.type_parameter}}{{i}},
     {% endfor %}
 > {{ info.builder_name}}
 <
     (
     {% for i in 0..loop.index0 %}
-        T{{i}},
+        {{info.type_parameter}}{{i}},
     {% endfor %}
     )
 >
@@ -161,12 +161,12 @@ impl<
     /// Setter for the [`{{field.name_and_docs.original_name}}` field]({{info.owned_name}}#structfield.{{field.info.name}}).
     #[inline]
     #[allow(clippy::type_complexity)]
-    pub fn {{ field.info.name }}<T{{loop.index0}}>(self, value: T{{loop.index0}}) -> {{ info.builder_name }}<(
+    pub fn {{ field.info.name }}<{{info.type_parameter}}{{loop.index0}}>(self, value: {{info.type_parameter}}{{loop.index0}}) -> {{ info.builder_name }}<(
     {% for i in 0..=loop.index0 %}
-        T{{i}},
+        {{info.type_parameter}}{{i}},
     {% endfor %}
     )>
-    where T{{loop.index0}}: ::planus::{{ field.info.create_trait }}
+    where {{info.type_parameter}}{{loop.index0}}: ::planus::{{ field.info.create_trait }}
     {
         {% if !loop.first %}
         let (
@@ -189,7 +189,7 @@ impl<
     #[allow(clippy::type_complexity)]
     pub fn {{ field.info.name_with_as }}_default(self) -> {{ info.builder_name}}<(
         {% for i in 0..loop.index0 %}
-            T{{i}},
+            {{info.type_parameter}}{{i}},
         {% endfor %}
         ::planus::DefaultValue,
     )>
@@ -204,7 +204,7 @@ impl<
     #[allow(clippy::type_complexity)]
     pub fn {{ field.info.name_with_as }}_null(self) -> {{ info.builder_name}}<(
         {% for i in 0..loop.index0 %}
-            T{{i}},
+            {{info.type_parameter}}{{i}},
         {% endfor %}
         (),
     )>
@@ -218,11 +218,11 @@ impl<
 
 impl<
     {% for field in fields.declaration_order() %}
-        T{{ loop.index0 }},
+        {{info.type_parameter}}{{ loop.index0 }},
     {% endfor %}
 > {{ info.builder_name }}<(
     {% for field in 0..fields.declaration_order().count() %}
-        T{{loop.index0}},
+        {{info.type_parameter}}{{loop.index0}},
     {% endfor %}
 )> {
     /// Finish writing the builder to get an [Offset](::planus::Offset) to a serialized [{{info.owned_name}}].
@@ -236,11 +236,11 @@ impl<
 
 impl<
     {% for field in fields.declaration_order() %}
-        T{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
+        {{info.type_parameter}}{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
     {% endfor %}
 > ::planus::WriteAs<::planus::Offset<{{info.owned_name}}>> for {{ info.builder_name }}<(
     {% for field in 0..fields.declaration_order().count() %}
-        T{{loop.index0}},
+        {{info.type_parameter}}{{loop.index0}},
     {% endfor %}
 )> {
     type Prepared = ::planus::Offset<{{ info.owned_name }}>;
@@ -253,11 +253,11 @@ impl<
 
 impl<
     {% for field in fields.declaration_order() %}
-        T{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
+        {{info.type_parameter}}{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
     {% endfor %}
 > ::planus::WriteAsOptional<::planus::Offset<{{info.owned_name}}>> for {{ info.builder_name }}<(
     {% for field in 0..fields.declaration_order().count() %}
-        T{{loop.index0}},
+        {{info.type_parameter}}{{loop.index0}},
     {% endfor %}
 )> {
     type Prepared = ::planus::Offset<{{ info.owned_name }}>;
@@ -270,11 +270,11 @@ impl<
 
 impl<
     {% for field in fields.declaration_order() %}
-        T{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
+        {{info.type_parameter}}{{ loop.index0 }}: ::planus::{{ field.info.create_trait }},
     {% endfor %}
 > ::planus::WriteAsOffset<{{info.owned_name}}> for {{ info.builder_name }}<(
     {% for field in 0..fields.declaration_order().count() %}
-        T{{loop.index0}},
+        {{info.type_parameter}}{{loop.index0}},
     {% endfor %}
 )> {
     #[inline]
diff --git a/crates/planus-codegen/src/templates/rust/union.template b/crates/planus-codegen/src/templates/rust/union.template
index 195d9d7..88d35fa 100644
--- a/crates/planus-codegen/src/templates/rust/union.template
+++ b/crates/planus-codegen/src/templates/rust/union.template
@@ -66,24 +66,24 @@ impl ::planus::WriteAsOptionalUnion<{{info.owned_name}}> for {{info.owned_name}}
 /// Can be created using the [{{info.owned_name}}::builder] method.
 #[derive(Debug)]
 #[must_use]
-pub struct {{ info.builder_name }}<T>(T);
+pub struct {{ info.builder_name }}<{{info.type_parameter}}>({{info.type_parameter}});
 
 impl {{ info.builder_name }}<::planus::Uninitialized> {
     {% for variant in variants -%}
     /// Creates an instance of the [`{{variant.name_and_docs.original_name}}` variant]({{info.owned_name}}#variant.{{variant.enum_name}}).
     #[inline]
-    pub fn {{variant.builder_name}}<T>(
+    pub fn {{variant.builder_name}}<{{info.type_parameter}}>(
         self,
-        value: T,
-    ) -> {{ info.builder_name }}<::planus::Initialized<{{loop.index}}, T>>
-        where T: ::planus::{{variant.create_trait}} {
+        value: {{info.type_parameter}},
+    ) -> {{ info.builder_name }}<::planus::Initialized<{{loop.index}}, {{info.type_parameter}}>>
+        where {{info.type_parameter}}: ::planus::{{variant.create_trait}} {
         {{ info.builder_name }}(::planus::Initialized(value))
     }
 
     {% endfor %}
 }
 
-impl<const N: u8, T> {{ info.builder_name }}<::planus::Initialized<N, T>> {
+impl<const {{info.const_parameter}}: u8, {{info.type_parameter}}> {{ info.builder_name }}<::planus::Initialized<{{info.const_parameter}}, {{info.type_parameter}}>> {
     /// Finish writing the builder to get an [UnionOffset](::planus::UnionOffset) to a serialized [{{info.owned_name}}].
     #[inline]
     pub fn finish(self, builder: &mut ::planus::Builder) -> ::planus::UnionOffset<{{ info.owned_name }}>
@@ -94,8 +94,8 @@ impl<const N: u8, T> {{ info.builder_name }}<::planus::Initialized<N, T>> {
 }
 
 {% for variant in variants -%}
-impl<T> ::planus::WriteAsUnion<{{info.owned_name}}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, T>>
-    where T: ::planus::{{variant.create_trait}}
+impl<{{info.type_parameter}}> ::planus::WriteAsUnion<{{info.owned_name}}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, {{info.type_parameter}}>>
+    where {{info.type_parameter}}: ::planus::{{variant.create_trait}}
 {
     #[inline]
     fn prepare(&self, builder: &mut ::planus::Builder) -> ::planus::UnionOffset<{{info.owned_name}}> {
@@ -103,8 +103,8 @@ impl<T> ::planus::WriteAsUnion<{{info.owned_name}}> for {{info.builder_name}}<::
     }
 }
 
-impl<T> ::planus::WriteAsOptionalUnion<{{info.owned_name}}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, T>>
-    where T: ::planus::{{variant.create_trait}}
+impl<{{info.type_parameter}}> ::planus::WriteAsOptionalUnion<{{info.owned_name}}> for {{info.builder_name}}<::planus::Initialized<{{loop.index}}, {{info.type_parameter}}>>
+    where {{info.type_parameter}}: ::planus::{{variant.create_trait}}
 {
     #[inline]
     fn prepare(&self, builder: &mut ::planus::Builder) -> ::core::option::Option<::planus::UnionOffset<{{info.owned_name}}>> {
-- 
2.43.0


From 81a35c986aec127d10d7107d8dde22f75872d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 26/30] fix: compare and hash nested structs whatever their
 fields are called

---
 crates/planus-codegen/src/rust/mod.rs         |  3 ++
 .../src/templates/rust/struct.template        | 30 ++++++++++++++-----
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index c37202a..fc9761c 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -80,6 +80,7 @@ pub struct StructField {
     pub getter_return_type: String,
     pub getter_code: String,
     pub can_do_infallible_conversion: bool,
+    pub is_struct: bool,
 }
 
 #[derive(Clone, Debug)]
@@ -967,6 +968,7 @@ impl Backend for RustBackend {
             "name",
             &mut translation_context.declaration_names,
         );
+        let is_struct = matches!(resolved_type, ResolvedType::Struct(..));
         let StructFieldType {
             owned_type,
             getter_return_type,
@@ -979,6 +981,7 @@ impl Backend for RustBackend {
             getter_return_type,
             getter_code,
             can_do_infallible_conversion,
+            is_struct,
         }
     }
 
diff --git a/crates/planus-codegen/src/templates/rust/struct.template b/crates/planus-codegen/src/templates/rust/struct.template
index 11bef02..d5c9f4d 100644
--- a/crates/planus-codegen/src/templates/rust/struct.template
+++ b/crates/planus-codegen/src/templates/rust/struct.template
@@ -155,10 +155,16 @@ impl<'a, 'b> ::core::cmp::PartialEq<{{ info.ref_name }}<'a>> for {{ info.ref_nam
     impl<'a> ::core::cmp::Ord for {{ info.ref_name }}<'a> {
         fn cmp(&self, other: &{{info.ref_name}}<'_>) -> ::core::cmp::Ordering {
             {% for field in fields -%}
-                {% if loop.first %}
-                self.{{field.info.name}}().cmp(&other.{{field.info.name}}())
+                {% if !loop.first %}
+                .then_with(||
+                {% endif %}
+                {% if field.info.is_struct %}
+                ::core::cmp::Ord::cmp(&self.{{field.info.name}}(), &other.{{field.info.name}}())
                 {% else %}
-                .then_with(|| self.{{field.info.name}}().cmp(&other.{{field.info.name}}()))
+                self.{{field.info.name}}().cmp(&other.{{field.info.name}}())
+                {% endif %}
+                {% if !loop.first %}
+                )
                 {% endif %}
             {%- endfor %}
         }
@@ -167,7 +173,11 @@ impl<'a, 'b> ::core::cmp::PartialEq<{{ info.ref_name }}<'a>> for {{ info.ref_nam
     impl<'a> ::core::hash::Hash for {{ info.ref_name }}<'a> {
         fn hash<H: ::core::hash::Hasher>(&self, state: &mut H) {
             {% for field in fields -%}
-                self.{{field.info.name}}().hash(state);
+                {%- if field.info.is_struct -%}
+                    ::core::hash::Hash::hash(&self.{{field.info.name}}(), state);
+                {%- else -%}
+                    self.{{field.info.name}}().hash(state);
+                {%- endif -%}
             {%- endfor %}
         }
     }
@@ -175,10 +185,16 @@ impl<'a, 'b> ::core::cmp::PartialEq<{{ info.ref_name }}<'a>> for {{ info.ref_nam
     impl<'a, 'b> ::core::cmp::PartialOrd<{{ info.ref_name }}<'a>> for {{ info.ref_name }}<'b> {
         fn partial_cmp(&self, other: &{{info.ref_name}}<'_>) -> ::core::option::Option<::core::cmp::Ordering> {
             {% for field in fields -%}
-                {% if loop.last %}
-                self.{{field.info.name}}().partial_cmp(&other.{{field.info.name}}())
+                {% if !loop.last %}
+                match
+                {% endif %}
+                {% if field.info.is_struct %}
+                ::core::cmp::PartialOrd::partial_cmp(&self.{{field.info.name}}(), &other.{{field.info.name}}())
                 {% else %}
-                match self.{{field.info.name}}().partial_cmp(&other.{{field.info.name}}()) {
+                self.{{field.info.name}}().partial_cmp(&other.{{field.info.name}}())
+                {% endif %}
+                {% if !loop.last %}
+                {
                     ::core::option::Option::Some(::core::cmp::Ordering::Equal) => (),
                     o => return o,
                 }
-- 
2.43.0


From a2bfb998180f4ce9be0c510fa0eb126c4ddb3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 27/30] fix: generate doc comments that rustc accepts

---
 crates/planus-codegen/src/rust/mod.rs         | 20 +++++++++++++++++++
 .../src/templates/rust/enum.template          |  4 ++--
 .../src/templates/rust/namespace.template     |  4 ++--
 .../src/templates/rust/struct.template        |  4 ++--
 .../src/templates/rust/table.template         |  4 ++--
 .../src/templates/rust/union.template         |  4 ++--
 6 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index fc9761c..c602613 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -163,6 +163,26 @@ fn type_parameter(owned_name: &str) -> &'static str {
     }
 }
 
+/// The text of one line of a doc comment, without the characters that rustc
+/// does not accept there: line breaks and the ones changing the text direction.
+pub fn doc_comment(line: &str) -> Cow<'_, str> {
+    let is_rejected =
+        |c: char| matches!(c, '\r' | '\n' | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}');
+    let line = line.strip_suffix('\r').unwrap_or(line);
+    if line.contains(is_rejected) {
+        line.chars()
+            .map(|c| match c {
+                '\r' | '\n' => ' '.to_string(),
+                c if is_rejected(c) => c.escape_unicode().to_string(),
+                c => c.to_string(),
+            })
+            .collect::<String>()
+            .into()
+    } else {
+        line.into()
+    }
+}
+
 fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>) -> String {
     let name = avoid_leading_digit(path.to_snake_case()).into();
     namespace_names
diff --git a/crates/planus-codegen/src/templates/rust/enum.template b/crates/planus-codegen/src/templates/rust/enum.template
index fd52d7e..103e799 100644
--- a/crates/planus-codegen/src/templates/rust/enum.template
+++ b/crates/planus-codegen/src/templates/rust/enum.template
@@ -1,5 +1,5 @@
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+/// {{ crate::rust::doc_comment(docstring) }}
 {%- endfor %}
 #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, ::serde::Serialize, ::serde::Deserialize)]
 {%- if !variants.is_empty() -%}
@@ -8,7 +8,7 @@
 pub enum {{ info.name }} {
     {% for variant in variants -%}
         {% for docstring in variant.name_and_docs.docstrings.iter_strings() %}
-        /// {{ docstring }}
+        /// {{ crate::rust::doc_comment(docstring) }}
         {%- endfor %}
         {{ variant.name }} = {{ variant.value }},
     {% endfor %}
diff --git a/crates/planus-codegen/src/templates/rust/namespace.template b/crates/planus-codegen/src/templates/rust/namespace.template
index a781586..09137b1 100644
--- a/crates/planus-codegen/src/templates/rust/namespace.template
+++ b/crates/planus-codegen/src/templates/rust/namespace.template
@@ -5,14 +5,14 @@ pub use root::*;
 const _: () = ::planus::check_version_compatibility("planus-1.3.0");
 
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+/// {{ crate::rust::doc_comment(docstring) }}
 {%- endfor %}
 #[no_implicit_prelude]
 #[allow(clippy::needless_lifetimes)]
 mod root {
 {%- else -%}
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+/// {{ crate::rust::doc_comment(docstring) }}
 {%- endfor %}
 pub mod {{info.name}} {
 {%- endif -%}
diff --git a/crates/planus-codegen/src/templates/rust/struct.template b/crates/planus-codegen/src/templates/rust/struct.template
index d5c9f4d..bf10619 100644
--- a/crates/planus-codegen/src/templates/rust/struct.template
+++ b/crates/planus-codegen/src/templates/rust/struct.template
@@ -1,5 +1,5 @@
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+/// {{ crate::rust::doc_comment(docstring) }}
 {%- endfor %}
 #[derive(Copy, Clone, Debug, PartialEq, PartialOrd,
 {% if info.should_do_eq %}Eq, Ord, Hash,{% endif %}
@@ -9,7 +9,7 @@
 pub struct {{ info.owned_name }} {
     {% for field in fields -%}
         {% for docstring in field.name_and_docs.docstrings.iter_strings() %}
-        /// {{ docstring }}
+        /// {{ crate::rust::doc_comment(docstring) }}
         {%- endfor %}
         pub {{ field.info.name }}: {{ field.info.owned_type }},
     {% endfor %}
diff --git a/crates/planus-codegen/src/templates/rust/table.template b/crates/planus-codegen/src/templates/rust/table.template
index f0633fb..5198e26 100644
--- a/crates/planus-codegen/src/templates/rust/table.template
+++ b/crates/planus-codegen/src/templates/rust/table.template
@@ -1,5 +1,5 @@
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+/// {{ crate::rust::doc_comment(docstring) }}
 {%- endfor %}
 #[derive(Clone, Debug, PartialEq, PartialOrd,
 {% if info.should_do_eq %}Eq, Ord, Hash,{% endif %}
@@ -8,7 +8,7 @@
 pub struct {{ info.owned_name }}{
     {% for field in fields.declaration_order() -%}
         {% for docstring in field.name_and_docs.docstrings.iter_strings() %}
-        /// {{ docstring }}
+        /// {{ crate::rust::doc_comment(docstring) }}
         {%- endfor %}
         pub {{ field.info.name }}: {{ field.info.owned_type }},
     {%- endfor -%}
diff --git a/crates/planus-codegen/src/templates/rust/union.template b/crates/planus-codegen/src/templates/rust/union.template
index 88d35fa..59046d9 100644
--- a/crates/planus-codegen/src/templates/rust/union.template
+++ b/crates/planus-codegen/src/templates/rust/union.template
@@ -1,5 +1,5 @@
 {% for docstring in docstrings.iter_strings() %}
-/// {{ docstring }}
+/// {{ crate::rust::doc_comment(docstring) }}
 {%- endfor %}
 #[derive(Clone, Debug, PartialEq, PartialOrd,
 {% if info.should_do_eq %}Eq, Ord, Hash,{% endif %}
@@ -7,7 +7,7 @@
 pub enum {{ info.owned_name }}{
     {% for variant in variants -%}
         {% for docstring in variant.name_and_docs.docstrings.iter_strings() %}
-        /// {{ docstring }}
+        /// {{ crate::rust::doc_comment(docstring) }}
         {%- endfor %}
         {{ variant.enum_name }}({{ variant.owned_type }}),
     {% endfor %}
-- 
2.43.0


From 67e5b1f63b3c4530900a44e4eb743fcb11ab9e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:03 +0000
Subject: [PATCH 28/30] fix: keep local variables of the generated code apart
 from enum variants

---
 crates/planus-codegen/src/rust/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index c602613..8ce73f9 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -473,11 +473,17 @@ impl Backend for RustBackend {
         let mut serialize_default: Option<Cow<'static, str>> = None;
         let mut deserialize_default: Option<Cow<'static, str>> = None;
         let mut impl_default_code: Cow<'static, str> = "::core::default::Default::default()".into();
+        // Without any letters, the name could be the name of a variant as well
+        let binding = if name.starts_with('_') {
+            format!("field{name}")
+        } else {
+            name.clone()
+        };
         let mut try_from_code = if matches!(field.assign_mode, AssignMode::Optional) {
             format!(
                 r#"
-                    if let ::core::option::Option::Some({name}) = value.{name}()? {{
-                        ::core::option::Option::Some(::core::convert::TryInto::try_into({name})?)
+                    if let ::core::option::Option::Some({binding}) = value.{name}()? {{
+                        ::core::option::Option::Some(::core::convert::TryInto::try_into({binding})?)
                     }} else {{
                         ::core::option::Option::None
                     }}
-- 
2.43.0


From 79ae8eefda00cbf1534b0751b7bea0534ef8f2db Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 29/30] fix: honour the forced alignment of table fields

---
 .../planus-codegen/src/backend_translation.rs | 13 +++++++++++++
 .../src/templates/rust/table.template         |  8 ++++++++
 .../src/intermediate_language/translation.rs  |  5 ++++-
 crates/planus/src/table_writer.rs             | 19 +++++++++++++++++++
 4 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index 54151ce..c618efe 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -95,6 +95,7 @@ pub struct BackendTableFields<F> {
     fields: VecMap<(NameAndDocstrings, F)>,
     declaration_order: Vec<(usize, u32, BackendTableFieldType)>,
     alignment_order: Vec<(usize, u32, BackendTableFieldType)>,
+    forced_alignments: Vec<Option<u32>>,
 }
 
 impl<F> BackendTableFields<F> {
@@ -185,11 +186,17 @@ impl<F> BackendTableFields<F> {
                 decl.fields[*index].object_alignment
             })
         });
+        let forced_alignments = decl
+            .fields
+            .values()
+            .map(|field| field.forced_alignment.map(|(alignment, _span)| alignment))
+            .collect();
 
         BackendTableFields {
             fields,
             declaration_order,
             alignment_order,
+            forced_alignments,
         }
     }
 
@@ -201,6 +208,8 @@ impl<F> BackendTableFields<F> {
                 move |&(index, vtable_index, field_type)| BackendTableField {
                     field_type,
                     vtable_index,
+                    forced_alignment: self.forced_alignments[index]
+                        .filter(|_| field_type != BackendTableFieldType::UnionKey),
                     name_and_docs: &self.fields[index].0,
                     info: &self.fields[index].1,
                 },
@@ -214,6 +223,8 @@ impl<F> BackendTableFields<F> {
                 move |&(index, vtable_index, field_type)| BackendTableField {
                     field_type,
                     vtable_index,
+                    forced_alignment: self.forced_alignments[index]
+                        .filter(|_| field_type != BackendTableFieldType::UnionKey),
                     name_and_docs: &self.fields[index].0,
                     info: &self.fields[index].1,
                 },
@@ -231,6 +242,7 @@ impl<F> Default for BackendTableFields<F> {
             fields: Default::default(),
             declaration_order: Default::default(),
             alignment_order: Default::default(),
+            forced_alignments: Default::default(),
         }
     }
 }
@@ -238,6 +250,7 @@ impl<F> Default for BackendTableFields<F> {
 pub struct BackendTableField<'a, F> {
     pub field_type: BackendTableFieldType,
     pub vtable_index: u32,
+    pub forced_alignment: Option<u32>,
     pub info: &'a F,
     pub name_and_docs: &'a NameAndDocstrings,
 }
diff --git a/crates/planus-codegen/src/templates/rust/table.template b/crates/planus-codegen/src/templates/rust/table.template
index 5198e26..3187d23 100644
--- a/crates/planus-codegen/src/templates/rust/table.template
+++ b/crates/planus-codegen/src/templates/rust/table.template
@@ -69,6 +69,10 @@ impl {{info.owned_name}} {
                 {%- else -%}
                 table_writer.write_entry::<{{field.info.vtable_type}}>({{field.vtable_index}});
                 {%- endif -%}
+                {%- match field.forced_alignment -%}
+                {%- when Some with (alignment) -%} table_writer.force_alignment::<{{alignment}}>();
+                {%- when None -%}
+                {%- endmatch -%}
             {%- if field.info.read_type.starts_with("::core::option::Option<") || field.info.serialize_default.is_some() -%}
             }
             {%- endif -%}
@@ -90,6 +94,10 @@ impl {{info.owned_name}} {
                         {%- when BackendTableFieldType::UnionValueVector -%} object_writer.write::<_, _, 4>(&prepared_{{field.info.create_name}}.values_offset());
                         {%- when BackendTableFieldType::Other -%} object_writer.write::<_, _, {{field.info.primitive_size}}>(&prepared_{{field.info.create_name}});
                         {%- endmatch -%}
+                        {%- match field.forced_alignment -%}
+                        {%- when Some with (alignment) -%} object_writer.force_alignment::<{{field.info.primitive_size}}, {{alignment}}>();
+                        {%- when None -%}
+                        {%- endmatch -%}
                     {%- if field.info.read_type.starts_with("::core::option::Option<") || field.info.serialize_default.is_some() -%}
                     }
                     {%- endif -%}
diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 32055c2..6f9a30a 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1656,7 +1656,10 @@ impl<'a> Translator<'a> {
                             );
                         }
                     }
-                    max_size = max_size.saturating_add(value_size + tag_kind.size());
+                    let padded_size = value_size
+                        .checked_next_multiple_of(alignment)
+                        .unwrap_or(u32::MAX);
+                    max_size = max_size.saturating_add(padded_size.saturating_add(tag_kind.size()));
                     is_valid &= value_size != u32::MAX;
                     max_alignment = max_alignment.max(alignment);
                     field.object_value_size = value_size;
diff --git a/crates/planus/src/table_writer.rs b/crates/planus/src/table_writer.rs
index 4293a93..7b05a39 100644
--- a/crates/planus/src/table_writer.rs
+++ b/crates/planus/src/table_writer.rs
@@ -46,6 +46,15 @@ impl<const VTABLE_MAX_BYTES: usize> TableWriter<VTABLE_MAX_BYTES> {
         debug_assert!(self.vtable_size <= self.vtable_buffer.len());
     }
 
+    /// Gives the entry that was just written the alignment `ALIGNMENT`, by padding it until
+    /// the less aligned entries behind it start at a multiple of the alignment.
+    #[inline]
+    pub fn force_alignment<const ALIGNMENT: usize>(&mut self) {
+        self.object_alignment_mask = self.object_alignment_mask.max(ALIGNMENT - 1);
+        // The vtable offset is stored in front of the aligned part of the object
+        self.object_size = (self.object_size - 4).next_multiple_of(ALIGNMENT) + 4;
+    }
+
     #[inline]
     pub unsafe fn finish(mut self, builder: &mut Builder, f: impl FnOnce(&mut ObjectWriter<'_>)) {
         write_array(
@@ -101,4 +110,14 @@ impl ObjectWriter<'_> {
         );
         self.offset -= P::SIZE as u32;
     }
+
+    /// Writes the padding behind a value of size `SIZE` whose alignment is forced to `ALIGNMENT`
+    #[inline]
+    pub fn force_alignment<const SIZE: usize, const ALIGNMENT: usize>(&mut self) {
+        let padding = SIZE.next_multiple_of(ALIGNMENT) - SIZE;
+        let (cur, remaining) = mem::take(&mut self.bytes).split_at_mut(padding);
+        self.bytes = remaining;
+        cur.fill(MaybeUninit::new(0));
+        self.offset -= padding as u32;
+    }
 }
-- 
2.43.0


From 40158a3116a2e2f0c747a5afe1fdb7166b82e472 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 30/30] fix: escape string defaults in the labels of the graph

---
 crates/planus-codegen/src/dot/mod.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/planus-codegen/src/dot/mod.rs b/crates/planus-codegen/src/dot/mod.rs
index 46db5cb..0fbed66 100644
--- a/crates/planus-codegen/src/dot/mod.rs
+++ b/crates/planus-codegen/src/dot/mod.rs
@@ -127,6 +127,25 @@ fn get_name(type_: &ResolvedType<'_, DotBackend>) -> (Cow<'static, str>, Option<
     }
 }
 
+/// Escapes text so that it can be used inside the HTML-like label of a node.
+fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            // Labels are XML, where these characters cannot occur at all or get lost
+            c if c.is_control() || matches!(c, '\u{fffe}' | '\u{ffff}') => {
+                escaped.extend(c.escape_default())
+            }
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 impl Backend for DotBackend {
     type NamespaceInfo = Namespace;
     type TableInfo = Table;
@@ -242,6 +261,9 @@ impl Backend for DotBackend {
                 AssignMode::HasDefault(Literal::EnumTag { variant_index, .. }),
                 ResolvedType::Enum(_, _, _, _, variants),
             ) => format!("default {}", variants[*variant_index].name).into(),
+            (AssignMode::HasDefault(Literal::String(default)), _) => {
+                format!("default {}", escape_text(default)).into()
+            }
             (AssignMode::HasDefault(default), _) => format!("default {default}").into(),
         };
 
-- 
2.43.0

