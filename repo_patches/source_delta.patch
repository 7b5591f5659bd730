From 7b1b152f223394bb0fc6e2a26318c26c69e20aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 01/33] fix: honour the write_bit_ops argument

The write operations were generated according to the bit_ops and
set_get_bit_ops arguments, so write_bit_ops=false was ignored and
bit_ops=false with write_bit_ops=true generated nothing.
---
 .../src/generating/bitfield/features/write_bit_ops_feature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
index 3421538..bedad8c 100644
--- a/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/write_bit_ops_feature.rs
@@ -23,8 +23,8 @@ impl Feature for WriteBitOpsFeature {
     fn enabled(&self, bitfield: &Bitfield) -> bool {
         is_bit_ops_feature_enabled(
             bitfield,
-            bitfield.arguments().generate_bit_ops(),
-            bitfield.arguments().generate_set_get_bit_ops(),
+            bitfield.arguments().generate_write_bit_ops(),
+            bitfield.arguments().user_set_generate_write_bit_ops(),
         )
     }
 
-- 
2.43.0


From 22935d2153f221804ff7482f9011256d38c3208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 02/33] fix: check the whole value in checked setters of
 integer-backed bitfields

The value was narrowed to the bitfield type before it was compared with the
field's maximum, so a value with bits only above the bitfield's width was
accepted and truncated.
---
 .../features/common/generator_helper.rs       | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 18456b3..79e5ec0 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -338,7 +338,7 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
 /// Generates an overflow check for unsigned/custom fields.
 fn generate_bit_size_check_tokens() -> TokenStream {
     quote! {
-        if bits > mask {
+        if bits as u128 > mask as u128 {
             return Err("Value is too big to fit within the field bits.");
         }
     }
@@ -415,12 +415,14 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
             });
 
             if bitfield.is_integer_backed() {
-                let casting_bits_to_bitfield_data_type_tokens =
+                // The bits are widened rather than narrowed to the bitfield type, so that
+                // checked setters see the whole value.
+                let casting_bits_to_wide_integer_tokens =
                     (bits_source == BitsSource::IntegerVariable && cast_bits).then(|| {
                         if matches!(field.spanned_data_type_token().data_type(), DataType::Custom) {
                             quote! {
                                 #[allow(clippy::unnecessary_cast)]
-                                let bits = bits.into_bits() as #bitfield_data_type_tokens;
+                                let bits = bits.into_bits() as u128;
                             }
                         } else if let DataType::Array {
                             length,
@@ -431,11 +433,10 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                             quote! {
                                 let bits = {
                                     let __arr = bits;
-                                    let mut __v: #bitfield_data_type_tokens = 0;
+                                    let mut __v: u128 = 0;
                                     let mut __i: usize = 0;
                                     while __i < #pack_len {
-                                        __v |= (__arr[__i] as #bitfield_data_type_tokens)
-                                            << (__i * 8);
+                                        __v |= (__arr[__i] as u128) << (__i * 8);
                                         __i += 1;
                                     }
                                     __v
@@ -443,7 +444,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                             }
                         } else {
                             quote! {
-                                let bits = bits as #bitfield_data_type_tokens;
+                                let bits = bits as u128;
                             }
                         }
                     });
@@ -452,7 +453,8 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                     && cast_bits
                 {
                     quote! {
-                        let value = #invert_value_tokens #bits_source_tokens & mask;
+                        let value = (#invert_value_tokens #bits_source_tokens & mask as u128)
+                            as #bitfield_data_type_tokens;
                     }
                 } else {
                     quote! {
@@ -462,7 +464,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
 
                 quote! {
                     let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - #field_bits_tokens);
-                    #casting_bits_to_bitfield_data_type_tokens
+                    #casting_bits_to_wide_integer_tokens
                     #value_extraction_tokens
                 }
             } else if bits_source == BitsSource::IntegerVariable && cast_bits {
-- 
2.43.0


From 42fde487663af3dbfa74535fbef9050cdceac8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 03/33] fix: keep every bit of array fields in integer-backed
 bitfields

Array fields whose size is not a multiple of 8 lost their last bits when they
were set, and array fields longer than 16 bytes overflowed the shift when they
were read.
---
 .../bitfield/features/common/generator_helper.rs      | 11 +++++++++--
 .../bitfield/features/field_getters_feature.rs        |  4 +++-
 .../bitfield/features/invert_bit_ops_feature.rs       |  5 +++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 79e5ec0..58955eb 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -429,7 +429,7 @@ pub fn generate_extract_field_bits_from_source_into_variable_tokens(
                         } = field.spanned_data_type_token().data_type()
                         {
                             let len = length as usize;
-                            let pack_len = (field.bits() as usize / 8).min(len);
+                            let pack_len = get_packed_array_length(field, len);
                             quote! {
                                 let bits = {
                                     let __arr = bits;
@@ -608,13 +608,14 @@ fn generate_field_setter_call_tokens(
             length,
         } => {
             let len = length as usize;
+            let pack_len = get_packed_array_length(field, len);
             if bitfield.is_integer_backed() {
                 quote! {
                     #bitfield_variable_reference.#field_setter_ident_tokens({
                         let __int_val = (#value_tokens) as u128;
                         let mut __arr = [0u8; #len];
                         let mut __i: usize = 0;
-                        while __i < #len {
+                        while __i < #pack_len {
                             __arr[__i] = ((__int_val >> (__i * 8)) & 0xFF) as u8;
                             __i += 1;
                         }
@@ -826,6 +827,12 @@ pub fn get_field_unit_terms(field: &Field) -> (&'static str, &'static str) {
     }
 }
 
+/// Returns how many bytes of an array field of an integer-backed bitfield hold
+/// bits of the field.
+pub fn get_packed_array_length(field: &Field, length: usize) -> usize {
+    (field.bits() as usize).div_ceil(8).min(length)
+}
+
 /// Returns the setter documentation for a field.
 pub fn get_setter_documentation(
     bitfield: &Bitfield,
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 4051c24..52039f7 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -5,6 +5,7 @@ use crate::generating::bitfield::feature::{Feature, FeaturePosition};
 use crate::generating::bitfield::features::common::generator_helper::{
     BitsSource, generate_extract_field_bits_from_source_into_variable_tokens,
     generate_sign_extend_bit_operation_tokens, get_field_unit_terms, get_function_modifier_tokens,
+    get_packed_array_length,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -94,13 +95,14 @@ impl FieldGettersFeature {
                 length,
             } => {
                 let len = length as usize;
+                let pack_len = get_packed_array_length(field, len);
                 if bitfield.is_integer_backed() {
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #pack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 1d087d4..0c60755 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -7,7 +7,7 @@ use crate::generating::bitfield::features::common::generator_helper::{
     generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens,
     generate_extract_field_bits_from_source_into_variable_tokens,
     generate_protected_bits_mask_tokens, get_bits_or_bytes_term, get_field_unit_terms,
-    get_function_modifier_tokens,
+    get_function_modifier_tokens, get_packed_array_length,
 };
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
@@ -194,13 +194,14 @@ impl InvertBitOpsFeature {
                 length,
             } => {
                 let len = length as usize;
+                let pack_len = get_packed_array_length(field, len);
                 if bitfield.is_integer_backed() {
                     quote! {
                         {
                             let __val = value as u128;
                             let mut __arr = [0u8; #len];
                             let mut __i: usize = 0;
-                            while __i < #len {
+                            while __i < #pack_len {
                                 __arr[__i] = ((__val >> (__i * 8)) & 0xFF) as u8;
                                 __i += 1;
                             }
-- 
2.43.0


From 06242ff844d881360ec3888dc96b91d9f7879ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 04/33] fix: reject array fields that cannot hold their bits

An array field with more bits than its array compiled and then panicked (array
backing) or lost bits (integer backing) when used, unlike an integer field,
which is rejected.
---
 .../src/parsing/bitfields/bitfield_parser.rs         |  5 +++--
 .../src/parsing/common/spanned_data_type.rs          | 12 ------------
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index e2a82b1..d44946c 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -124,6 +124,8 @@ fn parse_field_helper(
 
     if matches!(spanned_data_type_token.data_type(), DataType::Integer(..)) {
         check_default_value_fit_in_field(bits_attribute.as_ref(), bits, &spanned_data_type_token)?;
+    }
+    if !matches!(spanned_data_type_token.data_type(), DataType::Custom) {
         check_field_data_type_can_hold_bits(
             bits_attribute.as_ref(),
             bits,
@@ -361,12 +363,11 @@ fn check_field_data_type_can_hold_bits(
     };
 
     let field_max_bits = spanned_data_type_token.data_type().bit_size();
-    let spanned_data_type_tokens = spanned_data_type_token.get_data_type_tokens();
     if bits > field_max_bits {
         return Err(create_user_parsing_compiler_error(
             bits_attr.span().expect("Expected bits attribute for bits checking"),
             format!(
-                "The field type '{spanned_data_type_tokens}' is too small to hold the specified \
+                "The field type '{spanned_data_type_token}' is too small to hold the specified \
                  '{bits} bits'."
             ),
         ));
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index e64e509..b97b4fa 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -124,18 +124,6 @@ impl SpannedDataTypeToken {
             _ => None,
         }
     }
-
-    /// Returns the token representation of the data type.
-    /// For array-backed types, returns `u128` as the internal backing type.
-    pub fn get_data_type_tokens(&self) -> TokenStream {
-        if matches!(self.data_type, DataType::Array { .. }) {
-            return quote! {
-                u128
-            };
-        }
-
-        self.original_type_tokens.clone()
-    }
 }
 
 impl ToTokens for SpannedDataTypeToken {
-- 
2.43.0


From 89f65c25670c18d0e960c939f27f5460eab233ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 05/33] fix: reject array values that do not fit in checked
 setters

The checked setters of array fields never returned the documented error: bits
beyond the field's size were dropped silently.
---
 .../features/common/generator_helper.rs       | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 58955eb..a1749b8 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -244,8 +244,14 @@ pub fn generate_setting_field_from_variable_tokens(
         return generate_builder_direct_setter_call_tokens(field, check_bit_size);
     }
 
-    let pre_extract_check_tokens = (!using_setter && check_bit_size && is_signed_integer)
-        .then(|| generate_signed_bit_size_check_tokens(field));
+    let pre_extract_check_tokens =
+        (!using_setter && check_bit_size && (is_signed_integer || is_array_field)).then(|| {
+            if is_array_field {
+                generate_array_bit_size_check_tokens(field)
+            } else {
+                generate_signed_bit_size_check_tokens(field)
+            }
+        });
 
     let post_extract_check_tokens = (!using_setter
         && check_bit_size
@@ -344,6 +350,27 @@ fn generate_bit_size_check_tokens() -> TokenStream {
     }
 }
 
+/// Generates an overflow check for array fields: no bit of the array may be set
+/// beyond the field bits.
+fn generate_array_bit_size_check_tokens(field: &Field) -> TokenStream {
+    let field_bits = field.bits();
+    let type_bits = field.spanned_data_type_token().data_type().bit_size();
+
+    if field_bits >= type_bits {
+        return quote! {};
+    }
+
+    quote! {
+        let mut __bit: u32 = #field_bits;
+        while __bit < #type_bits {
+            if (bits[(__bit / 8) as usize] >> (__bit % 8)) & 1 != 0 {
+                return Err("Value is too big to fit within the field bits.");
+            }
+            __bit += 1;
+        }
+    }
+}
+
 /// Generates an overflow check for signed integer fields.
 /// Must run before `bits` is reinterpreted as unsigned.
 /// Skipped when the field's bit-width equals the full type width.
-- 
2.43.0


From b80e6824d0cb2d7c5b054f197fd868a28caab5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 06/33] fix: let the builder set fields without a setter when
 new is not generated

With new=false the builder inlines the construction, where Self is the builder
and has no field constants, so a bitfield with a read-only field did not
compile.
---
 .../generating/bitfield/features/common/generator_helper.rs  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index a1749b8..b886c86 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -668,8 +668,9 @@ fn generate_setting_field_without_setter_tokens(
     let bitfield_internal_value_ident_tokens =
         bitfield.bitfield_internal_value_ident_tokens(builder_caller);
     let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
-    let field_bits_tokens = get_field_bits_tokens(bitfield, field, builder_caller);
-    let field_offset_tokens = get_field_offset_tokens(bitfield, field, builder_caller);
+    // The tokens may end up in the builder, where `Self` is not the bitfield.
+    let field_bits_tokens = field.bits();
+    let field_offset_tokens = field.offset();
 
     if !bitfield.is_integer_backed() {
         if let DataType::Array {
-- 
2.43.0


From e6b9e59945e3750efbe09274d81ba2335b4e6a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 07/33] fix: accept signed, typed and constant defaults on
 fields without a setter

The default of a read-only, no-access or reserved field had to be of the
bitfield's backing type, so negative defaults and defaults given by a constant
of the field's own type did not compile.
---
 .../features/common/generator_helper.rs       | 48 +++++++++++++++++--
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index b886c86..c2eb0e6 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -3,6 +3,7 @@ use quote::quote;
 
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
+use crate::parsing::common::const_expr::ConstExpr;
 use crate::parsing::common::spanned_data_type::{DataType, IntegerType};
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -136,18 +137,17 @@ pub fn generate_setting_fields_to_default_value_tokens_list(
 
 /// Generates tokens for setting a field to default.
 pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
-    let field_default_value_tokens = field
+    let field_default_value_expr = field
         .arguments()
         .expect("Expected field arguments when setting default value")
         .default_value_expr()
-        .expect("Expected default value when setting field defaults")
-        .to_tokens();
+        .expect("Expected default value when setting field defaults");
 
     if field.has_setter() {
         return generate_field_setter_call_tokens(
             bitfield,
             field,
-            field_default_value_tokens,
+            field_default_value_expr.to_tokens(),
             /* builder_caller= */ false,
         );
     }
@@ -155,11 +155,49 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
     generate_setting_field_without_setter_tokens(
         bitfield,
         field,
-        field_default_value_tokens,
+        generate_default_value_bits_tokens(bitfield, field, &field_default_value_expr),
         /* builder_caller= */ false,
     )
 }
 
+/// Generates the default value of a field converted to the type its bits are
+/// stored with when they're set directly, without the field's setter.
+fn generate_default_value_bits_tokens(
+    bitfield: &Bitfield,
+    field: &Field,
+    default_value_expr: &ConstExpr,
+) -> TokenStream {
+    let default_value_tokens = default_value_expr.to_tokens();
+    let storage_data_type_tokens = if bitfield.is_integer_backed() {
+        bitfield.spanned_data_type_token().to_tokens()
+    } else {
+        quote! { u128 }
+    };
+
+    match field.spanned_data_type_token().data_type() {
+        DataType::Integer(integer_type) if integer_type != IntegerType::Bool => {
+            if let ConstExpr::Literal {
+                number,
+                negative_sign,
+                ..
+            } = default_value_expr
+            {
+                let bits = if *negative_sign { number.wrapping_neg() } else { *number };
+                return quote! { #bits as #storage_data_type_tokens };
+            }
+
+            let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+            quote! { (#default_value_tokens) as #field_data_type_tokens as #storage_data_type_tokens }
+        },
+        DataType::Array {
+            ..
+        } if bitfield.is_integer_backed() => {
+            quote! { (#default_value_tokens) as #storage_data_type_tokens }
+        },
+        _ => default_value_tokens,
+    }
+}
+
 /// Generates tokens for setting fields to zero list.
 ///
 /// # Example
-- 
2.43.0


From 9109d5848d51b3c885d522958a0baeb172f0c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 08/33] fix: generate no builder setters for fields without
 access

A field with access = na is meant to be locked down from the API, but the
builder still had (private) setters for it.
---
 .../src/generating/bitfield/features/builder_feature.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
index 3370677..0b465bd 100644
--- a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
@@ -129,7 +129,7 @@ impl BuilderFeature {
         bitfield
             .fields()
             .iter()
-            .filter(|field: &&Field| !field.is_reserved())
+            .filter(|field: &&Field| field.has_setter() || field.has_getter())
             .map(|field| Self::generate_generate_builder_setters_setter_helper(bitfield, field))
             .collect()
     }
-- 
2.43.0


From 0fb9f36b0e8f9b83d01e85f8ba6bab01e2507e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 09/33] fix: give write-only and ignored fields their declared
 visibility

The setters of a pub write-only field and a pub ignored field were private.
---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index cabf078..e02cd34 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -81,7 +81,6 @@ impl Bitfield {
 #[getset(get_clone = "pub")]
 pub struct Field {
     /// The visibility of the field.
-    #[getset(skip)]
     visibility: Visibility,
 
     /// The name of the field.
@@ -142,17 +141,6 @@ impl Field {
         }
     }
 
-    /// Returns the visibility of the field.
-    pub fn visibility(&self) -> Visibility {
-        let has_public_access =
-            matches!(self.access, FieldAccess::ReadWrite | FieldAccess::ReadOnly);
-        if !has_public_access {
-            return Visibility::Private;
-        }
-
-        self.visibility.clone()
-    }
-
     /// Returns the name as tokens.
     pub fn name_tokens(&self) -> TokenStream {
         self.name_ident.to_token_stream()
-- 
2.43.0


From 92cdc8d7a478153514fbebced724ec6fc1c75d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 10/33] fix: do not overflow on empty or huge bit ranges

A length of zero overflowed a shift in integer-backed bitfields, and an offset
plus length beyond u32 overflowed instead of being outside the range.
---
 .../features/set_get_bit_ops_feature.rs       | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
index 4d4badc..1abd5e9 100644
--- a/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/set_get_bit_ops_feature.rs
@@ -91,6 +91,8 @@ impl SetGetBitOpsFeature {
         let protected_mask =
             generate_protected_bits_mask_tokens(bitfield, ProtectionType::ReadOnly);
 
+        let length_mask = Self::generate_length_mask_tokens(bitfield);
+
         if bitfield.is_integer_backed() {
             quote! {
                 #[doc = "Sets a bit in the bitfield."]
@@ -130,7 +132,8 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_tokens
                     #check_offset_and_length_bitfield_range_tokens
-                    let range_mask = (#bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)) << offset;
+                    #length_mask
+                    let range_mask = mask << offset;
                     #protected_mask
                     let writable_mask = range_mask & !protected_mask;
                     #bitfield_internal_value_ident_tokens = (#bitfield_internal_value_ident_tokens & !writable_mask) | ((value << offset) & writable_mask);
@@ -145,7 +148,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    #length_mask
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -302,6 +305,8 @@ impl SetGetBitOpsFeature {
             generate_protected_bits_mask_tokens(bitfield, ProtectionType::WriteOnly);
         let array_len = bitfield.spanned_data_type_token().array_length().unwrap_or_default();
 
+        let length_mask = Self::generate_length_mask_tokens(bitfield);
+
         if bitfield.is_integer_backed() {
             quote! {
                 #[doc = "Returns a bit from the bitfield."]
@@ -326,7 +331,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_return_zero_tokens
                     #check_offset_and_length_bitfield_range_return_zero_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    #length_mask
                     #protected_mask
                     let shifted_protected_mask = (protected_mask >> offset) & mask;
                     let readable_mask = mask & !shifted_protected_mask;
@@ -341,7 +346,7 @@ impl SetGetBitOpsFeature {
                     let this = self;
                     #check_offset_bitfield_range_error_tokens
                     #check_offset_and_length_bitfield_range_error_tokens
-                    let mask = #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length);
+                    #length_mask
                     #protected_mask
                     let range_mask = mask << offset;
                     if range_mask & protected_mask != 0 {
@@ -435,6 +440,20 @@ impl SetGetBitOpsFeature {
         }
     }
 
+    /// Generates the mask of the low `length` bits, which is empty for a length
+    /// of zero.
+    fn generate_length_mask_tokens(bitfield: &Bitfield) -> TokenStream {
+        let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
+
+        quote! {
+            let mask = if length == 0 {
+                0
+            } else {
+                #bitfield_data_type_tokens::MAX >> (#bitfield_data_type_tokens::BITS - length)
+            };
+        }
+    }
+
     fn generate_check_offset_bitfield_range_tokens(
         bitfield: &Bitfield,
         guard_return_type: GuardReturnType,
@@ -458,6 +477,8 @@ impl SetGetBitOpsFeature {
         }
     }
 
+    /// Generates the guard for a length that goes outside the bitfield range,
+    /// once the offset is known to be inside it.
     fn generate_check_offset_and_length_bitfield_range_tokens(
         bitfield: &Bitfield,
         guard_return_type: GuardReturnType,
@@ -475,7 +496,7 @@ impl SetGetBitOpsFeature {
         let guard_return_tokens = Self::get_guard_return_tokens(bitfield, guard_return_type);
 
         quote! {
-            if offset + length > #bitfield_data_type_bits_tokens {
+            if length > #bitfield_data_type_bits_tokens - offset {
                 #guard_return_tokens
             }
         }
-- 
2.43.0


From 82ec59d2f2f2b413bb68f9eaba0fae6aa2693697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:36 +0000
Subject: [PATCH 11/33] fix: do not truncate literal defaults to 32 bits

A literal default of a field with a setter was cast with an inferred source
type, which made it an i32, so a default that needs more than 32 bits was
silently truncated.
---
 .../features/common/generator_helper.rs       | 64 ++++++++++---------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index c2eb0e6..98b0cd3 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -3,7 +3,6 @@ use quote::quote;
 
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
-use crate::parsing::common::const_expr::ConstExpr;
 use crate::parsing::common::spanned_data_type::{DataType, IntegerType};
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -137,17 +136,21 @@ pub fn generate_setting_fields_to_default_value_tokens_list(
 
 /// Generates tokens for setting a field to default.
 pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
-    let field_default_value_expr = field
-        .arguments()
-        .expect("Expected field arguments when setting default value")
-        .default_value_expr()
-        .expect("Expected default value when setting field defaults");
+    let field_default_value_tokens = generate_typed_default_value_tokens(
+        field,
+        field
+            .arguments()
+            .expect("Expected field arguments when setting default value")
+            .default_value_expr()
+            .expect("Expected default value when setting field defaults")
+            .to_tokens(),
+    );
 
     if field.has_setter() {
         return generate_field_setter_call_tokens(
             bitfield,
             field,
-            field_default_value_expr.to_tokens(),
+            field_default_value_tokens,
             /* builder_caller= */ false,
         );
     }
@@ -155,44 +158,47 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
     generate_setting_field_without_setter_tokens(
         bitfield,
         field,
-        generate_default_value_bits_tokens(bitfield, field, &field_default_value_expr),
+        generate_default_value_bits_tokens(bitfield, field, field_default_value_tokens),
         /* builder_caller= */ false,
     )
 }
 
+/// Generates the default value of a field, as a value of the field's type for
+/// integer fields. The type of a literal can't be left to inference, or it's
+/// limited to an `i32`.
+fn generate_typed_default_value_tokens(
+    field: &Field,
+    default_value_tokens: TokenStream,
+) -> TokenStream {
+    match field.spanned_data_type_token().data_type() {
+        DataType::Integer(integer_type) if integer_type != IntegerType::Bool => {
+            let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+            quote! { (#default_value_tokens) as #field_data_type_tokens }
+        },
+        _ => default_value_tokens,
+    }
+}
+
 /// Generates the default value of a field converted to the type its bits are
 /// stored with when they're set directly, without the field's setter.
 fn generate_default_value_bits_tokens(
     bitfield: &Bitfield,
     field: &Field,
-    default_value_expr: &ConstExpr,
+    default_value_tokens: TokenStream,
 ) -> TokenStream {
-    let default_value_tokens = default_value_expr.to_tokens();
-    let storage_data_type_tokens = if bitfield.is_integer_backed() {
-        bitfield.spanned_data_type_token().to_tokens()
-    } else {
-        quote! { u128 }
-    };
+    if !bitfield.is_integer_backed() {
+        return default_value_tokens;
+    }
 
+    let bitfield_data_type_tokens = bitfield.spanned_data_type_token().to_tokens();
     match field.spanned_data_type_token().data_type() {
         DataType::Integer(integer_type) if integer_type != IntegerType::Bool => {
-            if let ConstExpr::Literal {
-                number,
-                negative_sign,
-                ..
-            } = default_value_expr
-            {
-                let bits = if *negative_sign { number.wrapping_neg() } else { *number };
-                return quote! { #bits as #storage_data_type_tokens };
-            }
-
-            let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
-            quote! { (#default_value_tokens) as #field_data_type_tokens as #storage_data_type_tokens }
+            quote! { #default_value_tokens as #bitfield_data_type_tokens }
         },
         DataType::Array {
             ..
-        } if bitfield.is_integer_backed() => {
-            quote! { (#default_value_tokens) as #storage_data_type_tokens }
+        } => {
+            quote! { (#default_value_tokens) as #bitfield_data_type_tokens }
         },
         _ => default_value_tokens,
     }
-- 
2.43.0


From 4945e5afb83ba11a3da139db1e65df2b2b7b1b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:36 +0000
Subject: [PATCH 12/33] fix: accept defaults that only look like floats

Negative hexadecimal literals ending in f32 or f64, constants whose name ends
in F32 or F64 and expressions with a dot were rejected as floats, and the
minimum value of i128 made the macro panic.
---
 .../src/parsing/bitfields/bitfield_parser.rs       |  5 +----
 bitfields_impl/src/parsing/common/const_expr.rs    | 14 ++++++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index d44946c..d8b2a53 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -325,10 +325,7 @@ fn check_default_value_fit_in_field(
     let (negative_bits_min_value, positive_bits_max_value) = min_max_for_bits(bits);
 
     if *negative_sign {
-        let negative_default_value = (*number as i128)
-            .checked_neg()
-            .ok_or_else(|| unreachable!("The compiler won't allow a number less than -i128 exist"))
-            .expect("Expected a negative default value for negative default value checking");
+        let negative_default_value = (*number as i128).wrapping_neg();
 
         if negative_default_value < negative_bits_min_value {
             return Err(create_user_parsing_compiler_error(
diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 0ab1eed..a9026f9 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -78,10 +78,16 @@ impl ConstExpr {
     }
 
     fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
-        if !number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
-            let contains_float_identifier =
-                FLOAT_IDENTIFIERS.iter().any(|&identifier| number_str.ends_with(identifier));
-            if number_str.contains(FLOAT_DOT) || contains_float_identifier {
+        let unsigned_number_str = Self::strip_negative_sign(number_str);
+
+        // Only numbers can be floats, anything else is left to the compiler.
+        if unsigned_number_str.starts_with(|c: char| c.is_ascii_digit())
+            && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix())
+        {
+            let contains_float_identifier = FLOAT_IDENTIFIERS
+                .iter()
+                .any(|&identifier| unsigned_number_str.ends_with(identifier));
+            if unsigned_number_str.contains(FLOAT_DOT) || contains_float_identifier {
                 return Err(create_user_parsing_compiler_error(
                     span,
                     "Float are not supported.".to_string(),
-- 
2.43.0


From 9eff2322734855730451378de576fe1751ca5805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:42 +0000
Subject: [PATCH 13/33] fix: support pub(in path) visibilities

The path segments were concatenated into one identifier.
---
 .../src/parsing/common/visibility.rs          | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/visibility.rs b/bitfields_impl/src/parsing/common/visibility.rs
index 25a220a..b1eb1b9 100644
--- a/bitfields_impl/src/parsing/common/visibility.rs
+++ b/bitfields_impl/src/parsing/common/visibility.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote};
+use quote::{ToTokens as QuoteToTokens, quote};
 
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -9,7 +9,7 @@ pub enum Visibility {
     /// A public visibility level.
     Public,
 
-    /// A restricted visibility level.
+    /// A restricted visibility level (e.g. `pub(crate)` or `pub(in path)`).
     Restricted(String),
 
     /// A private visibility level.
@@ -21,15 +21,7 @@ impl Visibility {
     pub fn new(vis: &syn::Visibility) -> Self {
         match vis {
             syn::Visibility::Public(_) => Self::Public,
-            syn::Visibility::Restricted(r) => {
-                let path = r
-                    .path
-                    .segments
-                    .iter()
-                    .map(|segment| segment.ident.to_string())
-                    .collect::<String>();
-                Self::Restricted(path)
-            },
+            syn::Visibility::Restricted(r) => Self::Restricted(r.to_token_stream().to_string()),
             syn::Visibility::Inherited => Self::Private,
         }
     }
@@ -43,11 +35,10 @@ impl ToTokens for Visibility {
                     pub
                 }
             },
-            Self::Restricted(path) => {
-                let path_ident = format_ident!("{}", path);
-                quote! {
-                    pub(#path_ident)
-                }
+            Self::Restricted(restriction) => {
+                let visibility: syn::Visibility = syn::parse_str(restriction)
+                    .expect("Failed to parse previously accepted visibility");
+                quote! { #visibility }
             },
             Self::Private => {
                 quote! {}
-- 
2.43.0


From 1726d4ebf720265576fe0062b590245ae27b0bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:42 +0000
Subject: [PATCH 14/33] fix: derive Copy through core so that generated types
 work in no_std crates

---
 .../src/generating/bitfield/features/bitfield_struct_feature.rs | 2 +-
 bitfields_impl/src/generating/bitflag/bitflag_generator.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
index 1a99875..f88075e 100644
--- a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
@@ -87,7 +87,7 @@ impl BitfieldStructFeatureGenerator {
                 });
             } else {
                 attributes_tokens.push(quote! {
-                    #[derive(std::marker::Copy, core::clone::Clone)]
+                    #[derive(core::marker::Copy, core::clone::Clone)]
                 });
             }
         }
diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index 90afbd9..fe95e09 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -40,7 +40,7 @@ fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
 fn generate_copy_derive_tokens(bitflag: &Bitflag) -> TokenStream {
     if bitflag.arguments().derive_copy() {
         quote! {
-            #[derive(std::marker::Copy, core::clone::Clone)]
+            #[derive(core::marker::Copy, core::clone::Clone)]
         }
     } else {
         quote! {}
-- 
2.43.0


From 8dc4fe56490cdc39f6f8274d239a0f4068050776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:05 +0000
Subject: [PATCH 15/33] fix: allow ignored fields of any type

The documentation only asks for Default, but size and float types, references
and tuples made the macro panic, and generic types and arrays generated invalid
code.
---
 .../bitfield/features/common/generator_helper.rs         | 8 +-------
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs  | 3 +--
 bitfields_impl/src/parsing/common/spanned_data_type.rs   | 9 +++++++++
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 98b0cd3..44b5260 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -100,14 +100,8 @@ fn generate_ignored_fields_default_calls_token_list(bitfield: &Bitfield) -> Vec<
             let field_name_tokens = field.name_tokens();
             let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
 
-            if matches!(field.spanned_data_type_token().data_type(), DataType::Integer(..)) {
-                return quote! {
-                    #field_name_tokens: <#field_data_type_tokens>::default()
-                };
-            }
-
             quote! {
-                #field_name_tokens: #field_data_type_tokens::default()
+                #field_name_tokens: <#field_data_type_tokens>::default()
             }
         })
         .collect()
diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index d8b2a53..f5f393a 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -151,8 +151,7 @@ fn parse_field_helper(
 }
 
 fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
-    let spanned_data_type_token = SpannedDataTypeToken::new(&field_tokens.ty)
-        .expect("Expected field type kind for ignored field");
+    let spanned_data_type_token = SpannedDataTypeToken::new_custom(&field_tokens.ty);
     let name_ident = field_tokens.ident.as_ref().expect("Expected field identifier").clone();
     Field::new(
         Visibility::new(&field_tokens.vis),
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index b97b4fa..90511a9 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -33,6 +33,15 @@ impl SpannedDataTypeToken {
         })
     }
 
+    /// Creates a new custom type kind from any syn type.
+    pub fn new_custom(syn_type: &Type) -> Self {
+        Self {
+            data_type: DataType::Custom,
+            spanned_token: SpannedToken::new(Self::get_syn_type_string(syn_type), syn_type.span()),
+            original_type_tokens: quote! { #syn_type },
+        }
+    }
+
     /// Returns a compact string representation of a `syn::Type` (e.g.
     /// `[u8;32]`).
     fn get_syn_type_string(syn_type: &Type) -> String {
-- 
2.43.0


From 0ede437ab38a0579e92ee9fa153331d620df5042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 16/33] fix: support raw identifiers

A field or bitfield named by a raw identifier made the macro panic.
---
 bitfields_impl/src/parsing/bitfields/bitfield.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield.rs b/bitfields_impl/src/parsing/bitfields/bitfield.rs
index e02cd34..cf2c2b9 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield.rs
@@ -1,6 +1,7 @@
 use getset::{CloneGetters, Getters};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
+use syn::ext::IdentExt;
 
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitfieldArguments;
 use crate::parsing::bitfields::bits_attribute::bits_arguments::{BitsArguments, FieldAccess};
@@ -48,7 +49,7 @@ impl Bitfield {
         ignored_fields: Vec<Field>,
         arguments: BitfieldArguments,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             user_attributes_tokens,
             visibility,
@@ -126,7 +127,7 @@ impl Field {
         arguments: Option<BitsArguments>,
         ignored: bool,
     ) -> Self {
-        let name = name_ident.to_string();
+        let name = name_ident.unraw().to_string();
         Self {
             visibility,
             name,
-- 
2.43.0


From 9e288fb62e39ade0bbbb15b5f1b23484a8190e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 17/33] fix: leave protected custom fields alone when inverting
 the bitfield

Inverting also re-assigned the fields without a setter through their custom
type's conversion, which changed a stored value that the type normalises.
---
 .../src/generating/bitfield/features/invert_bit_ops_feature.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 0c60755..1b4c459 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -61,7 +61,7 @@ impl InvertBitOpsFeature {
         let extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens =
             generate_extract_all_field_bits_from_variable_into_variable_tokens_and_set_fields_tokens(
                 bitfield,
-                ProtectionType::None,
+                ProtectionType::ReadOnly,
             );
         let bob = get_bits_or_bytes_term(bitfield);
         let invert_fn = format_ident!("invert_{}", bob);
-- 
2.43.0


From 5279364b56fe1b319bd612bb649286333d89e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:57 +0000
Subject: [PATCH 18/33] fix: Default without new initialises fields like new
 does

---
 .../bitfield/features/default_trait_feature.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
index 3efd4bd..aff0999 100644
--- a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
@@ -2,10 +2,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 
 use crate::generating::bitfield::feature::{Feature, FeaturePosition};
-use crate::generating::bitfield::features::common::generator_helper::{
-    generate_bitfield_struct_initialization_tokens,
-    generate_setting_fields_to_default_value_tokens_list,
-};
+use crate::generating::bitfield::features::common::generator_helper::generate_new_function_implementation_tokens;
 use crate::parsing::bitfields::bitfield::Bitfield;
 
 /// Generates `Default` trait implementation.
@@ -50,16 +47,13 @@ impl DefaultTraitFeature {
                 Self::new()
             }
         } else {
-            let bitfield_struct_initialization_tokens =
-                generate_bitfield_struct_initialization_tokens(
-                    bitfield, /* builder_caller= */ false,
-                );
-            let setting_fields_to_default_value_tokens_list =
-                generate_setting_fields_to_default_value_tokens_list(bitfield);
+            let function_implementation = generate_new_function_implementation_tokens(
+                bitfield, /* generate_setting_defaults= */ true,
+                /* builder_caller= */ false, /* existing_bitfield= */ false,
+            );
 
             quote! {
-                let mut this = #bitfield_struct_initialization_tokens;
-                #( #setting_fields_to_default_value_tokens_list )*
+                #function_implementation
                 this
             }
         }
-- 
2.43.0


From c811a6b4c3677712659855cd0864703cddf9254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:43 +0000
Subject: [PATCH 19/33] fix: reject bitflag variant values that do not fit
 their type

---
 .../src/parsing/bitflags/bitflag_parser.rs    | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index da21523..03e3e51 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -21,6 +21,7 @@ pub fn parse_bitflag_enum(args: TokenStream, input: TokenStream) -> syn::Result<
     let name_ident = enum_tokens.ident.clone();
     let variants = parse_variants(&enum_tokens.variants)?;
 
+    check_variant_values_fit(&bitflag_attribute, &variants)?;
     check_base_bitflag_variants(&enum_tokens, &variants)?;
 
     Ok(Bitflag::new(
@@ -84,6 +85,34 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
     Ok(BitflagVariant::new(user_attributes_tokens, name_ident, value, base, default))
 }
 
+/// Validates that literal variant values fit in the bitflag's type, the compiler
+/// would truncate them.
+fn check_variant_values_fit(
+    bitflag_attribute: &BitflagAttribute,
+    variants: &[BitflagVariant],
+) -> syn::Result<()> {
+    let bits = bitflag_attribute.spanned_data_type_token().data_type().bit_size();
+    for variant in variants {
+        if let ConstExpr::Literal {
+            number, ..
+        } = variant.value()
+        {
+            if number.checked_shr(bits).is_some_and(|overflow| overflow != 0) {
+                return Err(create_user_parsing_compiler_error(
+                    variant.value().span(),
+                    format!(
+                        "The value '{number}' of bitflag variant '{}' does not fit in '{bits} \
+                         bits'.",
+                        variant.name_tokens()
+                    ),
+                ));
+            }
+        }
+    }
+
+    Ok(())
+}
+
 fn check_base_bitflag_variants(
     item_enum: &ItemEnum,
     variants: &[BitflagVariant],
-- 
2.43.0


From 9ec012296efbd522c31a0ef6f03d05591631f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:44 +0000
Subject: [PATCH 20/33] fix: reject bitflag variants with fields

---
 bitfields_impl/src/parsing/bitflags/bitflag_parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index 03e3e51..949c678 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
-use syn::{ItemEnum, Token, Variant};
+use syn::{Fields, ItemEnum, Token, Variant};
 
 use crate::parsing::bitflags::bitflag::{Bitflag, BitflagVariant};
 use crate::parsing::bitflags::bitflag_attribute_parser::BitflagAttribute;
@@ -64,6 +64,13 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
 
     let name_ident = variant.ident.clone();
 
+    if !matches!(variant.fields, Fields::Unit) {
+        return Err(create_user_parsing_compiler_error(
+            variant.span(),
+            format!("Bitflag variant '{name_ident}' cannot have fields."),
+        ));
+    }
+
     let value = match variant.discriminant.clone() {
         Some((_, expr)) => {
             let token = quote!(#expr).to_string();
-- 
2.43.0


From 3103f2a0c5a53bf6f054d4bdb59647c903e6b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 21/33] fix: reject float defaults in exponent notation

---
 bitfields_impl/src/parsing/common/const_expr.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index a9026f9..a724384 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -8,6 +8,7 @@ use crate::parsing::common::to_tokens::ToTokens;
 
 const FLOAT_IDENTIFIERS: [&str; 2] = ["f32", "f64"];
 const FLOAT_DOT: &str = ".";
+const FLOAT_EXPONENT: &str = "e";
 
 const INTEGER_IDENTIFIERS: [&str; 12] =
     ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
@@ -87,7 +88,13 @@ impl ConstExpr {
             let contains_float_identifier = FLOAT_IDENTIFIERS
                 .iter()
                 .any(|&identifier| unsigned_number_str.ends_with(identifier));
-            if unsigned_number_str.contains(FLOAT_DOT) || contains_float_identifier {
+            let contains_exponent = unsigned_number_str
+                .trim_start_matches(|c: char| c.is_ascii_digit())
+                .starts_with(FLOAT_EXPONENT);
+            if unsigned_number_str.contains(FLOAT_DOT)
+                || contains_float_identifier
+                || contains_exponent
+            {
                 return Err(create_user_parsing_compiler_error(
                     span,
                     "Float are not supported.".to_string(),
-- 
2.43.0


From e51939de72b9c0912c7b3e0ee53bbb8e1c166396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:08 +0000
Subject: [PATCH 22/33] fix: do not wrap around the total number of field bits

---
 .../src/parsing/bitfields/bitfield_parser.rs         | 12 +++++++++---
 .../src/parsing/common/spanned_data_type.rs          |  5 +++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index f5f393a..627edc5 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -386,7 +386,7 @@ fn calculate_field_offset(
     bits: u32,
     prev_fields: &[Field],
 ) -> syn::Result<u32> {
-    let offset = prev_fields.iter().map(Field::bits).sum::<u32>();
+    let offset = sum_field_bits(prev_fields);
 
     match bitfield_attribute.arguments().order() {
         BitOrder::Lsb => Ok(offset),
@@ -397,7 +397,7 @@ fn calculate_field_offset(
             // the total bits of all fields is greater than the number of bits
             // of the bitfield type. We will catch it later so
             // we can ignore for now.
-            let total_bits = offset + bits;
+            let total_bits = offset.saturating_add(bits);
             if total_bits <= bitfield_bit_size {
                 Ok(bitfield_bit_size - bits - offset)
             } else {
@@ -414,6 +414,12 @@ fn calculate_field_offset(
     }
 }
 
+/// Returns the total bits of the fields. The sum saturates, which is always
+/// more bits than a bitfield type has.
+fn sum_field_bits(fields: &[Field]) -> u32 {
+    fields.iter().map(Field::bits).fold(0, u32::saturating_add)
+}
+
 /// Determine the effective access level for a field based on its
 /// `#[bits]` arguments and whether it is reserved.
 fn get_field_access(
@@ -465,7 +471,7 @@ fn check_fields_fit_in_bitfield_type(
     bitfield_attribute: &BitfieldAttribute,
     fields: &[Field],
 ) -> syn::Result<()> {
-    let total_field_bits = fields.iter().map(Field::bits).sum::<u32>();
+    let total_field_bits = sum_field_bits(fields);
     let bitfield_bit_size = bitfield_attribute.spanned_data_type_token().data_type().bit_size();
 
     match total_field_bits.cmp(&bitfield_bit_size) {
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index 90511a9..8ad2af3 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -101,6 +101,11 @@ impl SpannedDataTypeToken {
                     return Err(TypeParsingError::ZeroArrayLength);
                 }
 
+                // The number of bits of the array has to fit as well.
+                if length.checked_mul(IntegerType::U8.bit_size()).is_none() {
+                    return Err(TypeParsingError::ArrayLengthTooLarge);
+                }
+
                 Ok(DataType::Array {
                     length,
                 })
-- 
2.43.0


From 4f27b07e98efd52a7c91d8c386b4e8b4ed2c4f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:00 +0000
Subject: [PATCH 23/33] fix: fields of generic custom types did not compile

---
 .../generating/bitfield/features/common/generator_helper.rs   | 4 ++--
 .../src/generating/bitfield/features/field_getters_feature.rs | 2 +-
 .../generating/bitfield/features/invert_bit_ops_feature.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 44b5260..2707dba 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -228,7 +228,7 @@ pub fn generate_setting_field_to_zero_tokens(bitfield: &Bitfield, field: &Field)
         },
         DataType::Custom => {
             let custom_field_data_type_tokens = field.spanned_data_type_token().to_tokens();
-            quote! { #custom_field_data_type_tokens::from_bits(0) }
+            quote! { <#custom_field_data_type_tokens>::from_bits(0) }
         },
         DataType::Array {
             length,
@@ -367,7 +367,7 @@ fn get_value_variable_tokens(field: &Field) -> TokenStream {
     match field.spanned_data_type_token().data_type() {
         DataType::Custom => {
             quote! {
-                #custom_field_data_type_tokens::from_bits(value as _)
+                <#custom_field_data_type_tokens>::from_bits(value as _)
             }
         },
         DataType::Integer(IntegerType::Bool) => {
diff --git a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
index 52039f7..92efee4 100644
--- a/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/field_getters_feature.rs
@@ -88,7 +88,7 @@ impl FieldGettersFeature {
             DataType::Custom => {
                 let custom_field_data_type_tokens = field.spanned_data_type_token().to_tokens();
                 quote! {
-                    #custom_field_data_type_tokens::from_bits(value as _)
+                    <#custom_field_data_type_tokens>::from_bits(value as _)
                 }
             },
             DataType::Array {
diff --git a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
index 1b4c459..4368613 100644
--- a/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/invert_bit_ops_feature.rs
@@ -184,7 +184,7 @@ impl InvertBitOpsFeature {
         match field.spanned_data_type_token().data_type() {
             DataType::Custom => {
                 quote! {
-                    #custom_field_data_type_tokens::from_bits(value as _)
+                    <#custom_field_data_type_tokens>::from_bits(value as _)
                 }
             },
             DataType::Integer(IntegerType::Bool) => {
-- 
2.43.0


From 2a302083cc4f84b7ea34acf090b99411c262d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:51 +0000
Subject: [PATCH 24/33] fix: types and array lengths passed as fragments of
 declarative macros were rejected

---
 .../src/parsing/common/spanned_data_type.rs   | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index 8ad2af3..799c42d 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -22,6 +22,7 @@ pub struct SpannedDataTypeToken {
 impl SpannedDataTypeToken {
     /// Creates a new type kind from a syn type.
     pub fn new(syn_type: &Type) -> Result<Self, TypeParsingError> {
+        let syn_type = Self::ungroup(syn_type);
         let str_repr = Self::get_syn_type_string(syn_type);
         let data_type = Self::get_data_type(syn_type)?;
         let original_type_tokens = quote! { #syn_type };
@@ -53,9 +54,18 @@ impl SpannedDataTypeToken {
         s.chars().filter(|c| !c.is_whitespace()).collect()
     }
 
+    /// Returns the type without the invisible groups that surround it when it is
+    /// a fragment of a declarative macro.
+    fn ungroup(mut syn_type: &Type) -> &Type {
+        while let Type::Group(type_group) = syn_type {
+            syn_type = &type_group.elem;
+        }
+        syn_type
+    }
+
     /// Get the type category of the type.
     fn get_data_type(syn_type: &Type) -> Result<DataType, TypeParsingError> {
-        match syn_type {
+        match Self::ungroup(syn_type) {
             Type::Path(type_path) => {
                 let type_name =
                     type_path.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
@@ -83,7 +93,12 @@ impl SpannedDataTypeToken {
                     return Err(TypeParsingError::NonIntegerArrayType);
                 }
 
-                let length = match &type_array.len {
+                let mut length_expr = &type_array.len;
+                while let syn::Expr::Group(expr_group) = length_expr {
+                    length_expr = &expr_group.expr;
+                }
+
+                let length = match length_expr {
                     syn::Expr::Lit(expr_lit) => match &expr_lit.lit {
                         syn::Lit::Int(lit_int) => lit_int
                             .base10_parse::<u32>()
-- 
2.43.0


From 368640983785f405acae3c82a65326061a2ae3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:51 +0000
Subject: [PATCH 25/33] fix: a second bits attribute on a field was silently
 ignored

---
 .../src/parsing/bitfields/bitfield_parser.rs        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 627edc5..ca9a7ea 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -168,12 +168,19 @@ fn parse_ignored_field(field_tokens: &syn::Field) -> Field {
 
 /// Returns the bits attribute if the field is attributed.
 fn get_bits_attribute(field_tokens: &syn::Field) -> syn::Result<Option<BitsAttribute>> {
-    let bits_attribute = field_tokens
+    let mut bits_attributes = field_tokens
         .attrs
         .iter()
-        .find(|attr| attr.path().is_ident("bits") && attr.style == syn::AttrStyle::Outer);
+        .filter(|attr| attr.path().is_ident("bits") && attr.style == syn::AttrStyle::Outer);
 
-    let Some(attr) = bits_attribute else { return Ok(None) };
+    let Some(attr) = bits_attributes.next() else { return Ok(None) };
+
+    if let Some(second_attr) = bits_attributes.next() {
+        return Err(create_user_parsing_compiler_error(
+            second_attr.span(),
+            "A field can only have one '#[bits]' attribute.",
+        ));
+    }
 
     let Meta::List(bits_attribute_tokens) = &attr.meta else {
         return Err(create_user_parsing_compiler_error(
-- 
2.43.0


From 823c5d57b127cfe673512379f039b8656fdd049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:51 +0000
Subject: [PATCH 26/33] fix: generic parameters of bitfields and bitflags were
 silently dropped

---
 .../src/parsing/bitfields/bitfield_parser.rs          | 11 ++++++++++-
 bitfields_impl/src/parsing/bitflags/bitflag_parser.rs | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index ca9a7ea..7e6b308 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -40,7 +40,16 @@ pub fn parse_bitfield_struct(args: TokenStream, input: TokenStream) -> syn::Resu
 }
 
 fn parse_struct_tokens(input: &TokenStream) -> syn::Result<ItemStruct> {
-    syn::parse2::<ItemStruct>(input.clone())
+    let struct_tokens = syn::parse2::<ItemStruct>(input.clone())?;
+
+    if !struct_tokens.generics.params.is_empty() {
+        return Err(create_user_parsing_compiler_error(
+            struct_tokens.generics.span(),
+            "Bitfields cannot have generic parameters.",
+        ));
+    }
+
+    Ok(struct_tokens)
 }
 
 fn parse_bitfield_attribute(args: TokenStream) -> syn::Result<BitfieldAttribute> {
diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index 949c678..55da817 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -35,7 +35,16 @@ pub fn parse_bitflag_enum(args: TokenStream, input: TokenStream) -> syn::Result<
 }
 
 fn parse_enum_tokens(input: &TokenStream) -> syn::Result<ItemEnum> {
-    syn::parse2::<ItemEnum>(input.clone())
+    let enum_tokens = syn::parse2::<ItemEnum>(input.clone())?;
+
+    if !enum_tokens.generics.params.is_empty() {
+        return Err(create_user_parsing_compiler_error(
+            enum_tokens.generics.span(),
+            "Bitflags cannot have generic parameters.",
+        ));
+    }
+
+    Ok(enum_tokens)
 }
 
 fn parse_bitflag_attribute(args: TokenStream) -> syn::Result<BitflagAttribute> {
-- 
2.43.0


From 715b43eadba3e15cc82f0ab458d76b24428d087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 27/33] fix: modules named core and traits named Default next
 to a declaration broke the generated code

---
 .../generating/bitfield/features/bitfield_struct_feature.rs   | 4 ++--
 .../src/generating/bitfield/features/builder_feature.rs       | 2 +-
 .../src/generating/bitfield/features/debug_trait_feature.rs   | 4 ++--
 .../src/generating/bitfield/features/default_trait_feature.rs | 2 +-
 .../src/generating/bitfield/features/from_traits_feature.rs   | 4 ++--
 bitfields_impl/src/generating/bitflag/bitflag_generator.rs    | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
index f88075e..24fd9e8 100644
--- a/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/bitfield_struct_feature.rs
@@ -83,11 +83,11 @@ impl BitfieldStructFeatureGenerator {
             let is_heap_array = bitfield.arguments().array_heap() && !bitfield.is_integer_backed();
             if is_heap_array {
                 attributes_tokens.push(quote! {
-                    #[derive(core::clone::Clone)]
+                    #[derive(::core::clone::Clone)]
                 });
             } else {
                 attributes_tokens.push(quote! {
-                    #[derive(core::marker::Copy, core::clone::Clone)]
+                    #[derive(::core::marker::Copy, ::core::clone::Clone)]
                 });
             }
         }
diff --git a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
index 0b465bd..dcc2230 100644
--- a/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/builder_feature.rs
@@ -61,7 +61,7 @@ impl BuilderFeature {
                 this: #bitfield_name_tokens,
             }
 
-            impl Default for #builder_ident_tokens {
+            impl ::core::default::Default for #builder_ident_tokens {
                 fn default() -> Self {
                     Self::new()
                 }
diff --git a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
index ca46d0d..67766c8 100644
--- a/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/debug_trait_feature.rs
@@ -36,8 +36,8 @@ impl DebugTraitFeature {
         let set_debug_fields = Self::generate_debug_set_field_tokens(bitfield);
 
         quote! {
-            impl core::fmt::Debug for #bitfield_name_tokens {
-                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+            impl ::core::fmt::Debug for #bitfield_name_tokens {
+                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                     let this = self;
                     let mut debug = f.debug_struct(#bitfield_name);
                     #set_debug_fields
diff --git a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
index aff0999..92fa013 100644
--- a/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/default_trait_feature.rs
@@ -33,7 +33,7 @@ impl DefaultTraitFeature {
             Self::generate_default_trait_feature_implementation_tokens(bitfield);
 
         quote! {
-            impl core::default::Default for #bitfield_name_tokens {
+            impl ::core::default::Default for #bitfield_name_tokens {
                 fn default() -> #bitfield_name_tokens {
                     #default_trait_feature_implementation_tokens
                 }
diff --git a/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs b/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
index e1616cf..c3b618b 100644
--- a/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
+++ b/bitfields_impl/src/generating/bitfield/features/from_traits_feature.rs
@@ -69,7 +69,7 @@ impl FromTraitsFeature {
         let source_param = generate_backing_data_param_ident(bitfield);
 
         quote! {
-            impl core::convert::From<#bitfield_data_type_tokens> for #bitfield_name_tokens {
+            impl ::core::convert::From<#bitfield_data_type_tokens> for #bitfield_name_tokens {
                 fn from(#source_param: #bitfield_data_type_tokens) -> Self {
                     let mut this = #initialize_struct_initialization_tokens;
                     let bits = #bits_return_endian_conversion_tokens;
@@ -89,7 +89,7 @@ impl FromTraitsFeature {
             );
 
         quote! {
-            impl core::convert::From<#bitfield_name_tokens> for #bitfield_data_type_tokens {
+            impl ::core::convert::From<#bitfield_name_tokens> for #bitfield_data_type_tokens {
                 fn from(val: #bitfield_name_tokens) -> Self {
                     let mut this = val;
                     #bits_return_endian_conversion_tokens
diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index fe95e09..26d70b6 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -40,7 +40,7 @@ fn generate_repr_tokens(bitflag: &Bitflag) -> TokenStream {
 fn generate_copy_derive_tokens(bitflag: &Bitflag) -> TokenStream {
     if bitflag.arguments().derive_copy() {
         quote! {
-            #[derive(core::marker::Copy, core::clone::Clone)]
+            #[derive(::core::marker::Copy, ::core::clone::Clone)]
         }
     } else {
         quote! {}
-- 
2.43.0


From 616bd30aaa1604660095410b4581543900459ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 28/33] fix: default and flag values that are expressions
 starting with a number panicked or were taken for floats

0x10 | 0x01 panicked the macro, 2u8.pow(3) was rejected as a float, and the
$crate path of a declarative macro was printed and could not be parsed again.
Whether a value is a literal is now told from its expression rather than from
its printed form.
---
 .../src/parsing/bitfields/bitfield_parser.rs  |   3 +-
 .../bits_attribute/bits_arguments.rs          |   2 +-
 .../src/parsing/bitflags/bitflag_parser.rs    |   9 +-
 .../common/attribute_argument_parser.rs       |  11 +-
 .../src/parsing/common/const_expr.rs          | 274 +++++-------------
 5 files changed, 87 insertions(+), 212 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index 7e6b308..a9fa210 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -321,7 +321,6 @@ fn check_default_value_fit_in_field(
     let ConstExpr::Literal {
         number,
         negative_sign,
-        spanned_token,
         ..
     } = &default_value_expr
     else {
@@ -330,7 +329,7 @@ fn check_default_value_fit_in_field(
 
     if spanned_data_type_token.data_type().unsigned() && *negative_sign {
         return Err(create_user_parsing_compiler_error(
-            spanned_token.span(),
+            default_value_expr.span(),
             "Unsigned fields cannot have negative default values.".to_string(),
         ));
     }
diff --git a/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs b/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs
index e178b0d..972184c 100644
--- a/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs
+++ b/bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs
@@ -118,7 +118,7 @@ impl Parse for BitsArguments {
                     bits_arguments.ignored = parse_boolean_attribute_argument(argument)?;
                 },
                 BitsArgumentKey::Default => {
-                    bits_arguments.default_value_expr = Some(ConstExpr::new(&argument.value())?);
+                    bits_arguments.default_value_expr = Some(ConstExpr::new(&argument.value_expr())?);
                 },
             }
         }
diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index 55da817..0044dd2 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -1,5 +1,4 @@
 use proc_macro2::TokenStream;
-use quote::quote;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
 use syn::{Fields, ItemEnum, Token, Variant};
@@ -8,7 +7,6 @@ use crate::parsing::bitflags::bitflag::{Bitflag, BitflagVariant};
 use crate::parsing::bitflags::bitflag_attribute_parser::BitflagAttribute;
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::const_expr::ConstExpr;
-use crate::parsing::common::spanned_token::SpannedToken;
 use crate::parsing::common::visibility::Visibility;
 
 /// Parses an enum annotated with `#[bitflag(..)]` into a [`Bitflag`].
@@ -81,12 +79,7 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
     }
 
     let value = match variant.discriminant.clone() {
-        Some((_, expr)) => {
-            let token = quote!(#expr).to_string();
-            let span = expr.span();
-            let spanned_token = SpannedToken::new(token, span);
-            ConstExpr::new(&spanned_token)?
-        },
+        Some((_, expr)) => ConstExpr::new(&expr)?,
         None => {
             return Err(create_user_parsing_compiler_error(
                 variant.ident.span(),
diff --git a/bitfields_impl/src/parsing/common/attribute_argument_parser.rs b/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
index 9db6421..c4977a0 100644
--- a/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
+++ b/bitfields_impl/src/parsing/common/attribute_argument_parser.rs
@@ -4,7 +4,7 @@ use getset::CloneGetters;
 use quote::quote;
 use syn::parse::ParseStream;
 use syn::spanned::Spanned;
-use syn::{Ident, Token};
+use syn::{Expr, Ident, Token};
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::spanned_token::SpannedToken;
@@ -17,13 +17,17 @@ pub struct AttributeArgument {
 
     #[getset(get_clone = "pub")]
     value: SpannedToken,
+
+    #[getset(get_clone = "pub")]
+    value_expr: Expr,
 }
 
 impl AttributeArgument {
-    pub const fn new(key: SpannedToken, value: SpannedToken) -> Self {
+    pub const fn new(key: SpannedToken, value: SpannedToken, value_expr: Expr) -> Self {
         Self {
             key,
             value,
+            value_expr,
         }
     }
 }
@@ -87,7 +91,7 @@ pub fn parse_attribute_arguments(
 
         // Parse value — accept an ident/path (e.g. `lsb` or `CustomType::A`) or
         // a literal (e.g. `true`, `42`)
-        let expr: syn::Expr = match input.parse() {
+        let expr: Expr = match input.parse() {
             Ok(expr) => expr,
             Err(_) => {
                 return Err(create_user_parsing_compiler_error(
@@ -103,6 +107,7 @@ pub fn parse_attribute_arguments(
         arguments.push(AttributeArgument::new(
             SpannedToken::new(key.to_string(), key.span()),
             SpannedToken::new(value, value_span),
+            expr,
         ));
     }
 
diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index a724384..988e736 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,220 +1,88 @@
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Group, Span, TokenStream, TokenTree};
 use quote::quote;
-use syn::Expr;
+use syn::spanned::Spanned;
+use syn::{Expr, Lit, UnOp};
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
-use crate::parsing::common::spanned_token::SpannedToken;
 use crate::parsing::common::to_tokens::ToTokens;
 
 const FLOAT_IDENTIFIERS: [&str; 2] = ["f32", "f64"];
-const FLOAT_DOT: &str = ".";
-const FLOAT_EXPONENT: &str = "e";
-
-const INTEGER_IDENTIFIERS: [&str; 12] =
-    ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
-const BOOLEAN_IDENTIFIERS: [&str; 2] = ["true", "false"];
-const NEGATIVE_SIGN: &str = "-";
 
 /// Represents a constant expression.
 #[derive(Clone, Debug)]
 pub enum ConstExpr {
     /// An integer or boolean literal with optional negation.
-    Literal { number: u128, negative_sign: bool, spanned_token: SpannedToken },
-
-    /// A constant path.
-    Path { spanned_token: SpannedToken },
-}
-
-enum IntegerPrefix {
-    Hex,
-    Binary,
-    Octal,
-}
-
-impl IntegerPrefix {
-    const HEX_PREFIX: &str = "0x";
-    const HEX_RADIX: u32 = 16;
-
-    const BINARY_PREFIX: &str = "0b";
-    const BINARY_RADIX: u32 = 2;
+    Literal { number: u128, negative_sign: bool, expr: Expr },
 
-    const OCTAL_PREFIX: &str = "0o";
-    const OCTAL_RADIX: u32 = 8;
-
-    fn prefix(&self) -> String {
-        match &self {
-            Self::Hex => Self::HEX_PREFIX.to_string(),
-            Self::Binary => Self::BINARY_PREFIX.to_string(),
-            Self::Octal => Self::OCTAL_PREFIX.to_string(),
-        }
-    }
-
-    const fn radix(&self) -> u32 {
-        match self {
-            Self::Hex => Self::HEX_RADIX,
-            Self::Binary => Self::BINARY_RADIX,
-            Self::Octal => Self::OCTAL_RADIX,
-        }
-    }
+    /// Any other constant expression (e.g. a path), it's left to the compiler.
+    Other { expr: Expr },
 }
 
 impl ConstExpr {
-    pub fn new(spanned_token: &SpannedToken) -> syn::Result<Self> {
-        let trimmed_number_str =
-            spanned_token.token().trim().replace([' ', '_'], "").to_ascii_lowercase();
-
-        Self::check_float(&trimmed_number_str, spanned_token.span())?;
-
-        if Self::is_boolean(&trimmed_number_str) {
-            return Ok(Self::parse_boolean(&trimmed_number_str, spanned_token));
-        }
-
-        let parsed_integer_result = Self::parse_integer(&trimmed_number_str, spanned_token);
-        if let Ok(parsed_integer) = parsed_integer_result {
-            return Ok(parsed_integer);
-        }
-
-        // Parsing as integer failed; assume it's a path and let the compiler handle it.
-        Ok(Self::parse_path(spanned_token))
-    }
-
-    fn check_float(number_str: &str, span: Span) -> syn::Result<()> {
-        let unsigned_number_str = Self::strip_negative_sign(number_str);
-
-        // Only numbers can be floats, anything else is left to the compiler.
-        if unsigned_number_str.starts_with(|c: char| c.is_ascii_digit())
-            && !unsigned_number_str.starts_with(&IntegerPrefix::Hex.prefix())
-        {
-            let contains_float_identifier = FLOAT_IDENTIFIERS
-                .iter()
-                .any(|&identifier| unsigned_number_str.ends_with(identifier));
-            let contains_exponent = unsigned_number_str
-                .trim_start_matches(|c: char| c.is_ascii_digit())
-                .starts_with(FLOAT_EXPONENT);
-            if unsigned_number_str.contains(FLOAT_DOT)
-                || contains_float_identifier
-                || contains_exponent
-            {
-                return Err(create_user_parsing_compiler_error(
-                    span,
-                    "Float are not supported.".to_string(),
-                ));
-            }
+    pub fn new(expr: &Expr) -> syn::Result<Self> {
+        let (literal, negative_sign) = match Self::ungroup(expr) {
+            Expr::Unary(unary) if matches!(unary.op, UnOp::Neg(_)) => {
+                (Self::get_literal(&unary.expr), true)
+            },
+            expr => (Self::get_literal(expr), false),
+        };
+
+        let float = match literal {
+            Some(Lit::Float(_)) => true,
+            Some(Lit::Int(lit_int)) => FLOAT_IDENTIFIERS.contains(&lit_int.suffix()),
+            _ => false,
+        };
+        if float {
+            return Err(create_user_parsing_compiler_error(
+                expr.span(),
+                "Float are not supported.".to_string(),
+            ));
         }
 
-        Ok(())
-    }
-
-    fn is_boolean(number_str: &str) -> bool {
-        BOOLEAN_IDENTIFIERS.contains(&number_str)
-    }
-
-    fn parse_boolean(number_str: &str, spanned_token: &SpannedToken) -> Self {
-        match number_str {
-            "true" => Self::Literal {
-                number: 1,
-                negative_sign: false,
-                spanned_token: spanned_token.clone(),
+        let number = match literal {
+            Some(Lit::Int(lit_int)) => lit_int.base10_parse::<u128>().ok(),
+            Some(Lit::Bool(lit_bool)) if !negative_sign => Some(u128::from(lit_bool.value)),
+            _ => None,
+        };
+
+        let expr = expr.clone();
+        Ok(match number {
+            Some(number) => Self::Literal {
+                number,
+                negative_sign,
+                expr,
             },
-            "false" => Self::Literal {
-                number: 0,
-                negative_sign: false,
-                spanned_token: spanned_token.clone(),
+            None => Self::Other {
+                expr,
             },
-            _ => unreachable!("We've already made sure the type is a Boolean"),
-        }
-    }
-
-    fn parse_integer(number_str: &str, spanned_token: &SpannedToken) -> syn::Result<Self> {
-        let stripped_suffix_number_str = Self::strip_integer_suffix(number_str);
-        let negative_number = Self::is_negative(&stripped_suffix_number_str);
-        let stripped_negative_number_str = Self::strip_negative_sign(&stripped_suffix_number_str);
-        let parsed_number =
-            Self::parse_integer_helper(&stripped_negative_number_str, spanned_token)?;
-
-        Ok(Self::Literal {
-            number: parsed_number,
-            negative_sign: negative_number,
-            spanned_token: spanned_token.clone(),
         })
     }
 
-    fn strip_integer_suffix(number_str: &str) -> String {
-        number_str
-            .strip_suffix(
-                INTEGER_IDENTIFIERS
-                    .iter()
-                    .find(|&&identifier| number_str.ends_with(identifier))
-                    .copied()
-                    .unwrap_or(""),
-            )
-            .unwrap_or(number_str)
-            .to_string()
-    }
-
-    fn is_negative(number_str: &str) -> bool {
-        number_str.starts_with(NEGATIVE_SIGN)
-    }
-
-    fn strip_negative_sign(number_str: &str) -> String {
-        number_str.trim_start_matches(NEGATIVE_SIGN).to_string()
-    }
-
-    fn parse_integer_helper(number_str: &str, spanned_token: &SpannedToken) -> syn::Result<u128> {
-        if number_str.starts_with(&IntegerPrefix::Hex.prefix()) {
-            return match u128::from_str_radix(
-                number_str.trim_start_matches(&IntegerPrefix::Hex.prefix()),
-                IntegerPrefix::Hex.radix(),
-            ) {
-                Ok(num) => Ok(num),
-                Err(err) => unreachable!("Hex parsing should succeed: {:?}", err),
-            };
-        }
-
-        if number_str.starts_with(&IntegerPrefix::Binary.prefix()) {
-            return match u128::from_str_radix(
-                number_str.trim_start_matches(&IntegerPrefix::Binary.prefix()),
-                IntegerPrefix::Binary.radix(),
-            ) {
-                Ok(num) => Ok(num),
-                Err(err) => unreachable!("Binary parsing should succeed: {:?}", err),
-            };
-        }
-
-        if number_str.starts_with(&IntegerPrefix::Octal.prefix()) {
-            return match u128::from_str_radix(
-                number_str.trim_start_matches(&IntegerPrefix::Octal.prefix()),
-                IntegerPrefix::Octal.radix(),
-            ) {
-                Ok(num) => Ok(num),
-                Err(err) => unreachable!("Octal parsing should succeed: {:?}", err),
-            };
-        }
-
-        // Regular number
-        match number_str.parse::<u128>() {
-            Ok(num) => Ok(num),
-            Err(err) => Err(create_user_parsing_compiler_error(
-                spanned_token.span(),
-                format!("Failed to parse integer literal: {err}"),
-            )),
+    /// Returns the literal an expression consists of, if it does.
+    fn get_literal(expr: &Expr) -> Option<&Lit> {
+        match Self::ungroup(expr) {
+            Expr::Lit(expr_lit) => Some(&expr_lit.lit),
+            _ => None,
         }
     }
 
-    fn parse_path(spanned_token: &SpannedToken) -> Self {
-        Self::Path {
-            spanned_token: spanned_token.clone(),
+    /// Returns the expression without the invisible groups that surround it when
+    /// it is a fragment of a declarative macro.
+    fn ungroup(mut expr: &Expr) -> &Expr {
+        while let Expr::Group(expr_group) = expr {
+            expr = &expr_group.expr;
         }
+        expr
     }
 
     pub fn span(&self) -> Span {
         match self {
             Self::Literal {
-                spanned_token, ..
+                expr, ..
             }
-            | Self::Path {
-                spanned_token,
-            } => spanned_token.span(),
+            | Self::Other {
+                expr,
+            } => expr.span(),
         }
     }
 }
@@ -223,19 +91,29 @@ impl ToTokens for ConstExpr {
     fn to_tokens(&self) -> TokenStream {
         match self {
             Self::Literal {
-                spanned_token, ..
-            } => {
-                let expr: Expr = syn::parse_str(&spanned_token.token())
-                    .expect("Failed to parse previously accepted literal expression");
-                quote! { #expr }
-            },
-            Self::Path {
-                spanned_token,
-            } => {
-                let expr: Expr = syn::parse_str(&spanned_token.token())
-                    .expect("Failed to parse previously accepted path expression");
-                quote! { #expr }
-            },
+                expr, ..
+            }
+            | Self::Other {
+                expr,
+            } => locate_at_call_site(quote! { #expr }),
         }
     }
 }
+
+/// Locates everything at the macro invocation, except for identifiers since they
+/// may only resolve where they are written (e.g. `$crate`).
+fn locate_at_call_site(tokens: TokenStream) -> TokenStream {
+    tokens
+        .into_iter()
+        .map(|mut token| {
+            match &mut token {
+                TokenTree::Ident(_) => {},
+                TokenTree::Group(group) => {
+                    *group = Group::new(group.delimiter(), locate_at_call_site(group.stream()));
+                },
+                _ => token.set_span(Span::call_site()),
+            }
+            token
+        })
+        .collect()
+}
-- 
2.43.0


From 5809a433710c0e9df9d816bd284e98ad53183b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 29/33] fix: a visibility restricted to a path with $crate
 panicked the macro

---
 bitfields_impl/src/parsing/common/visibility.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bitfields_impl/src/parsing/common/visibility.rs b/bitfields_impl/src/parsing/common/visibility.rs
index b1eb1b9..7543251 100644
--- a/bitfields_impl/src/parsing/common/visibility.rs
+++ b/bitfields_impl/src/parsing/common/visibility.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::{ToTokens as QuoteToTokens, quote};
+use quote::quote;
 
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -10,7 +10,7 @@ pub enum Visibility {
     Public,
 
     /// A restricted visibility level (e.g. `pub(crate)` or `pub(in path)`).
-    Restricted(String),
+    Restricted(syn::VisRestricted),
 
     /// A private visibility level.
     Private,
@@ -21,7 +21,7 @@ impl Visibility {
     pub fn new(vis: &syn::Visibility) -> Self {
         match vis {
             syn::Visibility::Public(_) => Self::Public,
-            syn::Visibility::Restricted(r) => Self::Restricted(r.to_token_stream().to_string()),
+            syn::Visibility::Restricted(r) => Self::Restricted(r.clone()),
             syn::Visibility::Inherited => Self::Private,
         }
     }
@@ -36,9 +36,7 @@ impl ToTokens for Visibility {
                 }
             },
             Self::Restricted(restriction) => {
-                let visibility: syn::Visibility = syn::parse_str(restriction)
-                    .expect("Failed to parse previously accepted visibility");
-                quote! { #visibility }
+                quote! { #restriction }
             },
             Self::Private => {
                 quote! {}
-- 
2.43.0


From 3e31abc71f2263149599a2ffacd264ecd739d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 30/33] fix: flag values that are expressions were used as
 patterns

1 | 2 matched the bits 1 and 2 instead of 3, and 1 + 2 did not compile.
---
 .../generating/bitflag/bitflag_generator.rs   | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index 26d70b6..f7cc348 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -3,6 +3,7 @@ use quote::quote;
 
 use crate::generating::common::endian_conversion::generate_bits_variable_endian_conversion_tokens;
 use crate::parsing::bitflags::bitflag::{Bitflag, BitflagVariant};
+use crate::parsing::common::const_expr::ConstExpr;
 use crate::parsing::common::to_tokens::ToTokens;
 
 pub fn generate_bitflag(bitflag: &Bitflag) -> TokenStream {
@@ -81,15 +82,27 @@ fn generate_from_bits_tokens(bitflag: &Bitflag) -> TokenStream {
 }
 
 fn generate_match_cases_tokens_list(bitflag: &Bitflag) -> Vec<TokenStream> {
+    let bitflag_data_type_tokens = bitflag.spanned_data_type_token().to_tokens();
     let mut match_cases: Vec<TokenStream> = bitflag
         .variants()
         .iter()
         .filter(|variant| !variant.base())
         .map(|variant| {
-            let const_expr = variant.value().to_tokens();
+            let value = variant.value();
+            let value_expr_tokens = value.to_tokens();
             let name_tokens = variant.name_tokens();
-            quote! {
-                #const_expr => Self::#name_tokens
+
+            // Expressions aren't patterns, or mean something else as one (e.g. `1 | 2`).
+            if matches!(value, ConstExpr::Literal { .. }) {
+                quote! {
+                    #value_expr_tokens => Self::#name_tokens
+                }
+            } else {
+                quote! {
+                    _ if bits == Self::#name_tokens as #bitflag_data_type_tokens => {
+                        Self::#name_tokens
+                    }
+                }
             }
         })
         .collect();
-- 
2.43.0


From e8cb4788febe27a092941dd8eee4c88be0cb9d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 31/33] fix: evaluate the default of a field in the field's
 type rather than in an i32

0xFF << 24 became negative in an i32, which set the bits above it in wider
fields.
---
 .../features/common/generator_helper.rs       | 27 +++++++++---
 .../src/parsing/common/const_expr.rs          | 41 ++++++++++++++++++-
 .../src/parsing/common/spanned_data_type.rs   |  2 +-
 3 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
index 2707dba..f15ec05 100644
--- a/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
+++ b/bitfields_impl/src/generating/bitfield/features/common/generator_helper.rs
@@ -3,6 +3,7 @@ use quote::quote;
 
 use crate::parsing::bitfields::bitfield::{Bitfield, Field};
 use crate::parsing::bitfields::bitfield_attribute::bitfield_arguments::BitOrder;
+use crate::parsing::common::const_expr::ConstExpr;
 use crate::parsing::common::spanned_data_type::{DataType, IntegerType};
 use crate::parsing::common::to_tokens::ToTokens;
 
@@ -132,12 +133,11 @@ pub fn generate_setting_fields_to_default_value_tokens_list(
 pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Field) -> TokenStream {
     let field_default_value_tokens = generate_typed_default_value_tokens(
         field,
-        field
+        &field
             .arguments()
             .expect("Expected field arguments when setting default value")
             .default_value_expr()
-            .expect("Expected default value when setting field defaults")
-            .to_tokens(),
+            .expect("Expected default value when setting field defaults"),
     );
 
     if field.has_setter() {
@@ -158,15 +158,30 @@ pub fn generate_setting_field_to_default_tokens(bitfield: &Bitfield, field: &Fie
 }
 
 /// Generates the default value of a field, as a value of the field's type for
-/// integer fields. The type of a literal can't be left to inference, or it's
-/// limited to an `i32`.
+/// integer fields. The type of a literal, or an expression of them, can't be left
+/// to inference, or it's limited to an `i32`.
 fn generate_typed_default_value_tokens(
     field: &Field,
-    default_value_tokens: TokenStream,
+    default_value_expr: &ConstExpr,
 ) -> TokenStream {
+    let default_value_tokens = default_value_expr.to_tokens();
+
     match field.spanned_data_type_token().data_type() {
         DataType::Integer(integer_type) if integer_type != IntegerType::Bool => {
             let field_data_type_tokens = field.spanned_data_type_token().to_tokens();
+            if default_value_expr.has_inferred_type() {
+                // A signed value can be given as its bit pattern (e.g. `0x80 | 0x01`).
+                let expr_data_type_tokens = if integer_type.is_unsigned() {
+                    field_data_type_tokens.clone()
+                } else {
+                    quote! { i128 }
+                };
+                return quote! {
+                    (::core::convert::identity::<#expr_data_type_tokens>(#default_value_tokens))
+                        as #field_data_type_tokens
+                };
+            }
+
             quote! { (#default_value_tokens) as #field_data_type_tokens }
         },
         _ => default_value_tokens,
diff --git a/bitfields_impl/src/parsing/common/const_expr.rs b/bitfields_impl/src/parsing/common/const_expr.rs
index 988e736..24e6127 100644
--- a/bitfields_impl/src/parsing/common/const_expr.rs
+++ b/bitfields_impl/src/parsing/common/const_expr.rs
@@ -1,7 +1,7 @@
 use proc_macro2::{Group, Span, TokenStream, TokenTree};
 use quote::quote;
 use syn::spanned::Spanned;
-use syn::{Expr, Lit, UnOp};
+use syn::{BinOp, Expr, Lit, UnOp};
 
 use crate::parsing::common::compiler_error::create_user_parsing_compiler_error;
 use crate::parsing::common::to_tokens::ToTokens;
@@ -75,6 +75,45 @@ impl ConstExpr {
         expr
     }
 
+    /// Returns whether the value is computed from nothing but literals without a
+    /// suffix, so its integer type is left to inference.
+    pub fn has_inferred_type(&self) -> bool {
+        match self {
+            Self::Literal {
+                ..
+            } => false,
+            Self::Other {
+                expr,
+            } => Self::is_type_inferred(expr),
+        }
+    }
+
+    fn is_type_inferred(expr: &Expr) -> bool {
+        match expr {
+            Expr::Lit(expr_lit) => {
+                matches!(&expr_lit.lit, Lit::Int(lit_int) if lit_int.suffix().is_empty())
+            },
+            Expr::Unary(unary) => Self::is_type_inferred(&unary.expr),
+            Expr::Binary(binary) => match binary.op {
+                BinOp::Shl(_) | BinOp::Shr(_) => Self::is_type_inferred(&binary.left),
+                BinOp::Add(_)
+                | BinOp::Sub(_)
+                | BinOp::Mul(_)
+                | BinOp::Div(_)
+                | BinOp::Rem(_)
+                | BinOp::BitXor(_)
+                | BinOp::BitAnd(_)
+                | BinOp::BitOr(_) => {
+                    Self::is_type_inferred(&binary.left) && Self::is_type_inferred(&binary.right)
+                },
+                _ => false,
+            },
+            Expr::Paren(paren) => Self::is_type_inferred(&paren.expr),
+            Expr::Group(group) => Self::is_type_inferred(&group.expr),
+            _ => false,
+        }
+    }
+
     pub fn span(&self) -> Span {
         match self {
             Self::Literal {
diff --git a/bitfields_impl/src/parsing/common/spanned_data_type.rs b/bitfields_impl/src/parsing/common/spanned_data_type.rs
index 799c42d..eba9401 100644
--- a/bitfields_impl/src/parsing/common/spanned_data_type.rs
+++ b/bitfields_impl/src/parsing/common/spanned_data_type.rs
@@ -249,7 +249,7 @@ impl IntegerType {
         }
     }
 
-    const fn is_unsigned(self) -> bool {
+    pub const fn is_unsigned(self) -> bool {
         matches!(self, Self::U8 | Self::U16 | Self::U32 | Self::U64 | Self::U128 | Self::Bool)
     }
 }
-- 
2.43.0


From bf62d69dbdc36deda31aadee6d6c5ec2450a3ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 32/33] fix: a default on a field of more than 128 bits
 panicked the macro

---
 bitfields_impl/src/parsing/bitfields/bitfield_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
index a9fa210..221e191 100644
--- a/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
+++ b/bitfields_impl/src/parsing/bitfields/bitfield_parser.rs
@@ -390,8 +390,8 @@ fn check_field_data_type_can_hold_bits(
 /// Compute the minimum and maximum representable signed/unsigned values for
 /// a given number of bits.
 const fn min_max_for_bits(bits: u32) -> (i128, u128) {
-    let max: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
-    let min: i128 = if bits == 128 { i128::MIN } else { -(1i128 << (bits - 1)) };
+    let max: u128 = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
+    let min: i128 = if bits >= 128 { i128::MIN } else { -(1i128 << (bits - 1)) };
     (min, max)
 }
 
-- 
2.43.0


From f4de34abf03a8dedfd042be3743f7405ad098eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:33 +0000
Subject: [PATCH 33/33] fix: flag variants that are configured out broke the
 generated conversion

---
 .../src/generating/bitflag/bitflag_generator.rs |  3 +++
 bitfields_impl/src/parsing/bitflags/bitflag.rs  |  6 ++++++
 .../src/parsing/bitflags/bitflag_parser.rs      | 17 ++++++++++++++++-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
index f7cc348..79ab8f1 100644
--- a/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
+++ b/bitfields_impl/src/generating/bitflag/bitflag_generator.rs
@@ -91,14 +91,17 @@ fn generate_match_cases_tokens_list(bitflag: &Bitflag) -> Vec<TokenStream> {
             let value = variant.value();
             let value_expr_tokens = value.to_tokens();
             let name_tokens = variant.name_tokens();
+            let cfg_attributes_tokens = variant.cfg_attributes_tokens();
 
             // Expressions aren't patterns, or mean something else as one (e.g. `1 | 2`).
             if matches!(value, ConstExpr::Literal { .. }) {
                 quote! {
+                    #( #cfg_attributes_tokens )*
                     #value_expr_tokens => Self::#name_tokens
                 }
             } else {
                 quote! {
+                    #( #cfg_attributes_tokens )*
                     _ if bits == Self::#name_tokens as #bitflag_data_type_tokens => {
                         Self::#name_tokens
                     }
diff --git a/bitfields_impl/src/parsing/bitflags/bitflag.rs b/bitfields_impl/src/parsing/bitflags/bitflag.rs
index c39d31c..ba8fbc0 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag.rs
@@ -65,6 +65,10 @@ pub struct BitflagVariant {
     /// The user defined attributes of the bitflag variant.
     user_attributes_tokens: Vec<TokenStream>,
 
+    /// The `#[cfg]` attributes among the user defined attributes, which also apply
+    /// to the code that names the bitflag variant.
+    cfg_attributes_tokens: Vec<TokenStream>,
+
     /// The ident of the bitflag variant.
     #[getset(skip)]
     name_ident: Ident,
@@ -83,6 +87,7 @@ impl BitflagVariant {
     /// Creates a new [`BitflagVariant`] instance.
     pub fn new(
         user_attributes_tokens: Vec<TokenStream>,
+        cfg_attributes_tokens: Vec<TokenStream>,
         name_ident: Ident,
         value: ConstExpr,
         base: bool,
@@ -90,6 +95,7 @@ impl BitflagVariant {
     ) -> Self {
         Self {
             user_attributes_tokens,
+            cfg_attributes_tokens,
             name_ident,
             value,
             base,
diff --git a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
index 0044dd2..9124cbe 100644
--- a/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
+++ b/bitfields_impl/src/parsing/bitflags/bitflag_parser.rs
@@ -56,6 +56,7 @@ fn parse_variants(variants: &Punctuated<Variant, Token![,]>) -> syn::Result<Vec<
 
 const BASE_BITFLAG_ENTRY_MACRO_NAME: &str = "base";
 const DEFAULT_MACRO_NAME: &str = "default";
+const CFG_ATTRIBUTE_NAME: &str = "cfg";
 
 /// Converts a single [`Variant`] into a [`BitflagVariant`].
 fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
@@ -69,6 +70,13 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
         .map(quote::ToTokens::into_token_stream)
         .collect();
 
+    let cfg_attributes_tokens = variant
+        .attrs
+        .iter()
+        .filter(|attr| attr.path().is_ident(CFG_ATTRIBUTE_NAME))
+        .map(quote::ToTokens::into_token_stream)
+        .collect();
+
     let name_ident = variant.ident.clone();
 
     if !matches!(variant.fields, Fields::Unit) {
@@ -91,7 +99,14 @@ fn parse_variant_helper(variant: &Variant) -> syn::Result<BitflagVariant> {
         },
     };
 
-    Ok(BitflagVariant::new(user_attributes_tokens, name_ident, value, base, default))
+    Ok(BitflagVariant::new(
+        user_attributes_tokens,
+        cfg_attributes_tokens,
+        name_ident,
+        value,
+        base,
+        default,
+    ))
 }
 
 /// Validates that literal variant values fit in the bitflag's type, the compiler
-- 
2.43.0

