From e7096f2f7185e8e35f958ab46e5a6c7544877a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 1/8] fix: ignore unknown bits when deserializing the array
 format

Deserializing a set serialized as a list of u64s panicked when a bit that
does not correspond to a variant was set. Such bits are documented to be
silently removed.
---
 enumset_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 51c0e5a..77f8ad2 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -581,7 +581,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 )
             } else {
                 (quote! {}, quote! {
-                    #core::prelude::v1::Ok(#enumset::EnumSet::<#name>::from_array(accum))
+                    #core::prelude::v1::Ok(#enumset::EnumSet::<#name>::from_array_truncated(accum))
                 })
             };
             quote! {
-- 
2.43.0


From 610078a4aa895bafb5dd4c43cc605c23bfe55474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 2/8] fix: make serialize_deny_unknown compile for the array
 format

The generated deserializer used a generic parameter of the outer function and
returned a set where a Result was expected.
---
 enumset_derive/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 77f8ad2..86283d9 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -566,15 +566,19 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             )
                         }
                     },
                     quote! {
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
-                            Some(x) => x,
-                            None => #core::prelude::v1::Err(
-                                D::Error::custom("enumset contains unknown bits")
+                            #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
+                            #core::prelude::v1::None => #core::prelude::v1::Err(
+                                <A::Error as #serde::de::Error>::custom(
+                                    "enumset contains unknown bits"
+                                )
                             ),
                         }
                     },
-- 
2.43.0


From daa1035bbf2954f78f82d23b1feb72e8f29c002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 3/8] fix: make serialize_deny_unknown compile for array-backed
 sets

The check for unknown bits in a set serialized as an integer masked the integer
with the internal representation of the set, which does not compile when that
is an array (any enum with a largest discriminant from 64 to 127, for one).
---
 enumset_derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 86283d9..6751d22 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -441,8 +441,13 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 _ => unreachable!(),
             };
             let check_unknown = if info.serialize_deny_unknown {
+                // The internal representation may be an array even if the set is serialized as an
+                // integer, so this can't use `all_variants`.
+                let all_bits = Literal::u128_unsuffixed(
+                    variant_map[0] as u128 | variant_map.get(1).map_or(0, |x| (*x as u128) << 64),
+                );
                 quote! {
-                    if value & !#all_variants != 0 {
+                    if value & !#all_bits != 0 {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
                             D::Error::custom("enumset contains unknown bits")
-- 
2.43.0


From f0af8b05adc7d674df6f9aa79f4f5934b83ab68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 4/8] fix: EnumSet::bit_width of an enum without variants is 0

It was 1, although no bit is used and bit_width is documented to be the same
as variant_count for enums that are not sparse.
---
 enumset_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 6751d22..bbee58a 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -926,7 +926,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         });
     }
 
-    let bit_width = info.max_discrim + 1;
+    let bit_width = if is_uninhabited { 0 } else { info.max_discrim + 1 };
     let variant_count = info.variants.len() as u32;
     let vis = &info.vis;
     quote! {
-- 
2.43.0


From 5823bfb55d9dd860efe9232738e2153b1243705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 5/8] fix: enum_set!() no longer needs EnumSet to be imported

---
 enumset/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enumset/src/macros.rs b/enumset/src/macros.rs
index a2bfabb..32e5489 100644
--- a/enumset/src/macros.rs
+++ b/enumset/src/macros.rs
@@ -42,7 +42,7 @@ pub mod __internal {
 #[macro_export]
 macro_rules! enum_set {
     ($(|)*) => {
-        EnumSet::empty()
+        $crate::EnumSet::empty()
     };
     ($value:path $(|)*) => {
         {
-- 
2.43.0


From 2f33ff7e71f9c7be742c4f486144262e3a0f73b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 6/8] fix: let enums have the names of the derive's generic
 parameters

An enum named O, or with the serde feature A, D, S or Visitor, failed to
compile: in the generated code its name referred to a generic parameter (or
the local visitor type) instead of the enum.
---
 enumset_derive/src/lib.rs | 112 +++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index bbee58a..6268431 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -383,30 +383,30 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
     } else {
         quote! {
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::Sub<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<__O> for #name {
                 type Output = #typed_enumset;
-                fn sub(self, other: O) -> Self::Output {
+                fn sub(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitAnd<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitand(self, other: O) -> Self::Output {
+                fn bitand(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitOr<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitor(self, other: O) -> Self::Output {
+                fn bitor(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
-            impl<O: Into<#typed_enumset>> #core::ops::BitXor<O> for #name {
+            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitxor(self, other: O) -> Self::Output {
+                fn bitxor(self, other: __O) -> Self::Output {
                     #enumset::EnumSet::only(self) ^ other.into()
                 }
             }
@@ -450,7 +450,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     if value & !#all_bits != 0 {
                         use #serde::de::Error;
                         return #core::prelude::v1::Err(
-                            D::Error::custom("enumset contains unknown bits")
+                            __D::Error::custom("enumset contains unknown bits")
                         )
                     }
                 }
@@ -458,16 +458,16 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 quote! {}
             };
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     let value =
                         <#repr as #enumset::__internal::EnumSetTypeRepr>::#to_fn(&set.__priv_repr);
                     #serde::Serialize::serialize(&value, ser)
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
                     let value = <#serialize_repr as #serde::Deserialize>::deserialize(de)?;
                     #check_unknown
                     let value = <#repr as #enumset::__internal::EnumSetTypeRepr>::#from_fn(value);
@@ -480,9 +480,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
         SerdeRepr::List => {
             let expecting_str = format!("a list of {}", name);
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     use #serde::ser::SerializeSeq;
                     let mut seq = ser.serialize_seq(#core::prelude::v1::Some(set.len()))?;
                     for bit in set {
@@ -490,21 +490,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     }
                     seq.end()
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, #expecting_str)
                         }
-                        fn visit_seq<A>(
-                            mut self, mut seq: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::SeqAccess<'de>
+                        fn visit_seq<__A>(
+                            mut self, mut seq: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
@@ -513,16 +513,16 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    de.deserialize_seq(__Visitor)
                 }
             }
         }
         SerdeRepr::Map => {
             let expecting_str = format!("a map from {} to bool", name);
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     use #serde::ser::SerializeMap;
                     let mut map = ser.serialize_map(#core::prelude::v1::Some(set.len()))?;
                     for bit in set {
@@ -530,21 +530,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     }
                     map.end()
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, #expecting_str)
                         }
-                        fn visit_map<A>(
-                            mut self, mut map: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::MapAccess<'de>
+                        fn visit_map<__A>(
+                            mut self, mut map: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::MapAccess<'de>
                         {
                             let mut accum = #enumset::EnumSet::<#name>::new();
                             while let #core::prelude::v1::Some((val, is_present)) =
@@ -557,7 +557,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #core::prelude::v1::Ok(accum)
                         }
                     }
-                    de.deserialize_map(Visitor)
+                    de.deserialize_map(__Visitor)
                 }
             }
         }
@@ -571,7 +571,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     quote! {
                         if _val != 0 {
                             return #core::prelude::v1::Err(
-                                <A::Error as #serde::de::Error>::custom(
+                                <__A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits"
                                 )
                             )
@@ -581,7 +581,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                         match #enumset::EnumSet::<#name>::try_from_array(accum) {
                             #core::prelude::v1::Some(x) => #core::prelude::v1::Ok(x),
                             #core::prelude::v1::None => #core::prelude::v1::Err(
-                                <A::Error as #serde::de::Error>::custom(
+                                <__A::Error as #serde::de::Error>::custom(
                                     "enumset contains unknown bits"
                                 )
                             ),
@@ -594,9 +594,9 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 })
             };
             quote! {
-                fn serialize<S: #serde::Serializer>(
-                    set: #enumset::EnumSet<#name>, ser: S,
-                ) -> #core::result::Result<S::Ok, S::Error> {
+                fn serialize<__S: #serde::Serializer>(
+                    set: #enumset::EnumSet<#name>, ser: __S,
+                ) -> #core::result::Result<__S::Ok, __S::Error> {
                     // read the enum as an array
                     let array = set.as_array::<{ #preferred_size }>();
 
@@ -612,21 +612,21 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                     // serialize the array
                     #serde::Serialize::serialize(&array[..end], ser)
                 }
-                fn deserialize<'de, D: #serde::Deserializer<'de>>(
-                    de: D,
-                ) -> #core::result::Result<#enumset::EnumSet<#name>, D::Error> {
-                    struct Visitor;
-                    impl <'de> #serde::de::Visitor<'de> for Visitor {
+                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
+                    de: __D,
+                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
+                    struct __Visitor;
+                    impl <'de> #serde::de::Visitor<'de> for __Visitor {
                         type Value = #enumset::EnumSet<#name>;
                         fn expecting(
                             &self, formatter: &mut #core::fmt::Formatter,
                         ) -> #core::fmt::Result {
                             write!(formatter, "a list of u64")
                         }
-                        fn visit_seq<A>(
-                            mut self, mut seq: A,
-                        ) -> #core::result::Result<Self::Value, A::Error> where
-                            A: #serde::de::SeqAccess<'de>
+                        fn visit_seq<__A>(
+                            mut self, mut seq: __A,
+                        ) -> #core::result::Result<Self::Value, __A::Error> where
+                            __A: #serde::de::SeqAccess<'de>
                         {
                             let mut accum = [0; #preferred_size];
 
@@ -646,7 +646,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                             #convert_array
                         }
                     }
-                    de.deserialize_seq(Visitor)
+                    de.deserialize_seq(__Visitor)
                 }
             }
         }
-- 
2.43.0


From c5ec99a9e94b10c84724ffbd74a811af217e66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 7/8] fix: let variants have the names of the derive's
 associated types

---
 enumset_derive/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 6268431..963a331 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -385,35 +385,35 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::Sub<__O> for #name {
                 type Output = #typed_enumset;
-                fn sub(self, other: __O) -> Self::Output {
+                fn sub(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) - other.into()
                 }
             }
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitAnd<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitand(self, other: __O) -> Self::Output {
+                fn bitand(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) & other.into()
                 }
             }
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitor(self, other: __O) -> Self::Output {
+                fn bitor(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) | other.into()
                 }
             }
             #[automatically_derived]
             impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitXor<__O> for #name {
                 type Output = #typed_enumset;
-                fn bitxor(self, other: __O) -> Self::Output {
+                fn bitxor(self, other: __O) -> #typed_enumset {
                     #enumset::EnumSet::only(self) ^ other.into()
                 }
             }
             #[automatically_derived]
             impl #core::ops::Not for #name {
                 type Output = #typed_enumset;
-                fn not(self) -> Self::Output {
+                fn not(self) -> #typed_enumset {
                     !#enumset::EnumSet::only(self)
                 }
             }
@@ -956,7 +956,7 @@ fn enum_set_type_impl(info: EnumSetInfo, warnings: Vec<(Span, &'static str)>) ->
                 const CONST_HELPER_INSTANCE: __EnumSetConstHelper = __EnumSetConstHelper;
 
                 type Repr = #repr;
-                const ALL_BITS: Self::Repr = #all_variants;
+                const ALL_BITS: #repr = #all_variants;
                 const BIT_WIDTH: u32 = #bit_width;
                 const VARIANT_COUNT: u32 = #variant_count;
 
-- 
2.43.0


From e7fedfe278b665a50d39861e21305d5fc399ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:31 +0000
Subject: [PATCH 8/8] fix: accept discriminant literals passed through macros

---
 enumset_derive/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/enumset_derive/src/lib.rs b/enumset_derive/src/lib.rs
index 963a331..c6d6fd9 100644
--- a/enumset_derive/src/lib.rs
+++ b/enumset_derive/src/lib.rs
@@ -206,6 +206,11 @@ impl EnumSetInfo {
         } else if let Fields::Unit = variant.fields {
             // Parse the discriminant.
             if let Some((_, expr)) = &variant.discriminant {
+                // A literal passed through a macro is wrapped in a group without delimiters.
+                let mut expr = expr;
+                while let Expr::Group(group) = expr {
+                    expr = &group.expr;
+                }
                 if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = expr {
                     match i.base10_parse() {
                         Ok(val) => self.cur_discrim = val,
-- 
2.43.0

