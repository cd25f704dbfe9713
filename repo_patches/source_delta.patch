From eb78d5f62f4a3c4ec07b8ff76185ae6d59cc6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 01/19] fix: do not overflow when a declared length is close to
 usize::MAX

CborDataReader::peek computed the end of the range before checking that the
range was available, so a byte string header such as 5b ffffffffffffffff
panicked (attempt to add with overflow) instead of returning DataMissing.
---
 src/context.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 83bdfa8..c3359e9 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -56,8 +56,6 @@ impl<'a> CborDataReader<'a> {
             });
         }
         let offseted_rem = rem - offset;
-        let start = self.index + offset;
-        let end = start + n;
         if n > offseted_rem {
             Err(CborDataMissing {
                 expecting_bytes: n,
@@ -65,6 +63,9 @@ impl<'a> CborDataReader<'a> {
                 context,
             })
         } else {
+            // cannot overflow: the whole range is known to be inside the buffer
+            let start = self.index + offset;
+            let end = start + n;
             Ok(&self.data[start..end])
         }
     }
-- 
2.43.0


From b1433809dbbb59fe3ef13ce29d879b1a9ec0855c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 02/19] fix: Reader::null and Reader::undefined accept only
 their own constant

Both accepted (and consumed) any of false, true, null and undefined.
---
 src/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d0b43e7..4db591f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -289,14 +289,26 @@ impl<'a> Reader<'a> {
 
     pub fn null(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Null, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Null) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Null,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
 
     pub fn undefined(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Undefined, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Undefined) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Undefined,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
-- 
2.43.0


From d2ccede4f707dee5606e6ff93d4dfe7a809e8e28 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 03/19] fix: reject anything but same-type chunks in indefinite
 bytes and text

The state machine accepted simple elements (5f 01 ff) and chunks of the other
string type (5f 6141 ff) inside an indefinite bytes or text, so the Validator
reported ill-formed CBOR as valid, and arrays and maps handed out elements that
no reader accepts.
---
 src/state.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/state.rs b/src/state.rs
index 24c5886..7aa7ee3 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -220,6 +220,14 @@ impl State {
             }
             // A regular text or bytes, we can just call item_simple
             Some(_b) => {
+                // only chunks of the same type are allowed in an indefinite bytes/text
+                match (self.ctx.last(), new_stream) {
+                    (Some(StructTy::Stream(StreamType::Bytes)), StreamType::Text)
+                    | (Some(StructTy::Stream(StreamType::Text)), StreamType::Bytes) => {
+                        return Err(StateError::InvalidTypeInChunk);
+                    }
+                    _ => (),
+                };
                 self.advance()?;
                 self.check_reduce()
             }
@@ -261,6 +269,12 @@ impl State {
     ///
     /// All values except text, bytes, array, map, tag
     pub fn simple(&mut self) -> Result<(), StateError> {
+        match self.ctx.last() {
+            Some(StructTy::Stream(s)) if s.composite_scalar() => {
+                return Err(StateError::InvalidTypeInChunk);
+            }
+            _ => (),
+        };
         self.advance()?;
         self.check_reduce()
     }
-- 
2.43.0


From 97ee39e20951c4ae545dd43ecbc21965d35d34da Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 04/19] fix: reject an indefinite map that ends after a key

The state machine did not track keys and values in indefinite maps, so the
Validator accepted bf 01 ff, and arrays accepted it as an element.
---
 src/state.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 7aa7ee3..cdf7206 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -20,7 +20,7 @@ use std::fmt;
 #[derive(Debug, Clone, Copy)]
 enum StreamType {
     Array,
-    Map,
+    Map { exp_val: bool },
     Bytes,
     Text,
 }
@@ -28,7 +28,7 @@ enum StreamType {
 impl StreamType {
     pub fn composite_scalar(self) -> bool {
         match self {
-            StreamType::Array | StreamType::Map => false,
+            StreamType::Array | StreamType::Map { exp_val: _ } => false,
             StreamType::Bytes | StreamType::Text => true,
         }
     }
@@ -155,6 +155,10 @@ impl State {
                     *finished = true;
                     Ok(())
                 }
+                StructTy::Stream(StreamType::Map { exp_val }) => {
+                    *exp_val = !*exp_val;
+                    Ok(())
+                }
                 StructTy::Stream(_sty) => Ok(()),
             },
         }
@@ -302,7 +306,7 @@ impl State {
 
     /// Add a new Map into the context
     pub fn map(&mut self, v: HeaderValueStream) -> Result<(), StateError> {
-        self.struct_start(v, StreamType::Map, |nz| StructTy::Map {
+        self.struct_start(v, StreamType::Map { exp_val: false }, |nz| StructTy::Map {
             exp_val: false,
             elements: nz,
         })
@@ -311,6 +315,9 @@ impl State {
     /// Process a CBOR break, which terminate either an indefinite array, map, bytes, text
     pub fn brk(&mut self) -> Result<(), StateError> {
         match self.ctx.pop() {
+            Some(StructTy::Stream(StreamType::Map { exp_val: true })) => {
+                return Err(StateError::StructureNotFinished);
+            }
             Some(StructTy::Stream(_sty)) => (),
             Some(_sty) => {
                 return Err(StateError::BreakInNonStreamable);
-- 
2.43.0


From 2c0e5b7db2278f2507cb42e75c546be650692f0c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 05/19] fix: use map_starts_at when decoding a mapint structure

The derived encoder numbered keys from map_starts_at, the derived decoder from
0, so a structure with map_starts_at could not be decoded back.
---
 cbored-derive/src/product.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 527986c..2159ed8 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -509,7 +509,7 @@ pub(crate) fn derive_struct_de(
                     let mut keyfields = Vec::new();
                     let mut mandatory_keys = Vec::new();
 
-                    let mut rel_index = 0;
+                    let mut rel_index = attrs.starts_at as u64;
 
                     for field in fields.iter() {
                         let Field {
-- 
2.43.0


From 456345b73b0c1fdf03ed2b1606ec74c4ae943112 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 06/19] fix: do not shift by an untrusted map key in derived
 mapint decoding

The duplicate key detection shifted a 32 bits integer by the key read from the
data: any key of 32 or more panicked (or, without overflow checks, was taken
for a duplicate of another key).
---
 cbored-derive/src/product.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 2159ed8..d623dab 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -535,6 +535,9 @@ pub(crate) fn derive_struct_de(
                         };
                         let keyfield = quote! {
                             #abs_index => {
+                                if #field_name.is_some() {
+                                    return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
+                                }
                                 #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
                         };
@@ -563,16 +566,9 @@ pub(crate) fn derive_struct_de(
 
                         #( #keydefs )*
 
-                        let mut found_keys = 0;
                         for (mut k, mut v) in map.iter() {
                             let key: u64 = k.decode().map_err(|e| e.push::<Self>())?;
 
-                            if (found_keys & (1 << key)) != 0 {
-                                return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
-                            } else {
-                                found_keys |= 1 << key;
-                            }
-
                             match key {
                                 #( #keyfields )*
                                 // handle unknown keys
-- 
2.43.0


From 0ba652174ae54fadf8a2bca77f6b8d27813242ac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 07/19] fix: make the enumtype derivation with a null variant
 compile

The generated code called Writer::null, which does not exist, relied on Encode
and DecodeErrorKind being imported by the user, and dropped the result of
reading the null. The OneOrEmpty example of the README did not compile.
---
 cbored-derive/src/sum.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 2ec151a..8204685 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -141,7 +141,7 @@ pub(crate) fn derive_enum_se(
                             quote! {
                                 { #field_name }
                             },
-                            quote! { #field_name.encode(writer); },
+                            quote! { writer.encode(#field_name); },
                         )
                     }
                     Some(StructOutput::Unnamed(field_names)) => {
@@ -153,12 +153,12 @@ pub(crate) fn derive_enum_se(
                             quote! {
                                 ( #field_name )
                             },
-                            quote! { #field_name.encode(writer); },
+                            quote! { writer.encode(#field_name); },
                         )
                     }
                     None => match variant_def.cbor_type {
                         None => panic!("cannot have no cbor_type"),
-                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.null(); }),
+                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.constant(::cbored::Constant::Null); }),
                         Some(_) => {
                             panic!("cannot have a cbor-type that is not null without argument")
                         }
@@ -339,7 +339,7 @@ pub(crate) fn derive_enum_de(
                         (
                             quote! {},
                             quote! {
-                                reader.null().map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>());
+                                reader.null().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
-- 
2.43.0


From 843439606b0ace8c298d34c4dcc7fa3f7d0ee102 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 08/19] fix: read the tag of a derived flat structure

The derived encoder wrote the tag of a flat structure but the derived decoder
did not read it, so the structure could not be decoded back.
---
 cbored-derive/src/product.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index d623dab..4c33fc4 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -387,7 +387,18 @@ pub(crate) fn derive_struct_de(
     // * output:
     //   * 'array' which is CBOR Array if StructureType::Array
     let (prelude_sty_de, structure) = match attrs.structure_type {
-        StructureType::Flat => (quote! {}, DeStructure::Flat),
+        StructureType::Flat => {
+            let r = if tag_structure {
+                quote! {
+                    #tag_wrapper
+                    let mut tag_reader = tag.reader();
+                    let reader = &mut tag_reader;
+                }
+            } else {
+                quote! {}
+            };
+            (r, DeStructure::Flat)
+        }
         StructureType::Array | StructureType::ArrayLastOpt => {
             let r = if tag_structure {
                 quote! {
-- 
2.43.0


From 58a594ff624c92808c7d99272be97dd56f36e13e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 09/19] fix: CborData::validate_as checks that all the data was
 decoded

Like CborSlice::validate_as; trailing data was accepted as a valid T.
---
 src/prim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/prim.rs b/src/prim.rs
index 838f168..1437e51 100644
--- a/src/prim.rs
+++ b/src/prim.rs
@@ -71,6 +71,12 @@ impl CborData {
             Ok(_) => (),
             Err(e) => return Err(e),
         };
+        if !r.is_finished() {
+            return Err(DecodeErrorKind::ReaderNotTerminated {
+                remaining_bytes: r.remaining_bytes(),
+            }
+            .context::<Self>());
+        }
         Ok(CborDataOf(PhantomData, self.0.clone()))
     }
 
-- 
2.43.0


From f9c4fc2cf226c6a80ef890a7963a42d06d1537f8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 10/19] fix: decode rational numbers with a negative bignum
 numerator

The attempt to read a positive bignum consumed the element, so the following
attempt to read a negative bignum always failed with missing data.
---
 src/tagged.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tagged.rs b/src/tagged.rs
index 224ce16..ad35f80 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -167,6 +167,8 @@ impl RationalNumber {
                     Type::Tag => PositiveBignum::read(&mut inner_reader)
                         .map(RationalNumerator::PositiveBignum)
                         .or_else(|_| {
+                            // the failed attempt consumed the tag, so start again
+                            inner_reader = array[0].reader();
                             NegativeBignum::read(&mut inner_reader)
                                 .map(RationalNumerator::NegativeBignum)
                         }),
-- 
2.43.0


From 78ee01b3d3821a0ac90da9741dbeab67fbb7e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 11/19] fix: Byte::canonical does not build an immediate byte
 for 20 to 23

These immediate values are false, true, null and undefined; writing such a Byte
panicked (assertion failed: v < 0x14).
---
 src/lowlevel/header.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lowlevel/header.rs b/src/lowlevel/header.rs
index dc2cf8d..e81840d 100644
--- a/src/lowlevel/header.rs
+++ b/src/lowlevel/header.rs
@@ -184,16 +184,17 @@ impl HeaderValue8 {
 
     pub fn canonical(v: u8) -> Self {
         match v {
-            _ if v < 24 => Self::Imm(v as u8),
+            // 0x14..=0x17 are the constants, they cannot be immediate bytes
+            _ if v < 0x14 => Self::Imm(v as u8),
             _ => Self::U8(v),
         }
     }
 
     pub fn is_canonical(&self) -> bool {
         match self {
-            // don't check if imm is < 24, as it shouldn't be allowed
+            // don't check if imm is < 0x14, as it shouldn't be allowed
             HeaderValue8::Imm(_) => true,
-            HeaderValue8::U8(v) => *v >= 24,
+            HeaderValue8::U8(v) => *v >= 0x14,
         }
     }
 }
-- 
2.43.0


From 7580a7908252696af3fa01eb12e8b4cdda723500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 12/19] fix: do not apply variant_starts_at twice in derived
 enums

---
 cbored-derive/src/sum.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 8204685..b3e7ea1 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -183,7 +183,7 @@ pub(crate) fn derive_enum_se(
             let variant_def = variant_field(&attrs, &variant);
             let variant_type = &variant_def.ty;
 
-            let variant_number = attrs.variant_starts_at + variant_index;
+            let variant_number = *variant_index;
 
             let (parameters, se_fields) = {
                 match &variant_type {
@@ -286,7 +286,7 @@ pub(crate) fn derive_enum_de(
                 enumerate_variant_indices(&attrs, &mut st.variants.iter()).iter()
             {
                 let ident = &variant.ident;
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let de_branch = quote! {
                     #variant_number => {
@@ -388,7 +388,7 @@ pub(crate) fn derive_enum_de(
             {
                 let ident = &variant.ident;
                 let variant_name = format!("{}", ident);
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let nb_items = variant.fields.len();
 
-- 
2.43.0


From 75e3cd77a7ab2bbbb09e6c9b89c39413bd332511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 13/19] fix: give CborSlice and CborSliceOf the layout their
 pointer casts rely on

---
 src/prim.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/prim.rs b/src/prim.rs
index 1437e51..a7d0c30 100644
--- a/src/prim.rs
+++ b/src/prim.rs
@@ -6,6 +6,8 @@ use std::{borrow::Borrow, marker::PhantomData};
 
 /// A Validated CBOR slice of data
 #[derive(Debug, PartialEq, Eq)]
+// references to it are made by casting references to the slice
+#[repr(transparent)]
 pub struct CborSlice(pub(crate) [u8]);
 
 impl<'a> AsRef<[u8]> for &'a CborSlice {
@@ -45,6 +47,8 @@ impl<'a> CborSlice {
     }
 }
 
+// references to it are made by casting references to the slice
+#[repr(transparent)]
 pub struct CborSliceOf<T>(PhantomData<T>, pub(crate) [u8]);
 
 /// A Validated CBOR slice of data
-- 
2.43.0


From 06298810a7ec43222b5bc9276b1448732be18cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 14/19] fix: report the whole lead byte when it is reserved in
 the last major type

---
 src/lowlevel/lead.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lowlevel/lead.rs b/src/lowlevel/lead.rs
index 26e00a8..26269af 100644
--- a/src/lowlevel/lead.rs
+++ b/src/lowlevel/lead.rs
@@ -222,7 +222,7 @@ impl Lead {
             0x19 => Ok(Lead::FP16),
             0x1a => Ok(Lead::FP32),
             0x1b => Ok(Lead::FP64),
-            0x1c..=0x1e => Err(LeadError::Reserved(b)),
+            0x1c..=0x1e => Err(LeadError::Reserved(byte)),
             0x1f => Ok(Lead::Break),
             _ => unreachable!(),
         }
-- 
2.43.0


From 1733ae9bd1fa2a743f5c1c3a95ca6fba72812f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 15/19] fix: an empty input is missing data, not a panic

---
 src/reader.rs   | 1 -
 src/validate.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4db591f..291430d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -153,7 +153,6 @@ impl<'a> Reader<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self { reader }
     }
diff --git a/src/validate.rs b/src/validate.rs
index 0ea6726..a637bed 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -63,7 +63,6 @@ impl<'a> Validator<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self {
             reader,
-- 
2.43.0


From 8b4ca32de4a579a6c7be493083db81d7cc236188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 16/19] fix: do not truncate 64 bits lengths on 32 bits
 architectures

---
 src/lowlevel/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lowlevel/header.rs b/src/lowlevel/header.rs
index e81840d..149a692 100644
--- a/src/lowlevel/header.rs
+++ b/src/lowlevel/header.rs
@@ -23,7 +23,8 @@ impl HeaderValue {
             HeaderValue::U8(u) => u as usize,
             HeaderValue::U16(u) => u as usize,
             HeaderValue::U32(u) => u as usize,
-            HeaderValue::U64(u) => u as usize,
+            // no buffer can have a bigger size, so do not truncate on 32 bits architecture
+            HeaderValue::U64(u) => usize::try_from(u).unwrap_or(usize::MAX),
         }
     }
 
-- 
2.43.0


From 5de4cb0c8865a6c896907da951a5d449d01ef485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 17/19] fix: do not truncate 64 bits variant numbers on 32 bits
 architectures in derived enums

---
 cbored-derive/src/sum.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index b3e7ea1..a681148 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -286,7 +286,7 @@ pub(crate) fn derive_enum_de(
                 enumerate_variant_indices(&attrs, &mut st.variants.iter()).iter()
             {
                 let ident = &variant.ident;
-                let variant_number = *variant_index;
+                let variant_number = *variant_index as u64;
 
                 let de_branch = quote! {
                     #variant_number => {
@@ -388,7 +388,7 @@ pub(crate) fn derive_enum_de(
             {
                 let ident = &variant.ident;
                 let variant_name = format!("{}", ident);
-                let variant_number = *variant_index;
+                let variant_number = *variant_index as u64;
 
                 let nb_items = variant.fields.len();
 
@@ -488,7 +488,6 @@ pub(crate) fn derive_enum_de(
     let body = match attrs.enumtype {
         EnumType::EnumInt => quote! {
             let variant: u64 = reader.decode()?;
-            let variant: usize = variant as usize;
             match variant {
                 #( #field_matches )*
                 _ => {
@@ -517,7 +516,6 @@ pub(crate) fn derive_enum_de(
                     _ => {}
                 };
                 let variant: u64 = array[0].decode()?;
-                let variant: usize = variant as usize;
                 match variant {
                     #( #field_matches )*
                     _ => {
-- 
2.43.0


From fce262665b152a75be715ee158afe0712f217b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 18/19] fix: derive: vec fields of array structures compile in
 both directions

The decoding half called DecodeErrorKind::push, which does not exist, and the
encoding half needed Vec<T> to be encodable itself.
---
 cbored-derive/src/product.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 4c33fc4..90b19ca 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -183,10 +183,20 @@ pub(crate) fn derive_struct_se(
                 let Field {
                     index: field_idx,
                     name: field_name,
-                    attrs: _,
+                    attrs: field_attrs,
                     is_vec: _,
                 } = &field;
-                let field_body = if last_is_opt && *field_idx == fields.len() - 1 {
+                let is_array = attrs.structure_type == StructureType::Array
+                    || attrs.structure_type == StructureType::ArrayLastOpt;
+                let field_body = if is_array && field_attrs.variant_type == FieldVariantType::Vec {
+                    quote! {
+                        writer.array_build(::cbored::StructureLength::from(self.#field_name.len() as u64), |writer| {
+                            for v in self.#field_name.iter() {
+                                writer.encode(v);
+                            }
+                        });
+                    }
+                } else if last_is_opt && *field_idx == fields.len() - 1 {
                     quote! {
                         match &self.#field_name {
                             None => (),
@@ -480,7 +490,7 @@ pub(crate) fn derive_struct_de(
                             quote! {
                                 let #field_name = {
                                     let mut r = array[#field_index].reader();
-                                    let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.push::<Self>())?
+                                    let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?
                                         .iter()
                                         .map(|mut r| r.decode())
                                         .collect::<Result<Vec<_>, ::cbored::DecodeError>>()?;
-- 
2.43.0


From fd1c895fbb1b0166ab9c387be4eaf706a4709f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 19/19] fix: validator: start each item with no structure left
 open by an earlier error

---
 src/validate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index a637bed..cbddef0 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -160,6 +160,8 @@ impl<'a> Validator<'a> {
     /// On error, it returns a `ValidateError` containing
     pub fn next(&mut self) -> Result<(&'a CborSlice, usize), ValidateError> {
         let start = self.reader.index;
+        // an earlier error may have left structures open
+        self.state = State::new();
 
         loop {
             let (ld, advance, ival) = self.header_parts()?;
-- 
2.43.0

