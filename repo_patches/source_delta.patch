From c5ba05f2097095a004fe56bed1c9417f4bc5467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 1/5] fix: report why a block's reference type failed to decode

BlockType::decode retried any failed value type as a type index. For the
markers 0x63 and 0x64 that hid the real cause (including errors of the reader)
behind 'Type index negative: -29'.
---
 src/decode/instructions.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decode/instructions.rs b/src/decode/instructions.rs
index 646a327..9159a19 100644
--- a/src/decode/instructions.rs
+++ b/src/decode/instructions.rs
@@ -1074,6 +1074,9 @@ pub enum BlockTypeError {
     #[error("failed reading block type marker byte")]
     ReadMarkerByte(io::Error),
 
+    #[error("failed decoding block value type")]
+    DecodeValType(#[from] DecodeValTypeError),
+
     #[error("failed decoding block type index")]
     DecodeIndex(#[from] DecodeS33Error),
 
@@ -1089,8 +1092,12 @@ impl BlockType {
         }
 
         let mut reader = Cursor::new([b]).chain(reader);
-        if let Ok(t) = ValType::decode(&mut reader) {
-            return Ok(Self::T(t));
+        match ValType::decode(&mut reader) {
+            Ok(t) => return Ok(Self::T(t)),
+            // 0x63 and 0x64 only introduce reference types, and more than the marker byte has been
+            // read by now: this cannot be a type index.
+            Err(err) if matches!(b, 0x63 | 0x64) => return Err(err.into()),
+            Err(_) => {}
         }
 
         // Unlike any other occurrence, the type index in a block type is encoded as a positive
-- 
2.43.0


From 4ec331b11a50f0d4dd7f6c979b868fed75c6353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 2/5] fix: do not mistake a reader's UnexpectedEof for the end
 of the module

At a section boundary any UnexpectedEof ended the module, so a failing reader
(say, a truncated compressed stream) yielded a successfully decoded prefix.
---
 src/decode/module.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/decode/module.rs b/src/decode/module.rs
index cb48137..5735b6e 100644
--- a/src/decode/module.rs
+++ b/src/decode/module.rs
@@ -2,7 +2,6 @@ use crate::core::Func;
 use crate::core::{Module, SectionHeader, SectionKind};
 use crate::decode::FromMarkerByte;
 use crate::decode::integer::{DecodeU32Error, decode_u32};
-use crate::decode::read_byte;
 use crate::decode::sections::*;
 use phf::phf_ordered_map;
 use std::io::{self, Read};
@@ -385,10 +384,10 @@ pub enum DecodeSectionHeaderError {
 fn decode_section_header<R: Read + ?Sized>(
     reader: &mut R,
 ) -> Result<Option<SectionHeader>, DecodeSectionHeaderError> {
-    let id = match read_byte(reader) {
-        Ok(id) => id,
-        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => return Ok(None),
-        Err(e) => return Err(e.into()),
+    // only an exhausted reader marks the end of the module: an `UnexpectedEof` raised by the reader
+    // itself (e.g. a truncated compressed stream) is a failure like any other
+    let Some(id) = Read::bytes(&mut *reader).next().transpose()? else {
+        return Ok(None);
     };
 
     let kind = SectionKind::from_marker(id)?;
-- 
2.43.0


From c27cd2cd6035e139cf9eaa6adf44d3b0c68b79d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 3/5] fix: do not allocate memory for declared but absent
 vector contents

A vector's length prefix was trusted before its elements were read, so a module
of a dozen bytes could make the decoder reserve gigabytes (and abort).
---
 src/decode/helpers.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/decode/helpers.rs b/src/decode/helpers.rs
index 059ced2..d582fec 100644
--- a/src/decode/helpers.rs
+++ b/src/decode/helpers.rs
@@ -108,7 +108,8 @@ where
 {
     let len = decode_u32(reader)?;
 
-    let mut items = Vec::with_capacity(len.try_into().unwrap());
+    // `len` is untrusted: let the list grow with the elements actually decoded
+    let mut items = Vec::new();
     for i in 0..len {
         let elem = parse_fn(reader).map_err(|err| DecodeListError::ParseElement {
             position: i,
@@ -157,8 +158,13 @@ pub(crate) fn decode_byte_vector<R: Read + ?Sized>(
     reader: &mut R,
 ) -> Result<Vec<u8>, DecodeByteVectorError> {
     let len = decode_u32(reader)?;
-    let mut b = vec![0u8; len.try_into().unwrap()];
-    reader.read_exact(&mut b)?;
+
+    // `len` is untrusted: let the vector grow with the bytes actually read
+    let mut b = Vec::new();
+    let read = reader.take(len.into()).read_to_end(&mut b)?;
+    if read < len.try_into().unwrap() {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
     Ok(b)
 }
 
-- 
2.43.0


From 90ef8b91a873d4ec2579f96efb8441d20bfbdb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 4/5] fix: expose the causes of decoding errors through
 Error::source

---
 src/decode/instructions.rs     | 54 +++++++++++++++++-----------------
 src/decode/module.rs           |  2 +-
 src/decode/sections/code.rs    |  4 +--
 src/decode/sections/data.rs    |  4 +--
 src/decode/sections/element.rs |  8 ++---
 src/decode/sections/export.rs  |  2 +-
 src/decode/sections/import.rs  |  4 +--
 src/decode/types/comptype.rs   |  4 +--
 src/decode/types/globaltype.rs |  2 +-
 src/decode/types/limits.rs     |  6 ++--
 10 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/decode/instructions.rs b/src/decode/instructions.rs
index 9159a19..f24a11f 100644
--- a/src/decode/instructions.rs
+++ b/src/decode/instructions.rs
@@ -67,28 +67,28 @@ pub enum ControlError {
     DecodeLabelIdxVector(#[from] DecodeListError<DecodeLabelIdxError>),
 
     #[error("failed decoding function index")]
-    FuncIdx(DecodeFuncIdxError),
+    FuncIdx(#[source] DecodeFuncIdxError),
 
     #[error("failed decoding table index")]
-    TableIdx(DecodeTableIdxError),
+    TableIdx(#[source] DecodeTableIdxError),
 
     #[error("failed decoding type index")]
-    TypeIdx(DecodeTypeIdxError),
+    TypeIdx(#[source] DecodeTypeIdxError),
 
     #[error("failed decoding tag index")]
-    TagIdx(DecodeTagIdxError),
+    TagIdx(#[source] DecodeTagIdxError),
 
     #[error("failed decoding Catch list")]
     DecodeCatchListError(#[from] DecodeListError<CatchError>),
 
     #[error("failed decoding block type")]
-    BlockType(BlockTypeError),
+    BlockType(#[source] BlockTypeError),
 
     #[error("unexpected `Else` token")]
     UnexpectedElse,
 
     #[error("failed decoding nullability for cast operation")]
-    ReadCastNullabilityMarker(io::Error),
+    ReadCastNullabilityMarker(#[source] io::Error),
 
     #[error("invalid cast operation marker byte: expected 0x00, 0x01, 0x02 or 0x03; got {0:#04X}")]
     InvalidCastNullabilityMarker(u8),
@@ -100,31 +100,31 @@ pub enum ControlError {
 #[derive(Debug, Error)]
 pub enum ReferenceError {
     #[error("failed decoding heap type")]
-    HeapType(DecodeHeapTypeError),
+    HeapType(#[source] DecodeHeapTypeError),
 
     #[error("failed decoding function index")]
-    FuncIdx(DecodeFuncIdxError),
+    FuncIdx(#[source] DecodeFuncIdxError),
 
     #[error("failed reading sub-opcode")]
-    ReadSubOpcode(DecodeU32Error),
+    ReadSubOpcode(#[source] DecodeU32Error),
 }
 
 #[derive(Debug, Error)]
 pub enum AggregateError {
     #[error("failed decoding type index")]
-    TypeIdx(DecodeTypeIdxError),
+    TypeIdx(#[source] DecodeTypeIdxError),
 
     #[error("failed decoding field index")]
-    FieldIndex(DecodeU32Error),
+    FieldIndex(#[source] DecodeU32Error),
 
     #[error("failed decoding data index")]
-    DataIdx(DecodeDataIdxError),
+    DataIdx(#[source] DecodeDataIdxError),
 
     #[error("failed decoding element index")]
-    ElemIdx(DecodeElemIdxError),
+    ElemIdx(#[source] DecodeElemIdxError),
 
     #[error("failed decoding array fixed length")]
-    ArrayFixedLength(DecodeU32Error),
+    ArrayFixedLength(#[source] DecodeU32Error),
 }
 
 #[derive(Debug, Error)]
@@ -136,37 +136,37 @@ pub enum ParametricError {
 #[derive(Debug, Error)]
 pub enum VariableError {
     #[error("failed decoding Local index")]
-    LocalIdx(DecodeLocalIdxError),
+    LocalIdx(#[source] DecodeLocalIdxError),
 
     #[error("failed decoding Global index")]
-    GlobalIdx(DecodeGlobalIdxError),
+    GlobalIdx(#[source] DecodeGlobalIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum TableError {
     #[error("failed decoding table index")]
-    TableIdx(DecodeTableIdxError),
+    TableIdx(#[source] DecodeTableIdxError),
 
     #[error("failed decoding element index")]
-    ElemIdx(DecodeElemIdxError),
+    ElemIdx(#[source] DecodeElemIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum MemoryError {
     #[error("failed decoding Memarg")]
-    DecodeMemarg(MemargError),
+    DecodeMemarg(#[source] MemargError),
 
     #[error("failed decoding data index")]
-    DecodeDataIdx(DecodeDataIdxError),
+    DecodeDataIdx(#[source] DecodeDataIdxError),
 
     #[error("failed decoding memory index")]
-    DecodeMemIdx(DecodeMemIdxError),
+    DecodeMemIdx(#[source] DecodeMemIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum NumericError {
     #[error("failed reading 0xFC-prefixed numeric opcode")]
-    ReadOpcode(DecodeU32Error),
+    ReadOpcode(#[source] DecodeU32Error),
 
     #[error(transparent)]
     DecodeI32(DecodeI32Error),
@@ -184,7 +184,7 @@ pub enum NumericError {
 #[derive(Debug, Error)]
 pub enum VectorError {
     #[error("failed reading Vector opcode")]
-    ReadOpcode(DecodeU32Error),
+    ReadOpcode(#[source] DecodeU32Error),
 
     #[error(transparent)]
     Memarg(MemargError),
@@ -193,7 +193,7 @@ pub enum VectorError {
     LaneIdx(LaneIdxError),
 
     #[error("failed reading immediate bytes")]
-    ReadImmediateBytes(io::Error),
+    ReadImmediateBytes(#[source] io::Error),
 
     #[error("unexpected Vector opcode: {0:#04X}")]
     InvalidOpcode(u32),
@@ -1024,10 +1024,10 @@ pub enum MemargError {
     InvalidFlagsBit(u32),
 
     #[error("failed decoding alignment")]
-    Align(DecodeU32Error),
+    Align(#[source] DecodeU32Error),
 
     #[error("failed decoding offset")]
-    Offset(DecodeU64Error),
+    Offset(#[source] DecodeU64Error),
 
     #[error("failed decoding memory index")]
     MemIdx(#[from] DecodeMemIdxError),
@@ -1072,7 +1072,7 @@ impl LaneIdx {
 #[derive(Debug, Error)]
 pub enum BlockTypeError {
     #[error("failed reading block type marker byte")]
-    ReadMarkerByte(io::Error),
+    ReadMarkerByte(#[source] io::Error),
 
     #[error("failed decoding block value type")]
     DecodeValType(#[from] DecodeValTypeError),
diff --git a/src/decode/module.rs b/src/decode/module.rs
index 5735b6e..174c23d 100644
--- a/src/decode/module.rs
+++ b/src/decode/module.rs
@@ -150,7 +150,7 @@ pub enum DecodeModuleError {
     DataCountDatasLenMismatch { datas_len: usize, data_count: u32 },
 
     #[error("failed decoding Data Count section")]
-    DecodeDataCount(std::num::TryFromIntError),
+    DecodeDataCount(#[source] std::num::TryFromIntError),
 
     #[error("Data index was present in Code section, but Data Count section is missing")]
     DataIndexWithoutDataCount,
diff --git a/src/decode/sections/code.rs b/src/decode/sections/code.rs
index 75e08a4..bfc8587 100644
--- a/src/decode/sections/code.rs
+++ b/src/decode/sections/code.rs
@@ -29,7 +29,7 @@ pub(crate) struct Code {
 #[derive(Debug, Error)]
 pub enum DecodeCodeError {
     #[error("failed decoding size of function code")]
-    DecodeFunctionSize(DecodeU32Error),
+    DecodeFunctionSize(#[source] DecodeU32Error),
 
     #[error("failed decoding locals vector")]
     DecodeLocalsVector(#[from] DecodeListError<DecodeCodeLocalsError>),
@@ -85,7 +85,7 @@ pub(crate) struct Local {
 #[derive(Debug, Error)]
 pub enum DecodeCodeLocalsError {
     #[error("failed decoding count of function locals")]
-    DecodeLocalsCount(DecodeU32Error),
+    DecodeLocalsCount(#[source] DecodeU32Error),
 
     #[error("too many locals: expected at most {max_locals}; got {actual_locals}")]
     LocalsCountOutOfBound { max_locals: u64, actual_locals: u64 },
diff --git a/src/decode/sections/data.rs b/src/decode/sections/data.rs
index 2e95f75..01a968f 100644
--- a/src/decode/sections/data.rs
+++ b/src/decode/sections/data.rs
@@ -24,13 +24,13 @@ pub(crate) fn decode_data_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeDataSegmentError {
     #[error("failed decoding bitfield")]
-    DecodeBitfield(DecodeU32Error),
+    DecodeBitfield(#[source] DecodeU32Error),
 
     #[error("invalid bitfield: expected 0 (passive), 1 or 2 (active); got {0}")]
     InvalidBitfield(u32),
 
     #[error("failed decoding offset expression")]
-    DecodeOffsetExpr(ParseExpressionError),
+    DecodeOffsetExpr(#[source] ParseExpressionError),
 
     #[error("failed decoding init byte vector")]
     DecodeInitVector(#[from] DecodeByteVectorError),
diff --git a/src/decode/sections/element.rs b/src/decode/sections/element.rs
index d5cc28e..7860461 100644
--- a/src/decode/sections/element.rs
+++ b/src/decode/sections/element.rs
@@ -31,19 +31,19 @@ pub(crate) fn decode_element_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeElementError {
     #[error("failed decoding bitfield")]
-    DecodeBitfield(DecodeU32Error),
+    DecodeBitfield(#[source] DecodeU32Error),
 
     #[error("invalid bitfield: expected value in range [0,7]; got {0}")]
     InvalidBitfield(u32),
 
     #[error("failed decoding offset expression")]
-    DecodeOffsetExpression(ParseExpressionError),
+    DecodeOffsetExpression(#[source] ParseExpressionError),
 
     #[error("failed decoding Element kind")]
     DecodeElementKind(#[from] DecodeElementKindError),
 
     #[error("failed decoding Element expression")]
-    DecodeElementExpression(ParseExpressionError),
+    DecodeElementExpression(#[source] ParseExpressionError),
 
     #[error(transparent)]
     DecodeTableIdx(#[from] DecodeTableIdxError),
@@ -52,7 +52,7 @@ pub enum DecodeElementError {
     DecodeReferenceType(#[from] DecodeRefTypeError),
 
     #[error("failed decoding table.init expressions")]
-    DecodeInit(DecodeListError<ParseExpressionError>),
+    DecodeInit(#[source] DecodeListError<ParseExpressionError>),
 
     #[error(transparent)]
     DecodeFuncIdxVector(#[from] DecodeListError<DecodeFuncIdxError>),
diff --git a/src/decode/sections/export.rs b/src/decode/sections/export.rs
index 9178122..701f0c6 100644
--- a/src/decode/sections/export.rs
+++ b/src/decode/sections/export.rs
@@ -25,7 +25,7 @@ pub enum DecodeExportError {
     DecodeName(#[from] DecodeNameError),
 
     #[error("failed reading Export descriptor marker byte")]
-    ReadDescriptorMarkerByte(io::Error),
+    ReadDescriptorMarkerByte(#[source] io::Error),
 
     #[error("failed reading ExportDesc index")]
     DecodeIndex(#[from] DecodeU32Error),
diff --git a/src/decode/sections/import.rs b/src/decode/sections/import.rs
index cf300ae..5b74f88 100644
--- a/src/decode/sections/import.rs
+++ b/src/decode/sections/import.rs
@@ -24,10 +24,10 @@ pub(crate) fn decode_import_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeImportError {
     #[error("failed decoding module name")]
-    DecodeModuleName(DecodeNameError),
+    DecodeModuleName(#[source] DecodeNameError),
 
     #[error("failed decoding item name")]
-    DecodeItemName(DecodeNameError),
+    DecodeItemName(#[source] DecodeNameError),
 
     #[error(transparent)]
     DecodeExternType(#[from] DecodeExternTypeError),
diff --git a/src/decode/types/comptype.rs b/src/decode/types/comptype.rs
index 77577cd..3951d14 100644
--- a/src/decode/types/comptype.rs
+++ b/src/decode/types/comptype.rs
@@ -23,10 +23,10 @@ pub enum DecodeCompTypeError {
     DecodeStruct(#[from] DecodeListError<DecodeFieldTypeError>),
 
     #[error("failed decoding Function type parameters")]
-    DecodeFuncParameters(DecodeResultTypeError),
+    DecodeFuncParameters(#[source] DecodeResultTypeError),
 
     #[error("failed decoding Function type results")]
-    DecodeFuncResults(DecodeResultTypeError),
+    DecodeFuncResults(#[source] DecodeResultTypeError),
 
     #[error(transparent)]
     DecodeFieldType(#[from] DecodeFieldTypeError),
diff --git a/src/decode/types/globaltype.rs b/src/decode/types/globaltype.rs
index 86989f2..db7127e 100644
--- a/src/decode/types/globaltype.rs
+++ b/src/decode/types/globaltype.rs
@@ -13,7 +13,7 @@ pub enum DecodeGlobalTypeError {
     DecodeValueType(#[from] DecodeValTypeError),
 
     #[error("failed decoding Mutability")]
-    DecodeMutability(std::io::Error),
+    DecodeMutability(#[source] std::io::Error),
 
     #[error(transparent)]
     InvalidMutability(#[from] InvalidMutabilityByteError),
diff --git a/src/decode/types/limits.rs b/src/decode/types/limits.rs
index df1b54b..e3e8921 100644
--- a/src/decode/types/limits.rs
+++ b/src/decode/types/limits.rs
@@ -8,16 +8,16 @@ use thiserror::Error;
 #[derive(Debug, Error)]
 pub enum ParseLimitsError {
     #[error("failed reading flag byte")]
-    ReadFlagByte(io::Error),
+    ReadFlagByte(#[source] io::Error),
 
     #[error("unexpected Limits flag byte: expected 0x00, 0x01, 0x04 or 0x05; got {0:#04X}")]
     UnexpectedFlagByte(u8),
 
     #[error("failed reading minimum limit")]
-    ReadMinLimit(DecodeU64Error),
+    ReadMinLimit(#[source] DecodeU64Error),
 
     #[error("failed reading maximum limit")]
-    ReadMaxLimit(DecodeU64Error),
+    ReadMaxLimit(#[source] DecodeU64Error),
 }
 
 pub(super) fn parse_limits<R: Read + ?Sized>(reader: &mut R) -> Result<Limits, ParseLimitsError> {
-- 
2.43.0


From 8a051ff23749453302cbb3b7450ba6e300164003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 5/5] fix: report an invalid export kind before reading the
 index behind it

---
 src/decode/sections/export.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/decode/sections/export.rs b/src/decode/sections/export.rs
index 701f0c6..12bed37 100644
--- a/src/decode/sections/export.rs
+++ b/src/decode/sections/export.rs
@@ -38,8 +38,7 @@ fn parse_export<R: Read + ?Sized>(reader: &mut R) -> Result<Export, DecodeExport
     let name = decode_name(reader)?;
 
     let desc_kind = read_byte(reader).map_err(DecodeExportError::ReadDescriptorMarkerByte)?;
-    let idx = decode_u32(reader)?;
-    let desc = ExternIdx::from(desc_kind, idx)?;
+    let desc = ExternIdx::from_kind(desc_kind)?(decode_u32(reader)?);
 
     Ok(Export {
         name,
@@ -54,13 +53,14 @@ fn parse_export<R: Read + ?Sized>(reader: &mut R) -> Result<Export, DecodeExport
 pub struct InvalidExportDescMarkerByte(pub u8);
 
 impl ExternIdx {
-    fn from(b: u8, idx: u32) -> Result<Self, InvalidExportDescMarkerByte> {
+    // the kind is judged before the index that follows it is read
+    fn from_kind(b: u8) -> Result<fn(u32) -> Self, InvalidExportDescMarkerByte> {
         Ok(match b {
-            0x00 => ExternIdx::Func(FuncIdx(idx)),
-            0x01 => ExternIdx::Table(TableIdx(idx)),
-            0x02 => ExternIdx::Mem(MemIdx(idx)),
-            0x03 => ExternIdx::Global(GlobalIdx(idx)),
-            0x04 => ExternIdx::Tag(TagIdx(idx)),
+            0x00 => |idx| ExternIdx::Func(FuncIdx(idx)),
+            0x01 => |idx| ExternIdx::Table(TableIdx(idx)),
+            0x02 => |idx| ExternIdx::Mem(MemIdx(idx)),
+            0x03 => |idx| ExternIdx::Global(GlobalIdx(idx)),
+            0x04 => |idx| ExternIdx::Tag(TagIdx(idx)),
             _ => return Err(InvalidExportDescMarkerByte(b)),
         })
     }
-- 
2.43.0

