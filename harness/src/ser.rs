//! Canonical serialisation of what the real decoder returned.
use crate::tok::*;
use std::io;
use wadec::core::indices::*;
use wadec::core::instruction::{BlockType, Catch, LaneIdx, Memarg};
use wadec::core::types::addrtype::AddrType;
use wadec::core::types::comptype::{CompType, FieldType, PackType, StorageType};
use wadec::core::types::externtype::ExternType;
use wadec::core::types::globaltype::{GlobalType, Mut};
use wadec::core::types::heaptype::{AbsHeapType, HeapType};
use wadec::core::types::limits::Limits;
use wadec::core::types::numtype::NumType;
use wadec::core::types::rectype::{RecType, SubType};
use wadec::core::types::reftype::RefType;
use wadec::core::types::tabletype::TableType;
use wadec::core::types::valtype::ValType;
use wadec::core::*;
use wadec::decode::indices::*;
use wadec::decode::instructions::*;
use wadec::decode::integer::*;
use wadec::decode::sections::code::*;
use wadec::decode::sections::data::*;
use wadec::decode::sections::element::*;
use wadec::decode::sections::export::*;
use wadec::decode::sections::global::*;
use wadec::decode::sections::import::*;
use wadec::decode::sections::table::*;
use wadec::decode::sections::tag::*;
use wadec::decode::sections::*;
use wadec::decode::types::comptype::*;
use wadec::decode::types::externtype::*;
use wadec::decode::types::tagtype::*;
use wadec::decode::types::*;
use wadec::decode::*;

pub type Out = Vec<u64>;
pub trait Ser {
    fn ser(&self, o: &mut Out);
}
macro_rules! idx { ($($t:ident)*) => { $(impl Ser for $t { fn ser(&self, o: &mut Out) { o.push(self.0 as u64) } })* } }
idx!(TypeIdx FuncIdx TableIdx MemIdx GlobalIdx ElemIdx DataIdx LocalIdx LabelIdx TagIdx LaneIdx);
impl Ser for u32 {
    fn ser(&self, o: &mut Out) {
        o.push(*self as u64)
    }
}
impl Ser for String {
    fn ser(&self, o: &mut Out) {
        bytes(self.as_bytes(), o)
    }
}
impl<T: Ser> Ser for Vec<T> {
    fn ser(&self, o: &mut Out) {
        o.push(self.len() as u64);
        for x in self {
            x.ser(o);
        }
    }
}
pub fn bytes(b: &[u8], o: &mut Out) {
    o.push(b.len() as u64);
    for x in b {
        o.push(*x as u64);
    }
}
pub fn section_kind(k: SectionKind) -> u64 {
    match k {
        SectionKind::Custom => 0,
        SectionKind::Type => 1,
        SectionKind::Import => 2,
        SectionKind::Function => 3,
        SectionKind::Table => 4,
        SectionKind::Memory => 5,
        SectionKind::Global => 6,
        SectionKind::Export => 7,
        SectionKind::Start => 8,
        SectionKind::Element => 9,
        SectionKind::Code => 10,
        SectionKind::Data => 11,
        SectionKind::DataCount => 12,
        SectionKind::Tag => 13,
        #[allow(unreachable_patterns)]
        _ => UNKNOWN,
    }
}
impl Ser for AbsHeapType {
    fn ser(&self, o: &mut Out) {
        o.push(match self {
            AbsHeapType::Exn => 0x69,
            AbsHeapType::Array => 0x6A,
            AbsHeapType::Struct => 0x6B,
            AbsHeapType::I31 => 0x6C,
            AbsHeapType::Eq => 0x6D,
            AbsHeapType::Any => 0x6E,
            AbsHeapType::Extern => 0x6F,
            AbsHeapType::Func => 0x70,
            AbsHeapType::None => 0x71,
            AbsHeapType::NoExtern => 0x72,
            AbsHeapType::NoFunc => 0x73,
            AbsHeapType::NoExn => 0x74,
            #[allow(unreachable_patterns)]
            _ => UNKNOWN,
        })
    }
}
/// One word: 0x1_00 | marker for abstract types, (1 << 40) | index for type indices.
impl Ser for HeapType {
    fn ser(&self, o: &mut Out) {
        match self {
            HeapType::Ht(a) => a.ser(o),
            HeapType::TypeIdx(i) => o.push(1 << 40 | *i as u64),
            #[allow(unreachable_patterns)]
            _ => o.push(UNKNOWN),
        }
    }
}
impl Ser for RefType {
    fn ser(&self, o: &mut Out) {
        o.push(if self.nullable { T_REF_NULL } else { T_REF });
        self.ht.ser(o);
    }
}
impl Ser for ValType {
    fn ser(&self, o: &mut Out) {
        o.push(match self {
            ValType::Num(NumType::Int32) => 0x7F,
            ValType::Num(NumType::Int64) => 0x7E,
            ValType::Num(NumType::Float32) => 0x7D,
            ValType::Num(NumType::Float64) => 0x7C,
            ValType::Vec(_) => 0x7B,
            ValType::Ref(r) => return r.ser(o),
            #[allow(unreachable_patterns)]
            _ => UNKNOWN,
        })
    }
}
impl Ser for Mut {
    fn ser(&self, o: &mut Out) {
        o.push(match self {
            Mut::Const => 0,
            Mut::Var => 1,
        })
    }
}
impl Ser for FieldType {
    fn ser(&self, o: &mut Out) {
        match &self.1 {
            StorageType::PackType(PackType::I8) => o.push(0x78),
            StorageType::PackType(PackType::I16) => o.push(0x77),
            StorageType::ValType(v) => v.ser(o),
            #[allow(unreachable_patterns)]
            _ => o.push(UNKNOWN),
        }
        self.0.ser(o);
    }
}
impl Ser for CompType {
    fn ser(&self, o: &mut Out) {
        match self {
            CompType::Array(f) => {
                o.push(0x5E);
                f.ser(o);
            }
            CompType::Struct(f) => {
                o.push(0x5F);
                f.ser(o);
            }
            CompType::Func { parameters, results, .. } => {
                o.push(0x60);
                parameters.ser(o);
                results.ser(o);
            }
            #[allow(unreachable_patterns)]
            _ => o.push(UNKNOWN),
        }
    }
}
impl Ser for SubType {
    fn ser(&self, o: &mut Out) {
        o.push(if self.is_final { 0x4F } else { 0x50 });
        self.supertypes.ser(o);
        self.comptype.ser(o);
    }
}
impl Ser for RecType {
    fn ser(&self, o: &mut Out) {
        self.0.ser(o)
    }
}
impl Ser for Limits {
    fn ser(&self, o: &mut Out) {
        o.push(match self.address_type {
            AddrType::I32 => 0x7F,
            AddrType::I64 => 0x7E,
            #[allow(unreachable_patterns)]
            _ => UNKNOWN,
        });
        o.push(self.min);
        match self.max {
            None => o.push(0),
            Some(m) => {
                o.push(1);
                o.push(m);
            }
        }
    }
}
impl Ser for TableType {
    fn ser(&self, o: &mut Out) {
        self.reftype.ser(o);
        self.limits.ser(o);
    }
}
impl Ser for GlobalType {
    fn ser(&self, o: &mut Out) {
        self.1.ser(o);
        self.0.ser(o);
    }
}
impl Ser for ExternType {
    fn ser(&self, o: &mut Out) {
        match self {
            ExternType::Func(t) => {
                o.push(0);
                t.ser(o);
            }
            ExternType::Table(t) => {
                o.push(1);
                t.ser(o);
            }
            ExternType::Mem(m) => {
                o.push(2);
                m.limits.ser(o);
            }
            ExternType::Global(g) => {
                o.push(3);
                g.ser(o);
            }
            ExternType::Tag(t) => {
                o.push(4);
                t.0.ser(o);
            }
            #[allow(unreachable_patterns)]
            _ => o.push(UNKNOWN),
        }
    }
}
impl Ser for Memarg {
    fn ser(&self, o: &mut Out) {
        o.push(self.align as u64);
        o.push(self.mem_idx.0 as u64);
        o.push(self.offset);
    }
}
impl Ser for BlockType {
    fn ser(&self, o: &mut Out) {
        match self {
            BlockType::Empty => o.push(0x40),
            BlockType::T(t) => t.ser(o),
            BlockType::I(i) => o.push(1 << 40 | *i as u64),
            #[allow(unreachable_patterns)]
            _ => o.push(UNKNOWN),
        }
    }
}
impl Ser for Catch {
    fn ser(&self, o: &mut Out) {
        match self {
            Catch::Catch(t, l) => {
                o.push(0);
                t.ser(o);
                l.ser(o);
            }
            Catch::CatchRef(t, l) => {
                o.push(1);
                t.ser(o);
                l.ser(o);
            }
            Catch::CatchAll(l) => {
                o.push(2);
                l.ser(o);
            }
            Catch::CatchAllRef(l) => {
                o.push(3);
                l.ser(o);
            }
            #[allow(unreachable_patterns)]
            _ => o.push(UNKNOWN),
        }
    }
}
impl Ser for Instruction {
    fn ser(&self, o: &mut Out) {
        use Instruction as I;
        match self {
            I::Block(bt, b) => {
                o.push(0x02);
                bt.ser(o);
                expr(b, o);
            }
            I::Loop(bt, b) => {
                o.push(0x03);
                bt.ser(o);
                expr(b, o);
            }
            I::If(bt, b, e) => {
                o.push(0x04);
                bt.ser(o);
                match e {
                    None => expr(b, o),
                    Some(e) => {
                        for i in b {
                            i.ser(o);
                        }
                        o.push(ELSE);
                        expr(e, o);
                    }
                }
            }
            I::TryTable(bt, c, b) => {
                o.push(0x1F);
                bt.ser(o);
                c.ser(o);
                expr(b, o);
            }
            I::BrTable(ls, l) => {
                o.push(0x0E);
                ls.ser(o);
                l.ser(o);
            }
            I::Select(None) => o.push(0x1B),
            I::Select(Some(ts)) => {
                o.push(0x1C);
                ts.ser(o);
            }
            I::I32Const(v) => {
                o.push(0x41);
                o.push(*v as i64 as u64);
            }
            I::I64Const(v) => {
                o.push(0x42);
                o.push(*v as u64);
            }
            I::F32Const(v) => {
                o.push(0x43);
                o.push(v.to_bits() as u64);
            }
            I::F64Const(v) => {
                o.push(0x44);
                o.push(v.to_bits());
            }
            I::RefNull(h) => {
                o.push(0xD0);
                h.ser(o);
            }
            I::RefTest(r) => {
                o.push(0xFB << 32 | 20);
                r.ser(o);
            }
            I::RefCast(r) => {
                o.push(0xFB << 32 | 22);
                r.ser(o);
            }
            I::BrOnCast(l, a, b) => {
                o.push(0xFB << 32 | 24);
                l.ser(o);
                a.ser(o);
                b.ser(o);
            }
            I::BrOnCastFail(l, a, b) => {
                o.push(0xFB << 32 | 25);
                l.ser(o);
                a.ser(o);
                b.ser(o);
            }
            I::V128Const(b) => {
                o.push(0xFD << 32 | 12);
                for x in b {
                    o.push(*x as u64);
                }
            }
            I::I8x16Shuffle(l) => {
                o.push(0xFD << 32 | 13);
                for x in l {
                    o.push(x.0 as u64);
                }
            }
            i => {
                if !crate::ops::ser_plain(i, o) {
                    o.push(UNKNOWN);
                }
            }
        }
    }
}
pub fn expr(b: &[Instruction], o: &mut Out) {
    for i in b {
        i.ser(o);
    }
    o.push(END);
}
pub fn module(m: &Module, mask: u64, o: &mut Out) {
    if mask & M_VERSION != 0 {
        o.push(P_VERSION);
        for b in m.version {
            o.push(b as u64);
        }
    }
    if mask & M_KINDS != 0 {
        o.push(P_KINDS);
        for k in &m.parsed_section_kinds {
            o.push(section_kind(*k));
        }
    }
    if mask & M_HEADERS != 0 {
        o.push(P_HEADERS);
        for h in &m.section_headers {
            o.push(section_kind(h.kind));
            o.push(h.size as u64);
        }
    }
    if mask & M_CUSTOM != 0 {
        o.push(P_CUSTOM);
        for c in &m.custom_sections {
            c.name.ser(o);
            bytes(&c.contents, o);
        }
    }
    if mask & M_TYPES != 0 {
        o.push(P_TYPES);
        m.types.ser(o);
    }
    if mask & M_IMPORTS != 0 {
        o.push(P_IMPORTS);
        o.push(m.imports.len() as u64);
        for i in &m.imports {
            i.module_name.ser(o);
            i.item_name.ser(o);
            i.extern_type.ser(o);
        }
    }
    if mask & M_FUNCS != 0 {
        o.push(P_FUNCS);
        o.push(m.funcs.len() as u64);
        for f in &m.funcs {
            f.r#type.ser(o);
        }
    }
    if mask & M_TABLES != 0 {
        o.push(P_TABLES);
        o.push(m.tables.len() as u64);
        for t in &m.tables {
            t.0.ser(o);
            expr(&t.1, o);
        }
    }
    if mask & M_MEMS != 0 {
        o.push(P_MEMS);
        o.push(m.mems.len() as u64);
        for t in &m.mems {
            t.limits.ser(o);
        }
    }
    if mask & M_TAGS != 0 {
        o.push(P_TAGS);
        o.push(m.tags.len() as u64);
        for t in &m.tags {
            t.0.ser(o);
        }
    }
    if mask & M_GLOBALS != 0 {
        o.push(P_GLOBALS);
        o.push(m.globals.len() as u64);
        for g in &m.globals {
            g.r#type.ser(o);
            expr(&g.init, o);
        }
    }
    if mask & M_EXPORTS != 0 {
        o.push(P_EXPORTS);
        o.push(m.exports.len() as u64);
        for e in &m.exports {
            e.name.ser(o);
            let (k, i) = match &e.externidx {
                ExternIdx::Func(i) => (0, i.0),
                ExternIdx::Table(i) => (1, i.0),
                ExternIdx::Mem(i) => (2, i.0),
                ExternIdx::Global(i) => (3, i.0),
                ExternIdx::Tag(i) => (4, i.0),
                #[allow(unreachable_patterns)]
                _ => (UNKNOWN, 0),
            };
            o.push(k);
            o.push(i as u64);
        }
    }
    if mask & M_START != 0 {
        o.push(P_START);
        if let Some(s) = &m.start {
            s.ser(o);
        }
    }
    if mask & M_ELEMS != 0 {
        o.push(P_ELEMS);
        o.push(m.elems.len() as u64);
        for e in &m.elems {
            match &e.mode {
                ElemMode::Passive => o.push(1),
                ElemMode::Declare => o.push(3),
                ElemMode::Active { table, offset, .. } => {
                    o.push(0);
                    table.ser(o);
                    expr(offset, o);
                }
                #[allow(unreachable_patterns)]
                _ => o.push(UNKNOWN),
            }
            e.r#type.ser(o);
            o.push(e.init.len() as u64);
            for i in &e.init {
                expr(i, o);
            }
        }
    }
    if mask & M_DATACOUNT != 0 {
        o.push(P_DATACOUNT);
        if let Some(n) = m.data_count {
            o.push(n as u64);
        }
    }
    if mask & M_LOCALS != 0 {
        o.push(P_LOCALS);
        o.push(m.funcs.len() as u64);
        for f in &m.funcs {
            f.locals.ser(o);
        }
    }
    if mask & M_BODIES != 0 {
        o.push(P_BODIES);
        o.push(m.funcs.len() as u64);
        for f in &m.funcs {
            expr(&f.body, o);
        }
    }
    if mask & M_DATAS != 0 {
        o.push(P_DATAS);
        o.push(m.datas.len() as u64);
        for d in &m.datas {
            match &d.mode {
                DataMode::Passive => o.push(1),
                DataMode::Active { memory, offset, .. } => {
                    o.push(0);
                    memory.ser(o);
                    expr(offset, o);
                }
                #[allow(unreachable_patterns)]
                _ => o.push(UNKNOWN),
            }
            bytes(&d.init, o);
        }
    }
    o.push(P_END);
}

// ---------------------------------------------------------------- errors
/// Serialises an error as: where (section, positions of the enclosing list elements, part of the
/// element), then what (kind of malformation and offending value).
impl Ser for io::Error {
    fn ser(&self, o: &mut Out) {
        o.push(IO);
        let marked = self.get_ref().is_some_and(|e| e.is::<crate::Marker>());
        o.push(io_code(self.kind(), marked));
    }
}
/// 1 = UnexpectedEof, other kinds by their number; +100 for the failing reader's own error.
pub fn io_code(k: io::ErrorKind, marked: bool) -> u64 {
    let c = if k == io::ErrorKind::UnexpectedEof { K_EOF } else { 2 + k as u64 };
    c + if marked { 100 } else { 0 }
}
impl<E: Ser> Ser for DecodeListError<E> {
    fn ser(&self, o: &mut Out) {
        match self {
            DecodeListError::DecodeLength(e) => {
                o.push(LEN);
                e.ser(o);
            }
            DecodeListError::ParseElement { position, source, .. } => {
                o.push(POS);
                o.push(*position as u64);
                source.ser(o);
            }
            #[allow(unreachable_patterns)]
            _ => o.push(UNKNOWN),
        }
    }
}
macro_rules! int_err { ($t:ident { $($v:ident => $k:ident),* }) => { impl Ser for $t { fn ser(&self, o: &mut Out) { match self { $($t::$v => o.push($k),)* $t::Io(e) => e.ser(o), #[allow(unreachable_patterns)] _ => o.push(UNKNOWN) } } } } }
int_err!(DecodeU32Error { TooLarge => U32_LARGE, RepresentationTooLong => U32_LONG });
int_err!(DecodeU64Error { TooLarge => U64_LARGE, RepresentationTooLong => U64_LONG });
int_err!(DecodeI32Error { TooLarge => I32_LARGE, RepresentationTooLong => I32_LONG });
int_err!(DecodeI64Error { IncorrectSignExtension => I64_SIGN, RepresentationTooLong => I64_LONG });
int_err!(DecodeS33Error { IncorrectSignExtension => S33_SIGN, RepresentationTooLong => S33_LONG });
macro_rules! idx_err { ($($t:ident $k:expr;)*) => { $(impl Ser for $t { fn ser(&self, o: &mut Out) { o.push(IDX); o.push($k); self.0.ser(o) } })* } }
pub const X_TY: u64 = 1;
pub const X_FN: u64 = 2;
pub const X_TB: u64 = 3;
pub const X_ME: u64 = 4;
pub const X_GL: u64 = 5;
pub const X_EL: u64 = 6;
pub const X_DA: u64 = 7;
pub const X_LO: u64 = 8;
pub const X_LA: u64 = 9;
pub const X_TG: u64 = 10;
idx_err!(DecodeTypeIdxError X_TY; DecodeFuncIdxError X_FN; DecodeTableIdxError X_TB; DecodeMemIdxError X_ME; DecodeGlobalIdxError X_GL; DecodeElemIdxError X_EL; DecodeDataIdxError X_DA; DecodeLocalIdxError X_LO; DecodeLabelIdxError X_LA; DecodeTagIdxError X_TG;);
/// Serialisation by a list of arms; anything not listed (a variant added later) is UNKNOWN.
macro_rules! err { ($t:ty, $o:ident; $($p:pat => $e:expr),* $(,)?) => { impl Ser for $t { fn ser(&self, $o: &mut Out) { match self { $($p => $e,)* #[allow(unreachable_patterns)] _ => $o.push(UNKNOWN) } } } } }
macro_rules! at { ($o:ident, $($k:expr),*; $e:ident) => { { $($o.push($k as u64);)* $e.ser($o) } }; ($o:ident, $($k:expr),*) => { { $($o.push($k as u64);)* } } }
err!(DecodeByteVectorError, o; Self::DecodeLength(e) => at!(o, LEN; e), Self::ReadElements(e) => at!(o, NAMEBYTES; e));
err!(DecodeNameError, o; Self::DecodeByteVector(e) => e.ser(o), Self::Utf8(e) => at!(o, UTF8, e.utf8_error().valid_up_to()));
err!(DecodeAbsHeapTypeError, o; Self::ReadMarkerByte(e) => e.ser(o), Self::InvalidMarkerByte(b) => at!(o, BAD_ABS, b.0));
err!(DecodeHeapTypeError, o; Self::ReadMarkerByte(e) => e.ser(o), Self::DecodeTypeIndex(e) => e.ser(o), Self::NegativeTypeIndex(x) => at!(o, NEG, *x));
err!(DecodeRefTypeError, o; Self::Io(e) => e.ser(o), Self::DecodeHeapType(e) => e.ser(o), Self::InvalidMarkerByte(e) => e.ser(o));
err!(DecodeValTypeError, o; Self::Io(e) => e.ser(o), Self::DecodeRefType(e) => e.ser(o));
err!(DecodeStorageTypeError, o; Self::ReadMarkerByte(e) => e.ser(o), Self::DecodeValTypeOrPackType { marker, source, .. } => at!(o, STORAGE, *marker; source));
err!(DecodeFieldTypeError, o; Self::DecodeStorageType(e) => e.ser(o), Self::ReadMutabilityMarkerByte(e) => e.ser(o), Self::DecodeMutability(b) => at!(o, BAD_MUT, b.0));
err!(DecodeResultTypeError, o; Self::DecodeList(e) => e.ser(o));
err!(DecodeCompTypeError, o; Self::ReadMarkerByte(e) => e.ser(o), Self::InvalidMarkerByte(b) => at!(o, BAD_COMP, *b), Self::DecodeStruct(e) => at!(o, STRUCT; e),
    Self::DecodeFuncParameters(e) => at!(o, PARAMS; e), Self::DecodeFuncResults(e) => at!(o, RESULTS; e), Self::DecodeFieldType(e) => e.ser(o));
err!(DecodeSubTypeError, o; Self::Io(e) => e.ser(o), Self::DecodeSupertypes(e) => at!(o, SUPER; e), Self::DecodeCompType(e) => e.ser(o));
err!(DecodeRecTypeError, o; Self::Io(e) => e.ser(o), Self::DecodeSubtypes(e) => at!(o, REC; e), Self::DecodeSubtype(e) => e.ser(o));
err!(ParseLimitsError, o; Self::ReadFlagByte(e) => e.ser(o), Self::UnexpectedFlagByte(b) => at!(o, BAD_LIM, *b), Self::ReadMinLimit(e) => at!(o, MIN; e), Self::ReadMaxLimit(e) => at!(o, MAX; e));
impl Ser for DecodeMemoryTypeError {
    fn ser(&self, o: &mut Out) {
        self.0.ser(o)
    }
}
err!(DecodeTableTypeError, o; Self::DecodeRefType(e) => e.ser(o), Self::DecodeLimits(e) => e.ser(o));
err!(DecodeGlobalTypeError, o; Self::DecodeValueType(e) => e.ser(o), Self::DecodeMutability(e) => e.ser(o), Self::InvalidMutability(b) => at!(o, BAD_MUT, b.0));
err!(DecodeTagTypeError, o; Self::ReadMarkerByte(e) => e.ser(o), Self::InvalidMarkerByte(b) => at!(o, BAD_TAG, *b), Self::DecodeTypeIndex(e) => e.ser(o));
err!(DecodeExternTypeError, o; Self::ReadMarkerByte(e) => e.ser(o), Self::InvalidMarkerByte(b) => at!(o, BAD_EXT, *b), Self::DecodeTypeIndex(e) => e.ser(o), Self::DecodeTableType(e) => e.ser(o),
    Self::DecodeMemoryType(e) => e.ser(o), Self::DecodeGlobalType(e) => e.ser(o), Self::DecodeTagType(e) => e.ser(o));
err!(DecodeImportError, o; Self::DecodeModuleName(e) => at!(o, MODNAME; e), Self::DecodeItemName(e) => at!(o, ITEMNAME; e), Self::DecodeExternType(e) => e.ser(o));
err!(DecodeExportError, o; Self::DecodeName(e) => e.ser(o), Self::ReadDescriptorMarkerByte(e) => e.ser(o), Self::DecodeIndex(e) => at!(o, EXPIDX; e), Self::InvalidDescriptorMarkerByte(b) => at!(o, BAD_EXP, b.0));
err!(DecodeTableError, o; Self::Io(e) => e.ser(o), Self::UnexpectedMarkerByte(b) => at!(o, BAD_TBL, *b), Self::DecodeTableType(e) => e.ser(o), Self::DecodeExpression(e) => e.ser(o));
err!(DecodeGlobalError, o; Self::DecodeGlobalType(e) => e.ser(o), Self::DecodeInit(e) => e.ser(o));
err!(DecodeElementKindError, o; Self::Io(e) => e.ser(o), Self::InvalidElemKind(b) => at!(o, BAD_EK, *b));
err!(DecodeElementError, o; Self::DecodeBitfield(e) => at!(o, EL_FLAG; e), Self::InvalidBitfield(n) => at!(o, BAD_EL, *n), Self::DecodeOffsetExpression(e) => at!(o, OFFSET; e), Self::DecodeElementKind(e) => e.ser(o),
    Self::DecodeElementExpression(e) => at!(o, OFFSET; e), Self::DecodeTableIdx(e) => e.ser(o), Self::DecodeReferenceType(e) => e.ser(o), Self::DecodeInit(e) => at!(o, INIT; e), Self::DecodeFuncIdxVector(e) => at!(o, FUNCS; e));
err!(DecodeDataSegmentError, o; Self::DecodeBitfield(e) => at!(o, D_FLAG; e), Self::InvalidBitfield(n) => at!(o, BAD_D, *n), Self::DecodeOffsetExpr(e) => at!(o, OFFSET; e), Self::DecodeInitVector(e) => e.ser(o), Self::DecodeMemIdx(e) => e.ser(o));
err!(DecodeCodeLocalsError, o; Self::DecodeLocalsCount(e) => e.ser(o), Self::LocalsCountOutOfBound { max_locals, actual_locals, .. } => at!(o, MANY, *max_locals, *actual_locals), Self::DecodeLocalValType(e) => e.ser(o));
err!(DecodeCodeError, o; Self::DecodeFunctionSize(e) => at!(o, SIZE; e), Self::DecodeLocalsVector(e) => at!(o, LOCALS; e), Self::DecodeFunctionBody(e) => at!(o, BODY; e),
    Self::EntrySizeMismatch { declared_bytes, leftover_bytes, consumed_bytes, .. } => at!(o, ESM, *declared_bytes, *leftover_bytes, *consumed_bytes));
err!(ParseExpressionError, o; Self::ParseInstruction(e) => e.ser(o), Self::UnexpectedElse => o.push(ELSE_));
err!(CatchError, o; Self::ReadMarkerByte(e) => e.ser(o), Self::InvalidMarkerByte(b) => at!(o, BAD_CATCH, *b), Self::DecodeTagIdx(e) => e.ser(o), Self::DecodeLabelIdx(e) => e.ser(o));
err!(ControlError, o; Self::LabelIdx(e) => e.ser(o), Self::DecodeLabelIdxVector(e) => e.ser(o), Self::FuncIdx(e) => e.ser(o), Self::TableIdx(e) => e.ser(o), Self::TypeIdx(e) => e.ser(o), Self::TagIdx(e) => e.ser(o),
    Self::DecodeCatchListError(e) => at!(o, CATCH; e), Self::BlockType(e) => e.ser(o), Self::UnexpectedElse => o.push(ELSE_), Self::ReadCastNullabilityMarker(e) => e.ser(o), Self::InvalidCastNullabilityMarker(b) => at!(o, BAD_CAST, *b), Self::HeapType(e) => e.ser(o));
err!(BlockTypeError, o; Self::ReadMarkerByte(e) => e.ser(o), Self::DecodeValType(e) => e.ser(o), Self::DecodeIndex(e) => e.ser(o), Self::NegativeTypeIndex(x) => at!(o, NEG, *x));
err!(ReferenceError, o; Self::HeapType(e) => e.ser(o), Self::FuncIdx(e) => e.ser(o), Self::ReadSubOpcode(e) => at!(o, SUBOP; e));
err!(AggregateError, o; Self::TypeIdx(e) => e.ser(o), Self::FieldIndex(e) => at!(o, FIELD; e), Self::DataIdx(e) => e.ser(o), Self::ElemIdx(e) => e.ser(o), Self::ArrayFixedLength(e) => at!(o, FIXLEN; e));
err!(ParametricError, o; Self::DecodeList(e) => e.ser(o));
err!(VariableError, o; Self::LocalIdx(e) => e.ser(o), Self::GlobalIdx(e) => e.ser(o));
err!(TableError, o; Self::TableIdx(e) => e.ser(o), Self::ElemIdx(e) => e.ser(o));
err!(MemargError, o; Self::InvalidFlagsBit(n) => at!(o, BAD_MEMARG, *n), Self::Align(e) => at!(o, ALIGN; e), Self::Offset(e) => at!(o, OFF64; e), Self::MemIdx(e) => e.ser(o));
err!(MemoryError, o; Self::DecodeMemarg(e) => e.ser(o), Self::DecodeDataIdx(e) => e.ser(o), Self::DecodeMemIdx(e) => e.ser(o));
impl Ser for DecodeFloat32Error {
    fn ser(&self, o: &mut Out) {
        let DecodeFloat32Error::ReadPayload(e) = self;
        e.ser(o)
    }
}
impl Ser for DecodeFloat64Error {
    fn ser(&self, o: &mut Out) {
        let DecodeFloat64Error::ReadPayload(e) = self;
        e.ser(o)
    }
}
err!(NumericError, o; Self::ReadOpcode(e) => at!(o, SUBOP; e), Self::DecodeI32(e) => e.ser(o), Self::DecodeI64(e) => e.ser(o), Self::DecodeF32(e) => e.ser(o), Self::DecodeF64(e) => e.ser(o));
err!(VectorError, o; Self::ReadOpcode(e) => at!(o, SUBOP; e), Self::Memarg(e) => e.ser(o), Self::LaneIdx(e) => e.0.ser(o), Self::ReadImmediateBytes(e) => e.ser(o), Self::InvalidOpcode(n) => at!(o, BAD_FD, *n));
err!(ParseError, o; Self::ReadOpcode(e) => e.ser(o), Self::Control(e) => e.ser(o), Self::Reference(e) => e.ser(o), Self::Aggregate(e) => e.ser(o), Self::Parametric(e) => e.ser(o), Self::Variable(e) => e.ser(o), Self::Table(e) => e.ser(o),
    Self::Memory(e) => e.ser(o), Self::Numeric(e) => e.ser(o), Self::Vector(e) => e.ser(o), Self::InvalidOpcode(b) => at!(o, BAD_OP, *b), Self::InvalidMarkerByteAfterFC(n) => at!(o, BAD_FC, *n), Self::InvalidMarkerByteAfterFB(n) => at!(o, BAD_FB, *n));
err!(DecodeModuleError, o;
    Self::ParsePreamble(ParsePreambleError::Io(e)) => at!(o, PRE; e),
    Self::ParsePreamble(ParsePreambleError::Unexpected(b)) => { o.push(PREBAD); for x in b { o.push(*x as u64) } },
    Self::DecodeSectionHeader(DecodeSectionHeaderError::ReadSectionIdByte(e)) => at!(o, HDR_ID; e),
    Self::DecodeSectionHeader(DecodeSectionHeaderError::InvalidSectionId(b)) => at!(o, HDR_BAD, b.0),
    Self::DecodeSectionHeader(DecodeSectionHeaderError::DecodeSectionSize(e)) => at!(o, HDR_SIZE; e),
    Self::CodeFuncEntriesLenMismatch { codes_len, funcs_len, .. } => at!(o, CFM, *codes_len, *funcs_len),
    Self::DataCountMismatch { datas_len, data_count, .. } => at!(o, DCM, *datas_len, *data_count),
    Self::DataCountDatasLenMismatch { datas_len, data_count, .. } => at!(o, DCM, *datas_len, *data_count),
    Self::SectionOutOfOrder { current, previous, .. } => at!(o, OOO, section_kind(*current), section_kind(*previous)),
    Self::DuplicateSection(k) => at!(o, DUP, section_kind(*k)),
    Self::SectionSizeMismatch { section_kind: k, declared, got, .. } => at!(o, SSM, section_kind(*k), *declared, *got),
    Self::DataIndexWithoutDataCount => o.push(DIW),
    Self::DecodeCustomSection(DecodeCustomSectionError::DecodeName(e)) => at!(o, SEC, 0; e),
    Self::DecodeCustomSection(DecodeCustomSectionError::Io(e)) => at!(o, SEC, 0; e),
    Self::DecodeTypeSection(DecodeTypeSectionError::DecodeList(e)) => at!(o, SEC, 1; e),
    Self::DecodeImportSection(DecodeImportSectionError::DecodeList(e)) => at!(o, SEC, 2; e),
    Self::DecodeFunctionSection(DecodeFunctionSectionError::DecodeList(e)) => at!(o, SEC, 3; e),
    Self::DecodeTableSection(DecodeTableSectionError::DecodeList(e)) => at!(o, SEC, 4; e),
    Self::DecodeMemorySection(DecodeMemorySectionError::DecodeList(e)) => at!(o, SEC, 5; e),
    Self::DecodeGlobalSection(DecodeGlobalSectionError::DecodeList(e)) => at!(o, SEC, 6; e),
    Self::DecodeExportSection(DecodeExportSectionError::DecodeList(e)) => at!(o, SEC, 7; e),
    Self::DecodeStartSection(DecodeStartSectionError(e)) => at!(o, SEC, 8; e),
    Self::DecodeElementSection(DecodeElementSectionError::DecodeList(e)) => at!(o, SEC, 9; e),
    Self::DecodeCodeSection(DecodeCodeSectionError::DecodeList(e)) => at!(o, SEC, 10; e),
    Self::DecodeDataSection(DecodeDataSectionError::DecodeList(e)) => at!(o, SEC, 11; e),
    Self::DecodeDatacountSection(DecodeDataCountSectionError::DecodeDataSegmentCount(e)) => at!(o, SEC, 12; e),
    Self::DecodeTagSection(DecodeTagSectionError::DecodeList(e)) => at!(o, SEC, 13; e),
);
