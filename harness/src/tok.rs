//! Token vocabulary shared by the serialiser of real results and the reference decoder.
macro_rules! toks { ($b:expr; $($n:ident),* $(,)?) => { toks!(@ $b; $($n),*); }; (@ $b:expr; $n:ident $(, $r:ident)*) => { pub const $n: u64 = $b; toks!(@ $b + 1; $($r),*); }; (@ $b:expr;) => {}; }
// where
toks!(0xE000_0000_0000; PRE, PREBAD, HDR_ID, HDR_BAD, HDR_SIZE, CFM, DCM, OOO, DUP, SSM, DIW, SEC, POS, LEN, MODNAME, ITEMNAME, EXPIDX,
    STORAGE, REC, SUPER, STRUCT, PARAMS, RESULTS, MIN, MAX, EL_FLAG, D_FLAG, OFFSET, INIT, FUNCS, SIZE, LOCALS, BODY, SUBOP, FIELD, FIXLEN, ALIGN, OFF64, CATCH, IDX, NAMEBYTES);
// what
toks!(0xE100_0000_0000; IO, U32_LARGE, U32_LONG, U64_LARGE, U64_LONG, I32_LARGE, I32_LONG, I64_SIGN, I64_LONG, S33_SIGN, S33_LONG, UTF8, ELSE_,
    BAD_COMP, BAD_MUT, BAD_ABS, NEG, BAD_LIM, BAD_EXT, BAD_TAG, BAD_EXP, BAD_TBL, BAD_EL, BAD_EK, BAD_D, MANY, ESM, BAD_OP, BAD_FB, BAD_FC, BAD_FD, BAD_CATCH, BAD_CAST, BAD_MEMARG, UNKNOWN);
// I/O error kinds
pub const K_EOF: u64 = 1;
// module parts
toks!(0xF000_0000_0000; P_VERSION, P_KINDS, P_HEADERS, P_CUSTOM, P_TYPES, P_IMPORTS, P_FUNCS, P_TABLES, P_MEMS, P_TAGS, P_GLOBALS, P_EXPORTS, P_START, P_ELEMS, P_DATACOUNT, P_LOCALS, P_BODIES, P_DATAS, P_END);
// what to compare
pub const M_VERSION: u64 = 1;
pub const M_KINDS: u64 = 1 << 1;
pub const M_HEADERS: u64 = 1 << 2;
pub const M_CUSTOM: u64 = 1 << 3;
pub const M_TYPES: u64 = 1 << 4;
pub const M_IMPORTS: u64 = 1 << 5;
pub const M_FUNCS: u64 = 1 << 6;
pub const M_TABLES: u64 = 1 << 7;
pub const M_MEMS: u64 = 1 << 8;
pub const M_TAGS: u64 = 1 << 9;
pub const M_GLOBALS: u64 = 1 << 10;
pub const M_EXPORTS: u64 = 1 << 11;
pub const M_START: u64 = 1 << 12;
pub const M_ELEMS: u64 = 1 << 13;
pub const M_DATACOUNT: u64 = 1 << 14;
pub const M_LOCALS: u64 = 1 << 15;
pub const M_BODIES: u64 = 1 << 16;
pub const M_DATAS: u64 = 1 << 17;
/// compare rejections in detail
pub const M_ERR: u64 = 1 << 20;
/// compare accept/reject
pub const M_VERDICT: u64 = 1 << 21;
// result tags
pub const R_OK: u64 = 0xA1;
pub const R_ERR: u64 = 0xA0;
// instruction delimiters
pub const END: u64 = 0x0B;
pub const ELSE: u64 = 0x05;
// value types etc.
pub const T_REF_NULL: u64 = 0x63;
pub const T_REF: u64 = 0x64;
