// Generated by tools/gen_ops.py; do not edit.
use crate::ser::Ser;
use wadec::core::Instruction as I;

/// Pushes opcode and immediates (in encoding order) of an instruction with only plain immediates.
pub fn ser_plain(i: &I, o: &mut Vec<u64>) -> bool {
    let op: u64 = match i {
        I::Unreachable => 0x0,
        I::Nop => 0x1,
        I::ThrowRef => 0xA,
        I::Return => 0xF,
        I::Drop => 0x1A,
        I::I32Eqz => 0x45,
        I::I32Eq => 0x46,
        I::I32Ne => 0x47,
        I::I32LtS => 0x48,
        I::I32LtU => 0x49,
        I::I32GtS => 0x4A,
        I::I32GtU => 0x4B,
        I::I32LeS => 0x4C,
        I::I32LeU => 0x4D,
        I::I32GeS => 0x4E,
        I::I32GeU => 0x4F,
        I::I64Eqz => 0x50,
        I::I64Eq => 0x51,
        I::I64Ne => 0x52,
        I::I64LtS => 0x53,
        I::I64LtU => 0x54,
        I::I64GtS => 0x55,
        I::I64GtU => 0x56,
        I::I64LeS => 0x57,
        I::I64LeU => 0x58,
        I::I64GeS => 0x59,
        I::I64GeU => 0x5A,
        I::F32Eq => 0x5B,
        I::F32Ne => 0x5C,
        I::F32Lt => 0x5D,
        I::F32Gt => 0x5E,
        I::F32Le => 0x5F,
        I::F32Ge => 0x60,
        I::F64Eq => 0x61,
        I::F64Ne => 0x62,
        I::F64Lt => 0x63,
        I::F64Gt => 0x64,
        I::F64Le => 0x65,
        I::F64Ge => 0x66,
        I::I32Clz => 0x67,
        I::I32Ctz => 0x68,
        I::I32Popcnt => 0x69,
        I::I32Add => 0x6A,
        I::I32Sub => 0x6B,
        I::I32Mul => 0x6C,
        I::I32DivS => 0x6D,
        I::I32DivU => 0x6E,
        I::I32RemS => 0x6F,
        I::I32RemU => 0x70,
        I::I32And => 0x71,
        I::I32Or => 0x72,
        I::I32Xor => 0x73,
        I::I32Shl => 0x74,
        I::I32ShrS => 0x75,
        I::I32ShrU => 0x76,
        I::I32Rotl => 0x77,
        I::I32Rotr => 0x78,
        I::I64Clz => 0x79,
        I::I64Ctz => 0x7A,
        I::I64Popcnt => 0x7B,
        I::I64Add => 0x7C,
        I::I64Sub => 0x7D,
        I::I64Mul => 0x7E,
        I::I64DivS => 0x7F,
        I::I64DivU => 0x80,
        I::I64RemS => 0x81,
        I::I64RemU => 0x82,
        I::I64And => 0x83,
        I::I64Or => 0x84,
        I::I64Xor => 0x85,
        I::I64Shl => 0x86,
        I::I64ShrS => 0x87,
        I::I64ShrU => 0x88,
        I::I64Rotl => 0x89,
        I::I64Rotr => 0x8A,
        I::F32Abs => 0x8B,
        I::F32Neg => 0x8C,
        I::F32Ceil => 0x8D,
        I::F32Floor => 0x8E,
        I::F32Trunc => 0x8F,
        I::F32Nearest => 0x90,
        I::F32Sqrt => 0x91,
        I::F32Add => 0x92,
        I::F32Sub => 0x93,
        I::F32Mul => 0x94,
        I::F32Div => 0x95,
        I::F32Min => 0x96,
        I::F32Max => 0x97,
        I::F32Copysign => 0x98,
        I::F64Abs => 0x99,
        I::F64Neg => 0x9A,
        I::F64Ceil => 0x9B,
        I::F64Floor => 0x9C,
        I::F64Trunc => 0x9D,
        I::F64Nearest => 0x9E,
        I::F64Sqrt => 0x9F,
        I::F64Add => 0xA0,
        I::F64Sub => 0xA1,
        I::F64Mul => 0xA2,
        I::F64Div => 0xA3,
        I::F64Min => 0xA4,
        I::F64Max => 0xA5,
        I::F64Copysign => 0xA6,
        I::I32WrapI64 => 0xA7,
        I::I32TruncF32S => 0xA8,
        I::I32TruncF32U => 0xA9,
        I::I32TruncF64S => 0xAA,
        I::I32TruncF64U => 0xAB,
        I::I64ExtendI32S => 0xAC,
        I::I64ExtendI32U => 0xAD,
        I::I64TruncF32S => 0xAE,
        I::I64TruncF32U => 0xAF,
        I::I64TruncF64S => 0xB0,
        I::I64TruncF64U => 0xB1,
        I::F32ConvertI32S => 0xB2,
        I::F32ConvertI32U => 0xB3,
        I::F32ConvertI64S => 0xB4,
        I::F32ConvertI64U => 0xB5,
        I::F32DemoteF64 => 0xB6,
        I::F64ConvertI32S => 0xB7,
        I::F64ConvertI32U => 0xB8,
        I::F64ConvertI64S => 0xB9,
        I::F64ConvertI64U => 0xBA,
        I::F64PromoteF32 => 0xBB,
        I::I32ReinterpretF32 => 0xBC,
        I::I64ReinterpretF64 => 0xBD,
        I::F32ReinterpretI32 => 0xBE,
        I::F64ReinterpretI64 => 0xBF,
        I::I32Extend8S => 0xC0,
        I::I32Extend16S => 0xC1,
        I::I64Extend8S => 0xC2,
        I::I64Extend16S => 0xC3,
        I::I64Extend32S => 0xC4,
        I::RefIsNull => 0xD1,
        I::RefEq => 0xD3,
        I::RefAsNonNull => 0xD4,
        I::ArrayLen => (0xFB << 32) | 15,
        I::AnyConvertExtern => (0xFB << 32) | 26,
        I::ExternConvertAny => (0xFB << 32) | 27,
        I::RefI31 => (0xFB << 32) | 28,
        I::I31GetS => (0xFB << 32) | 29,
        I::I31GetU => (0xFB << 32) | 30,
        I::I32TruncSatF32S => (0xFC << 32) | 0,
        I::I32TruncSatF32U => (0xFC << 32) | 1,
        I::I32TruncSatF64S => (0xFC << 32) | 2,
        I::I32TruncSatF64U => (0xFC << 32) | 3,
        I::I64TruncSatF32S => (0xFC << 32) | 4,
        I::I64TruncSatF32U => (0xFC << 32) | 5,
        I::I64TruncSatF64S => (0xFC << 32) | 6,
        I::I64TruncSatF64U => (0xFC << 32) | 7,
        I::I8x16Swizzle => (0xFD << 32) | 14,
        I::I8x16Splat => (0xFD << 32) | 15,
        I::I16x8Splat => (0xFD << 32) | 16,
        I::I32x4Splat => (0xFD << 32) | 17,
        I::I64x2Splat => (0xFD << 32) | 18,
        I::F32x4Splat => (0xFD << 32) | 19,
        I::F64x2Splat => (0xFD << 32) | 20,
        I::I8x16Eq => (0xFD << 32) | 35,
        I::I8x16Ne => (0xFD << 32) | 36,
        I::I8x16LtS => (0xFD << 32) | 37,
        I::I8x16LtU => (0xFD << 32) | 38,
        I::I8x16GtS => (0xFD << 32) | 39,
        I::I8x16GtU => (0xFD << 32) | 40,
        I::I8x16LeS => (0xFD << 32) | 41,
        I::I8x16LeU => (0xFD << 32) | 42,
        I::I8x16GeS => (0xFD << 32) | 43,
        I::I8x16GeU => (0xFD << 32) | 44,
        I::I16x8Eq => (0xFD << 32) | 45,
        I::I16x8Ne => (0xFD << 32) | 46,
        I::I16x8LtS => (0xFD << 32) | 47,
        I::I16x8LtU => (0xFD << 32) | 48,
        I::I16x8GtS => (0xFD << 32) | 49,
        I::I16x8GtU => (0xFD << 32) | 50,
        I::I16x8LeS => (0xFD << 32) | 51,
        I::I16x8LeU => (0xFD << 32) | 52,
        I::I16x8GeS => (0xFD << 32) | 53,
        I::I16x8GeU => (0xFD << 32) | 54,
        I::I32x4Eq => (0xFD << 32) | 55,
        I::I32x4Ne => (0xFD << 32) | 56,
        I::I32x4LtS => (0xFD << 32) | 57,
        I::I32x4LtU => (0xFD << 32) | 58,
        I::I32x4GtS => (0xFD << 32) | 59,
        I::I32x4GtU => (0xFD << 32) | 60,
        I::I32x4LeS => (0xFD << 32) | 61,
        I::I32x4LeU => (0xFD << 32) | 62,
        I::I32x4GeS => (0xFD << 32) | 63,
        I::I32x4GeU => (0xFD << 32) | 64,
        I::F32x4Eq => (0xFD << 32) | 65,
        I::F32x4Ne => (0xFD << 32) | 66,
        I::F32x4Lt => (0xFD << 32) | 67,
        I::F32x4Gt => (0xFD << 32) | 68,
        I::F32x4Le => (0xFD << 32) | 69,
        I::F32x4Ge => (0xFD << 32) | 70,
        I::F64x2Eq => (0xFD << 32) | 71,
        I::F64x2Ne => (0xFD << 32) | 72,
        I::F64x2Lt => (0xFD << 32) | 73,
        I::F64x2Gt => (0xFD << 32) | 74,
        I::F64x2Le => (0xFD << 32) | 75,
        I::F64x2Ge => (0xFD << 32) | 76,
        I::V128Not => (0xFD << 32) | 77,
        I::V128And => (0xFD << 32) | 78,
        I::V128AndNot => (0xFD << 32) | 79,
        I::V128Or => (0xFD << 32) | 80,
        I::V128Xor => (0xFD << 32) | 81,
        I::V128Bitselect => (0xFD << 32) | 82,
        I::V128AnyTrue => (0xFD << 32) | 83,
        I::F32x4DemoteF64x2Zero => (0xFD << 32) | 94,
        I::F64x2PromoteLowF32x4 => (0xFD << 32) | 95,
        I::I8x16Abs => (0xFD << 32) | 96,
        I::I8x16Neg => (0xFD << 32) | 97,
        I::I8x16Popcnt => (0xFD << 32) | 98,
        I::I8x16AllTrue => (0xFD << 32) | 99,
        I::I8x16Bitmask => (0xFD << 32) | 100,
        I::I8x16NarrowI16x8S => (0xFD << 32) | 101,
        I::I8x16NarrowI16x8U => (0xFD << 32) | 102,
        I::F32x4Ceil => (0xFD << 32) | 103,
        I::F32x4Floor => (0xFD << 32) | 104,
        I::F32x4Trunc => (0xFD << 32) | 105,
        I::F32x4Nearest => (0xFD << 32) | 106,
        I::I8x16Shl => (0xFD << 32) | 107,
        I::I8x16ShrS => (0xFD << 32) | 108,
        I::I8x16ShrU => (0xFD << 32) | 109,
        I::I8x16Add => (0xFD << 32) | 110,
        I::I8x16AddSatS => (0xFD << 32) | 111,
        I::I8x16AddSatU => (0xFD << 32) | 112,
        I::I8x16Sub => (0xFD << 32) | 113,
        I::I8x16SubSatS => (0xFD << 32) | 114,
        I::I8x16SubSatU => (0xFD << 32) | 115,
        I::F64x2Ceil => (0xFD << 32) | 116,
        I::F64x2Floor => (0xFD << 32) | 117,
        I::I8x16MinS => (0xFD << 32) | 118,
        I::I8x16MinU => (0xFD << 32) | 119,
        I::I8x16MaxS => (0xFD << 32) | 120,
        I::I8x16MaxU => (0xFD << 32) | 121,
        I::F64x2Trunc => (0xFD << 32) | 122,
        I::I8x16AvgrU => (0xFD << 32) | 123,
        I::I16x8ExtaddPairwiseI8x16S => (0xFD << 32) | 124,
        I::I16x8ExtaddPairwiseI8x16U => (0xFD << 32) | 125,
        I::I32x4ExtaddPairwiseI16x8S => (0xFD << 32) | 126,
        I::I32x4ExtaddPairwiseI16x8U => (0xFD << 32) | 127,
        I::I16x8Abs => (0xFD << 32) | 128,
        I::I16x8Neg => (0xFD << 32) | 129,
        I::I16x8Q15MulrSatS => (0xFD << 32) | 130,
        I::I16x8AllTrue => (0xFD << 32) | 131,
        I::I16x8Bitmask => (0xFD << 32) | 132,
        I::I16x8NarrowI32x4S => (0xFD << 32) | 133,
        I::I16x8NarrowI32x4U => (0xFD << 32) | 134,
        I::I16x8ExtendLowI8x16S => (0xFD << 32) | 135,
        I::I16x8ExtendHighI8x16S => (0xFD << 32) | 136,
        I::I16x8ExtendLowI8x16U => (0xFD << 32) | 137,
        I::I16x8ExtendHighI8x16U => (0xFD << 32) | 138,
        I::I16x8Shl => (0xFD << 32) | 139,
        I::I16x8ShrS => (0xFD << 32) | 140,
        I::I16x8ShrU => (0xFD << 32) | 141,
        I::I16x8Add => (0xFD << 32) | 142,
        I::I16x8AddSatS => (0xFD << 32) | 143,
        I::I16x8AddSatU => (0xFD << 32) | 144,
        I::I16x8Sub => (0xFD << 32) | 145,
        I::I16x8SubSatS => (0xFD << 32) | 146,
        I::I16x8SubSatU => (0xFD << 32) | 147,
        I::F64x2Nearest => (0xFD << 32) | 148,
        I::I16x8Mul => (0xFD << 32) | 149,
        I::I16x8MinS => (0xFD << 32) | 150,
        I::I16x8MinU => (0xFD << 32) | 151,
        I::I16x8MaxS => (0xFD << 32) | 152,
        I::I16x8MaxU => (0xFD << 32) | 153,
        I::I16x8AvgrU => (0xFD << 32) | 155,
        I::I16x8ExtmulLowI8x16S => (0xFD << 32) | 156,
        I::I16x8ExtmulHighI8x16S => (0xFD << 32) | 157,
        I::I16x8ExtmulLowI8x16U => (0xFD << 32) | 158,
        I::I16x8ExtmulHighI8x16U => (0xFD << 32) | 159,
        I::I32x4Abs => (0xFD << 32) | 160,
        I::I32x4Neg => (0xFD << 32) | 161,
        I::I32x4AllTrue => (0xFD << 32) | 163,
        I::I32x4Bitmask => (0xFD << 32) | 164,
        I::I32x4ExtendLowI16x8S => (0xFD << 32) | 167,
        I::I32x4ExtendHighI16x8S => (0xFD << 32) | 168,
        I::I32x4ExtendLowI16x8U => (0xFD << 32) | 169,
        I::I32x4ExtendHighI16x8U => (0xFD << 32) | 170,
        I::I32x4Shl => (0xFD << 32) | 171,
        I::I32x4ShrS => (0xFD << 32) | 172,
        I::I32x4ShrU => (0xFD << 32) | 173,
        I::I32x4Add => (0xFD << 32) | 174,
        I::I32x4Sub => (0xFD << 32) | 177,
        I::I32x4Mul => (0xFD << 32) | 181,
        I::I32x4MinS => (0xFD << 32) | 182,
        I::I32x4MinU => (0xFD << 32) | 183,
        I::I32x4MaxS => (0xFD << 32) | 184,
        I::I32x4MaxU => (0xFD << 32) | 185,
        I::I32x4DotI16x8S => (0xFD << 32) | 186,
        I::I32x4ExtmulLowI16x8S => (0xFD << 32) | 188,
        I::I32x4ExtmulHighI16x8S => (0xFD << 32) | 189,
        I::I32x4ExtmulLowI16x8U => (0xFD << 32) | 190,
        I::I32x4ExtmulHighI16x8U => (0xFD << 32) | 191,
        I::I64x2Abs => (0xFD << 32) | 192,
        I::I64x2Neg => (0xFD << 32) | 193,
        I::I64x2AllTrue => (0xFD << 32) | 195,
        I::I64x2Bitmask => (0xFD << 32) | 196,
        I::I64x2ExtendLowI32x4S => (0xFD << 32) | 199,
        I::I64x2ExtendHighI32x4S => (0xFD << 32) | 200,
        I::I64x2ExtendLowI32x4U => (0xFD << 32) | 201,
        I::I64x2ExtendHighI32x4U => (0xFD << 32) | 202,
        I::I64x2Shl => (0xFD << 32) | 203,
        I::I64x2ShrS => (0xFD << 32) | 204,
        I::I64x2ShrU => (0xFD << 32) | 205,
        I::I64x2Add => (0xFD << 32) | 206,
        I::I64x2Sub => (0xFD << 32) | 209,
        I::I64x2Mul => (0xFD << 32) | 213,
        I::I64x2Eq => (0xFD << 32) | 214,
        I::I64x2Ne => (0xFD << 32) | 215,
        I::I64x2LtS => (0xFD << 32) | 216,
        I::I64x2GtS => (0xFD << 32) | 217,
        I::I64x2LeS => (0xFD << 32) | 218,
        I::I64x2GeS => (0xFD << 32) | 219,
        I::I64x2ExtmulLowI32x4S => (0xFD << 32) | 220,
        I::I64x2ExtmulHighI32x4S => (0xFD << 32) | 221,
        I::I64x2ExtmulLowI32x4U => (0xFD << 32) | 222,
        I::I64x2ExtmulHighI32x4U => (0xFD << 32) | 223,
        I::F32x4Abs => (0xFD << 32) | 224,
        I::F32x4Neg => (0xFD << 32) | 225,
        I::F32x4Sqrt => (0xFD << 32) | 227,
        I::F32x4Add => (0xFD << 32) | 228,
        I::F32x4Sub => (0xFD << 32) | 229,
        I::F32x4Mul => (0xFD << 32) | 230,
        I::F32x4Div => (0xFD << 32) | 231,
        I::F32x4Min => (0xFD << 32) | 232,
        I::F32x4Max => (0xFD << 32) | 233,
        I::F32x4PMin => (0xFD << 32) | 234,
        I::F32x4PMax => (0xFD << 32) | 235,
        I::F64x2Abs => (0xFD << 32) | 236,
        I::F64x2Neg => (0xFD << 32) | 237,
        I::F64x2Sqrt => (0xFD << 32) | 239,
        I::F64x2Add => (0xFD << 32) | 240,
        I::F64x2Sub => (0xFD << 32) | 241,
        I::F64x2Mul => (0xFD << 32) | 242,
        I::F64x2Div => (0xFD << 32) | 243,
        I::F64x2Min => (0xFD << 32) | 244,
        I::F64x2Max => (0xFD << 32) | 245,
        I::F64x2PMin => (0xFD << 32) | 246,
        I::F64x2PMax => (0xFD << 32) | 247,
        I::I32x4TruncSatF32x4S => (0xFD << 32) | 248,
        I::I32x4TruncSatF32x4U => (0xFD << 32) | 249,
        I::F32x4ConvertI32x4S => (0xFD << 32) | 250,
        I::F32x4ConvertI32x4U => (0xFD << 32) | 251,
        I::I32x4TruncSatF64x2SZero => (0xFD << 32) | 252,
        I::I32x4TruncSatF64x2UZero => (0xFD << 32) | 253,
        I::F64x2ConvertLowI32x4S => (0xFD << 32) | 254,
        I::F64x2ConvertLowI32x4U => (0xFD << 32) | 255,
        I::I8x16RelaxedSwizzle => (0xFD << 32) | 256,
        I::I32x4RelaxedTruncF32x4S => (0xFD << 32) | 257,
        I::I32x4RelaxedTruncF32x4U => (0xFD << 32) | 258,
        I::I32x4RelaxedTruncF64x2SZero => (0xFD << 32) | 259,
        I::I32x4RelaxedTruncF64x2UZero => (0xFD << 32) | 260,
        I::F32x4RelaxedMAdd => (0xFD << 32) | 261,
        I::F32x4RelaxedNMAdd => (0xFD << 32) | 262,
        I::F64x2RelaxedMAdd => (0xFD << 32) | 263,
        I::F64x2RelaxedNMAdd => (0xFD << 32) | 264,
        I::I8x16RelaxedLaneSelect => (0xFD << 32) | 265,
        I::I16x8RelaxedLaneSelect => (0xFD << 32) | 266,
        I::I32x4RelaxedLaneSelect => (0xFD << 32) | 267,
        I::I64x2RelaxedLaneSelect => (0xFD << 32) | 268,
        I::F32x4RelaxedMin => (0xFD << 32) | 269,
        I::F32x4RelaxedMax => (0xFD << 32) | 270,
        I::F64x2RelaxedMin => (0xFD << 32) | 271,
        I::F64x2RelaxedMax => (0xFD << 32) | 272,
        I::I16x8RelaxedQ15MulrS => (0xFD << 32) | 273,
        I::I16x8RelaxedDotSI8x16 => (0xFD << 32) | 274,
        I::I32x4RelaxedDotAddSI16x8 => (0xFD << 32) | 275,
        I::Throw(a) => { o.push(0x8); a.ser(o); return true; }
        I::Br(a) => { o.push(0xC); a.ser(o); return true; }
        I::BrIf(a) => { o.push(0xD); a.ser(o); return true; }
        I::Call(a) => { o.push(0x10); a.ser(o); return true; }
        I::CallIndirect(a, b) => { o.push(0x11); b.ser(o); a.ser(o); return true; }
        I::ReturnCall(a) => { o.push(0x12); a.ser(o); return true; }
        I::ReturnCallIndirect(a, b) => { o.push(0x13); b.ser(o); a.ser(o); return true; }
        I::CallRef(a) => { o.push(0x14); a.ser(o); return true; }
        I::ReturnCallRef(a) => { o.push(0x15); a.ser(o); return true; }
        I::LocalGet(a) => { o.push(0x20); a.ser(o); return true; }
        I::LocalSet(a) => { o.push(0x21); a.ser(o); return true; }
        I::LocalTee(a) => { o.push(0x22); a.ser(o); return true; }
        I::GlobalGet(a) => { o.push(0x23); a.ser(o); return true; }
        I::GlobalSet(a) => { o.push(0x24); a.ser(o); return true; }
        I::TableGet(a) => { o.push(0x25); a.ser(o); return true; }
        I::TableSet(a) => { o.push(0x26); a.ser(o); return true; }
        I::I32Load(a) => { o.push(0x28); a.ser(o); return true; }
        I::I64Load(a) => { o.push(0x29); a.ser(o); return true; }
        I::F32Load(a) => { o.push(0x2A); a.ser(o); return true; }
        I::F64Load(a) => { o.push(0x2B); a.ser(o); return true; }
        I::I32Load8s(a) => { o.push(0x2C); a.ser(o); return true; }
        I::I32Load8u(a) => { o.push(0x2D); a.ser(o); return true; }
        I::I32Load16s(a) => { o.push(0x2E); a.ser(o); return true; }
        I::I32Load16u(a) => { o.push(0x2F); a.ser(o); return true; }
        I::I64Load8s(a) => { o.push(0x30); a.ser(o); return true; }
        I::I64Load8u(a) => { o.push(0x31); a.ser(o); return true; }
        I::I64Load16s(a) => { o.push(0x32); a.ser(o); return true; }
        I::I64Load16u(a) => { o.push(0x33); a.ser(o); return true; }
        I::I64Load32s(a) => { o.push(0x34); a.ser(o); return true; }
        I::I64Load32u(a) => { o.push(0x35); a.ser(o); return true; }
        I::I32Store(a) => { o.push(0x36); a.ser(o); return true; }
        I::I64Store(a) => { o.push(0x37); a.ser(o); return true; }
        I::F32Store(a) => { o.push(0x38); a.ser(o); return true; }
        I::F64Store(a) => { o.push(0x39); a.ser(o); return true; }
        I::I32Store8(a) => { o.push(0x3A); a.ser(o); return true; }
        I::I32Store16(a) => { o.push(0x3B); a.ser(o); return true; }
        I::I64Store8(a) => { o.push(0x3C); a.ser(o); return true; }
        I::I64Store16(a) => { o.push(0x3D); a.ser(o); return true; }
        I::I64Store32(a) => { o.push(0x3E); a.ser(o); return true; }
        I::MemorySize(a) => { o.push(0x3F); a.ser(o); return true; }
        I::MemoryGrow(a) => { o.push(0x40); a.ser(o); return true; }
        I::RefFunc(a) => { o.push(0xD2); a.ser(o); return true; }
        I::BrOnNull(a) => { o.push(0xD5); a.ser(o); return true; }
        I::BrOnNonNull(a) => { o.push(0xD6); a.ser(o); return true; }
        I::StructNew(a) => { o.push((0xFB << 32) | 0); a.ser(o); return true; }
        I::StructNewDefault(a) => { o.push((0xFB << 32) | 1); a.ser(o); return true; }
        I::StructGet(a, b) => { o.push((0xFB << 32) | 2); a.ser(o); b.ser(o); return true; }
        I::StructGetS(a, b) => { o.push((0xFB << 32) | 3); a.ser(o); b.ser(o); return true; }
        I::StructGetU(a, b) => { o.push((0xFB << 32) | 4); a.ser(o); b.ser(o); return true; }
        I::StructSet(a, b) => { o.push((0xFB << 32) | 5); a.ser(o); b.ser(o); return true; }
        I::ArrayNew(a) => { o.push((0xFB << 32) | 6); a.ser(o); return true; }
        I::ArrayNewDefault(a) => { o.push((0xFB << 32) | 7); a.ser(o); return true; }
        I::ArrayNewFixed(a, b) => { o.push((0xFB << 32) | 8); a.ser(o); b.ser(o); return true; }
        I::ArrayNewData(a, b) => { o.push((0xFB << 32) | 9); a.ser(o); b.ser(o); return true; }
        I::ArrayNewElem(a, b) => { o.push((0xFB << 32) | 10); a.ser(o); b.ser(o); return true; }
        I::ArrayGet(a) => { o.push((0xFB << 32) | 11); a.ser(o); return true; }
        I::ArrayGetS(a) => { o.push((0xFB << 32) | 12); a.ser(o); return true; }
        I::ArrayGetU(a) => { o.push((0xFB << 32) | 13); a.ser(o); return true; }
        I::ArraySet(a) => { o.push((0xFB << 32) | 14); a.ser(o); return true; }
        I::ArrayFill(a) => { o.push((0xFB << 32) | 16); a.ser(o); return true; }
        I::ArrayCopy(a, b) => { o.push((0xFB << 32) | 17); a.ser(o); b.ser(o); return true; }
        I::ArrayInitData(a, b) => { o.push((0xFB << 32) | 18); a.ser(o); b.ser(o); return true; }
        I::ArrayInitElem(a, b) => { o.push((0xFB << 32) | 19); a.ser(o); b.ser(o); return true; }
        I::MemoryInit(a, b) => { o.push((0xFC << 32) | 8); b.ser(o); a.ser(o); return true; }
        I::DataDrop(a) => { o.push((0xFC << 32) | 9); a.ser(o); return true; }
        I::MemoryCopy(a, b) => { o.push((0xFC << 32) | 10); a.ser(o); b.ser(o); return true; }
        I::MemoryFill(a) => { o.push((0xFC << 32) | 11); a.ser(o); return true; }
        I::TableInit(a, b) => { o.push((0xFC << 32) | 12); b.ser(o); a.ser(o); return true; }
        I::ElemDrop(a) => { o.push((0xFC << 32) | 13); a.ser(o); return true; }
        I::TableCopy(a, b) => { o.push((0xFC << 32) | 14); a.ser(o); b.ser(o); return true; }
        I::TableGrow(a) => { o.push((0xFC << 32) | 15); a.ser(o); return true; }
        I::TableSize(a) => { o.push((0xFC << 32) | 16); a.ser(o); return true; }
        I::TableFill(a) => { o.push((0xFC << 32) | 17); a.ser(o); return true; }
        I::V128Load(a) => { o.push((0xFD << 32) | 0); a.ser(o); return true; }
        I::V128Load8x8S(a) => { o.push((0xFD << 32) | 1); a.ser(o); return true; }
        I::V128Load8x8U(a) => { o.push((0xFD << 32) | 2); a.ser(o); return true; }
        I::V128Load16x4S(a) => { o.push((0xFD << 32) | 3); a.ser(o); return true; }
        I::V128Load16x4U(a) => { o.push((0xFD << 32) | 4); a.ser(o); return true; }
        I::V128Load32x2S(a) => { o.push((0xFD << 32) | 5); a.ser(o); return true; }
        I::V128Load32x2U(a) => { o.push((0xFD << 32) | 6); a.ser(o); return true; }
        I::V128Load8Splat(a) => { o.push((0xFD << 32) | 7); a.ser(o); return true; }
        I::V128Load16Splat(a) => { o.push((0xFD << 32) | 8); a.ser(o); return true; }
        I::V128Load32Splat(a) => { o.push((0xFD << 32) | 9); a.ser(o); return true; }
        I::V128Load64Splat(a) => { o.push((0xFD << 32) | 10); a.ser(o); return true; }
        I::V128Store(a) => { o.push((0xFD << 32) | 11); a.ser(o); return true; }
        I::I8x16ExtractLaneS(a) => { o.push((0xFD << 32) | 21); a.ser(o); return true; }
        I::I8x16ExtractLaneU(a) => { o.push((0xFD << 32) | 22); a.ser(o); return true; }
        I::I8x16ReplaceLane(a) => { o.push((0xFD << 32) | 23); a.ser(o); return true; }
        I::I16x8ExtractLaneS(a) => { o.push((0xFD << 32) | 24); a.ser(o); return true; }
        I::I16x8ExtractLaneU(a) => { o.push((0xFD << 32) | 25); a.ser(o); return true; }
        I::I16x8ReplaceLane(a) => { o.push((0xFD << 32) | 26); a.ser(o); return true; }
        I::I32x4ExtractLane(a) => { o.push((0xFD << 32) | 27); a.ser(o); return true; }
        I::I32x4ReplaceLane(a) => { o.push((0xFD << 32) | 28); a.ser(o); return true; }
        I::I64x2ExtractLane(a) => { o.push((0xFD << 32) | 29); a.ser(o); return true; }
        I::I64x2ReplaceLane(a) => { o.push((0xFD << 32) | 30); a.ser(o); return true; }
        I::F32x4ExtractLane(a) => { o.push((0xFD << 32) | 31); a.ser(o); return true; }
        I::F32x4ReplaceLane(a) => { o.push((0xFD << 32) | 32); a.ser(o); return true; }
        I::F64x2ExtractLane(a) => { o.push((0xFD << 32) | 33); a.ser(o); return true; }
        I::F64x2ReplaceLane(a) => { o.push((0xFD << 32) | 34); a.ser(o); return true; }
        I::V128Load8Lane(a, b) => { o.push((0xFD << 32) | 84); a.ser(o); b.ser(o); return true; }
        I::V128Load16Lane(a, b) => { o.push((0xFD << 32) | 85); a.ser(o); b.ser(o); return true; }
        I::V128Load32Lane(a, b) => { o.push((0xFD << 32) | 86); a.ser(o); b.ser(o); return true; }
        I::V128Load64Lane(a, b) => { o.push((0xFD << 32) | 87); a.ser(o); b.ser(o); return true; }
        I::V128Store8Lane(a, b) => { o.push((0xFD << 32) | 88); a.ser(o); b.ser(o); return true; }
        I::V128Store16Lane(a, b) => { o.push((0xFD << 32) | 89); a.ser(o); b.ser(o); return true; }
        I::V128Store32Lane(a, b) => { o.push((0xFD << 32) | 90); a.ser(o); b.ser(o); return true; }
        I::V128Store64Lane(a, b) => { o.push((0xFD << 32) | 91); a.ser(o); b.ser(o); return true; }
        I::V128Load32Zero(a) => { o.push((0xFD << 32) | 92); a.ser(o); return true; }
        I::V128Load64Zero(a) => { o.push((0xFD << 32) | 93); a.ser(o); return true; }
        _ => return false,
    };
    o.push(op);
    true
}

#[derive(Clone, Copy, PartialEq)]
pub enum K { Ty, Fn, Tb, Me, Gl, El, Da, Lo, La, Tg, Fd, Fx, Ma, Ln }

/// Plain immediates of an opcode in encoding order; None if it is not assigned (or not plain).
#[inline(never)]
pub fn shape(op: u64) -> Option<&'static [K]> {
    use K::*;
    Some(match op {
        0x0..=0x1 | 0xA | 0xF | 0x1A | 0x45..=0xC4 | 0xD1 | 0xD3..=0xD4 | 0xFB0000000F | 0xFB0000001A..=0xFB0000001E | 0xFC00000000..=0xFC00000007 | 0xFD0000000E..=0xFD00000014 | 0xFD00000023..=0xFD00000053 | 0xFD0000005E..=0xFD00000099 | 0xFD0000009B..=0xFD000000A1 | 0xFD000000A3..=0xFD000000A4 | 0xFD000000A7..=0xFD000000AE | 0xFD000000B1 | 0xFD000000B5..=0xFD000000BA | 0xFD000000BC..=0xFD000000C1 | 0xFD000000C3..=0xFD000000C4 | 0xFD000000C7..=0xFD000000CE | 0xFD000000D1 | 0xFD000000D5..=0xFD000000E1 | 0xFD000000E3..=0xFD000000ED | 0xFD000000EF..=0xFD00000113 => &[],
        0x8 => &[Tg],
        0xC..=0xD | 0xD5..=0xD6 => &[La],
        0x10 | 0x12 | 0xD2 => &[Fn],
        0x11 | 0x13 => &[Ty, Tb],
        0x14..=0x15 | 0xFB00000000..=0xFB00000001 | 0xFB00000006..=0xFB00000007 | 0xFB0000000B..=0xFB0000000E | 0xFB00000010 => &[Ty],
        0x20..=0x22 => &[Lo],
        0x23..=0x24 => &[Gl],
        0x25..=0x26 | 0xFC0000000F..=0xFC00000011 => &[Tb],
        0x28..=0x3E | 0xFD00000000..=0xFD0000000B | 0xFD0000005C..=0xFD0000005D => &[Ma],
        0x3F..=0x40 | 0xFC0000000B => &[Me],
        0xFB00000002..=0xFB00000005 => &[Ty, Fd],
        0xFB00000008 => &[Ty, Fx],
        0xFB00000009 | 0xFB00000012 => &[Ty, Da],
        0xFB0000000A | 0xFB00000013 => &[Ty, El],
        0xFB00000011 => &[Ty, Ty],
        0xFC00000008 => &[Da, Me],
        0xFC00000009 => &[Da],
        0xFC0000000A => &[Me, Me],
        0xFC0000000C => &[El, Tb],
        0xFC0000000D => &[El],
        0xFC0000000E => &[Tb, Tb],
        0xFD00000015..=0xFD00000022 => &[Ln],
        0xFD00000054..=0xFD0000005B => &[Ma, Ln],
        _ => return None,
    })
}
