#!/usr/bin/env python3
"""Writes harness/src/ops.rs: the WebAssembly 3.0 opcode table, as (a) the serialisation of a
decoded Instruction to its opcode and immediates and (b) the immediate shape of every opcode.
The table below was written from the WebAssembly 3.0 binary grammar, not from the decoder."""
import os
simple = {}
def seq(base, names):
    for i, n in enumerate(names.split()):
        if n != '-':
            assert base + i not in simple
            simple[base + i] = n
IMM = {}  # opcode -> (variant, [imm kinds]); kinds in encoding order; 'order' of fields in variant
def imm(op, name, kinds, perm=None):
    assert op not in IMM and op not in simple
    IMM[op] = (name, kinds, perm or list(range(len(kinds))))
seq(0x00, 'Unreachable Nop'); seq(0x0A, 'ThrowRef'); seq(0x0F, 'Return'); seq(0x1A, 'Drop')
seq(0x45, 'I32Eqz I32Eq I32Ne I32LtS I32LtU I32GtS I32GtU I32LeS I32LeU I32GeS I32GeU '
          'I64Eqz I64Eq I64Ne I64LtS I64LtU I64GtS I64GtU I64LeS I64LeU I64GeS I64GeU '
          'F32Eq F32Ne F32Lt F32Gt F32Le F32Ge F64Eq F64Ne F64Lt F64Gt F64Le F64Ge '
          'I32Clz I32Ctz I32Popcnt I32Add I32Sub I32Mul I32DivS I32DivU I32RemS I32RemU I32And I32Or I32Xor I32Shl I32ShrS I32ShrU I32Rotl I32Rotr '
          'I64Clz I64Ctz I64Popcnt I64Add I64Sub I64Mul I64DivS I64DivU I64RemS I64RemU I64And I64Or I64Xor I64Shl I64ShrS I64ShrU I64Rotl I64Rotr '
          'F32Abs F32Neg F32Ceil F32Floor F32Trunc F32Nearest F32Sqrt F32Add F32Sub F32Mul F32Div F32Min F32Max F32Copysign '
          'F64Abs F64Neg F64Ceil F64Floor F64Trunc F64Nearest F64Sqrt F64Add F64Sub F64Mul F64Div F64Min F64Max F64Copysign '
          'I32WrapI64 I32TruncF32S I32TruncF32U I32TruncF64S I32TruncF64U I64ExtendI32S I64ExtendI32U I64TruncF32S I64TruncF32U I64TruncF64S I64TruncF64U '
          'F32ConvertI32S F32ConvertI32U F32ConvertI64S F32ConvertI64U F32DemoteF64 F64ConvertI32S F64ConvertI32U F64ConvertI64S F64ConvertI64U F64PromoteF32 '
          'I32ReinterpretF32 I64ReinterpretF64 F32ReinterpretI32 F64ReinterpretI64 I32Extend8S I32Extend16S I64Extend8S I64Extend16S I64Extend32S')
assert max(simple) == 0xC4
seq(0xD1, 'RefIsNull'); seq(0xD3, 'RefEq RefAsNonNull')
FC, FB, FD = 0xFC << 32, 0xFB << 32, 0xFD << 32
seq(FC, 'I32TruncSatF32S I32TruncSatF32U I32TruncSatF64S I32TruncSatF64U I64TruncSatF32S I64TruncSatF32U I64TruncSatF64S I64TruncSatF64U')
seq(FB + 15, 'ArrayLen'); seq(FB + 26, 'AnyConvertExtern ExternConvertAny RefI31 I31GetS I31GetU')
seq(FD + 14, 'I8x16Swizzle I8x16Splat I16x8Splat I32x4Splat I64x2Splat F32x4Splat F64x2Splat')
seq(FD + 35, 'I8x16Eq I8x16Ne I8x16LtS I8x16LtU I8x16GtS I8x16GtU I8x16LeS I8x16LeU I8x16GeS I8x16GeU '
             'I16x8Eq I16x8Ne I16x8LtS I16x8LtU I16x8GtS I16x8GtU I16x8LeS I16x8LeU I16x8GeS I16x8GeU '
             'I32x4Eq I32x4Ne I32x4LtS I32x4LtU I32x4GtS I32x4GtU I32x4LeS I32x4LeU I32x4GeS I32x4GeU '
             'F32x4Eq F32x4Ne F32x4Lt F32x4Gt F32x4Le F32x4Ge F64x2Eq F64x2Ne F64x2Lt F64x2Gt F64x2Le F64x2Ge '
             'V128Not V128And V128AndNot V128Or V128Xor V128Bitselect V128AnyTrue')
assert simple[FD + 83] == 'V128AnyTrue'
seq(FD + 94, 'F32x4DemoteF64x2Zero F64x2PromoteLowF32x4 '
             'I8x16Abs I8x16Neg I8x16Popcnt I8x16AllTrue I8x16Bitmask I8x16NarrowI16x8S I8x16NarrowI16x8U F32x4Ceil F32x4Floor F32x4Trunc F32x4Nearest '
             'I8x16Shl I8x16ShrS I8x16ShrU I8x16Add I8x16AddSatS I8x16AddSatU I8x16Sub I8x16SubSatS I8x16SubSatU F64x2Ceil F64x2Floor I8x16MinS I8x16MinU I8x16MaxS I8x16MaxU F64x2Trunc I8x16AvgrU '
             'I16x8ExtaddPairwiseI8x16S I16x8ExtaddPairwiseI8x16U I32x4ExtaddPairwiseI16x8S I32x4ExtaddPairwiseI16x8U')
assert simple[FD + 127] == 'I32x4ExtaddPairwiseI16x8U'
seq(FD + 128, 'I16x8Abs I16x8Neg I16x8Q15MulrSatS I16x8AllTrue I16x8Bitmask I16x8NarrowI32x4S I16x8NarrowI32x4U I16x8ExtendLowI8x16S I16x8ExtendHighI8x16S I16x8ExtendLowI8x16U I16x8ExtendHighI8x16U '
              'I16x8Shl I16x8ShrS I16x8ShrU I16x8Add I16x8AddSatS I16x8AddSatU I16x8Sub I16x8SubSatS I16x8SubSatU F64x2Nearest I16x8Mul I16x8MinS I16x8MinU I16x8MaxS I16x8MaxU - I16x8AvgrU '
              'I16x8ExtmulLowI8x16S I16x8ExtmulHighI8x16S I16x8ExtmulLowI8x16U I16x8ExtmulHighI8x16U')
seq(FD + 160, 'I32x4Abs I32x4Neg - I32x4AllTrue I32x4Bitmask - - I32x4ExtendLowI16x8S I32x4ExtendHighI16x8S I32x4ExtendLowI16x8U I32x4ExtendHighI16x8U I32x4Shl I32x4ShrS I32x4ShrU I32x4Add - - I32x4Sub - - - I32x4Mul '
              'I32x4MinS I32x4MinU I32x4MaxS I32x4MaxU I32x4DotI16x8S - I32x4ExtmulLowI16x8S I32x4ExtmulHighI16x8S I32x4ExtmulLowI16x8U I32x4ExtmulHighI16x8U')
seq(FD + 192, 'I64x2Abs I64x2Neg - I64x2AllTrue I64x2Bitmask - - I64x2ExtendLowI32x4S I64x2ExtendHighI32x4S I64x2ExtendLowI32x4U I64x2ExtendHighI32x4U I64x2Shl I64x2ShrS I64x2ShrU I64x2Add - - I64x2Sub - - - I64x2Mul '
              'I64x2Eq I64x2Ne I64x2LtS I64x2GtS I64x2LeS I64x2GeS I64x2ExtmulLowI32x4S I64x2ExtmulHighI32x4S I64x2ExtmulLowI32x4U I64x2ExtmulHighI32x4U')
seq(FD + 224, 'F32x4Abs F32x4Neg - F32x4Sqrt F32x4Add F32x4Sub F32x4Mul F32x4Div F32x4Min F32x4Max F32x4PMin F32x4PMax '
              'F64x2Abs F64x2Neg - F64x2Sqrt F64x2Add F64x2Sub F64x2Mul F64x2Div F64x2Min F64x2Max F64x2PMin F64x2PMax '
              'I32x4TruncSatF32x4S I32x4TruncSatF32x4U F32x4ConvertI32x4S F32x4ConvertI32x4U I32x4TruncSatF64x2SZero I32x4TruncSatF64x2UZero F64x2ConvertLowI32x4S F64x2ConvertLowI32x4U '
              'I8x16RelaxedSwizzle I32x4RelaxedTruncF32x4S I32x4RelaxedTruncF32x4U I32x4RelaxedTruncF64x2SZero I32x4RelaxedTruncF64x2UZero F32x4RelaxedMAdd F32x4RelaxedNMAdd F64x2RelaxedMAdd F64x2RelaxedNMAdd '
              'I8x16RelaxedLaneSelect I16x8RelaxedLaneSelect I32x4RelaxedLaneSelect I64x2RelaxedLaneSelect F32x4RelaxedMin F32x4RelaxedMax F64x2RelaxedMin F64x2RelaxedMax I16x8RelaxedQ15MulrS I16x8RelaxedDotSI8x16 I32x4RelaxedDotAddSI16x8')
assert simple[FD + 275] == 'I32x4RelaxedDotAddSI16x8' and simple[FD + 256] == 'I8x16RelaxedSwizzle'
# indices: Ty Fn Tb Me Gl El Da Lo La Tg; plain u32: Fd (field), Fx (fixed length); Ma memarg; Ln lane
imm(0x08, 'Throw', ['Tg']); imm(0x0C, 'Br', ['La']); imm(0x0D, 'BrIf', ['La']); imm(0x10, 'Call', ['Fn'])
imm(0x11, 'CallIndirect', ['Ty', 'Tb'], [1, 0]); imm(0x12, 'ReturnCall', ['Fn']); imm(0x13, 'ReturnCallIndirect', ['Ty', 'Tb'], [1, 0])
imm(0x14, 'CallRef', ['Ty']); imm(0x15, 'ReturnCallRef', ['Ty'])
for i, n in enumerate('LocalGet LocalSet LocalTee'.split()): imm(0x20 + i, n, ['Lo'])
for i, n in enumerate('GlobalGet GlobalSet'.split()): imm(0x23 + i, n, ['Gl'])
for i, n in enumerate('TableGet TableSet'.split()): imm(0x25 + i, n, ['Tb'])
for i, n in enumerate('I32Load I64Load F32Load F64Load I32Load8s I32Load8u I32Load16s I32Load16u I64Load8s I64Load8u I64Load16s I64Load16u I64Load32s I64Load32u I32Store I64Store F32Store F64Store I32Store8 I32Store16 I64Store8 I64Store16 I64Store32'.split()):
    imm(0x28 + i, n, ['Ma'])
imm(0x3F, 'MemorySize', ['Me']); imm(0x40, 'MemoryGrow', ['Me'])
imm(0xD2, 'RefFunc', ['Fn']); imm(0xD5, 'BrOnNull', ['La']); imm(0xD6, 'BrOnNonNull', ['La'])
imm(FC + 8, 'MemoryInit', ['Da', 'Me'], [1, 0]); imm(FC + 9, 'DataDrop', ['Da']); imm(FC + 10, 'MemoryCopy', ['Me', 'Me']); imm(FC + 11, 'MemoryFill', ['Me'])
imm(FC + 12, 'TableInit', ['El', 'Tb'], [1, 0]); imm(FC + 13, 'ElemDrop', ['El']); imm(FC + 14, 'TableCopy', ['Tb', 'Tb'])
for i, n in enumerate('TableGrow TableSize TableFill'.split()): imm(FC + 15 + i, n, ['Tb'])
for o, n, k in [(0, 'StructNew', 'Ty'), (1, 'StructNewDefault', 'Ty'), (2, 'StructGet', 'Ty Fd'), (3, 'StructGetS', 'Ty Fd'), (4, 'StructGetU', 'Ty Fd'), (5, 'StructSet', 'Ty Fd'),
                (6, 'ArrayNew', 'Ty'), (7, 'ArrayNewDefault', 'Ty'), (8, 'ArrayNewFixed', 'Ty Fx'), (9, 'ArrayNewData', 'Ty Da'), (10, 'ArrayNewElem', 'Ty El'), (11, 'ArrayGet', 'Ty'), (12, 'ArrayGetS', 'Ty'),
                (13, 'ArrayGetU', 'Ty'), (14, 'ArraySet', 'Ty'), (16, 'ArrayFill', 'Ty'), (17, 'ArrayCopy', 'Ty Ty'), (18, 'ArrayInitData', 'Ty Da'), (19, 'ArrayInitElem', 'Ty El')]:
    imm(FB + o, n, k.split())
for i, n in enumerate('V128Load V128Load8x8S V128Load8x8U V128Load16x4S V128Load16x4U V128Load32x2S V128Load32x2U V128Load8Splat V128Load16Splat V128Load32Splat V128Load64Splat V128Store'.split()):
    imm(FD + i, n, ['Ma'])
for i, n in enumerate('I8x16ExtractLaneS I8x16ExtractLaneU I8x16ReplaceLane I16x8ExtractLaneS I16x8ExtractLaneU I16x8ReplaceLane I32x4ExtractLane I32x4ReplaceLane I64x2ExtractLane I64x2ReplaceLane F32x4ExtractLane F32x4ReplaceLane F64x2ExtractLane F64x2ReplaceLane'.split()):
    imm(FD + 21 + i, n, ['Ln'])
for i, n in enumerate('V128Load8Lane V128Load16Lane V128Load32Lane V128Load64Lane V128Store8Lane V128Store16Lane V128Store32Lane V128Store64Lane'.split()):
    imm(FD + 84 + i, n, ['Ma', 'Ln'])
imm(FD + 92, 'V128Load32Zero', ['Ma']); imm(FD + 93, 'V128Load64Zero', ['Ma'])

def hx(o):
    return '0x%X' % o if o < 256 else '(0x%X << 32) | %d' % (o >> 32, o & 0xFFFFFFFF)
out = ['// Generated by tools/gen_ops.py; do not edit.', 'use crate::ser::Ser;', 'use wadec::core::Instruction as I;', '',
       '/// Pushes opcode and immediates (in encoding order) of an instruction with only plain immediates.',
       'pub fn ser_plain(i: &I, o: &mut Vec<u64>) -> bool {', '    let op: u64 = match i {']
for op, n in sorted(simple.items()):
    out.append('        I::%s => %s,' % (n, hx(op)))
for op, (n, kinds, perm) in sorted(IMM.items()):
    vs = ['a', 'b'][:len(kinds)]
    # perm[k] = position in the variant of the k-th encoded immediate
    body = ' '.join('%s.ser(o);' % vs[perm[k]] for k in range(len(kinds)))
    out.append('        I::%s(%s) => { o.push(%s); %s return true; }' % (n, ', '.join(vs), hx(op), body))
out += ['        _ => return false,', '    };', '    o.push(op);', '    true', '}', '']
out += ['#[derive(Clone, Copy, PartialEq)]', 'pub enum K { Ty, Fn, Tb, Me, Gl, El, Da, Lo, La, Tg, Fd, Fx, Ma, Ln }', '',
        '/// Plain immediates of an opcode in encoding order; None if it is not assigned (or not plain).',
        '#[inline(never)]', 'pub fn shape(op: u64) -> Option<&\'static [K]> {', '    use K::*;', '    Some(match op {']
groups = {}
for op, (n, kinds, perm) in IMM.items():
    groups.setdefault(tuple(kinds), []).append(op)
def ranges(l):
    l = sorted(l); r = []
    for x in l:
        if r and r[-1][1] == x - 1: r[-1][1] = x
        else: r.append([x, x])
    return r
def pat(l):
    # numeric literals only: patterns cannot hold expressions
    return ' | '.join('0x%X' % a if a == b else '0x%X..=0x%X' % (a, b) for a, b in ranges(l))
out.append('        %s => &[],' % pat(list(simple)))
for k, ops in sorted(groups.items(), key=lambda x: x[1][0]):
    out.append('        %s => &[%s],' % (pat(ops), ', '.join(k)))
out += ['        _ => return None,', '    })', '}', '']
if __name__ == '__main__':
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'src', 'ops.rs'), 'w').write('\n'.join(out))
    # cross-check against a decoder source given on the command line (informational)
    import sys, re
    if len(sys.argv) > 1:
        s = open(sys.argv[1]).read()
        names = {n: o for o, n in simple.items()}
        names.update({v[0]: o for o, v in IMM.items()})
        used = set(re.findall(r'Instruction::(\w+)', s))
        print('in decoder, not in table:', sorted(used - set(names)))
        print('in table, not in decoder:', sorted(set(names) - used))
        bad = 0
        for m in re.finditer(r'(?m)^\s+(0x[0-9A-Fa-f]+|\d+) => Instruction::(\w+)', s):
            o = int(m.group(1), 0); n = m.group(2)
            if n in names and names[n] & 0xFFFFFFFF != o: print('differs', m.group(0).strip(), hex(names[n])); bad += 1
        print('differences:', bad)
