"""Families of templates, one function per part of the binary format. Each returns a list of
(name, template); `deep` asks for the larger (thorough) family."""
from tpl import *

# ---------------------------------------------------------------- building blocks
VT1 = S((0x7B, 0x7F), (0x69, 0x74))            # a one-byte value type
REF1 = S((0x69, 0x74))                         # a one-byte reference type
REFX = S((0x63, 0x64))                         # marker of a two-part reference type
VT = [('s', ((0, 255),))]                      # any byte where a value type is due
END = [0x0B]
I32C = [0x41] + L(1) + END                     # i32.const c; end
NOP = [0x01]


def body(t):
    """a module with one function whose body is t (t includes the final end)"""
    code = [0] + t
    return mod(sec(3, [1, 0]), sec(10, [1] + uleb(size(code)) + code))


def gbody(t):
    """the same instructions as a global initialiser"""
    return mod(sec(6, [1, 0x7F, 0] + t))


def heap_shapes(deep):
    r = [('abs', S((0x69, 0x74)))]
    r += [('s33_' + n, t) for n, t in shapes(5)]
    return r


def holes(n, fill, at):
    """n copies of `fill`, those listed in `at` replaced by arbitrary bytes"""
    o, i = [], 0
    for k in sorted(at) + [n]:
        if k > n:
            continue
        o += R(fill, k - i) if k - i > 4 and len(fill) <= 6 else list(fill) * (k - i)
        if k < n:
            o += at[k]
        i = k + 1
    return o


# beyond the counts at which implementations are known to draw a line
BIG = (1001, 1025, 4097, 10001, 50001, 65537, 100001)


def big(f, deep, ns=BIG):
    """[(n, template)] where f(n, at) builds a list of n elements, at(elem) being the places for special ones"""
    o = []
    for n in ns:
        o.append((n, f(n, lambda *e: {0: e[0], n // 2: e[-1], n - 1: e[0]} if n < 1010 else {n - 1: e[0]})))
    return o


# ---------------------------------------------------------------- C01
def leb(deep):
    o = []

    def ctx(name, f, mx):
        for n, t in shapes(mx):
            o.append((f'{name}/{n}', f(t)))
    ins = {
        'local.get': [0x20], 'local.set': [0x21], 'local.tee': [0x22], 'global.get': [0x23], 'global.set': [0x24],
        'call': [0x10], 'return_call': [0x12], 'throw': [0x08], 'br': [0x0C], 'br_if': [0x0D], 'table.get': [0x25], 'table.set': [0x26],
        'memory.size': [0x3F], 'memory.grow': [0x40], 'ref.func': [0xD2], 'br_on_null': [0xD5], 'call_ref': [0x14],
        'memory.fill': [0xFC, 11], 'elem.drop': [0xFC, 13], 'struct.new': [0xFB, 0], 'array.get': [0xFB, 11],
    }
    for k, op in ins.items():
        ctx(k, lambda t, op=op: body(op + t + NOP + END), 5)
    ctx('i32.const', lambda t: body([0x41] + t + NOP + END), 5)
    ctx('i64.const', lambda t: body([0x42] + t + NOP + END), 10)
    ctx('g.i32.const', lambda t: gbody([0x41] + t + END), 5)
    ctx('g.i64.const', lambda t: gbody([0x42] + t + END), 10)
    ctx('ref.null', lambda t: body([0xD0] + t + NOP + END), 5)
    ctx('block', lambda t: body([0x02] + t + NOP + END + END), 5)
    ctx('loop', lambda t: body([0x03] + t + NOP + END + END), 5)
    ctx('if', lambda t: body([0x04] + t + NOP + END + END), 5)
    ctx('valtype', lambda t: mod(sec(1, [1, 0x60, 1, 0x63] + t + [0])), 5)
    ctx('supertype', lambda t: mod(sec(1, [1, 0x50, 1] + t + [0x60, 0, 0])), 5)
    ctx('fn', lambda t: mod(sec(3, [1] + t), sec(10, [1, 2, 0, 0x0B])), 5)
    ctx('mem.min', lambda t: mod(sec(5, [1, 0] + t)), 10)
    ctx('mem.max', lambda t: mod(sec(5, [1, 1, 0] + t)), 10)
    ctx('mem64.min', lambda t: mod(sec(5, [1, 4] + t)), 10)
    ctx('mem64.max', lambda t: mod(sec(5, [1, 5, 0] + t)), 10)
    ctx('tag', lambda t: mod(sec(13, [1, 0] + t)), 5)
    ctx('start', lambda t: mod(sec(8, t)), 5)
    ctx('export', lambda t: mod(sec(7, [1, 0, 0] + t)), 5)
    ctx('import.fn', lambda t: mod(sec(2, [1, 0, 0, 0] + t)), 5)
    ctx('import.mem', lambda t: mod(sec(2, [1, 0, 0, 2, 0] + t)), 10)
    ctx('elem.fn', lambda t: mod(sec(9, [1, 1, 0, 1] + t)), 5)
    ctx('elem.table', lambda t: mod(sec(9, [1, 2] + t + [0x41, 0, 0x0B, 0, 0])), 5)
    ctx('data.mem', lambda t: mod(sec(11, [1, 2] + t + [0x41, 0, 0x0B, 0])), 5)
    ctx('datacount', lambda t: mod(sec(12, t)), 5)
    # with that many data segments
    for k in (0, 1, 2, 3):
        ctx(f'datacount{k}', lambda t, k=k: mod(sec(12, t), sec(11, [k] + [1, 0] * k)), 5)
    ctx('memarg.off', lambda t: body([0x28, 2] + t + NOP + END), 10)
    ctx('memarg.align', lambda t: body([0x28] + t + [0x09, 0x01] + END), 5)
    ctx('memarg.mem', lambda t: body([0x28, 0x42] + t + [0x09] + END), 5)
    ctx('labels', lambda t: body([0x0E, 2, 1] + t + [3] + END), 5)
    # two at a time
    for n1, a in shapes(5):
        for n2, b in shapes(5):
            o.append((f'table.copy/{n1}.{n2}', body([0xFC, 14] + a + b + END)))
    for n1, a in shapes(10):
        for n2, b in shapes(10):
            if deep or n1 in ('1', '2', '9', '10', 'x') and n2 in ('1', '2', '9', '10', 'x'):
                o.append((f'mem.minmax/{n1}.{n2}', mod(sec(5, [1, 5] + a + b))))
    # as lengths and sizes: the value must be the count exactly
    for n, t in shapes(5):
        o.append((f'fn.count/{n}', mod(sec(3, t + [1, 2, 3]), sec(10, [3] + [2, 0, 0x0B] * 3))))
        o.append((f'sec.size/{n}', mod([5] + t + [1, 0, 1])))
        o.append((f'custom.size/{n}', mod([0] + t + [1, 0x61, 7, 8])))
        o.append((f'name.len/{n}', mod(sec(0, t + [0x61, 0x62, 0x63]))))
        o.append((f'data.len/{n}', mod(sec(11, [1, 1] + t + [9, 8, 7]))))
        o.append((f'code.size/{n}', mod(sec(3, [1, 0]), sec(10, [1] + t + [0, 1, 0x0B]))))
        o.append((f'subop.fc/{n}', body([0xFC] + t + [0, 0] + END)))
    # values that fall short of the end of their section
    for n in range(1, 6):
        o.append((f'cut/{n}', mod(sec(8, toolong(n)), sec(12, [0]))))
    for n in range(1, 11):
        o.append((f'cut64/{n}', mod(sec(5, [1, 0] + toolong(n)))))
    if deep:
        for k in range(1, 6):
            o.append((f'free.start/{k}', mod(sec(8, F(k)))))
            o.append((f'free.i32/{k}', body([0x41] + F(k) + END)))
        for k in range(1, 11):
            o.append((f'free.i64/{k}', gbody([0x42] + F(k) + END)))
            o.append((f'free.mem/{k}', mod(sec(5, [1, 0] + F(k)))))
    return o


# ---------------------------------------------------------------- C02
def types(deep):
    o = []

    def one(name, t):
        o.append((name, mod(sec(1, [1] + t))))
    for k in range(0, 6 if deep else 5):
        o.append((f'raw/{k}', mod(sec(1, F(k)))))
    for k in range(1, 7 if deep else 5):
        one(f'raw1/{k}', F(k))
    # array
    one('array', [0x5E] + VT + F(1))
    for n, t in shapes(5):
        one(f'array.ref/{n}', [0x5E] + REFX + t + F(1))
        one(f'field.ref/{n}', [0x5F, 2] + REFX + t + F(1) + S((0x77, 0x78)) + F(1))
        one(f'param.ref/{n}', [0x60, 1] + REFX + t + [1] + REFX + t)
        one(f'sub.count/{n}', [0x50] + t + [1, 2, 0x60, 0, 0])
        one(f'rec.count/{n}', [0x4E] + t + [0x60, 0, 0, 0x5F, 0])
        one(f'struct.count/{n}', [0x5F] + t + [0x7F, 0, 0x7E, 1])
        one(f'param.count/{n}', [0x60] + t + [0x7F, 0x7E, 0])
        one(f'result.count/{n}', [0x60, 0] + t + [0x7F, 0x7E])
        o.append((f'count/{n}', mod(sec(1, t + [0x60, 0, 0, 0x60, 0, 0]))))
        for m, u in shapes(5)[:3]:
            one(f'supers/{n}.{m}', S((0x4F, 0x50)) + [2] + t + u + [0x5E, 0x7F, 0])
    one('array.ref.abs', [0x5E] + REFX + S((0x69, 0x74)) + F(1))
    # struct with k fields
    for k in range(0, 4 if deep else 3):
        one(f'struct/{k}', [0x5F, k] + (VT + F(1)) * k)
        one(f'struct.pre/{k}', [0x5F, k] + (VT1 + S((0, 1))) * k)
    # functions
    for p in range(0, 4 if deep else 3):
        for r in range(0, 4 if deep else 3):
            one(f'func/{p}.{r}', [0x60, p] + VT1 * p + [r] + VT1 * r)
    one('func.any/2.1', [0x60, 2] + F(2) + [1] + F(1))
    one('func.any/1.2', [0x60, 1] + F(1) + [2] + F(2))
    # sub
    for c, cn in (([0x5E] + VT1 + S((0, 1)), 'array'), ([0x5F, 1] + VT1 + S((0, 1)), 'struct'), ([0x60, 1] + VT1 + [1] + VT1, 'func')):
        for k in range(0, 4):
            one(f'sub.{cn}/{k}', S((0x4F, 0x50)) + [k] + L(1) * k + c)
        one(f'sub.{cn}/n', S((0x4F, 0x50)) + S((0, 3)) + F(2) + c)
        one(f'rec1.{cn}', [0x4E, 1] + S((0x4F, 0x50)) + [1] + L(2) + c)
        one(f'any.{cn}', F(1) + c)
        one(f'sub.any.{cn}', S((0x4F, 0x50)) + [0] + F(1) + c)
    one('sub.in.sub', S((0x4F, 0x50)) + [0] + S((0x4E, 0x50)) + [0, 0x60, 0, 0])
    # rec groups
    for k in range(0, 4):
        one(f'rec/{k}', [0x4E, k] + (S((0x4E, 0x50)) + [0] + S((0x5E, 0x60)) + [0x7F] + S((0, 1))) * k)
        one(f'rec.func/{k}', [0x4E, k] + (S((0x4F, 0x50)) + [1] + L(1) + [0x60, 0, 1] + VT1) * k)
    o.append(('mix', mod(sec(1, [4] + [0x60, 1] + VT1 + [0] + [0x4E, 2] + [0x5F, 1, 0x77] + S((0, 1)) + S((0x4F, 0x50)) + [1] + L(1) + [0x5E] + VT1 + S((0, 1))
              + S((0x4F, 0x50)) + [2] + L(1) + L(1) + [0x60, 0, 0] + [0x5E] + S((0x77, 0x78)) + S((0, 1))))))
    o.append(('two', mod(sec(1, [2] + F(3) + [0x60, 0, 0]))))
    o.append(('two.b', mod(sec(1, [2, 0x60, 0, 0] + F(3)))))
    o.append(('three', mod(sec(1, [3] + (S((0x5E, 0x60)) + S(0, 0x7F) + S((0, 1))) * 3))))
    # every structure over a small alphabet
    al = S((0x00, 0x02), (0x4E, 0x50), (0x5E, 0x60))
    for k in range(1, 8 if deep else 6):
        one(f'small/{k}', al * k)
    al = S((0x00, 0x01), (0x60, 0x64), (0x70, 0x78))
    for k in range(1, 5 if deep else 4):
        one(f'small.f/{k}', [0x60, k] + al * k + [0])
        one(f'small.s/{k}', [0x5F, k] + al * (2 * k))
    # long lists
    for n in (127, 128, 129, 255, 256, 300):
        at = {0: VT1, n // 2: VT1, n - 1: VT1}
        one(f'long.params/{n}', [0x60] + uleb(n) + holes(n, [0x7F], at) + [1, 0x7E])
        one(f'long.results/{n}', [0x60, 0] + uleb(n) + holes(n, [0x7E], at))
        if n < 256 or deep:
            at = {0: VT1 + S((0, 1)), n - 1: VT1 + S((0, 1))}
            one(f'long.fields/{n}', [0x5F] + uleb(n) + holes(n, [0x7D, 1], at))
            at = {0: L(1), n - 1: L(1)}
            one(f'long.supers/{n}', [0x50] + uleb(n) + holes(n, [0x05], at) + [0x60, 0, 0])
            at = {0: [0x60, 1] + VT1 + [0], n - 1: [0x5E] + VT1 + S((0, 1))}
            o.append((f'long.types/{n}', mod(sec(1, uleb(n) + holes(n, [0x60, 0, 0], at)))))
            one(f'long.rec/{n}', [0x4E] + uleb(n) + holes(n, [0x60, 0, 0], at))
    def lst(pre, fill, elem, post=()):
        return lambda n, at: mod(sec(1, [1] + pre + uleb(n) + holes(n, fill, at(elem)) + list(post)))
    for nm, f in {
        'params': lst([0x60], [0x7F], VT1, [1, 0x7E]), 'results': lst([0x60, 0], [0x7E], VT1), 'fields': lst([0x5F], [0x7D, 1], VT1 + S((0, 1))),
        'supers': lst([0x50], [0x05], L(1), [0x60, 0, 0]), 'rec': lst([0x4E], [0x60, 0, 0], [0x5E] + VT1 + S((0, 1))), 'recref': lst([0x4E], [0x50, 1, 3, 0x60, 0, 0], S((0x4F, 0x50)) + [1] + L(1) + [0x60, 0, 0]),
    }.items():
        o += [(f'big.{nm}/{n}', t) for n, t in big(f, deep)]
    o += [(f'big.types/{n}', t) for n, t in big(lambda n, at: mod(sec(1, uleb(n) + holes(n, [0x60, 0, 0], at([0x60, 1] + VT1 + [0])))), deep)]
    return o


# ---------------------------------------------------------------- C03
def impexp(deep):
    o = []
    desc = {'fn': [0] + L(1), 'table': [1] + REF1 + [0] + L(1), 'mem': [2] + S(0, 1, 4) + L(1) + L(1), 'global': [3] + VT1 + S((0, 1)), 'tag': [4, 0] + L(1)}
    A = S((0x20, 0x7E))

    def imp(name, *ds):
        o.append(('imp.' + name, mod(sec(2, vec(*ds)))))
    for k in range(0, 6 if deep else 5):
        o.append((f'imp.raw/{k}', mod(sec(2, F(k)))))
        o.append((f'exp.raw/{k}', mod(sec(7, F(k)))))
    for k, d in desc.items():
        imp(k, [1] + A + [1] + A + d)
        imp(k + '.kind', [0, 0] + F(1) + d[1:])
        for k2, d2 in desc.items():
            imp(f'{k}.{k2}', [1] + A + [0] + d, [0, 1] + A + d2)
    imp('len', F(1) + [0x61, 0x62] + F(1) + [0x63, 0x64, 0, 5])
    for a in range(0, 4):
        for b in range(0, 4):
            imp(f'names/{a}.{b}', [a] + A * a + [b] + A * b + [0, 7])
    for n, t in shapes(5):
        imp(f'fn/{n}', [1, 0x61, 1, 0x62, 0] + t)
        imp(f'table.ref/{n}', [0, 0, 1] + REFX + t + [0, 1])
        imp(f'table.fn/{n}', [0, 0, 4, 0] + t)
        imp(f'global.ref/{n}', [0, 0, 3] + REFX + t + F(1))
        imp(f'mod.len/{n}', t + [0x61, 0x62, 1, 0x63, 0, 0])
        imp(f'item.len/{n}', [1, 0x61] + t + [0x61, 0x62, 0, 0])
        o.append((f'imp.count/{n}', mod(sec(2, t + [0, 0, 0, 0] * 2))))
        o.append((f'exp.count/{n}', mod(sec(7, t + [0, 0, 0] * 2))))
        o.append((f'exp.idx/{n}', mod(sec(7, [1, 1, 0x61] + F(1) + t))))
        o.append((f'exp.len/{n}', mod(sec(7, [1] + t + [0x61, 0x62, 0, 5]))))
    for n, t in shapes(10):
        imp(f'mem.min/{n}', [0, 0, 2] + S(0, 4) + t)
        imp(f'table.min/{n}', [0, 0, 1, 0x70] + S(0, 4) + t)
        imp(f'mem.max/{n}', [0, 0, 2] + S(1, 5) + [1] + t)
        imp(f'table.max/{n}', [0, 0, 1, 0x6F] + S(1, 5) + [1] + t)
    imp('limits', [0, 0, 2] + F(3))
    imp('table.limits', [0, 0, 1] + REF1 + F(3))
    imp('table.any', [0, 0, 1] + F(1) + [0, 0])
    imp('global.any', [0, 0, 3] + F(2))
    imp('tag.any', [0, 0, 4] + F(2))
    imp('desc.any', [0, 0] + F(3))
    imp('three', [1, 0x61, 1, 0x62] + [0] + L(1), [0, 0] + desc['global'], [2, 0x63, 0x64, 0] + desc['tag'])
    # exports
    for k in range(0, 4):
        o.append((f'exp.n/{k}', mod(sec(7, vec(*([[1] + A + S((0, 4)) + L(1)] * k))))))
        o.append((f'exp.name/{k}', mod(sec(7, vec([k] + A * k + F(1) + L(1), [1, 0x7A, 0, 9])))))
    o.append(('exp.kind', mod(sec(7, [1, 0] + F(1) + L(1)))))
    o.append(('exp.kind2', mod(sec(7, [1, 1, 0x61] + F(1) + L(2)))))
    o.append(('exp.dup', mod(sec(7, vec([1, 0x61] + F(1) + [0], [1, 0x61] + F(1) + L(1))))))
    # imports and exports together
    o.append(('both', mod(sec(2, vec([1] + A + [1] + A + desc['fn'], [0, 0] + desc['tag'])), sec(7, vec([1] + A + S((0, 4)) + L(1))))))
    # long lists and names
    for n in (127, 128, 255, 256) + ((300, 1000) if deep else ()):
        o.append((f'imp.long/{n}', mod(sec(2, uleb(n) + holes(n, [0, 0, 0, 1], {0: [0, 0] + F(1) + [0], n - 1: [0, 0] + desc['global']})))))
        o.append((f'exp.long/{n}', mod(sec(7, uleb(n) + holes(n, [0, 0, 1], {0: [0] + F(1) + L(1), n - 1: [0] + F(1) + L(1)})))))
        imp(f'longname/{n}', uleb(n) + A + R([0x62], n - 2) + A + uleb(n + 1) + R([0x63], n) + A + [0] + L(1))
        o.append((f'exp.longname/{n}', mod(sec(7, [1] + uleb(n) + A + R([0x62], n - 2) + A + F(1) + L(1)))))
    for n, t in big(lambda n, at: mod(sec(2, uleb(n) + holes(n, [0, 0, 0, 1], at([0, 0] + S(0, 0) + L(1), [0, 0] + desc['global'])))), deep):
        o.append((f'imp.big/{n}', t))
    for n, t in big(lambda n, at: mod(sec(7, uleb(n) + holes(n, [0, 0, 1], at([0] + S((0, 4)) + L(1))))), deep):
        o.append((f'exp.big/{n}', t))
    for n, t in big(lambda n, at: mod(sec(2, [1] + uleb(n) + A + R([0x62], n - 2) + A + uleb(n) + R([0x63], n) + [0] + L(1))), deep):
        o.append((f'imp.bigname/{n}', t))
    return o


# ---------------------------------------------------------------- C04
def names(deep):
    o = []
    C = S((0x80, 0xBF))
    wrap = {
        'exp': lambda n: mod(sec(7, [1] + n + [0, 5])),
        'mod': lambda n: mod(sec(2, [1] + n + [0, 0, 7])),
        'item': lambda n: mod(sec(2, [1, 0] + n + [0, 7])),
        'cust': lambda n: mod(sec(0, n + [1, 2])),
        'cust0': lambda n: mod(sec(0, n)),
    }
    for w, f in wrap.items():
        for k in range(0, 5 if deep else 4):
            o.append((f'{w}/raw{k}', f([k] + F(k))))
        # every lead byte with right and wrong continuations, at the end and before more text
        o.append((f'{w}/2', f([2] + S((0xC0, 0xDF)) + F(1))))
        o.append((f'{w}/3', f([3] + S((0xE0, 0xEF)) + F(1) + F(1))))
        o.append((f'{w}/4', f([4] + S((0xF0, 0xFF)) + F(1) + C + C)))
        o.append((f'{w}/4b', f([4] + S((0xF0, 0xF4)) + C + F(1) + C)))
        o.append((f'{w}/4c', f([4] + S((0xF0, 0xF4)) + C + C + F(1))))
        o.append((f'{w}/5', f([5] + S((0xF0, 0xF8)) + C + C + C + F(1))))
        # declared length against what is there
        o.append((f'{w}/len', f(F(1) + [0x61, 0x62, 0x63])))
        o.append((f'{w}/len2', f(L(2) + [0x61, 0x62, 0x63])))
        o.append((f'{w}/lenx', f(S((0, 5)) + S((0xC3, 0xC3)) + S((0xA9, 0xA9)) + S((0xE2, 0xE2)) + S((0x82, 0x82)) + S((0xAC, 0xAC)))))
        # embedded NUL, and around the sizes at which implementations switch algorithms
        o.append((f'{w}/nul', f([3] + S((0, 1)) + [0x61] + S((0, 1)))))
        for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129) + ((255, 256, 1000, 4096) if deep else ()):
            for p in sorted({0, n // 2, n - 2}):
                o.append((f'{w}/long{n}.{p}', f(uleb(n) + R([0x61], p) + F(2) + R([0x62], n - p - 2))))
        for n in (16, 130):
            for p in (0, n - 4):
                o.append((f'{w}/long4.{n}.{p}', f(uleb(n) + R([0x61], p) + S((0xEF, 0xF5)) + F(1) + C + S((0x7F, 0xC0)) + R([0x62], n - p - 4))))
    # two names: each keeps its own bytes
    o.append(('two', mod(sec(2, [1, 2] + F(2) + [2] + F(2) + [0, 7]))))
    o.append(('two.exp', mod(sec(7, [2, 1] + F(1) + [0, 5, 1] + F(1) + [1, 6]))))
    o.append(('two.cust', mod(sec(0, [1] + F(1)), sec(0, [1] + F(1) + [9]))))
    # two long names of the same length that differ in few places
    A = S((0x61, 0x7A))
    for n in (10, 12, 24, 70):
        for q, (i, j) in {'head': (0, 1), 'mid': (n // 2 - 1, n // 2), 'tail': (n - 2, n - 1), 'ends': (0, n - 1), 'last': (n - 3, n - 1)}.items():
            a = [n] + R([0x61], i) + A + R([0x61], j - i - 1) + A + R([0x61], n - j - 1)
            o.append((f'twin.exp/{n}.{q}', mod(sec(7, [2] + a + [0, 5] + a + [0, 6]))))
            o.append((f'twin.imp/{n}.{q}', mod(sec(2, [1] + a + a + [0, 7]))))
            if n in (12, 24):
                o.append((f'twin.imps/{n}.{q}', mod(sec(2, [2, 1, 0x6D] + a + [0, 7, 1, 0x6D] + a + [0, 7]))))
                o.append((f'twin.cust/{n}.{q}', mod(sec(0, a), sec(0, a + [1]))))
                o.append((f'twin.ie/{n}.{q}', mod(sec(2, [1, 1, 0x6D] + a + [0, 7]), sec(7, [1] + a + [0, 6]))))
    # a name that reaches past its section into the next
    for k in range(0, 7):
        o.append((f'past/{k}', mod([7, 5, 1, k, 0x61, 0, 5], sec(0, [1, 0x62]))))
        o.append((f'pastc/{k}', mod([0, 3, k, 0x61, 0x62], sec(0, [1, 0x62, 0x63]))))
    o.append(('past.s', mod([7, 5, 1] + F(1) + [0x61, 0, 5], sec(0, [3, 0x62, 0x63, 0x64, 0x65]))))
    o.append(('pastc.s', mod([0, 3] + F(1) + [0x61, 0x62], sec(0, [1, 0x62, 0x63]))))
    for n in BIG:
        for p in (0, n // 2, n - 4):
            o.append((f'exp/big{n}.{p}', wrap['exp'](uleb(n) + R([0x61], p) + S((0xC0, 0xF4)) + F(1) + C + S((0x7F, 0xC0)) + R([0x62], n - p - 4))))
        o.append((f'cust/big{n}', wrap['cust'](uleb(n) + F(1) + R([0x61], n - 2) + F(1))))
        o.append((f'mod/big{n}', wrap['mod'](uleb(n) + F(1) + R([0x61], n - 2) + F(1))))
        o.append((f'exp/bigmulti{n}', wrap['exp'](uleb(3 * n + 3) + S((0xE1, 0xEC)) + C + C + R([0xE2, 0x82, 0xAC], n))))
    # a sequence that straddles a power of two, and what is wrong there
    for b in (16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192) + ((16384, 32768, 65536) if deep else ()):
        for w in ('exp', 'cust', 'mod', 'item') if deep else ('exp', 'cust'):
            for k in (1, 2, 3):
                o.append((f'{w}/straddle{b}.{k}', wrap[w](uleb(b + 9) + R([0x61], b - k) + F(1) + S((0x61, 0x61), (0x80, 0xBF)) + S((0x61, 0x61), (0x80, 0xBF)) + S((0x61, 0x61), (0x80, 0xBF)) + R([0x62], 9 + k - 4))))
    return o


# ---------------------------------------------------------------- C05
def defs(deep):
    o = []

    def one(name, i, t):
        o.append((name, mod(sec(i, [1] + t))))
    secs = {'fn': 3, 'table': 4, 'mem': 5, 'tag': 13, 'global': 6}
    for n, i in secs.items():
        tail = lambda k: [sec(10, [k] + [2, 0, 0x0B] * k)] if n == 'fn' else []
        for k in range(0, 6 if deep else 5):
            o.append((f'{n}.raw/{k}', mod(sec(i, F(k)))))
        for k in range(1, 6 if deep else 5):
            one(f'{n}.raw1/{k}', i, F(k))
    for k in range(0, 5):
        o.append((f'start.raw/{k}', mod(sec(8, F(k)))))
    for n, t in shapes(5):
        o.append((f'start/{n}', mod(sec(8, t))))
        for k in (1, 2, 3):
            o.append((f'fn/{k}.{n}', mod(sec(3, [k] + t + [5] * (k - 1)), sec(10, [k] + [2, 0, 0x0B] * k))))
            o.append((f'fn.b/{k}.{n}', mod(sec(3, [k] + [5] * (k - 1) + t), sec(10, [k] + [2, 0, 0x0B] * k))))
        one(f'tag/{n}', 13, F(1) + t)
        one(f'table.ref/{n}', 4, REFX + t + [0, 1])
        one(f'table.init.ref/{n}', 4, [0x40, 0] + REFX + t + [0, 1, 0xD0] + S((0x69, 0x74)) + END)
        one(f'table.init.fn/{n}', 4, [0x40, 0x00, 0x70, 0, 1, 0xD2] + t + END)
        one(f'global.ref/{n}', 6, REFX + t + S((0, 1)) + [0xD0, 0x70, 0x0B])
        one(f'global.init/{n}', 6, VT1 + S((0, 1)) + [0x23] + t + END)
        for m, i in secs.items():
            e = {'fn': [3], 'table': [0x70, 0, 1], 'mem': [0, 1], 'tag': [0, 1], 'global': [0x7F, 0, 0x41, 0, 0x0B]}[m]
            o.append((f'{m}.count/{n}', mod(sec(i, t + e * 2), *([sec(10, [2] + [2, 0, 0x0B] * 2)] if m == 'fn' else []))))
    for n, t in shapes(10):
        one(f'mem.min/{n}', 5, S(0, 4) + t)
        one(f'mem.max/{n}', 5, S(1, 5) + [3] + t)
        one(f'mem.minmax/{n}', 5, S(1, 5) + t + [3])
        one(f'table.min/{n}', 4, REF1 + S(0, 4) + t)
        one(f'table.max/{n}', 4, REF1 + S(1, 5) + [3] + t)
        one(f'table.init.min/{n}', 4, [0x40, 0] + REF1 + S(0, 4) + t + [0xD0, 0x70, 0x0B])
    one('mem.flag', 5, F(1) + L(1))
    one('mem.flag2', 5, F(1) + L(1) + L(1))
    one('table.flag', 4, REF1 + F(1) + L(1))
    one('table.flag2', 4, REF1 + F(1) + L(1) + L(1))
    one('table.any', 4, F(1) + [0, 1])
    one('table.40', 4, [0x40] + F(1) + [0x70, 0, 1, 0xD0, 0x70, 0x0B])
    one('table.40.any', 4, [0x40, 0] + F(1) + [0, 1, 0xD0, 0x70, 0x0B])
    one('table.default', 4, REF1 + S(0, 1, 4) + L(1) + L(1))
    one('table.ref.abs', 4, REFX + S((0x69, 0x74)) + S(0, 4) + L(1))
    one('table.init.abs', 4, [0x40, 0] + REF1 + [0, 1, 0xD0] + S((0x69, 0x74)) + END)
    one('table.init.noend', 4, [0x40, 0] + REF1 + [0, 1, 0xD0] + S((0x69, 0x74)))
    one('table.init.empty', 4, [0x40, 0] + REF1 + [0, 1, 0x0B])
    one('table.init.two', 4, [0x40, 0] + REF1 + [0, 1] + [0x41] + L(1) + [0x1A] + [0xD2] + L(1) + END)
    o.append(('table.mixed', mod(sec(4, vec(REF1 + [0] + L(1), [0x40, 0] + REF1 + [1] + L(1) + L(1) + [0xD2] + L(1) + END, REFX + L(1) + [4] + L(1))))))
    o.append(('table.mixed2', mod(sec(4, vec([0x40, 0] + REF1 + [0] + L(1) + [0xD0] + REF1 + END, REF1 + [5] + L(1) + L(1))))))
    one('tag.attr', 13, F(1) + L(1))
    one('global', 6, F(1) + F(1) + I32C)
    one('global.init', 6, [0x7F, 0] + F(1) + L(1) + END)
    one('global.init2', 6, [0x7E] + S((0, 1)) + [0x42] + L(1) + [0x42] + L(1) + S(0x7C, 0x7D, 0x7E) + END)
    one('global.f32', 6, [0x7D, 0, 0x43] + F(4) + END)
    one('global.f64', 6, [0x7C, 1, 0x44] + F(8) + END)
    one('global.v128', 6, [0x7B, 0, 0xFD, 12] + F(16) + END)
    one('global.empty', 6, F(1) + S((0, 1)) + END)
    o.append(('mems', mod(sec(5, vec(S(0, 4) + L(1), S(1, 5) + L(1) + L(1), S(0, 4) + L(1))))))
    o.append(('tags', mod(sec(13, vec([0] + L(1), [0] + L(1), [0] + L(1))))))
    o.append(('globals', mod(sec(6, vec(VT1 + S((0, 1)) + I32C, REFX + L(1) + S((0, 1)) + [0xD2] + L(1) + END, VT1 + S((0, 1)) + END)))))
    o.append(('fns', mod(sec(3, [4] + L(1) * 4), sec(10, [4] + [2, 0, 0x0B] * 4))))
    # all of them together: no section's content ends up in another's place
    o.append(('all', mod(sec(3, [1] + L(1)), sec(4, vec(REF1 + [0] + L(1))), sec(5, vec([0] + L(1))), sec(13, vec([0] + L(1))), sec(6, vec(VT1 + S((0, 1)) + I32C)), sec(8, L(1)), sec(10, [1, 2, 0, 0x0B]))))
    for n in (127, 128, 200) + ((256, 1000) if deep else ()):
        o.append((f'long.fn/{n}', mod(sec(3, uleb(n) + holes(n, [5], {0: L(1), n // 2: L(1), n - 1: L(1)})), sec(10, uleb(n) + R([2, 0], 0) + [2, 0, 0x0B] * n))))
        o.append((f'long.mem/{n}', mod(sec(5, uleb(n) + holes(n, [0, 1], {0: S(0, 4) + L(1), n - 1: S(0, 4) + L(1)})))))
        o.append((f'long.table/{n}', mod(sec(4, uleb(n) + holes(n, [0x70, 0, 1], {0: REF1 + [0] + L(1), n - 1: REF1 + [0] + L(1)})))))
        o.append((f'long.tag/{n}', mod(sec(13, uleb(n) + holes(n, [0, 1], {0: [0] + L(1), n - 1: [0] + L(1)})))))
        o.append((f'long.global/{n}', mod(sec(6, uleb(n) + holes(n, [0x7F, 0, 0x41, 0, 0x0B], {0: VT1 + S((0, 1)) + I32C, n - 1: VT1 + S((0, 1)) + I32C})))))
    for nm, i, e, x in (('fn', 3, [5], L(1)), ('table', 4, [0x70, 0, 1], REF1 + [0] + L(1)), ('mem', 5, [0, 1], S(0, 4) + L(1)), ('tag', 13, [0, 1], [0] + L(1)), ('global', 6, [0x7F, 0, 0x41, 0, 0x0B], VT1 + S((0, 1)) + I32C)):
        for n, t in big(lambda n, at: mod(sec(i, uleb(n) + holes(n, e, at(x))), *([sec(10, uleb(n) + R([2, 0, 0x0B], n))] if i == 3 else [])), deep):
            o.append((f'big.{nm}/{n}', t))
    return o


# ---------------------------------------------------------------- C06
def elems(deep):
    o = []

    def one(name, t):
        o.append((name, mod(sec(9, [1] + t))))
    off = I32C
    for k in range(0, 5 if deep else 4):
        o.append((f'raw/{k}', mod(sec(9, F(k)))))
    for k in range(0, 5 if deep else 4):
        one(f'raw1/{k}', S((0, 8)) + F(k))
    for n, t in shapes(5):
        one(f'flag/{n}', t + [0x41, 0, 0x0B, 0])
        one(f'flag.f/{n}', t + [0, 1, 5])
        one(f'flag.e/{n}', t + [0x70, 0])
        one(f'2.table/{n}', [2] + t + off + [0, 1] + L(1))
        one(f'6.table/{n}', [6] + t + off + REF1 + [1, 0xD2] + L(1) + END)
        for f, p in ((0, off), (1, [0]), (2, [3] + off + [0]), (3, [0])):
            one(f'{f}.fn/{n}', [f] + p + [2] + t + [4])
            one(f'{f}.count/{n}', [f] + p + t + [4, 5])
        for f, p in ((4, off), (5, [0x70]), (6, [3] + off + [0x6F]), (7, [0x70])):
            one(f'{f}.fn/{n}', [f] + p + [1, 0xD2] + t + END)
            one(f'{f}.count/{n}', [f] + p + t + [0xD2, 4, 0x0B] * 2)
        for f, p in ((5, []), (6, [3] + off), (7, [])):
            one(f'{f}.ref/{n}', [f] + p + REFX + t + [1, 0xD0] + S((0x69, 0x74)) + END)
    for k in range(0, 4):
        fs = [k] + L(1) * k
        one(f'0/{k}', [0] + off + fs)
        one(f'1/{k}', [1] + F(1) + fs)
        one(f'2/{k}', [2] + L(1) + off + F(1) + fs)
        one(f'3/{k}', [3] + F(1) + fs)
        es = [k] + ([0xD2] + L(1) + END) * k
        one(f'4/{k}', [4] + off + es)
        one(f'5/{k}', [5] + F(1) + es)
        one(f'6/{k}', [6] + L(1) + off + F(1) + es)
        one(f'7/{k}', [7] + F(1) + es)
    # expressions: any instruction, empty, several
    for f, p in ((4, off), (5, REF1), (6, L(1) + off + REF1), (7, REF1)):
        one(f'{f}.expr', [f] + p + [1] + F(1) + L(1) + END)
        one(f'{f}.empty', [f] + p + [3, 0x0B, 0xD0] + S((0x69, 0x74)) + END + END)
        one(f'{f}.two', [f] + p + [2, 0x41] + L(1) + [0xFB, 0x1C] + END + [0x23] + L(1) + END)
        one(f'{f}.noend', [f] + p + [1, 0xD2] + L(1))
    for f, p, q in ((0, [], [1, 7]), (2, [1], [0, 1, 7]), (4, [], [1, 0xD2, 1, 0x0B]), (6, [1], [0x70, 1, 0xD2, 1, 0x0B])):
        one(f'{f}.off', [f] + p + F(1) + L(1) + END + q)
        one(f'{f}.off.empty', [f] + p + END + q)
        one(f'{f}.off.two', [f] + p + [0x41] + L(1) + [0x23] + L(1) + [0x6A] + END + q)
        one(f'{f}.off.nest', [f] + p + [0x02, 0x40, 0x41] + L(1) + END + END + q)
    # several segments
    seg = {0: [0] + off + [1] + L(1), 1: [1, 0, 1] + L(1), 2: [2] + L(1) + off + [0, 1] + L(1), 3: [3, 0, 1] + L(1), 4: [4] + off + [1, 0xD2] + L(1) + END,
           5: [5] + REF1 + [1, 0xD2] + L(1) + END, 6: [6] + L(1) + off + REF1 + [1, 0xD2] + L(1) + END, 7: [7] + REF1 + [1, 0xD2] + L(1) + END}
    for a in seg:
        for b in seg:
            o.append((f'pair/{a}.{b}', mod(sec(9, vec(seg[a], seg[b])))))
    o.append(('three', mod(sec(9, vec(seg[2], seg[7], seg[0])))))
    o.append(('eight', mod(sec(9, vec(*seg.values())))))
    o.append(('flags2', mod(sec(9, vec(S((0, 8)) + [0, 1, 7], S((0, 8)) + [0, 1, 7])))))
    for n in (127, 128, 200) + ((256, 300, 1000) if deep else ()):
        at = {0: L(1), n // 2: L(1), n - 1: L(1)}
        for f, p in ((0, off), (1, [0]), (2, [3] + off + [0]), (3, [0])):
            one(f'long.{f}/{n}', [f] + p + uleb(n) + holes(n, [4], at))
        at = {0: [0xD2] + L(1) + END, n - 1: [0xD2] + L(1) + END}
        for f, p in ((4, off), (5, [0x70]), (6, [3] + off + [0x70]), (7, [0x70])):
            one(f'long.{f}/{n}', [f] + p + uleb(n) + holes(n, [0xD2, 4, 0x0B], at))
        o.append((f'long.seg/{n}', mod(sec(9, uleb(n) + holes(n, [1, 0, 1, 4], {0: seg[2], n - 1: seg[7]})))))
    for f, p in ((0, off), (1, [0]), (2, [3] + off + [0]), (3, [0])):
        o += [(f'big.{f}/{n}', t) for n, t in big(lambda n, at: mod(sec(9, [1, f] + p + uleb(n) + holes(n, [4], at(L(1))))), deep)]
    for f, p in ((4, off), (5, [0x70]), (6, [3] + off + [0x70]), (7, [0x70])):
        o += [(f'big.{f}/{n}', t) for n, t in big(lambda n, at: mod(sec(9, [1, f] + p + uleb(n) + holes(n, [0xD2, 4, 0x0B], at([0xD2] + L(1) + END)))), deep)]
    o += [(f'big.seg/{n}', t) for n, t in big(lambda n, at: mod(sec(9, uleb(n) + holes(n, [1, 0, 1, 4], at(seg[2], seg[7])))), deep)]
    return o


# ---------------------------------------------------------------- C07
def datas(deep):
    o = []
    off = I32C

    def one(name, t):
        o.append((name, mod(sec(11, [1] + t))))
    for k in range(0, 5 if deep else 4):
        o.append((f'raw/{k}', mod(sec(11, F(k)))))
        one(f'raw1/{k}', S((0, 3)) + F(k))
    for n, t in shapes(5):
        one(f'flag.a/{n}', t + [0x41, 0, 0x0B, 1, 7])
        one(f'flag.p/{n}', t + [1, 7])
        one(f'flag.m/{n}', t + [0, 0x41, 0, 0x0B, 1, 7])
        one(f'2.mem/{n}', [2] + t + off + [2] + F(2))
        for f, p in ((0, off), (1, []), (2, [3] + off)):
            one(f'{f}.len/{n}', [f] + p + t + F(2))
        o.append((f'count/{n}', mod(sec(11, t + [1, 1, 5] * 2))))
        o.append((f'dc/{n}', mod(sec(12, t), sec(11, [1, 1, 0]))))
        o.append((f'dc.only/{n}', mod(sec(12, t))))
    for k in range(0, 5 if not deep else 9):
        for f, p in ((0, off), (1, []), (2, L(1) + off)):
            one(f'{f}/{k}', [f] + p + [k] + F(k))
    for f, p in ((0, []), (2, [1])):
        one(f'{f}.off', [f] + p + F(1) + L(1) + END + [1, 7])
        one(f'{f}.off.v', [f] + p + F(1) + L(1) + END + [1] + F(1))
        one(f'{f}.off.empty', [f] + p + END + [1] + F(1))
        one(f'{f}.off.two', [f] + p + [0x41] + L(1) + [0x23] + L(1) + [0x6A] + END + [1] + F(1))
        one(f'{f}.off.i64', [f] + p + [0x42] + L(3) + END + [1] + F(1))
        one(f'{f}.off.nest', [f] + p + [0x02, 0x40, 0x41] + L(1) + END + END + [1] + F(1))
    seg = {0: [0] + off + [1] + F(1), 1: [1, 1] + F(1), 2: [2] + L(1) + off + [1] + F(1)}
    for a in seg:
        for b in seg:
            o.append((f'pair/{a}.{b}', mod(sec(11, vec(seg[a], seg[b])))))
            for c in seg:
                o.append((f'dc3/{a}.{b}.{c}', mod(sec(12, L(1)), sec(11, vec(seg[a], seg[b], seg[c])))))
    # two segments of the same length that differ in few places
    for n in (8, 12, 40, 100, 300):
        for q, (i, j) in {'head': (0, 1), 'mid': (n // 2 - 1, n // 2), 'tail': (n - 2, n - 1), 'ends': (0, n - 1)}.items():
            a = uleb(n) + R([0x61], i) + F(1) + R([0x61], j - i - 1) + F(1) + R([0x61], n - j - 1)
            o.append((f'twin/{n}.{q}', mod(sec(11, [2, 1] + a + [1] + a))))
            o.append((f'twin.a/{n}.{q}', mod(sec(11, [2, 0] + off + a + [0] + off + a))))
    o.append(('dc0', mod(sec(12, F(1)), sec(11, [0]))))
    for k in range(0, 4):
        o.append((f'dc.raw/{k}', mod(sec(12, F(k)), sec(11, [1, 1, 0]))))
    for n in (127, 128, 255, 256, 1000) + ((4096, 65536, 70000) if deep else (8192,)):
        for f, p in ((0, off), (1, []), (2, [3] + off)):
            if n < 1000 or f != 0:
                one(f'long.{f}/{n}', [f] + p + uleb(n) + F(1) + R([0x5A], n - 2) + F(1))
    for n in (128, 300) + ((1000,) if deep else ()):
        o.append((f'long.seg/{n}', mod(sec(11, uleb(n) + holes(n, [1, 1, 5], {0: seg[2], n // 2: seg[0], n - 1: [1, 1] + F(1)})))))
    o += [(f'big.seg/{n}', t) for n, t in big(lambda n, at: mod(sec(11, uleb(n) + holes(n, [1, 1, 5], at(seg[2], seg[0])))), deep)]
    o += [(f'big.dc/{n}', t) for n, t in big(lambda n, at: mod(sec(12, uleb(n)), sec(11, uleb(n) + holes(n, [1, 0], at([1, 1] + F(1))))), deep)]
    for n in BIG + (1000001,):
        for f, p in ((0, off), (1, [])):
            one(f'big.{f}/{n}', [f] + p + uleb(n) + F(1) + R([0x5A], n // 2) + F(1) + R([0], n - n // 2 - 3) + F(1))
    return o


# ---------------------------------------------------------------- C08
def code(deep):
    o = []

    def ent(*es):
        n = len(es)
        t = uleb(n)
        for e in es:
            t = t + uleb(size(e)) + e
        return mod(sec(3, uleb(n) + [0] * n), sec(10, t))
    # raw entries: size, locals and body arbitrary
    for k in range(0, 5 if deep else 4):
        o.append((f'raw/{k}', mod(sec(3, [1, 0]), sec(10, F(k)))))
        o.append((f'raw1/{k}', mod(sec(3, [1, 0]), sec(10, [1] + F(1) + [0] + F(k)))))
        o.append((f'locals.raw/{k}', ent(S((0, 2)) + F(k) + END)) if k < 4 else ('locals.raw/4', ent([1] + L(1) + F(k - 1) + END)))
    # declared size against actual
    for n, t in shapes(5):
        o.append((f'size/{n}', mod(sec(3, [1, 0]), sec(10, [1] + t + [1, 2, 0x7F, 0x01, 0x0B]))))
        o.append((f'size.two/{n}', mod(sec(3, [2, 0, 0]), sec(10, [2] + t + [0, 0x01, 0x0B, 3, 0, 0x01, 0x0B]))))
        o.append((f'count/{n}', mod(sec(3, [2, 0, 0]), sec(10, t + [2, 0, 0x0B, 2, 0, 0x0B]))))
        o.append((f'nlocals/{n}', ent(t + [1, 0x7F, 2, 0x7E] + END)))
        o.append((f'local.ref/{n}', ent([1, 2] + REFX + t + END)))
    o.append(('size.next', mod(sec(3, [2, 0, 0]), sec(10, [2] + F(1) + [0, 0x41, 0, 0x0B] + F(1) + [0, 0x0B, 0x0B, 0x0B]))))
    o.append(('size.past', mod(sec(3, [1, 0]), sec(10, [1] + F(1) + [0, 0x01, 0x0B]), sec(0, [1, 0x61, 0x0B, 0x0B]))))
    o.append(('size.body', mod(sec(3, [1, 0]), sec(10, [1] + S((0, 9)) + [0] + S(1, 0x0B, 0x1A) * 4 + [0x0B]))))
    # locals
    for k in range(0, 4):
        o.append((f'locals/{k}', ent([k] + (S((0, 3)) + VT1) * k + END)))
        o.append((f'locals.body/{k}', ent([k] + (S((0, 2)) + VT1) * k + [0x20] + L(1) + END)))
    o.append(('locals.any', ent([1] + S((0, 3)) + F(1) + END)))
    o.append(('locals.any2', ent([2, 1, 0x7F] + S((0, 3)) + F(1) + END)))
    o.append(('locals.max', ent([2] + S((0, 2)) + [0x7F] + L(1, ((0, 2),)) + [0x7E] + END)))
    for n in (127, 128, 255, 256, 1000) + ((65535, 65536, 70000) if deep else ()):
        o.append((f'locals.run/{n}', ent([2] + uleb(n) + VT1 + [1] + VT1 + [0x20] + L(1) + END)))
        o.append((f'locals.run.b/{n}', ent([3, 1] + VT1 + uleb(n) + [0x7E, 0] + VT1 + END)))
    for n in (127, 128, 200):
        o.append((f'locals.groups/{n}', ent(uleb(n) + holes(n, [1, 0x7F], {0: S((0, 2)) + S((0x7E, 0x7F)), n // 2: S((0, 2)) + VT1, n - 1: S((0, 2)) + S((0x6F, 0x70))}) + END)))
    # the limit of 2^32-1: counts near the limit, only the rejected side (see `budget` below)
    MAX = [0xFF, 0xFF, 0xFF, 0xFF, 0x0F]
    # bodies pair with functions
    for k in (1, 2, 3):
        o.append((f'pair/{k}', ent(*[[1] + S((0, 2)) + VT1 + [0x41] + L(1) + END] * k)))
    o.append(('pair.types', mod(sec(3, [3] + L(1) * 3), sec(10, [3] + ([6, 1, 1] + VT1 + [0x41] + L(1) + END) * 3))))
    o.append(('pair.import', mod(sec(2, [1, 0, 0, 0, 0]), sec(3, [2] + L(1) * 2), sec(10, [2] + ([6, 1, 1] + VT1 + [0x41] + L(1) + END) * 2))))
    for n in (128, 200) + ((300,) if deep else ()):
        o.append((f'long/{n}', ent(*[[1] + S((0, 2)) + VT1 + [0x41] + L(1) + END if i in (0, n - 1) else [0, 0x0B] for i in range(n)])))
        o.append((f'longbody/{n}', ent([0] + R([0x01], n) + [0x41] + L(1) + END)))
    for n in (5000,) + ((70000,) if deep else ()):
        o.append((f'hugebody/{n}', ent([0] + R([0x01], n) + [0x41] + L(1) + END)))
    for n, t in big(lambda n, at: mod(sec(3, uleb(n) + R([0], n)), sec(10, uleb(n) + holes(n, [2, 0, 0x0B], at([6, 1, 1] + VT1 + [0x41] + L(1) + END)))), deep):
        o.append((f'big/{n}', t))
    for n in BIG:
        o.append((f'big.run/{n}', ent([2] + uleb(n) + VT1 + [1] + VT1 + END)))
        o.append((f'big.groups/{n}', ent(uleb(n) + holes(n, [1, 0x7F], {0: S((0, 2)) + [0x7E], n - 1: S((0, 2)) + VT1} if n < 1010 else {n - 1: S((0, 2)) + VT1}) + END)))
        o.append((f'big.body/{n}', ent([1, 1] + VT1 + R([0x01], n) + [0x41] + L(1) + END)))
        o.append((f'big.body2/{n}', mod(sec(3, [2, 0, 0]), sec(10, [2] + uleb(n + 4) + [0] + R([0x01], n) + S(0x01, 0x0F) + S(0x01, 0x0B) + S(0x0B, 0x00) + [2, 0, 0x0B]))))
    # an entry that stops short of its size by the length of the entry behind it, a round number in binary
    for n in (256, 65536):
        e = [0] + R([1], n - len(uleb(n - 3)) - 3) + S((0, 1)) + [0x0B]
        e = uleb(size(e)) + e
        o.append((f'swallow/{n}', mod(sec(3, [2, 0, 0]), sec(10, [2] + uleb(2 + size(e)) + [0, 0x0B] + e))))
    return o


def locals_limit(deep):
    """Totals around 2^32-1. Nothing is expanded because the body is malformed or the total is too large:
    the expansion itself (up to 2^32 locals) is outside the bound."""
    o = []

    def ent(t):
        return mod(sec(3, [1, 0]), sec(10, [1] + uleb(size(t)) + t))
    MAX = [0xFF, 0xFF, 0xFF, 0xFF, 0x0F]
    o.append(('max+1', ent([2] + MAX + VT1 + S((0, 3)) + [0x7E, 0x06])))       # 0x06: no such opcode
    o.append(('1+max', ent([2] + S((0, 3)) + VT1 + MAX + [0x7E, 0x06])))
    for a in range(1, 6):
        for b in range(1, 6):
            o.append((f'sum/{a}.{b}', ent([2] + L(a) + [0x7F] + L(b) + [0x7E, 0x06])))
    for a in (1, 5):
        for b in (1, 5):
            for c in (1, 5):
                o.append((f'sum/{a}.{b}.{c}', ent([3] + L(a) + [0x7F] + L(b) + [0x7E] + L(c) + [0x7D, 0x06])))
    half = [0x80, 0x80, 0x80, 0x80, 0x08]
    o.append(('half', ent([2] + half + [0x7F] + L(5) + [0x7E, 0x06])))
    o.append(('quarters', ent([4] + ([0x80, 0x80, 0x80, 0x80, 0x04] + [0x7F]) * 3 + L(5) + [0x7E, 0x06])))
    o.append(('wrap', ent([3] + MAX + [0x7F] + MAX + [0x7F] + L(5) + [0x7E, 0x06])))
    o.append(('types', ent([2] + MAX + F(1) + L(5) + [0x7E, 0x06])))
    for n in (16, 17, 20):
        o.append((f'many/{n}', ent([n] + ([0x80, 0x80, 0x80, 0x80, 0x01] + [0x7F]) * (n - 1) + L(5) + [0x7E, 0x06])))
    return o


# ---------------------------------------------------------------- instructions
def _table():
    import os, sys
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tools'))
    import gen_ops
    return gen_ops


GO = _table()
PLAIN = set(GO.simple)
IMM = {k: v[1] for k, v in GO.IMM.items()}


def opb(op):
    return [op] if op < 256 else [op >> 32] + uleb(op & 0xFFFFFFFF)


def both(o, name, t):
    """as a function body and as a constant expression"""
    o.append((name, body(t)))
    o.append((name + '.g', gbody(t)))


# ---------------------------------------------------------------- C09
def plain(deep):
    o = []
    # no immediates: every one-byte opcode, then end or anything
    both(o, 'op', F(1) + END)
    both(o, 'op.nop', F(1) + NOP + END)
    both(o, 'op.x', F(2))
    o.append(('op.op', body(F(2) + END)))
    o.append(('op.0.op', body(F(1) + [0] + F(1) + END)))
    both(o, 'op.3', F(1) + S((0, 0x7F)) + S((0, 0x7F)) + END)
    # 0xFC: every sub-opcode in every length
    for n, t in shapes(5):
        both(o, f'fc/{n}', [0xFC] + t + END)
        o.append((f'fc.nop/{n}', body([0xFC] + t + NOP + END)))
        o.append((f'fc.1/{n}', body([0xFC] + t + L(1) + END)))
        o.append((f'fc.2/{n}', body([0xFC] + t + L(1) + L(1) + END)))
    o.append(('fc.raw', body([0xFC] + F(3))))
    for op, ks in IMM.items():
        if op >= 256 and op >> 32 != 0xFC or 'Ma' in ks:
            continue
        nm = '%x' % op
        for n, t in shapes(5):
            if len(ks) == 1:
                o.append((f'{nm}/{n}', body(opb(op) + t + END)))
            else:
                for m, u in (shapes(5) if deep else (('1', L(1)), ('5', L(5)), ('x', toolong(5)))):
                    o.append((f'{nm}/{n}.{m}', body(opb(op) + t + u + END)))
        # immediates must not be confused with the instructions that follow
        o.append((f'{nm}.seq', body(opb(op) + L(1) * len(ks) + opb(op) + L(2) * len(ks) + END)))
    for n, t in shapes(5):
        both(o, f'i32/{n}', [0x41] + t + END)
        o.append((f'br_table.n/{n}', body([0x0E] + t + [1, 2, 3] + END)))
        o.append((f'br_table.l/{n}', body([0x0E, 2, 3] + t + L(1) + END)))
        o.append((f'br_table.d/{n}', body([0x0E, 1, 3] + t + END)))
        o.append((f'select.n/{n}', body([0x1C] + t + [0x7F, 0x7E] + END)))
        o.append((f'select.r/{n}', body([0x1C, 1] + REFX + t + END)))
    for n, t in shapes(10):
        both(o, f'i64/{n}', [0x42] + t + END)
    both(o, 'f32', [0x43] + F(4) + END)
    both(o, 'f64', [0x44] + F(8) + END)
    o.append(('f32x2', body([0x43] + F(4) + [0x43] + F(4) + [0x92] + END)))
    o.append(('f32.short', body([0x43] + F(3))))
    o.append(('f64.short', body([0x44] + F(7))))
    o.append(('consts', body([0x41] + L(2) + [0x42] + L(3) + [0x43] + F(4) + [0x44] + F(8) + END)))
    for k in range(0, 5):
        o.append((f'br_table/{k}', body([0x0E, k] + L(1) * k + L(1) + END)))
        o.append((f'br_table.raw/{k}', body([0x0E] + F(k) + END)) if k < 4 else ('br_table.raw/4', body([0x0E] + S((0, 4)) + S((0, 0x7F)) * 3 + END)))
        o.append((f'select/{k}', body([0x1C, k] + VT1 * k + END)))
    o.append(('select.any', body([0x1C, 1] + F(1) + END)))
    o.append(('select.any2', body([0x1C, 2, 0x7F] + F(1) + END)))
    o.append(('select.0', body([0x1B] + F(1) + END)))
    for n in (127, 128, 200, 256) + ((1000, 5000) if deep else ()):
        o.append((f'br_table.long/{n}', body([0x0E] + uleb(n) + holes(n, [2], {0: L(1), n // 2: L(1), n - 1: L(1)}) + L(1) + END)))
        o.append((f'select.long/{n}', body([0x1C] + uleb(n) + holes(n, [0x7F], {0: VT1, n - 1: VT1}) + END)))
    # sequences
    A = S((0x45, 0x48), 0x1A, (0x00, 0x01))
    for k in range(2, 4):
        o.append((f'seq/{k}', body(S(0x01, 0x1A, (0x6A, 0x70)) * k + END)))
    for n in (100, 1000) + ((10000,) if deep else ()):
        o.append((f'longseq/{n}', body(R([0x01], n) + A + R([0x41, 0x05], n) + A + END)))
    # arbitrary tails
    for k in range(1, 5 if deep else 4):
        o.append((f'raw/{k}', body(F(k))))
    for n in BIG:
        o.append((f'br_table.big/{n}', body([0x0E] + uleb(n) + holes(n, [2], {0: L(1), n // 2: L(1), n - 1: L(1)}) + L(1) + END)))
        o.append((f'select.big/{n}', body([0x1C] + uleb(n) + holes(n, [0x7F], {0: VT1, n - 1: VT1}) + END)))
    # two or three instructions with immediates of their own
    I1 = S((0x20, 0x26), (0x0C, 0x0D), 0x10)
    o.append(('seq.2', body(I1 + L(1) + I1 + L(1) + END)))
    o.append(('seq.2b', body(S((0x20, 0x24), 0x41) + L(1) + S(0x1A, (0x45, 0x5A), (0xA7, 0xC4)) + S((0x20, 0x24), 0x41) + L(1) + END)))
    o.append(('seq.3', body(S((0x20, 0x22), 0x41) + S((0, 3)) + S((0x20, 0x22), 0x41) + S((0, 3)) + S((0x20, 0x22), 0x1A, 0x6A) + S((0, 3)) + END)))
    o.append(('seq.c', body([0x41] + L(1) + [0x41] + L(1) + S((0x6A, 0x78)) + END)))
    o.append(('seq.ret', body(S(0x00, 0x0F) + S((0x00, 0x01), 0x0F, 0x1A) + F(1) + END)))
    o.append(('seq.br', body([0x0C] + L(1) + F(1) + S((0, 0x7F)) + END)))
    o.append(('seq.cmp', body([0x45] + S(0x0C, 0x0D, 0x04) + [0x40] + S((0x01, 0x0B)) + [0x0B, 0x0B])))
    # each where code can be: branches of control instructions, later bodies, initialisers, offsets
    W = {'b': ([0x02, 0x40], [0x0B]), 'l': ([0x03, 0x40], [0x0B]), 't': ([0x04, 0x40], [0x0B]), 'e': ([0x04, 0x40, 0x05], [0x0B]), 'te': ([0x04, 0x40], [0x05, 0x0B]), 'c': ([0x1F, 0x40, 0], [0x0B]),
         'll': ([0x03, 0x40, 0x03, 0x40], [0x0B, 0x0B]), 'ee': ([0x04, 0x40, 0x05, 0x04, 0x40, 0x05], [0x0B, 0x0B]), 'cb': ([0x1F, 0x40, 1, 2, 0, 0x02, 0x40], [0x0B, 0x0B])}
    INS = {'op': F(1), 'op.1': F(1) + L(1), 'op.2': S((0x08, 0x26), (0x3F, 0x44), (0xD0, 0xD6)) + S((0, 3)) + L(1), 'fc': [0xFC] + S((0, 17)) + L(1), 'fc.2': [0xFC] + S((8, 17)) + S((0, 3)) + S((0, 3)), 'fb.1': [0xFB] + S((0, 30)) + L(1),
           'fb.2': [0xFB] + S((0, 27)) + S((0, 3)) + S((0, 3)), 'fd': [0xFD] + S((0x0E, 0xFF)) + S((0, 2)), 'ld': S((0x28, 0x3E)) + S((0, 0x7F)) + L(1), 'bt': [0x0E, 1] + L(1) + L(1), 'f64': [0x44] + F(8), 'sel': [0x1C, 1] + VT1}
    for wn, (a, b) in W.items():
        for n, t in INS.items():
            if len(wn) == 1 or deep or n in ('op', 'op.1', 'fc.2', 'fb.2', 'ld'):
                o.append((f'in.{wn}.{n}', body(a + t + b + END)))
    for n, t in INS.items():
        c = [0] + t + END
        o.append((f'in.fn2.{n}', mod(sec(3, [2, 0, 0]), sec(10, [2, 2, 0, 0x0B] + uleb(size(c)) + c))))
        o.append((f'in.fn1.{n}', mod(sec(3, [2, 0, 0]), sec(10, [2] + uleb(size(c)) + c + [2, 0, 0x0B]))))
        o.append((f'in.elem.{n}', mod(sec(9, [1, 5, 0x70, 1] + t + END))))
        o.append((f'in.elem.off.{n}', mod(sec(9, [1, 0] + t + END + [1, 7]))))
        o.append((f'in.data.off.{n}', mod(sec(11, [1, 0] + t + END + [1, 7]))))
        o.append((f'in.table.{n}', mod(sec(4, [1, 0x40, 0, 0x70, 0, 1] + t + END))))
        o.append((f'in.loc.{n}', mod(sec(3, [1, 0]), sec(10, [1] + uleb(size(c) + 2) + [1, 1, 0x7F] + c[1:]))))
    return o


# ---------------------------------------------------------------- C10
def memory(deep):
    o = []
    LS = S((0x28, 0x3E))
    a0, a1 = S((0, 0x3F)), S((0x40, 0x7F))
    vops = [i for i in IMM if i >> 32 == 0xFD and 'Ma' in IMM[i]]
    for n, t in shapes(10):
        o.append((f'off/{n}', body(LS + a0 + t + END)))
        for m, u in shapes(5):
            if m in ('1', '5', 'x') or n in ('1', '10'):
                o.append((f'mem.off/{m}.{n}', body(LS + a1 + u + t + END)))
    for n, t in shapes(5):
        # alignment fields of every length: up to 63, 64..127, above, over-long
        o.append((f'align/{n}', body(LS + t + L(1) + END)))
        o.append((f'align.mem/{n}', body(LS + t + L(1) + L(1) + END)))
        o.append((f'align.long/{n}', body([0x29] + t + L(2) + [0x81, 0x82, 0x01] + END)))
    for k in range(0, 5):
        o.append((f'raw/{k}', body(S(0x28, 0x36, 0x3E) + F(k))) if k < 4 else ('raw/4', body([0x2B] + F(4))))
    for op in sorted(vops):
        nm = '%d' % (op & 0xFFFFFFFF)
        ln = F(1) if 'Ln' in IMM[op] else []
        o.append((f'v{nm}', body(opb(op) + a0 + L(1) + ln + END)))
        o.append((f'v{nm}.off10', body(opb(op) + a0 + L(10) + ln + END)))
        o.append((f'v{nm}.mem', body(opb(op) + a1 + L(1) + L(1) + ln + END)))
        o.append((f'v{nm}.mem5', body(opb(op) + a1 + L(5) + L(10) + ln + END)))
        o.append((f'v{nm}.any', body(opb(op) + F(1) + L(1) + ln + END)))
        o.append((f'v{nm}.align2', body(opb(op) + L(2) + L(1) + ln + END)))
        o.append((f'v{nm}.seq', body(opb(op) + a0 + L(1) + ln + opb(op) + a1 + L(1) + L(2) + ln + END)))
        if ln:
            o.append((f'v{nm}.short', body(opb(op) + a0 + L(1))))
            for n, t in shapes(10):
                o.append((f'v{nm}.off/{n}', body(opb(op) + a0 + t + ln + END)))
    for n, t in shapes(5):
        for op, nm in (([0x3F], 'size'), ([0x40], 'grow'), ([0xFC, 11], 'fill')):
            o.append((f'{nm}/{n}', body(op + t + END)))
        o.append((f'copy/{n}', body([0xFC, 10] + t + L(1) + END)))
        o.append((f'copy.b/{n}', body([0xFC, 10] + L(1) + t + END)))
        o.append((f'init/{n}', mod(sec(3, [1, 0]), sec(12, [0]), sec(10, [1] + uleb(5 + len(t)) + [0, 0xFC, 8] + t + L(1) + END))))
    o.append(('two', body(LS + a0 + L(1) + LS + a1 + L(1) + L(1) + END)))
    o.append(('global', gbody(LS + a1 + L(2) + L(3) + END)))
    o.append(('nested', body([0x02, 0x40] + LS + a1 + L(1) + L(2) + END + LS + a0 + L(1) + END)))
    return o


# ---------------------------------------------------------------- C11
def vector(deep):
    o = []
    for n, t in shapes(5):
        both(o, f'sub/{n}', [0xFD] + t + END)
        o.append((f'sub.nop/{n}', body([0xFD] + t + NOP + END)))
        o.append((f'sub.b/{n}', body([0xFD] + t + F(1) + END)))
        o.append((f'sub.2/{n}', body([0xFD] + t + S((0, 0x3F)) + L(1) + END)))
        # immediates of 16 bytes behind sub-opcodes of every length
        for s in (12, 13):
            if n != 'x':
                o.append((f'{s}/{n}', body([0xFD] + uleb_pad(s, int(n)) + F(16) + END)))
        for s in (21, 27, 34):
            if n != 'x':
                o.append((f'lane{s}/{n}', body([0xFD] + uleb_pad(s, int(n)) + F(1) + END)))
    for s in range(12, 35):
        imm_ = F(16) if s < 14 else F(1) if s > 20 else []
        o.append((f'op{s}', body([0xFD, s] + imm_ + END)))
        o.append((f'op{s}.seq', body([0xFD, s] + imm_ + [0xFD, s] + imm_ + END)))
        o.append((f'op{s}.short', body([0xFD, s] + imm_[:-1])) if imm_ else (f'op{s}.g', gbody([0xFD, s] + END)))
    # every sub-opcode by its number, twice in a row (nothing is dropped or repeated)
    o.append(('pair.lo', body([0xFD] + S((14, 20), (35, 83), (94, 127)) + [0xFD] + S((14, 20), (35, 83), (94, 127)) + END)))
    o.append(('pair.hi', body([0xFD] + S((0x80, 0xFF)) + [0x01] + [0xFD] + S((0x80, 0xFF)) + S((1, 2)) + END)))
    for k in range(1, 5 if deep else 4):
        o.append((f'raw/{k}', body([0xFD] + F(k))))
    o.append(('const.mix', body([0xFD, 12] + F(16) + [0xFD, 13] + F(16) + [0xFD, 21] + F(1) + END)))
    o.append(('const.g', gbody([0xFD, 12] + F(16) + END)))
    o.append(('shuffle.seq', body([0xFD, 13] + F(16) + [0xFD, 13] + F(16) + END)))
    return o


# ---------------------------------------------------------------- C12
def gc(deep):
    o = []
    HT = S((0x69, 0x74))
    for n, t in shapes(5):
        both(o, f'sub/{n}', [0xFB] + t + END)
        o.append((f'sub.nop/{n}', body([0xFB] + t + NOP + END)))
        o.append((f'sub.1/{n}', body([0xFB] + t + L(1) + END)))
        o.append((f'sub.2/{n}', body([0xFB] + t + L(1) + L(1) + END)))
        o.append((f'sub.3/{n}', body([0xFB] + t + F(1) + L(1) + HT + HT + END)))
        both(o, f'ref.null/{n}', [0xD0] + t + END)
        both(o, f'ref.func/{n}', [0xD2] + t + END)
        o.append((f'br_on_null/{n}', body(S((0xD5, 0xD6)) + t + END)))
        o.append((f'test/{n}', body([0xFB] + S((20, 23)) + t + END)))
        o.append((f'cast.l/{n}', body([0xFB] + S((24, 25)) + F(1) + t + HT + HT + END)))
        o.append((f'cast.1/{n}', body([0xFB] + S((24, 25)) + S((0, 4)) + L(1) + t + HT + END)))
        o.append((f'cast.2/{n}', body([0xFB] + S((24, 25)) + S((0, 4)) + L(1) + HT + t + END)))
        for m, u in shapes(5):
            o.append((f'cast.12/{n}.{m}', body([0xFB] + S((24, 25)) + S((0, 3)) + [1] + t + u + END)))
        o.append((f'cast.pad/{n}', body([0xFB] + (uleb_pad(24, int(n)) if n != 'x' else toolong(5)) + F(1) + L(1) + HT + HT + END)))
    o.append(('ref.null.any', body([0xD0] + F(1) + END)))
    o.append(('ref.null.any2', body([0xD0] + F(2) + END)))
    o.append(('ref.null.seq', body([0xD0] + F(1) + NOP + [0xD0] + HT + END)))
    o.append(('test.any', body([0xFB] + S((20, 23)) + F(1) + END)))
    o.append(('test.any2', body([0xFB] + S((20, 23)) + F(2) + END)))
    o.append(('cast.any', body([0xFB] + S((24, 25)) + F(1) + L(1) + F(1) + F(1) + END)))
    o.append(('cast.flags', body([0xFB] + S((24, 25)) + F(1) + L(1) + HT + HT + [0xFB] + S((24, 25)) + F(1) + L(1) + HT + HT + END)))
    o.append(('simple', body(S((0xD1, 0xD4)) + S((0xD1, 0xD4)) + END)))
    o.append(('d0-d7', body(S((0xCF, 0xD8)) + F(1) + END)))
    for op, ks in IMM.items():
        if op >> 32 != 0xFB and op not in (0xD2, 0xD5, 0xD6):
            continue
        nm = '%x' % op
        dc = [sec(12, [0])] if 'Da' in ks else []

        def b(t):
            c = [0] + t
            return mod(sec(3, [1, 0]), *dc, sec(10, [1] + uleb(size(c)) + c))
        for n, t in shapes(5):
            if len(ks) == 1:
                o.append((f'{nm}/{n}', b(opb(op) + t + END)))
            else:
                for m, u in (shapes(5) if deep else (('1', L(1)), ('5', L(5)), ('x', toolong(5)))):
                    o.append((f'{nm}/{n}.{m}', b(opb(op) + t + u + END)))
        o.append((f'{nm}.seq', b(opb(op) + L(1) * len(ks) + opb(op) + L(2) * len(ks) + END)))
    o.append(('pair', body([0xFB] + S(15, (26, 30)) + [0xFB] + S(15, (26, 30)) + END)))
    for k in range(1, 5 if deep else 4):
        o.append((f'raw/{k}', body([0xFB] + F(k))))
        o.append((f'raw.d/{k}', body(S((0xD0, 0xD6)) + F(k))))
    return o


# ---------------------------------------------------------------- C13
def control(deep):
    o = []
    BLK = S((0x02, 0x04))
    # block types
    for n, t in shapes(5):
        both(o, f'bt/{n}', BLK + t + END + END)
        o.append((f'bt.try/{n}', body([0x1F] + t + [0] + END + END)))
        o.append((f'bt.ref/{n}', body(BLK + REFX + t + END + END)))
        o.append((f'bt.nop/{n}', body(BLK + t + NOP + END + NOP + END)))
        for c in range(4):
            x = L(1) if c < 2 else []
            o.append((f'catch{c}.l/{n}', body([0x1F, 0x40, 1, c] + x + t + END + END)))
            if c < 2:
                o.append((f'catch{c}.t/{n}', body([0x1F, 0x40, 1, c] + t + L(1) + END + END)))
        o.append((f'catch.n/{n}', body([0x1F, 0x40] + t + [2, 5, 3, 6] + END + END)))
    both(o, 'bt.any', BLK + F(1) + END + END)
    o.append(('bt.any2', body(BLK + F(2) + END + END)))
    o.append(('bt.try.any', body([0x1F] + F(1) + [0] + END + END)))
    o.append(('bt.40', body(BLK + [0x40] + F(1) + END + END)))
    o.append(('bt.all', body(S((0x02, 0x04), 0x1F) + F(1) + [0x00] + END + END)))
    # else
    for a in range(0, 3):
        for b in range(0, 3):
            N = S(0x01, 0x1A)
            o.append((f'if/{a}.{b}', body([0x04, 0x40] + N * a + [0x05] + N * b + END + N + END)))
            o.append((f'if.x/{a}.{b}', body([0x04, 0x40] + N * a + S(0x05, 0x0B) + N * b + S(0x05, 0x0B) + N + S(0x05, 0x0B))))
    o.append(('else.bt', body([0x04] + VT1 + [0x41] + L(1) + [0x05, 0x41] + L(1) + END + END)))
    o.append(('else.else', body([0x04, 0x40, 0x05] + NOP + S(0x05, 0x01) + NOP + END + END)))
    o.append(('else.stray', body(S(0x02, 0x03, 0x04) + [0x40] + NOP + S(0x05, 0x01) + NOP + END + END)))
    o.append(('else.try', body([0x1F, 0x40, 0] + NOP + S(0x05, 0x01) + NOP + END + END)))
    o.append(('else.top', body(NOP + S(0x05, 0x01) + NOP + END)))
    o.append(('else.top.g', gbody(NOP + S(0x05, 0x01) + NOP + END)))
    for outer in (0x02, 0x03, 0x04, 0x1F):
        oh = [outer, 0x40] + ([0] if outer == 0x1F else [])
        o.append((f'else.in.{outer:x}', body([0x04, 0x40] + oh + NOP + S(0x05, 0x0B) + NOP + S(0x05, 0x0B) + NOP + S(0x05, 0x0B) + NOP + END)))
    # catch clauses
    for k in range(0, 4):
        o.append((f'catch/{k}', body([0x1F, 0x40, k] + (S((0, 1)) + L(1) + L(1)) * k + END + END)))
        o.append((f'catch.all/{k}', body([0x1F, 0x40, k] + (S((2, 3)) + L(1)) * k + END + END)))
        o.append((f'catch.mix/{k}', body([0x1F, 0x40, k] + (S((0, 3)) + S((0, 3)) + S((0, 3))) * k + NOP + END + END)))
    o.append(('catch.any', body([0x1F, 0x40, 1] + F(1) + L(1) + L(1) + END + END)))
    o.append(('catch.any2', body([0x1F, 0x40, 2, 2, 0] + F(1) + L(1) + L(1) + END + END)))
    o.append(('catch.body', body([0x1F] + VT1 + [1, 0, 1, 2] + [0x41] + L(1) + [0x1A] + END + [0x41] + L(1) + END)))
    for n in (127, 128, 200):
        o.append((f'catch.long/{n}', body([0x1F, 0x40] + uleb(n) + holes(n, [2, 1], {0: S((0, 1)) + L(1) + L(1), n - 1: S((2, 3)) + L(1)}) + END + END)))
    # all shapes of nesting: every string over openers, else and end
    al = S((0x01, 0x05), 0x0B, 0x40)
    for k in range(1, 10 if deep else 8):
        o.append((f'tree/{k}', body(al * k)))
        if k < 8:
            o.append((f'tree.g/{k}', gbody(al * k)))
    # openers with the empty block type attached: deeper trees
    for shape in ('bb', 'bi', 'ib', 'ii', 'li', 'ti', 'it', 'iii', 'bli', 'iti', 'iiii' if deep else 'ibi'):
        t = []
        for c in shape:
            t += {'b': [0x02, 0x40], 'l': [0x03, 0x40], 'i': [0x04, 0x40], 't': [0x1F, 0x40, 0]}[c]
        k = 2 * len(shape) + 2 if len(shape) < 4 or deep else 8
        o.append((f'deep.{shape}', body(t + S(0x01, 0x05, 0x0B) * k)))
    # where things are attached
    o.append(('attach', body([0x41] + L(1) + [0x02, 0x40, 0x41] + L(1) + [0x04, 0x40, 0x41] + L(1) + [0x05, 0x41] + L(1) + END + [0x41] + L(1) + END + [0x41] + L(1) + END)))
    o.append(('attach.loop', body([0x03, 0x40, 0x41] + L(1) + [0x03] + VT1 + [0x41] + L(1) + END + [0x41] + L(1) + END + [0x41] + L(1) + END)))
    o.append(('attach.if', body([0x04] + VT1 + [0x04] + VT1 + [0x41] + L(1) + [0x05, 0x41] + L(1) + END + [0x05, 0x04] + VT1 + [0x41] + L(1) + [0x05, 0x41] + L(1) + END + END + END)))
    o.append(('attach.try', body([0x1F] + VT1 + [1, 0, 5, 6, 0x02] + VT1 + [0x41] + L(1) + END + [0x1F, 0x40, 0, 0x41] + L(1) + END + END + END)))
    o.append(('sibling', body([0x02, 0x40, 0x41] + L(1) + END + [0x03, 0x40, 0x41] + L(1) + END + [0x04, 0x40, 0x41] + L(1) + END + END)))
    # unterminated
    for k in range(0, 4):
        o.append((f'open/{k}', body([0x02, 0x40] * k + S(0x0B, 0x01) * (k + 1))))
    for d in (10, 50, 100) + ((300, 500) if deep else ()):
        # deep nesting; what is special sits at the bottom
        for op in (0x02, 0x03, 0x04):
            o.append((f'nest{op}/{d}', body([op, 0x40] * d + S(0x01, 0x05, 0x06) + [0x41] + L(1) + R([0x0B], d) + END)))
        o.append((f'nest.else/{d}', body([0x04, 0x40, 0x01, 0x05] * d + S(0x01, 0x05) + R([0x0B], d) + END)))
        o.append((f'nest.try/{d}', body([0x1F, 0x40, 1, 2, 0] * d + S(0x01, 0x05) + R([0x0B], d) + END)))
        o.append((f'nest.end/{d}', body([0x02, 0x40] * d + R([0x0B], d - 1) + S(0x0B, 0x01, 0x05) + S(0x0B, 0x01, 0x05))))
    for n in BIG:
        o.append((f'catch.big/{n}', body([0x1F, 0x40] + uleb(n) + holes(n, [2, 1], {0: S((0, 1)) + L(1) + L(1), n - 1: S((2, 3)) + L(1)}) + END + END)))
    for d in (512, 1000, 1001, 1500, 2500, 5001, 10001):
        for nm, op in (('b', [0x02, 0x40]), ('l', [0x03, 0x40]), ('i', [0x04, 0x40]), ('e', [0x04, 0x40, 0x05]), ('t', [0x1F, 0x40, 0])):
            o.append((f'nest.big.{nm}/{d}', body(R(op, d) + S(0x01, 0x05, 0x06) + R([0x0B], d) + END)))
    for n in (129, 257, 300, 1001, 10001, 65537):
        # long arms and bodies
        for nm, a, z in (('then', [0x04, 0x40], []), ('else', [0x04, 0x40, 0x05], []), ('both', [0x04, 0x40] + R([0x01], n) + [0x05], []), ('block', [0x02, 0x40], []), ('loop', [0x03, 0x7F], []), ('try', [0x1F, 0x40, 1, 2, 0], []), ('in', [0x04, 0x40, 0x02, 0x40], [0x0B])):
            o.append((f'arm.{nm}/{n}', body(a + R([0x01], n) + z + S(0x01, 0x05, 0x0B) + S(0x01, 0x05, 0x0B) + END + END)))
        o.append((f'arm.outer/{n}', body([0x04, 0x40] + R([0x01], n) + [0x04, 0x40, 0x1A, 0x05] + S(0x01, 0x05, 0x0B) * 2 + [0x05] + S(0x01, 0x05, 0x0B) + END + END)))
    for n in (128, 1001, 10001):
        # many in a row
        for nm, op in (('b', [0x02, 0x40, 0x0B]), ('i', [0x04, 0x40, 0x0B]), ('ie', [0x04, 0x40, 0x05, 0x0B]), ('t', [0x1F, 0x40, 0x00, 0x0B])):
            o.append((f'row.{nm}/{n}', body(R(op, n - 1) + op[:-1] + S(0x01, 0x05, 0x0B) + S(0x01, 0x05, 0x0B) + END)))
    return o


# ---------------------------------------------------------------- whole modules
OFF = [0x41, 5, 0x0B]
BODY1 = [0x20, 0x01, 0x41, 0xE4, 0x00, 0x6A, 0x02, 0x40, 0x04, 0x7F, 0x42, 0x7F, 0x1A, 0x05, 0x43, 1, 2, 3, 4, 0x0B, 0x0B, 0x28, 0x02, 0x90, 0x01, 0xFC, 0x08, 0x01, 0x00, 0xFD, 0x15, 0x07, 0x0B]
PARTS = {
    1: [3, 0x60, 2, 0x7F, 0x7E, 1, 0x7D, 0x4E, 2, 0x50, 0, 0x5F, 1, 0x78, 1, 0x4F, 1, 0, 0x5E, 0x63, 0x81, 0x01, 0, 0x60, 0, 0],
    2: [3, 1, 0x61, 2, 0x62, 0x63, 0, 0, 0, 1, 0x64, 1, 0x70, 1, 1, 0x90, 0x01, 0, 0, 3, 0x7F, 1],
    3: [2, 0, 2],
    4: [2, 0x70, 0, 5, 0x40, 0, 0x64, 0x03, 1, 1, 2, 0xD2, 1, 0x0B],
    5: [2, 0, 1, 5, 0x80, 0x01, 0x80, 0x02],
    13: [2, 0, 0, 0, 0x82, 0x01],
    6: [2, 0x7F, 1, 0x41, 0x2A, 0x0B, 0x63, 0x70, 0, 0xD2, 0, 0x0B],
    7: [3, 1, 0x78, 0, 0, 2, 0xC3, 0xA9, 2, 1, 0, 3, 0x80, 0x01],
    8: [1],
    9: [3, 0] + OFF + [2, 0, 1, 2, 1] + OFF + [0, 1, 3, 5, 0x6F, 1, 0xD0, 0x6F, 0x0B],
    12: [3],
    11: [3, 1, 2, 0xDE, 0xAD, 0] + OFF + [1, 9, 2, 3] + OFF + [0],
}
_c1 = [2, 2, 0x7F, 1, 0x63, 0x70] + BODY1
_c2 = [0, 0x01, 0x0B]
PARTS[10] = [2] + uleb(len(_c1)) + _c1 + uleb(len(_c2)) + _c2
ORDER = [1, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11]


def rich(custom=True, only=None, patch=None):
    """a module with every section; `patch` maps a section id to other contents"""
    t = list(PRE)
    if custom:
        t += sec(0, [2, 0x6E, 0x61, 1, 2, 3])
    for i in ORDER:
        if only is not None and i not in only:
            continue
        t += sec(i, (patch or {}).get(i, PARTS[i]))
        if custom and i in (6, 10):
            t += sec(0, [1, 0x61] + [i])
    return t


SMALL = {1: [1, 0x60, 0, 0], 2: [1, 0, 0, 0, 5], 3: [0], 4: [1, 0x70, 0, 1], 5: [1, 0, 1], 13: [1, 0, 0], 6: [1, 0x7F, 0, 0x41, 1, 0x0B], 7: [1, 0, 0, 1], 8: [5], 9: [1, 1, 0, 1, 7], 12: [0], 10: [0], 11: [0]}


# ---------------------------------------------------------------- C14
def sizes(deep):
    o = []
    tails = {'': [], 'c': sec(0, [1, 0x61, 0x0B]), 'e': [0x0B, 0x0B, 0x0B, 0x0B], 'z': [0, 1, 0], 'self': None}
    for i in ORDER + [0]:
        if i == 0:
            contents = {'a': [2, 0x6E, 0x61, 1, 2]}
        else:
            contents = {'a': SMALL[i], 'b': PARTS[i]}
        for cn, c in contents.items():
            pre = [sec(3, PARTS[3])] if i == 10 and cn == 'b' else []
            for tn, t in tails.items():
                t = ([i, len(c)] + c) if t is None else t
                if cn == 'b' and tn not in ('', 'c') and not deep:
                    continue
                o.append((f'{i}{cn}{tn}', mod(*pre, [i] + S((0, 0x7F)) + c + t)))
                # a few sections before it
                if i not in (1, 0) and cn == 'a':
                    o.append((f'{i}{cn}{tn}.after', mod(sec(1, SMALL[1]), *pre, [i] + S((0, 0x7F)) + c + t)))
            o.append((f'{i}{cn}.L2', mod(*pre, [i] + L(2) + c + tails['c'])))
            o.append((f'{i}{cn}.pad', mod(*pre, [i] + uleb_pad(len(c), 3) + c)))
            o.append((f'{i}{cn}.L5', mod(*pre, [i] + L(5) + c + tails['c'])))
            # right size, wrong contents: too many or too few elements for it
            if i not in (0, 8, 12):
                o.append((f'{i}{cn}.count', mod(*pre, [i] + uleb(len(c)) + F(1) + c[1:] + tails['c'])))
            # left over bytes of any value
            for k in (1, 2, 3):
                o.append((f'{i}{cn}.over{k}', mod(*pre, [i] + uleb(len(c) + k) + c + F(k) + tails['c'])))
                if len(c) > k:
                    o.append((f'{i}{cn}.under{k}', mod(*pre, [i] + uleb(len(c) - k) + c + tails['c'])))
                    o.append((f'{i}{cn}.underS{k}', mod(*pre, [i] + uleb(len(c) - k) + c[:-1] + F(1) + tails['c'])))
    # contents whose last element is a name, an expression, a vector: they may not reach into what follows
    for k in range(0, 8):
        o.append((f'name.past/{k}', mod([7, 5, 1, 1, 0x61, 0, 0] if k == 0 else [7, 5, 1, k, 0x61, 0, 0], [5, 3, 1, 0, 1])))
        o.append((f'data.past/{k}', mod([11, 4, 1, 1, k, 9], sec(0, [1, 0x61, 0x0B]))))
        o.append((f'fns.past/{k}', mod([9, 5, 1, 1, 0, k, 9], sec(0, [1, 0x61, 0x0B]))))
        o.append((f'params.past/{k}', mod([1, 5, 1, 0x60, k, 0x7F, 0], sec(0, [1, 0x61, 0x7F]))))
    o.append(('expr.past', mod([6, 5, 1, 0x7F, 0, 0x41, 1], [11, 1, 0], [0x0B, 0x0B])))
    o.append(('expr.past2', mod([6, 6, 1, 0x7F, 0, 0x41, 1] + F(1), [11, 1, 0x0B])))
    o.append(('code.past', mod(sec(3, [1, 0]), [10, 4, 1] + F(1) + [0, 1], [0x0B, 1, 0])))
    o.append(('code.past2', mod(sec(3, [1, 0]), [10] + F(1) + [1] + F(1) + [0, 1, 0x0B], [0, 2, 1, 0x61])))
    o.append(('leb.past', mod([8, 1, 0x80], [0, 1, 0])))
    o.append(('leb.past2', mod([8, 2, 0x80] + F(1), [0, 1, 0])))
    # the last section, an inner section and two sections at once
    for a in (1, 5, 9):
        o.append((f'two/{a}', mod([a] + S((0, 0x7F)) + SMALL[a], [11] + S((0, 0x7F)) + [1, 1, 1, 7])))
    o.append(('custom2', mod([0] + S((0, 0x7F)) + [1, 0x61, 3], [0] + S((0, 0x7F)) + [1, 0x62, 1, 1])))
    r = rich()
    for i, p in _size_positions(r):
        if isinstance(r[p], int) and r[p] < 0x80:
            o.append((f'rich/{i}@{p}', r[:p] + S((0, 0x7F)) + r[p + 1:]))
    # what is left over would pass as further sections, and its length is a round number in binary
    for i in ORDER:
        for n in (256, 65536):
            k = n - 1 - len(uleb(n - 4))
            o.append((f'{i}.swallow/{n}', mod([i] + uleb(len(SMALL[i]) + n) + SMALL[i], [0] + uleb(k) + [1, 0x61] + R([7], k - 3) + F(1))))
    for n in (127, 128, 129, 255, 256, 1000) + ((16383, 16384, 65535, 65536) if deep else (16384,)):
        # sizes around LEB128 and buffer boundaries, one short, exact and one over
        c = [1, 0x61] + [7]
        o.append((f'custom/{n}', mod([0] + uleb(n) + [1, 0x61] + R([7], n - 3) + F(1), [0] + S((0, 3)) + [1, 0x62])))
        for d in (-1, 0, 1):
            o.append((f'data/{n}{d:+}', mod([11] + uleb(1 + 1 + len(uleb(n)) + n + d) + [1, 1] + uleb(n) + R([0x5A], n), sec(0, [1, 0x61]))))
    for n in (2097151, 2097152):
        o.append((f'custom.big/{n}', mod([0] + uleb(n) + [1, 0x61] + R([7], n - 3) + F(1), [0] + S((0, 3)) + [1, 0x62])))
    for n in (16384, 65536, 2097152):
        for d in (-1, 0, 1):
            o.append((f'data.big/{n}{d:+}', mod([11] + uleb(1 + 1 + len(uleb(n)) + n + d) + [1, 1] + uleb(n) + R([0x5A], n), sec(0, [1, 0x61]))))
            if n < 1000000:
                o.append((f'code.big/{n}{d:+}', mod(sec(3, [1, 0]), [10] + uleb(n + 6 + d) + [1] + uleb_pad(n + 2, 4) + [0] + R([0x01], n) + [0x0B], sec(0, [1, 0x61]))))
    return o


def _size_positions(r):
    """(section id, position of its size byte) in a literal module"""
    p, o = 8, []
    while p < len(r):
        i = r[p]
        q, v, s = p + 1, 0, 0
        while True:
            v |= (r[q] & 0x7F) << s
            s += 7
            q += 1
            if r[q - 1] < 0x80:
                break
        o.append((i, p + 1))
        p = q + v
    return o


# ---------------------------------------------------------------- C15
def order(deep):
    o = []
    unit = lambda: F(1) + [1, 0]          # any section id, one byte of contents: an empty list, index 0, ...
    for k in range(1, 6 if deep else 5):
        o.append((f'any/{k}', mod(*[unit() for _ in range(k)])))
    known = S((0, 13)) + [1, 0]
    for a in range(0, 14):
        o.append((f'first{a}', mod([a, 1, 0], *[known] * (3 if not deep else 4))))
        o.append((f'second{a}', mod(known, [a, 1, 0], known)))
    # the prescribed order with one section replaced by an arbitrary one
    base = [[i, 1, 0] for i in ORDER]
    for p in range(len(base)):
        o.append((f'swap/{p}', mod(*base[:p], unit(), *base[p + 1:])))
        o.append((f'ins/{p}', mod(*base[:p], unit(), *base[p:])))
    for p in range(0, len(base), 2 if not deep else 1):
        for q in range(p + 1, len(base), 2 if not deep else 1):
            o.append((f'swap/{p}.{q}', mod(*[unit() if x in (p, q) else b for x, b in enumerate(base)])))
    o.append(('end', mod(*base, unit(), unit())))
    # real contents, repeated and exchanged
    for i in ORDER:
        c = SMALL[i]
        o.append((f'dup/{i}', mod([i, len(c)] + c, S((0, 13)) + [len(c)] + c)))
        o.append((f'dup.c/{i}', mod([i, len(c)] + c, sec(0, [0]), S((0, 13)) + [len(c)] + c)))
        o.append((f'dup.cc/{i}', mod([i, len(c)] + c, sec(0, [1, 0x61]), sec(0, [1, 0x61, 7]), [i, len(c)] + c)))
    o.append(('id', mod(F(1) + [0])))
    o.append(('id2', mod(sec(1, [0]), F(1) + [0])))
    o.append(('id.nosize', mod(F(1))))
    o.append(('customs', mod(*[[0, 1, 0]] * 6, unit(), [0, 1, 0], unit())))
    # many custom sections between two others
    for n in (15, 16, 63, 64, 127, 128, 254, 255, 256, 257, 1000):
        for a in (1, 5, 9):
            o.append((f'gap/{n}.{a}', mod([a, 1, 0], R([0, 1, 0], n), unit())))
        o.append((f'gap2/{n}', mod(R([0, 1, 0], n), [5, 1, 0], R([0, 1, 0], n), unit(), [0, 1, 0])))
    for n in (4097, 65537):
        o.append((f'gap.few/{n}', mod([5, 1, 0], R([0, 1, 0], n), S((5, 6) if n > 5000 else (4, 6)) + [1, 0])))
    if deep:
        o.append(('inc/6', mod(*[S((1, 13)) + [1, 0]] * 6)))
        o.append(('inc/7', mod(*[S((1, 13)) + [1, 0]] * 7)))
    return o


# ---------------------------------------------------------------- C16
def cross(deep):
    o = []

    def fns(n):
        return sec(3, uleb(n) + [0] * n)

    def codes(bs):
        t = uleb(len(bs))
        for b in bs:
            b = [0] + b
            t = t + uleb(size(b)) + b
        return sec(10, t)

    def dats(n):
        return sec(11, uleb(n) + [1, 0] * n)
    E = [[0x0B]]
    for f in range(0, 5):
        for c in range(0, 5):
            o.append((f'fc/{f}.{c}', mod(fns(f), codes(E * c))))
        o.append((f'f/{f}', mod(fns(f))))
        o.append((f'c/{f}', mod(codes(E * f))))
        o.append((f'f.d/{f}', mod(fns(f), dats(1))))
        o.append((f'f.x/{f}', mod(fns(f), sec(0, [0]), dats(0))))
        o.append((f'f.imp/{f}', mod(sec(2, [1, 0, 0, 0, 0]), fns(f), codes(E))))
    for n in (127, 128, 200, 256):
        o.append((f'fc.long/{n}', mod(fns(n), sec(10, uleb(n) + [2, 0, 0x0B] * n))))
        o.append((f'fc.long-/{n}', mod(fns(n), sec(10, uleb(n - 1) + [2, 0, 0x0B] * (n - 1)))))
        o.append((f'fc.long+/{n}', mod(fns(n), sec(10, uleb(n + 1) + [2, 0, 0x0B] * (n + 1)))))
        o.append((f'dc.long/{n}', mod(sec(12, L(len(uleb(n)))), dats(n))))
    # the symbolic count byte against fixed entries, both sides
    for k in range(0, 4):
        o.append((f'fn.count/{k}', mod(sec(3, F(1) + [0] * k), codes(E * k))))
        o.append((f'code.count/{k}', mod(fns(k), sec(10, F(1) + [2, 0, 0x0B] * k))))
        o.append((f'data.count/{k}', mod(sec(12, F(1)), dats(k))))
        o.append((f'data.count.x/{k}', mod(sec(12, F(1)), sec(0, [0]), dats(k))))
        o.append((f'data.n/{k}', mod(sec(12, [k]), sec(11, F(1) + [1, 0] * k))))
    for n, t in shapes(5):
        o.append((f'dc/{n}', mod(sec(12, t))))
        o.append((f'dc.0/{n}', mod(sec(12, t), dats(0))))
        o.append((f'dc.2/{n}', mod(sec(12, t), dats(2))))
        o.append((f'dc.code/{n}', mod(fns(1), sec(12, t), codes(E), dats(2))))
        o.append((f'dc.code0/{n}', mod(fns(1), sec(12, t), codes(E))))
    for k in range(0, 3):
        for d in range(0, 3):
            o.append((f'all/{k}.{d}', mod(fns(k), sec(12, F(1)), codes(E * k), dats(d))))
            o.append((f'nodc/{k}.{d}', mod(fns(k), codes(E * k), dats(d))))
    # data indices need a data count
    DI = {'init': [0xFC, 8] + L(1) + L(1), 'drop': [0xFC, 9] + L(1), 'new': [0xFB, 9] + L(1) + L(1), 'ainit': [0xFB, 18] + L(1) + L(1)}
    ANY = {'fc': [0xFC] + S((0, 17)) + [1, 1], 'fb': [0xFB] + S((0, 30)) + [1, 1], 'op': F(1) + [1, 1], 'fcL': [0xFC] + S((0, 17)) + L(1) + L(1), 'fbL': [0xFB] + S((0, 30)) + L(1) + L(1)}
    wraps = {
        '': lambda t: t, 'b': lambda t: [0x02, 0x40] + t + [0x0B], 'l': lambda t: [0x03, 0x40] + t + [0x0B], 'i': lambda t: [0x04, 0x40] + t + [0x0B],
        'e': lambda t: [0x04, 0x40, 0x05] + t + [0x0B], 'E': lambda t: [0x04, 0x40, 0x01, 0x05, 0x01] + t + [0x0B], 't': lambda t: [0x1F, 0x40, 0] + t + [0x0B], 'c': lambda t: [0x1F, 0x40, 1, 2, 0] + t + [0x0B],
        'I': lambda t: [0x04, 0x40] + t + [0x05, 0x01, 0x0B], 'n': lambda t: [0x01, 0x01] + t + [0x01],
    }
    nests = [a + b + c for a in wraps for b in wraps for c in wraps]
    nests = sorted({n for n in nests if len(n) < 3 or deep or n in ('ble', 'eit', 'tIe', 'EEE', 'iii', 'ttt', 'bbb', 'lll', 'nen', 'IEI', 'cet')})
    for w in nests:
        for dn, d in DI.items():
            t = d
            for c in reversed(w):
                t = wraps[c](t)
            t = t + [0x0B]
            if len(w) < 2 or dn in ('init', 'new') or deep:
                o.append((f'di.{dn}/{w}', mod(fns(1), codes([t]))))
            if len(w) < 2:
                o.append((f'di.{dn}.dc/{w}', mod(fns(1), sec(12, L(1)), codes([t]), dats(1))))
                o.append((f'di.{dn}.d/{w}', mod(fns(1), codes([t]), dats(1))))
        if len(w) < 3:
            for dn, d in ANY.items():
                t = d
                for c in reversed(w):
                    t = wraps[c](t)
                if dn == 'op' and len(w) > 1 or dn in ('fcL', 'fbL') and w:
                    continue
                o.append((f'any.{dn}/{w}', mod(fns(1), codes([t + [0x0B]]))))
    # in any of several functions, before or after other blocks
    for n in (2, 3, 5):
        for p in range(n):
            for dn, d in DI.items():
                o.append((f'fn.{dn}/{n}.{p}', mod(fns(n), codes([d + [0x0B] if i == p else [0x01, 0x0B] for i in range(n)]))))
            o.append((f'fn.nest/{n}.{p}', mod(fns(n), codes([[0x02, 0x40, 0x01, 0x0B, 0x04, 0x40, 0x01, 0x05] + DI['drop'] + [0x0B, 0x02, 0x40, 0x01, 0x0B, 0x0B] if i == p else [0x02, 0x40, 0x0B, 0x0B] for i in range(n)]))))
            o.append((f'fn.dc/{n}.{p}', mod(fns(n), sec(12, [1]), codes([DI['init'] + [0x0B] if i == p else [0x0B] for i in range(n)]), dats(1))))
    for k in (1, 2, 3):
        S_ = [0x02, 0x40, 0x01, 0x0B]
        o.append((f'sib/{k}', mod(fns(1), codes([S_ * k + DI['drop'] + S_ * k + [0x0B]]))))
        o.append((f'sib.in/{k}', mod(fns(1), codes([S_ * k + [0x03, 0x40] + S_ + DI['drop'] + S_ + [0x0B] + S_ * k + [0x0B]]))))
    for d in (20, 100):
        o.append((f'deep/{d}', mod(fns(1), codes([[0x02, 0x40] * d + [0xFC] + S((8, 11)) + [0, 0] + R([0x0B], d + 1)]))))
        o.append((f'deep.e/{d}', mod(fns(1), codes([[0x04, 0x40, 0x05] * d + [0xFC] + S((8, 11)) + [0, 0] + R([0x0B], d + 1)]))))
    # data index instructions outside function bodies do not matter
    o.append(('global', mod(sec(6, [1, 0x7F, 0] + DI['new'] + [0x0B]))))
    o.append(('elem', mod(sec(9, [1, 5, 0x70, 1] + DI['new'] + [0x0B]))))
    o.append(('glob.fn', mod(fns(1), sec(6, [1, 0x7F, 0] + DI['drop'] + [0x0B]), codes(E))))
    o.append(('dataoff', mod(sec(11, [1, 0] + DI['drop'] + [0x0B, 0]))))
    # counts that differ by a round number in binary
    for n in (256, 65536):
        for k in (0, 1):
            m = n + k
            one = [2, 0, 0x0B] * k
            o.append((f'fc.round/{n}.{k}', mod(sec(3, uleb(m) + R([0], m)), sec(10, [k] + one))))
            o.append((f'cf.round/{n}.{k}', mod(sec(3, [k] + [0] * k), sec(10, uleb(m) + R([2, 0, 0x0B], m)))))
            o.append((f'dc.round/{n}.{k}', mod(sec(12, uleb(m)), sec(11, [k] + [1, 0] * k))))
            o.append((f'cd.round/{n}.{k}', mod(sec(12, [k]), sec(11, uleb(m) + R([1, 0], m)))))
            if k == 0:
                o.append((f'f.round/{n}', mod(sec(3, uleb(n) + R([0], n)))))
                o.append((f'd.round/{n}', mod(sec(12, uleb(n)))))
    for n in BIG:
        o.append((f'fc.big/{n}', mod(sec(3, uleb(n) + R([0], n)), sec(10, uleb(n) + R([2, 0, 0x0B], n)))))
        o.append((f'fc.big-/{n}', mod(sec(3, uleb(n) + R([0], n)), sec(10, uleb(n - 1) + R([2, 0, 0x0B], n - 1)))))
        o.append((f'dc.big/{n}', mod(sec(12, L(len(uleb(n)))), sec(11, uleb(n) + R([1, 0], n)))))
        o.append((f'di.big/{n}', mod(sec(3, uleb(n) + R([0], n)), sec(10, uleb(n) + R([2, 0, 0x0B], n - 1) + [5, 0, 0xFC] + S((8, 9), 13) + [0, 0x0B]))))
        o.append((f'di.row/{n}', mod(fns(1), sec(10, [1] + uleb(n + 6) + [0] + R([0x01], n) + [0xFC] + S((8, 10)) + [0, 0, 0x0B]))))
    return o


# ---------------------------------------------------------------- C23
def headers(deep):
    o = []
    o.append(('pre', F(8)))
    for k in range(0, 8):
        o.append((f'pre/{k}', F(k)))
        o.append((f'pre.one/{k}', PRE[:k] + F(1) + PRE[k + 1:]))
        o.append((f'pre.tail/{k}', PRE[:k] + F(8 - k) + sec(1, [0])))
    o.append(('pre.more', F(8) + [1, 1, 0]))
    C = lambda name, n: sec(0, [len(name)] + name + F(n))
    for k in range(0, 5):
        o.append((f'c/{k}', mod(C([0x61], k))))
        o.append((f'c.n/{k}', mod(sec(0, [k] + S((0x20, 0x7E)) * k + F(2)))))
        o.append((f'c.seq/{k}', mod(*[C([0x61 + i], 1) for i in range(k)])))
        o.append((f'c.mix/{k}', mod(C([0x61], k), sec(1, [0]), C([0x62], 1), sec(5, [0]), C([], k), sec(11, [0]), C([0x61], 2))))
    for k in range(0, 5 if deep else 4):
        o.append((f'c.raw/{k}', mod(sec(0, F(k)))))
    known = S((0, 13)) + [1, 0]
    for k in range(1, 4):
        o.append((f'kinds/{k}', mod(*[known] * k)))
        o.append((f'kinds.c/{k}', mod(*[known, [0, 2, 1, 0x61]] * k)))
    for n, t in shapes(5):
        o.append((f'size/{n}', mod([0] + t + [1, 0x61, 7], sec(1, [0]))))
        o.append((f'size.last/{n}', mod([0] + t + [1, 0x61, 7, 8, 9])))
        for i in ORDER:
            if n != 'x':
                o.append((f'pad.{i}/{n}', mod([i] + uleb_pad(len(SMALL[i]), int(n)) + SMALL[i], sec(0, [1, 0x61] + F(1)))))
    o.append(('rich', rich()))
    o.append(('rich.c', rich() + sec(0, [1] + S((0x20, 0x7E)) + F(3))))
    for n in (126, 127, 128, 129, 255, 256, 1000, 16384) + ((65535, 65536, 100000) if deep else ()):
        o.append((f'c.long/{n}', mod(sec(0, [1, 0x61] + F(1) + R([0x5A], n - 2) + F(1)), sec(1, [0]))))
    for n in (20, 130) + ((300,) if deep else ()):
        o.append((f'c.many/{n}', mod(*[sec(0, [1, 0x61] + (F(1) if i in (0, n - 1) else [i & 255])) for i in range(n)])))
    for w in ORDER:
        o.append((f'one/{w}', mod(sec(w, SMALL[w]), sec(0, [1, 0x61] + F(1)))))
        o.append((f'one.b/{w}', mod(sec(0, [1, 0x61] + F(1)), sec(w, SMALL[w]))))
    for n in BIG + (1000001, 2097152):
        o.append((f'c.big/{n}', mod(sec(0, [1, 0x61] + F(1) + R([0x5A], n - 4) + F(1)), sec(1, [0]))))
        if n < 100000:
            o.append((f'c.bigmany/{n}', mod(R([0, 3, 1, 0x61, 7], n - 1), sec(0, [1, 0x62] + F(1)))))
            o.append((f'c.bigname/{n}', mod(sec(0, uleb(n) + R([0x61], n) + F(1)))))
    N4 = [0x6E, 0x61, 0x6D, 0x65]
    for nm, t in (('name', N4), ('sym4', S((0x61, 0x7A)) * 4), ('dylink', list(b'dylink.0')), ('producers', list(b'producers')), ('target_features', list(b'target_features')), ('linking', list(b'linking')), ('reloc', list(b'reloc.CODE')),
                  ('srcmap', list(b'sourceMappingURL')), ('debug', list(b'.debug_info')), ('hint', list(b'metadata.code.branch_hint'))):
        for k in range(0, 4):
            o.append((f'c.known.{nm}/{k}', mod(sec(1, [0]), sec(0, [len(t)] + t + F(k)), sec(5, [0]))))
        o.append((f'c.known2.{nm}', mod(sec(0, [len(t)] + t + F(1)), sec(0, [len(t)] + t + F(1)), sec(1, [0]), sec(0, [len(t)] + t))))
    # the name section's own structure inside
    o.append(('c.name.fn', mod(sec(0, [4] + N4 + S((0, 11)) + S((0, 5)) + [1, 0, 1, 0x66]))))
    o.append(('c.empty.seq', mod([0, 1, 0], [0, 1, 0], sec(0, [0] + F(1)), [0, 1, 0])))
    return o


# ---------------------------------------------------------------- single byte mutations
def _section_at(r):
    """position -> section id, for a literal module"""
    p, m = 8, {i: 'pre' for i in range(8)}
    while p < len(r):
        i, q, v, s = r[p], p + 1, 0, 0
        while True:
            v |= (r[q] & 0x7F) << s
            s += 7
            q += 1
            if r[q - 1] < 0x80:
                break
        for k in range(p, q):
            m[k] = 'hdr'
        for k in range(q, q + v):
            m[k] = i
        p = q + v
    return m


def mut(deep):
    """a module with every section, each byte in turn (thorough: each two neighbouring bytes) arbitrary"""
    r = rich()
    at = _section_at(r)
    o = [('rich', r)]
    for p in range(len(r)):
        o.append((f'{at[p]}@{p}', r[:p] + F(1) + r[p + 1:]))
        if deep and p + 1 < len(r):
            o.append((f'{at[p]}@{p}+2', r[:p] + F(2) + r[p + 2:]))
    return o


# ---------------------------------------------------------------- one byte becomes an integer of several
def wide(deep):
    """every byte of the section contents of a module with everything in it, and of every instruction with
    immediates, in turn replaced by a LEB128 integer of three or five bytes, with all sizes around it adjusted"""
    o = []
    ks = (3, 5) if deep else (5,)

    def L(k):
        # an opcode in that place must not lead to many others: 0xFF is none
        return S((0x80, 0xFF)) + ([0x80, 0xFF, 0x81] if k == 5 else [0xFF]) + S((0, 0x7F))
    # a section's counterpart that keeps the module well-formed
    def whole(i, c):
        return rich(patch={i: c})
    for i in ORDER + [0]:
        if i == 10:
            continue
        c = PARTS[i] if i else [2, 0x6E, 0x61, 1, 2, 3]
        for p in range(len(c)):
            for k in ks:
                t = c[:p] + L(k) + c[p + 1:]
                o.append((f'{i}@{p}.{k}', whole(i, t) if i else mod(sec(1, [0]), sec(0, t), sec(3, [0]))))
    for p in range(len(_c1)):
        if p in (1, 3):
            continue        # how many locals of one type: locals_limit and C18
        for k in ks:
            c = _c1[:p] + L(k) + _c1[p + 1:]
            o.append((f'10@{p}.{k}', whole(10, [2] + uleb(size(c)) + c + uleb(len(_c2)) + _c2)))
    zoo = []
    for op, im in IMM.items():
        b = opb(op)
        if 'Ma' in im:
            if op in (0x28, 0x3E, 0x3C, (0xFD << 32) | 0, (0xFD << 32) | 84, (0xFD << 32) | 91, (0xFD << 32) | 93):
                zoo.append((f'{op:x}', len(b), b + [0x42, 1, 3] + [1] * (len(im) - 1)))
        elif 'Ln' not in im:
            zoo.append((f'{op:x}', len(b), b + [1] * len(im)))
    zoo += [('br_table', 1, [0x0E, 2, 1, 2, 3]), ('select', 1, [0x1C, 2, 0x7F, 0x70]), ('select.ref', 1, [0x1C, 2, 0x63, 1, 0x64, 0x70]), ('try_table', 1, [0x1F, 0x40, 4, 0, 1, 2, 2, 3, 1, 4, 5, 3, 6, 0x0B]), ('block', 1, [0x02, 0x7F, 0x0B]), ('if', 1, [0x04, 3, 0x05, 0x0B]),
            ('br_on_cast', 2, [0xFB, 24, 1, 1, 0x70, 2]), ('br_on_cast_fail', 2, [0xFB, 25, 3, 1, 2, 0x6E]), ('ref.test', 2, [0xFB, 20, 1]), ('ref.cast', 2, [0xFB, 23, 0x70]), ('ref.null', 1, [0xD0, 0x70]), ('ref.null.i', 1, [0xD0, 3]), ('i32', 1, [0x41, 5]), ('i64', 1, [0x42, 5])]
    for nm, q, t in zoo:
        for p in range(q, len(t)):
            for k in ks:
                o.append((f'ins.{nm}@{p}.{k}', body(t[:p] + L(k) + t[p + 1:] + END)))
    return o


def late(deep):
    """a malformed element after many well-formed ones, in every kind of list"""
    o = []
    B = S((0x20, 0x22))             # no kind, form, flag or type
    bad = [0xFF, 0xFF, 0xFF, 0xFF] + S((0x10, 0x12))        # no u32
    for n in (300, 65537) + ((100001,) if deep else ()):
        def put(nm, f, e, b, n=n):
            o.append((f'{nm}/{n}', f(uleb(n + 2) + R(e, n) + b)))
        sv = {'types': (1, [0x60, 0, 0], B), 'subs': (1, [0x60, 0, 0], [0x50, 0] + B), 'imports': (2, [0, 0, 0, 1], [0, 0] + B), 'funcs': (3, [1], bad), 'tables': (4, [0x70, 0, 1], [0x70] + B),
              'table.t': (4, [0x70, 0, 1], B), 'mems': (5, [0, 1], B), 'globals': (6, [0x6F, 0, 0x0B], [0x7F] + B), 'global.t': (6, [0x6F, 0, 0x0B], B), 'exports': (7, [0, 0, 1], [0] + B),
              'elems': (9, [1, 0, 0], B), 'elem.k': (9, [1, 0, 0], [1] + B), 'datas': (11, [1, 0], B), 'tags': (13, [0, 1], B), 'tag.i': (13, [0, 1], [0] + bad)}
        for nm, (i, e, b) in sv.items():
            put(nm, lambda t, i=i: mod(sec(i, t)), e, b)
        put('codes', lambda t: mod(sec(10, t)), [2, 0, 0x0B], [4, 1, 1] + B)
        put('code.op', lambda t: mod(sec(10, t)), [2, 0, 0x0B], [4, 0] + S((0x06, 0x07)))
        put('params', lambda t: mod(sec(1, [1, 0x60] + t)), [0x7F], B)
        put('results', lambda t: mod(sec(1, [1, 0x60, 0] + t)), [0x7F], B)
        put('fields', lambda t: mod(sec(1, [1, 0x5F] + t)), [0x7F, 1], [0x7F] + B)
        put('rec', lambda t: mod(sec(1, [1, 0x4E] + t)), [0x60, 0, 0], B)
        put('supers', lambda t: mod(sec(1, [1, 0x50] + t)), [1], bad)
        put('elem.f', lambda t: mod(sec(9, [1, 1, 0] + t)), [1], bad)
        put('elem.e', lambda t: mod(sec(9, [1, 5, 0x70] + t)), [0xD2, 4, 0x0B], S((0x06, 0x07)))
        put('locals', lambda t: body_of(t), [0, 0x7F], [0] + B)
        put('br_table', lambda t: body([0x0E] + t), [2], bad)
        put('select', lambda t: body([0x1C] + t), [0x7F], B)
        put('catch', lambda t: body([0x1F, 0x40] + t), [2, 1], B)
    return o


def body_of(t):
    """a module with one function whose locals and body are t"""
    return mod(sec(3, [1, 0]), sec(10, [1] + uleb(size(t)) + t))
