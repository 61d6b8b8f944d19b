"""Which jobs decide which property, per tier."""
import json, os
import fam
from tpl import *

VERSION, KINDS, HEADERS, CUSTOM, TYPES, IMPORTS, FUNCS, TABLES, MEMS, TAGS, GLOBALS, EXPORTS, START, ELEMS, DATACOUNT, LOCALS, BODIES, DATAS = (1 << i for i in range(18))
ALL = (1 << 18) - 1
ERR = 1 << 20
CONTENT = ALL & ~(HEADERS | KINDS)

HERE = os.path.dirname(os.path.abspath(__file__))
try:
    COSTS = json.load(open(os.path.join(HERE, 'costs.json')))
except OSError:
    COSTS = {}


BIGGEST = 22.0          # seconds of one engine; a template measured to take longer is left to the thorough tier
BUDGET = 700.0          # seconds of one engine for all jobs of a property in the quick tier, the cheapest first


class J(dict):
    pass


def cost(f, n):
    return COSTS.get(f, {}).get(n, 0.5)


_cache = {}


def templates(f, deep, only=None):
    k = (f, deep)
    if k not in _cache:
        _cache[k] = getattr(fam, f)(deep)
    return [(n, t) for n, t in _cache[k] if only is None or only(n)]


def jobs_tpl(f, deep, pre, entry='h_tpl', only=None, limit=BIGGEST, factor=1.0, tag='', more=False):
    """one job per template of family f; quick leaves out those measured to take longer than `limit`"""
    out = []
    ts = templates(f, deep, only)
    if more and not deep:
        # those of the thorough tier that are known to be affordable
        have, m = {n for n, _ in ts}, COSTS.get(f, {})
        ts = ts + [(n, t) for n, t in templates(f, True, only) if n not in have and m.get(n, 999) <= limit]
    for n, t in ts:
        c = cost(f, n) * factor
        if not deep and c > limit:
            continue
        out.append(J(id=f'{f}:{n}{tag}', entry=entry, args=list(pre) + args(t), tpl=t, cost=c, secs=600 if deep else 60, steps=20000000 + 5000 * size(t), len=size(t), nsym=nsym(t)))
    return out


def mut_of(*sections):
    s = {str(x) for x in sections}
    return lambda n: n == 'rich' or n.split('@')[0] in s


def decode(f, mask, muts=(), extra=()):
    def g(deep):
        o = jobs_tpl(f, deep, [mask], more=True)
        for x in extra:
            o += jobs_tpl(x, deep, [mask], more=True)
        if muts:
            o += jobs_tpl('mut', deep, [mask], only=mut_of(*muts), more=True)
            o += jobs_tpl('wide', deep, [mask], only=(lambda n: n.split('@')[0] in {str(x) for x in muts} or 10 in muts and n.startswith('ins.')))
        return o
    return g


FAMS = ['leb', 'types', 'impexp', 'names', 'defs', 'elems', 'datas', 'code', 'locals_limit', 'plain', 'memory', 'vector', 'gc', 'control', 'sizes', 'order', 'cross', 'headers', 'mut', 'wide', 'late']


def every(pre, entry, limit, factor=1.0, fams=FAMS, tag='', only=None):
    """all families through one entry; the quick tier leaves out the expensive templates"""
    def g(deep):
        o = []
        for f in fams:
            o += jobs_tpl(f, deep, pre, entry, only, limit, factor, tag)
        return o
    return g


def J1(name, entry, pre, t, cost=1.0, **kw):
    return J(id=name, entry=entry, args=list(pre) + args(t), tpl=t, cost=cost, len=size(t), nsym=nsym(t), **{'secs': 120, **kw})


# ---------------------------------------------------------------- C17
def c17(deep):
    o = every([], 'h_nopanic', BIGGEST)(deep)
    for n in range(0, 6):
        o.append(J1(f'raw:{n}', 'h_nopanic', [], mod(F(n)), 3))
    ids = [(str(i), [i]) for i in range(14)] + [('unknown', S((14, 255)))]
    for name, i in ids:
        o.append(J1(f'raw:{name}.{6 if deep else 5}', 'h_nopanic', [], mod(i + F(6 if deep else 5)), 5, secs=900))
        if name != 'unknown':
            # one section whose size is right, arbitrary contents
            for k in range(1, 6 if deep else 5):
                o.append(J1(f'sec:{name}.{k}', 'h_nopanic', [], mod(sec(int(name), F(k))), 2, secs=600))
    for k in range(1, 5 if deep else 4):
        o.append(J1(f'body:{k}', 'h_nopanic', [], fam.body(F(k)), 20, secs=900))
    if deep:
        o.append(J1('raw:7', 'h_nopanic', [], mod(F(6)), 60, secs=1800))
    # nesting up to the depth a thread's stack must stand
    for d in (1000, 2000):
        for nm, op in (('block', [0x02, 0x40]), ('loop', [0x03, 0x40]), ('if', [0x04, 0x40])):
            o.append(J1(f'nest:{nm}.{d}', 'h_nopanic', [], fam.body(R(op, d) + S(0x01, 0x0B) + R([0x0B], d + 1)), 3))
    # far deeper: the call stack runs out
    o.append(J1('deep:block.300000', 'h_nopanic', [], fam.body(R([0x02, 0x40], 300000) + R([0x0B], 300001)), 30, secs=300, steps=2000000000, known='deep-nesting'))
    return o


# ---------------------------------------------------------------- C18
PER, FIX = 512, 4096


def c18(deep):
    o = every([PER, FIX], 'h_alloc', BIGGEST, 0.7, [f for f in FAMS if f not in ('mut', 'code')])(deep)
    o += jobs_tpl('code', deep, [PER, FIX], 'h_alloc', lambda n: not n.startswith(('locals.run', 'big.run', 'locals/', 'nlocals', 'locals.raw', 'raw')))
    o += jobs_tpl('mut', deep, [PER, FIX], 'h_alloc', lambda n: not n.startswith('10@'))
    B5 = [('s', ((0x80, 0xFF),))] * 4 + [('s', ((0x00, 0x0F),))]        # any value below 2^32, in five bytes

    def one(name, t, **kw):
        o.append(J1('huge:' + name, 'h_alloc', [PER, FIX], t, 1.0, **kw))
    for i in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13):
        for tail in (0, 1, 2):
            one(f'count.{i}.{tail}', mod(sec(i, B5 + F(tail))))
            one(f'count.size.{i}.{tail}', mod([i] + B5 + B5 + F(tail)))
        one(f'size.{i}', mod([i] + B5 + F(1)))
    one('size.0', mod([0] + B5 + F(1)))
    one('size.name.0', mod([0] + B5 + B5 + F(1)))
    lists = {
        'params': sec(1, [1, 0x60] + B5 + [0x7F]), 'results': sec(1, [1, 0x60, 0] + B5 + [0x7F]), 'fields': sec(1, [1, 0x5F] + B5 + [0x7F, 0]),
        'rec': sec(1, [1, 0x4E] + B5 + [0x60, 0, 0]), 'supers': sec(1, [1, 0x50] + B5 + [1]), 'supers.f': sec(1, [1, 0x4F] + B5 + [1]),
        'modname': sec(2, [1] + B5 + [0x61]), 'itemname': sec(2, [1, 1, 0x61] + B5 + [0x61]), 'expname': sec(7, [1] + B5 + [0x61]),
        'custname': sec(0, B5 + [0x61]), 'elem0': sec(9, [1, 0, 0x41, 0, 0x0B] + B5 + [1]), 'elem1': sec(9, [1, 1, 0] + B5 + [1]), 'elem2': sec(9, [1, 2, 0, 0x41, 0, 0x0B, 0] + B5 + [1]),
        'elem3': sec(9, [1, 3, 0] + B5 + [1]), 'elem4': sec(9, [1, 4, 0x41, 0, 0x0B] + B5 + [0xD0, 0x70, 0x0B]), 'elem5': sec(9, [1, 5, 0x70] + B5 + [0xD0, 0x70, 0x0B]),
        'elem6': sec(9, [1, 6, 0, 0x41, 0, 0x0B, 0x70] + B5 + [0xD0, 0x70, 0x0B]), 'elem7': sec(9, [1, 7, 0x70] + B5 + [0xD0, 0x70, 0x0B]),
        'data0': sec(11, [1, 0, 0x41, 0, 0x0B] + B5 + [1]), 'data1': sec(11, [1, 1] + B5 + [1]), 'data2': sec(11, [1, 2, 0, 0x41, 0, 0x0B] + B5 + [1]),
        'datacount': sec(12, B5),
    }
    for n, t in lists.items():
        one(n, mod(t))
    fn = sec(3, [1, 0])
    ins = {'br_table': [0x0E], 'select': [0x1C], 'try_table': [0x1F, 0x40], 'array.new_fixed': [0xFB, 8, 0]}
    for n, op in ins.items():
        one(n, fam.body(op + B5 + [1, 0x0B]))
        one(n + '.nested', fam.body([0x02, 0x40] + op + B5 + [1, 0x0B, 0x0B]))
        one(n + '.g', fam.gbody(op + B5 + [1, 0x0B]))
    one('codesize', mod(fn, sec(10, [1] + B5 + [0, 0x0B])))
    one('codesize.all', mod(fn, [10] + B5 + [1] + B5 + [0, 0x0B]))
    one('locals.groups', mod(fn, sec(10, [1, 8] + B5 + [1, 0x7F, 0x0B])))
    # the count of locals in a body that turns out to be malformed
    one('locals.count', mod(fn, sec(10, [1, 9, 1] + B5 + [0x7F, 0x06, 0x0B])))
    # many bytes for few declared
    for n in (1000,) + ((20000,) if deep else ()):
        for i, e in ((1, [0x60, 0, 0]), (2, [0, 0, 0, 0]), (4, [0x70, 0, 1]), (5, [0, 1]), (6, [0x7F, 0, 0x0B]), (7, [0, 0, 0]), (9, [1, 0, 0]), (11, [1, 0]), (13, [0, 1])):
            t = R(e, n) if len(e) <= 2 else e * n
            one(f'full.{i}.{n}', mod(sec(i, uleb(n) + t)), steps=400000000)
            one(f'full+.{i}.{n}', mod(sec(i, B5 + t)), steps=400000000)
        one(f'full.nop.{n}', fam.body(R([0x01], n) + [0x0B]), steps=400000000)
        one(f'full.block.{n}', fam.body(R([0x02, 0x40], 0) + R([0x02, 0x40], 500) + R([0x0B], 501)), steps=400000000)
    o.append(J1('locals:100000', 'h_alloc', [PER, FIX], mod(fn, sec(10, [1, 6, 1] + uleb(100000) + [0x7F, 0x0B])), 5, steps=200000000, known='locals-expansion'))
    return o


# ---------------------------------------------------------------- C19
def c19(deep):
    m = ALL & ~0
    o = []
    r = fam.rich()
    for nm, t in (('rich', r), ('rich.nc', fam.rich(custom=False))):
        assert size(t) < 256
        for lo in range(0, size(t) + 1, 64):
            o.append(J1(f'{nm}:{lo}', 'h_trunc', [m, lo, min(lo + 63, size(t))], t, 5))
    for f in FAMS:
        for n, t in templates(f, deep):
            L_, c = size(t), cost(f, n)
            if f in ('mut', 'cross', 'sizes') and not deep and hash_(f + n) % 6:
                continue
            if L_ > 254 or c * L_ / 3 > (60 if deep else 2.0):
                continue
            o.append(J1(f'{f}:{n}', 'h_trunc', [m, 0, L_], t, c * L_ / 3, secs=600 if deep else 60))
    return o


def hash_(s):
    h = 0
    for c in s.encode():
        h = (h * 131 + c) % 1000003
    return h


# ---------------------------------------------------------------- C20
def c20(deep):
    m = ALL | ERR
    o = []
    r = fam.rich()
    for mode in range(1, 8):
        o.append(J1(f'rich:m{mode}', 'h_chunk', [m, 0, 0, mode], r, 1))
    # a window of reads under symbolic control, everywhere in the module
    step, plan = (1, 4) if deep else (2, 2)
    for s in range(0, 240, step):
        for mode in (0, 1):
            o.append(J1(f'rich:s{s}.{mode}', 'h_chunk', [m, s, plan, mode], r, 1, secs=300))
    for i in fam.ORDER + [0]:
        t = mod(*([sec(3, fam.PARTS[3])] if i == 10 else []), *([sec(12, [3])] if i == 10 else []), sec(i, fam.PARTS[i] if i else [2, 0x6E, 0x61, 1, 2, 3, 4]), *([sec(11, fam.PARTS[11])] if i in (10, 12) else []))
        for s in range(0, 8 if not deep else 20):
            o.append(J1(f'sec{i}:s{s}', 'h_chunk', [m, s, 3 if not deep else 5, 0], t, 1, secs=300))
    for mode in ((3, 4) if not deep else (1, 2, 3, 4, 6)):
        for f in FAMS:
            if not deep and mode == 4 and f in ('mut', 'cross', 'order', 'control', 'plain', 'sizes'):
                continue
            o += jobs_tpl(f, deep, [m, 0, 0, mode], 'h_chunk', (lambda n, f=f: deep or f not in ('cross', 'plain', 'gc', 'sizes') or hash_(n) % 3 == 0), 1.0, 1.0, f'#m{mode}')
    # arbitrary read sizes and interruptions together with arbitrary bytes
    for f in FAMS:
        for n, t in templates(f, deep):
            if cost(f, n) <= (2 if deep else 0.1) and size(t) < 60 and (deep or hash_(n) % 5 == 0):
                o.append(J1(f'{f}:{n}#s', 'h_chunk', [m, hash_(n) % max(1, size(t) - 8), 2, hash_(n) % 2], t, cost(f, n) * 6, secs=600 if deep else 60))
    return o


# ---------------------------------------------------------------- C21
def c21(deep):
    o = []
    r = fam.rich()
    n = size(r)
    for lo in range(0, n, 32):
        hi = min(lo + 31, n - 1)
        for mk in (0, 2, 3):
            o.append(J1(f'rich:{lo}.1.{mk}', 'h_fail', [lo, hi, 1, 0, 255, mk], r, 8, secs=300))
        o.append(J1(f'rich:{lo}.all', 'h_fail', [lo, hi, 4096, 0, 255, 1], r, 3, secs=300))
        o.append(J1(f'rich:{lo}.3', 'h_fail', [lo, hi, 3, 0, 255, 3], r, 3, secs=300))
    for f in FAMS:
        for nm, t in templates(f, deep):
            L_, c = size(t), cost(f, nm)
            if f in ('sizes', 'cross', 'mut', 'order') and not deep and hash_(nm) % 6:
                continue
            if L_ > 254 or c * L_ / 2 > (60 if deep else 12):
                continue
            if deep:
                o.append(J1(f'{f}:{nm}#k', 'h_fail', [8, L_, 1, 0, 255, hash_(nm) % 2], t, c * L_ / 2, secs=600))
            o.append(J1(f'{f}:{nm}', 'h_fail', [0 if deep else 8, L_, 1, 0, 255, (3, 3, 0, 1)[hash_(nm) % 4]], t, c * L_ / 4, secs=600 if deep else 60))
    return o


# ---------------------------------------------------------------- C24
def boundaries(t):
    """positions of section boundaries that the template fixes"""
    p, o = 8, [8]
    if any(not isinstance(x, int) for x in t[:8]) or len(t) < 8:
        return []
    # repeated items take several bytes: positions are item indices, sizes count bytes
    while p < len(t):
        q, v, s = p + 1, 0, 0
        if isinstance(t[p], tuple) and t[p][0] == 'r':
            return o
        while True:
            if q >= len(t) or not isinstance(t[q], int):
                return o
            v |= (t[q] & 0x7F) << s
            s += 7
            q += 1
            if t[q - 1] < 0x80:
                break
        while v > 0 and q < len(t):
            v -= size([t[q]])
            q += 1
        if v != 0:
            return o
        o.append(q)
        p = q
    return o


def c24(deep):
    m = CONTENT & ~CUSTOM | KINDS | ERR
    pay = {
        'empty': sec(0, [0]), 'one': sec(0, [1, 0x61] + F(1)), 'name': sec(0, [1] + S((0x20, 0x7E)) + F(1)), 'code': sec(0, [1, 0x61] + sec(10, [1, 2, 0, 0x0B])),
        'utf': sec(0, [2] + S((0xC2, 0xDF)) + S((0x80, 0xBF))), 'two': sec(0, [0]) + sec(0, [1, 0x61, 0x0A]), 'dc': sec(0, [0, 0x0C, 1, 3]), 'long': sec(0, [1, 0x62] + R([0x5A], 200) + F(1)),
        'pad': [0] + uleb_pad(3, 5) + [1, 0x61, 0],
        'names': sec(0, [4] + list(b'name') + [1, 4, 1, 0, 1] + F(1)), 'prod': sec(0, [9] + list(b'producers') + F(1)), 'dylink': sec(0, [8] + list(b'dylink.0') + [1, 1] + F(1)), 'srcmap': sec(0, [16] + list(b'sourceMappingURL') + [1] + F(1)),
        'debug': sec(0, [11] + list(b'.debug_info') + F(1)), 'link': sec(0, [7] + list(b'linking') + [2] + F(1)), 'reloc': sec(0, [10] + list(b'reloc.CODE') + F(2)), 'feat': sec(0, [15] + list(b'target_features') + [1, 0x2B] + F(1)),
        'hint': sec(0, [25] + list(b'metadata.code.branch_hint') + [1] + F(1)), 'name2': sec(0, [4] + list(b'name')) * 2, 'big': sec(0, [1, 0x62] + R([0x5A], 70000) + F(1)),
    }
    o = []

    def add(name, t, names, c=0.5):
        for k, p in enumerate(boundaries(t)):
            for pn in names(k):
                a = [m] + args(pay[pn]) + TERM + args(t[:p]) + TERM + args(t[p:])
                o.append(J(id=f'{name}@{k}+{pn}', entry='h_custom', args=a, tpl=t[:p] + pay[pn] + t[p:], cost=c * 2, secs=600 if deep else 60, len=size(t), nsym=nsym(t)))
    add('rich', fam.rich(), lambda k: pay)
    add('rich.nc', fam.rich(custom=False), lambda k: pay)
    small = [[i, len(fam.SMALL[i])] + fam.SMALL[i] for i in fam.ORDER]
    add('small', mod(*small), lambda k: pay)
    for f in FAMS:
        for n, t in templates(f, deep):
            c = cost(f, n)
            h = hash_(f + n)
            if c > (10 if deep else 0.7) or size(t) > 2000:
                continue
            if not deep and f not in ('order', 'cross') and h % 4:
                continue
            if not deep and f == 'cross' and h % 3:
                continue
            ks = list(pay)
            add(f'{f}:{n}', t, (lambda k: ks) if deep and c < 0.3 else (lambda k: [ks[(h + k) % len(ks)]]), c)
    return o


# ---------------------------------------------------------------- C26
def c26(deep):
    o = []
    r = fam.rich()
    for v in (0, 1):
        for nm, t in (('rich', r), ('rich.nc', fam.rich(custom=False))):
            o.append(J1(f'{nm}.{v}', 'h_cli', [v, 0, 0], t, 1))
        for k in range(43):
            o.append(J1(f'open.{k}.{v}', 'h_cli', [v, 1, k], r, 0.2))
        for lo in range(0, size(r), 24):
            for k in (i for i in range(43) if i != 35 and (i == 42 or v == 0 and (deep or lo % 72 == 0 or i == 37))):
                o.append(J1(f'read.{lo}.{k}.{v}', 'h_cli', [v, 2, k | lo << 8 | min(lo + 23, size(r) - 1) << 24], r, 3, secs=300))
    for f in FAMS:
        o += jobs_tpl(f, deep, [0, 0, 0], 'h_cli', (lambda n, f=f: deep or cost(f, n) < 0.05 or (hash_(n) % 3 == 0 and cost(f, n) < 0.5)), 0.5, 1.5)
        o += jobs_tpl(f, deep, [1, 0, 0], 'h_cli', (lambda n, f=f: hash_(n) % (2 if deep else 15) == 1 and cost(f, n) < (1 if deep else 0.1)), 0.5, 3.0, '#verbose')
        o += jobs_tpl(f, deep, [2, 2, 22 | 8 << 8 | 255 << 24], 'h_cli', (lambda n, f=f: hash_(n) % (2 if deep else 15) == 2 and cost(f, n) < 0.1 and size(dict(templates(f, deep))[n]) < 60), 0.5, 10.0, '#read')
    return o


# ---------------------------------------------------------------- C27
def others():
    fn = sec(3, [1, 0])
    return {
        'rich': fam.rich(), 'sym': mod(sec(1, [1, 0x60, 0] + F(1))), 'none': [], 'pre': PRE[:5], 'cut': fam.rich()[:140], 'id': mod([14]), 'dup': mod(sec(1, [0]), sec(1, [0])), 'order': mod(sec(7, [0]), sec(1, [0])),
        'size': mod([1, 9, 1, 0x60, 0, 0]), 'past': mod([1, 2, 1, 0x60, 0, 0]), 'type': mod(sec(1, [3, 0x60, 0, 0, 0x5F, 2, 0x7F, 1, 0x70, 7])), 'name': mod(sec(7, [1, 3, 0x61, 0xC3, 0x28, 0, 0])),
        'dc': mod(fn, sec(12, [3]), sec(10, [1, 2, 0, 0x0B]), sec(11, [1, 1, 0])), 'dc.none': mod(fn, sec(10, [1, 7, 0, 0x41, 0, 0xFC, 9, 0, 0x0B])), 'fc': mod(fn), 'fc2': mod(sec(10, [1, 2, 0, 0x0B])),
        'open': mod(fn, sec(10, [1, 8, 0, 0x02, 0x40, 0x03, 0x40, 0x04, 0x40, 0xFF])), 'locals': mod(fn, sec(10, [1, 10, 2] + uleb(2**32 - 1) + [0x7F, 1, 0x7F, 0x0B])), 'op': fam.body(F(1) + [0x0B]), 'else': fam.body([0x05, 0x0B]),
        'mem': fam.body([0x41, 0, 0x28, 0x42, 1, 0, 0x1A, 0x0B]), 'start': mod(sec(8, [0])), 'cust': mod(sec(0, [4, 0x6E, 0x61, 0x6D, 0x65, 1, 2, 3])),
    }


def c27(deep):
    m = ALL | ERR
    oth = others()
    ks = list(oth)
    o = []

    def add(n, t, k, at, c):
        w = 'before' if at is None else f'in{at}'
        o.append(J(id=f'{n}+{k}.{w}', entry='h_twice', args=[m, 2**64 - 1 if at is None else at] + args(oth[k]) + TERM + args(t), tpl=oth[k] + t, cost=c, secs=600 if deep else 60, len=size(t), nsym=nsym(t)))
    r = fam.rich()
    for k in ks:
        for nm, t in (('rich', r), ('rich.nc', fam.rich(custom=False))):
            add(nm, t, k, None, 0.5)
            for at in range(0, size(r), 5 if deep else 17):
                add(nm, t, k, at + hash_(k) % 5, 0.5)
        for j in ks:
            add('o:' + j, oth[j], k, None, 0.3)
            add('o:' + j, oth[j], k, 9, 0.3)
    # many others before: whatever is left behind adds up
    nest = fam.body(R([0x02, 0x40], 500) + S(0x01, 0x05, 0x0B) + R([0x0B], 501))
    open50 = mod(sec(3, [1, 0]), sec(10, [1] + uleb(203) + [0] + R([0x02, 0x40], 25) + R([0x04, 0x40, 0x05], 25) + R([0x1F, 0x40, 0], 25) + [0xFF, 0]))
    tiny = mod(sec(1, [1, 0x60, 0, 0]), sec(3, [1, 0]), sec(12, [1]), sec(10, [1, 5, 0, 0xFC, 9, 0, 0x0B]), sec(11, [1, 1, 0]))
    for k, x in list(oth.items()) + [('open50', open50), ('tiny', tiny), ('nest', nest)]:
        if nsym(x):
            x = [0 if isinstance(y, tuple) and y[0] == 's' else y for y in x]
        for nm, t in (('rich', r), ('nest', nest), ('sym', mod(sec(1, [1, 0x60, 1] + F(1) + [0])))):
            o.append(J(id=f'{nm}+300*{k}', entry='h_many', args=[m, 300] + args(x) + TERM + args(t), tpl=x + t, cost=2, secs=600 if deep else 120, steps=2000000000, len=size(t), nsym=nsym(t)))
        if size(x) < 60:
            o.append(J(id=f'rich+70000*{k}', entry='h_many', args=[m, 70000] + args(x) + TERM + args(r), tpl=x + r, cost=4, secs=600 if deep else 120, steps=8000000000, len=size(r), nsym=0))
    for f in FAMS:
        for n, t in templates(f, deep):
            c, h = cost(f, n), hash_(f + n)
            if c > (10 if deep else 0.3) or size(t) > 3000:
                continue
            if not deep and f in ('cross', 'plain', 'gc', 'sizes', 'order', 'mut', 'control') and h % 3:
                continue
            cc = c * (6 if nsym(oth[ks[h % len(ks)]]) else 3)
            if not deep and cc > 1:
                continue
            add(f'{f}:{n}', t, ks[h % len(ks)], None if h % 2 else 8 + h % max(1, size(t) - 8), cc)
    return o


# ---------------------------------------------------------------- C28
def c28(deep):
    o = []
    for f in FAMS:
        for n, t in templates(f, deep):
            if any(isinstance(x, tuple) and x[0] == 'r' for x in t) or size(t) > 400 or cost(f, n) > (5 if deep else 0.5):
                continue
            at = [i for i, x in enumerate(t) if isinstance(x, tuple)]
            if len(at) > (6 if deep else 3):
                continue
            for i in at:
                o.append(J1(f'{f}:{n}@{i}', 'h_hint', [i], t, cost(f, n) * 4, secs=600 if deep else 60))
    # every byte of a module with everything in it
    r = fam.rich()
    for i, x in enumerate(r):
        if not isinstance(x, tuple):
            o.append(J1(f'rich@{i}', 'h_hint', [i], r[:i] + F(1) + r[i + 1:], 1))
    return o


# ---------------------------------------------------------------- C29
def c29(deep):
    o = []
    for f in FAMS:
        for n, t in templates(f, deep):
            if nsym(t) > (4 if deep else 3) or cost(f, n) > (1 if deep else 0.15) or size(t) > 3000 or (f == 'cross' and hash_(n) % 4 and not deep):
                continue
            o.append(J1(f'{f}:{n}', 'h_eq', [], t, cost(f, n) * 10, secs=600 if deep else 60))
    # the same parts in another order, or another number of them
    A, V = S((5, 7)), S((0x7D, 0x7F))
    fn = lambda c: mod(sec(3, [1, 0]), sec(10, [1] + fam.uleb(size(c)) + c))
    perm = {
        'locals': fn([3, 1] + V + [1] + V + [1] + V + [0x0B]), 'runs': fn([2] + S((0, 2)) + [0x7F] + S((0, 2)) + [0x7F, 0x0B]),
        'body': fn([0, 0x20] + A + [0x20] + A + S(0x01, 0x1A) + S(0x01, 0x1A) + [0x0B]), 'br_table': fn([0, 0x0E, 3] + A * 3 + A + [0x0B]),
        'select': fn([0, 0x1C, 3] + V * 3 + [0x0B]), 'catch': fn([0, 0x1F, 0x40, 2] + (S((0, 1)) + A + A) * 2 + [0x0B, 0x0B]),
        'arms': fn([0, 0x04, 0x40] + S(0x01, 0x1A) + [0x05] + S(0x01, 0x1A) + [0x0B, 0x0B]), 'empty.arm': fn([0, 0x04, 0x40, 0x01] + S(0x05, 0x01) + [0x01, 0x0B, 0x0B]),
        'nest': fn([0, 0x02, 0x40] + S(0x01, 0x0B) + S(0x01, 0x0B) + [0x02, 0x40, 0x0B] + S(0x0B, 0x01) + [0x0B]),
        'shuffle': fn([0, 0xFD, 13] + A * 3 + [5] * 13 + [0x0B]), 'v128': fn([0, 0xFD, 12] + A + [0] * 7 + A + [0] * 6 + A + [0x0B]),
        'params': mod(sec(1, [1, 0x60, 3] + V * 3 + [0])), 'results': mod(sec(1, [1, 0x60, 0, 3] + V * 3)), 'split': mod(sec(1, [1, 0x60] + S((0, 2)) + S(0x7F, 0, 1) + S(0x7F, 0, 1) + S(0x7F, 0, 1))),
        'fields': mod(sec(1, [1, 0x5F, 3] + (V + S((0, 1))) * 3)), 'supers': mod(sec(1, [1, 0x50, 3] + A * 3 + [0x60, 0, 0])), 'final': mod(sec(1, [1] + S(0x4F, 0x50) + [1] + A + [0x60, 0, 0])),
        'rec': mod(sec(1, [1, 0x4E, 2] + [0x60, 0, 1] + V + [0x60, 0, 1] + V)), 'types': mod(sec(1, [2] + [0x60, 0, 1] + V + [0x60, 0, 1] + V)),
        'imports': mod(sec(2, [2] + ([1] + S((0x61, 0x62)) + [1] + S((0x61, 0x62)) + [0] + A) * 2)), 'names': mod(sec(2, [1, 2] + S((0x61, 0x62)) * 2 + [2] + S((0x61, 0x62)) * 2 + [0, 7])),
        'exports': mod(sec(7, [2] + ([1] + S((0x61, 0x62)) + S((0, 1)) + A) * 2)), 'funcs': mod(sec(3, [3] + A * 3), sec(10, [3] + [2, 0, 0x0B] * 3)),
        'tables': mod(sec(4, [2] + ([0x70] + S((0, 1)) + [1] + A) [:3] + [0x70, 0] + A)), 'mems': mod(sec(5, [3] + ([0] + A) * 3)), 'limits': mod(sec(5, [1] + S(1, 5) + A + A)),
        'globals': mod(sec(6, [2] + ([0x7F] + S((0, 1)) + [0x41] + A + [0x0B]) * 2)), 'elem.fns': mod(sec(9, [1, 1, 0, 3] + A * 3)), 'elems': mod(sec(9, [2] + ([1, 0, 1] + A) * 2)),
        'elem.exprs': mod(sec(9, [1, 5, 0x70, 2] + ([0xD2] + A + [0x0B]) * 2)), 'elem.mode': mod(sec(9, [1] + S(1, 3) + [0, 2] + A * 2)), 'datas': mod(sec(11, [2] + ([1, 2] + A * 2) * 2)),
        'data': mod(sec(11, [1, 1, 4] + A * 4)), 'data.mode': mod(sec(11, [1] + S(0, 2) + S(0x41, 0) + S((5, 6)) + S(0x0B, 0x41) + [1, 7])), 'tags': mod(sec(13, [3] + ([0] + A) * 3)),
        'customs': mod(*[sec(0, [1] + S((0x61, 0x62)) + A) for _ in range(2)]), 'custom.split': mod(sec(0, S((0, 2)) + S((0x61, 0x62)) * 2)),
        'where': mod(sec(0, [1, 0x61]), S(0, 5) + [2] + S(0, 1) + [0], S(0, 5) + [2] + S(0, 1) + [0]), 'start': mod(S(8, 12) + [1, 0]), 'memarg': fn([0, 0x28] + S((0, 1), (0x40, 0x41)) + S((0, 1)) + S((0, 1)) + S(0x0B, 0x01) + [0x0B])[:],
    }
    for k, t in perm.items():
        o.append(J1(f'perm:{k}', 'h_eq', [], t, 1, secs=60))
    r = fam.rich()
    for i, x in enumerate(r):
        if not isinstance(x, tuple):
            o.append(J1(f'rich@{i}', 'h_eq', [], r[:i] + F(1) + r[i + 1:], 3))
    return o


# ---------------------------------------------------------------- C31
WPER, WFIX = 2000, 200000


def c31(deep):
    o = []
    for f in FAMS:
        # a run of locals is expanded, in as many steps as it is long
        o += jobs_tpl(f, deep, [WPER, WFIX], 'h_work', lambda n: not n.startswith(('big.run', 'locals.run', 'locals/', 'nlocals', 'locals.raw', 'raw')) if f == 'code' else not n.startswith(('10@', '3.', 'rich10@')) if f in ('mut', 'wide') else True)
    st = dict(steps=2000000000, secs=600 if deep else 120)

    def one(n, t, c=1.0):
        o.append(J1('big:' + n, 'h_work', [WPER, WFIX], t, c, **st))
    n = 50000
    fn = sec(3, [1, 0])
    for nm, op, mid in (('block', [0x02, 0x40], []), ('loop', [0x03, 0x40], []), ('if', [0x04, 0x40], []), ('else', [0x04, 0x40], [0x05])):
        d = 2000
        one('nest.' + nm, fam.body(R(op, d) + S(0x01, 0x0B) + (R(mid + [0x0B], d) + [0x0B] if mid else R([0x0B], d + 1))))
        one('open.' + nm, fam.body(R(op, d) + F(1)))
    one('nest.try', fam.body([0x1F, 0x40, 0] * 500 + F(1) + R([0x0B], 501)))
    one('name.ascii', mod(sec(0, uleb(n) + R([0x61], n - 1) + F(1))))
    one('name.two', mod(sec(7, [1] + uleb(n) + R([0xC3, 0xA9], n // 2 - 1) + F(2) + [0, 0])))
    one('name.three', mod(sec(2, [1] + uleb(3 * 5000) + [0xE2, 0x82, 0xAC] * 5000 + [0, 0] + F(1))))
    one('custom.long', mod(sec(0, [1] + F(1) + R([0], n))))
    one('custom.many', mod(*([sec(0, [0])] * 3000), sec(0, F(2))))
    one('custom.names', mod(*[sec(0, [2, 0x61 + i % 26, 0x61 + i // 26]) for i in range(676)], sec(0, F(2))))
    one('data.long', mod(sec(11, [1, 1] + uleb(n) + R([0], n - 1) + F(1))))
    one('data.many', mod(sec(11, uleb(n) + R([1, 0], n - 1) + F(2))))
    one('br_table', fam.body([0x41, 0, 0x0E] + uleb(n) + R([0], n) + F(1) + [0x0B]))
    one('exports', mod(sec(7, uleb(4000) + sum(([3, 0x61 + i % 26, 0x61 + i // 26 % 26, 0x61 + i // 676, 0, 0] for i in range(3999)), []) + [1] + F(3))))
    one('imports', mod(sec(2, uleb(4000) + [1, 0x61, 1, 0x62, 0, 0] * 3999 + [1, 0x61, 1] + F(3))))
    one('groups', mod(fn, sec(10, [1] + uleb(2 + 2 * 5000 + 2) + uleb(5000) + R([1, 0x7F], 4999) + F(2) + [0x0B, 0x0B])))
    n = 10000
    one('bodies', mod(sec(3, uleb(n) + R([0], n)), [10] + uleb(2 + 3 * n) + uleb(n) + [2, 0, 0x0B] * (n - 1) + [2, 0] + F(1)))
    # lists of elements that all differ
    m, m2 = 12000, 6400
    D = lambda pre, post=[]: sum((pre + [0x80 | i & 0x7F, i >> 7] + post for i in range(128, 128 + m)), [])
    bodyc = lambda c: fam.body(c + [0x0B])
    one('diff.br_table', bodyc([0x41, 0, 0x0E] + fam.uleb(m) + D([]) + F(1)))
    one('diff.locals', bodyc(D([0x20]) + [0x20] + F(1)))
    one('diff.calls', bodyc(D([0x10]) + [0x10] + F(1)))
    one('diff.consts', bodyc(D([0x41], [0x1A]) + [0x41] + F(1)))
    one('diff.memargs', bodyc([0x41, 0] + D([0x28, 0]) + [0x1A] + F(1)))
    one('diff.catch', bodyc([0x1F, 0x40] + fam.uleb(m) + D([2]) + [0x0B] + F(1)))
    one('diff.blocks', bodyc(D([0x02], [0x0B]) + [0x02] + F(1) + [0x0B]))
    one('diff.refs', bodyc(D([0xD2], [0x1A]) + F(1)))
    one('diff.funcs', mod(sec(3, fam.uleb(m + 1) + D([]) + F(1))))
    one('diff.elem', mod(sec(9, [1, 1, 0] + fam.uleb(m + 1) + D([]) + F(1))))
    one('diff.elems', mod(sec(9, fam.uleb(m + 1) + D([1, 0, 1]) + [1, 0, 1] + F(1))))
    one('diff.exprs', mod(sec(9, [1, 5, 0x70] + fam.uleb(m + 1) + D([0xD2], [0x0B]) + [0xD2] + F(1) + [0x0B])))
    one('diff.supers', mod(sec(1, [1, 0x50] + fam.uleb(m + 1) + D([]) + F(1) + [0x60, 0, 0])))
    one('diff.types', mod(sec(1, fam.uleb(m + 1) + D([0x60, 0, 1, 0x63]) + [0x60, 0, 1] + F(1))))
    one('diff.fields', mod(sec(1, [1, 0x5F] + fam.uleb(m + 1) + D([0x64], [0]) + [0x7F] + F(1))))
    one('diff.rec', mod(sec(1, [1, 0x4E] + fam.uleb(m + 1) + D([0x60, 0, 1, 0x63]) + [0x60, 0, 1] + F(1))))
    one('diff.params', mod(sec(1, [1, 0x60] + fam.uleb(m + 1) + D([0x63]) + F(1) + [0])))
    one('diff.results', mod(sec(1, [1, 0x60, 0] + fam.uleb(m + 1) + D([0x63]) + F(1))))
    one('diff.select', bodyc([0x1C] + fam.uleb(m) + D([0x63]) + F(1)))
    one('diff.groups', mod(fn, sec(10, [1] + fam.uleb(4 * m + 5) + fam.uleb(m + 1) + D([1, 0x63]) + F(2) + [0x0B])))
    one('diff.tables', mod(sec(4, fam.uleb(m + 1) + D([0x70, 0]) + [0x70, 0] + F(1))))
    one('diff.mems', mod(sec(5, fam.uleb(m + 1) + D([0]) + [0] + F(1))))
    one('diff.tags', mod(sec(13, fam.uleb(m + 1) + D([0]) + [0] + F(1))))
    one('diff.globals', mod(sec(6, fam.uleb(m + 1) + D([0x7F, 0, 0x41], [0x0B]) + [0x7F, 0, 0x41] + F(1) + [0x0B])))
    one('diff.datas', mod(sec(11, fam.uleb(m + 1) + sum(([1, 2, i & 0xFF, i >> 8] for i in range(m)), []) + [1, 1] + F(1))))
    one('diff.imports', mod(sec(2, fam.uleb(m + 1) + D([1, 0x61, 1, 0x62, 0]) + [1, 0x61, 1, 0x62] + F(2))))
    one('diff.import.names', mod(sec(2, fam.uleb(m2 + 1) + sum(([1, 0x61, 2, 0x21 + i % 80, 0x21 + i // 80, 0, 0] for i in range(m2)), []) + [1, 0x61, 1, 0x62] + F(2))))
    one('diff.import.mods', mod(sec(2, fam.uleb(m2 + 1) + sum(([2, 0x21 + i % 80, 0x21 + i // 80, 1, 0x62, 0, 0] for i in range(m2)), []) + [1, 0x61, 1, 0x62] + F(2))))
    one('diff.custom', mod(*[sec(0, [2, 0x21 + i % 80, 0x21 + i // 80]) for i in range(m2)], sec(0, F(2))))
    one('leb', fam.body((uleb_pad(0, 5)[:0] + [0x20] + uleb_pad(7, 5)) * 3000 + [0x20] + F(1) + [0x0B]))
    return o


PROPS = {
    'C01': decode('leb', CONTENT, (), ('wide',)),
    'C02': decode('types', TYPES, (1,)),
    'C03': decode('impexp', IMPORTS | EXPORTS, (2, 7)),
    'C04': decode('names', IMPORTS | EXPORTS | CUSTOM, (0,)),
    'C05': decode('defs', FUNCS | TABLES | MEMS | TAGS | GLOBALS | START, (3, 4, 5, 6, 8, 13)),
    'C06': decode('elems', ELEMS, (9,)),
    'C07': decode('datas', DATAS | DATACOUNT, (11, 12)),
    'C08': decode('code', FUNCS | LOCALS | BODIES, (10,), ('locals_limit',)),
    'C09': decode('plain', BODIES | GLOBALS, (10,)),
    'C10': decode('memory', BODIES | GLOBALS, (10,)),
    'C11': decode('vector', BODIES | GLOBALS, (10,)),
    'C12': decode('gc', BODIES | GLOBALS, (10,)),
    'C13': decode('control', BODIES | GLOBALS, (10,)),
    'C14': decode('sizes', ALL, ('hdr',)),
    'C15': decode('order', KINDS | HEADERS, ('hdr',)),
    'C16': decode('cross', FUNCS | DATACOUNT | DATAS | LOCALS | BODIES, (3, 10, 11, 12)),
    'C17': c17,
    'C18': c18,
    'C19': c19,
    'C20': c20,
    'C21': c21,
    'C22': every([ERR], 'h_tpl', BIGGEST),
    'C23': decode('headers', VERSION | KINDS | HEADERS | CUSTOM, ('pre', 'hdr', 0)),
    'C24': c24,
    'C25': lambda deep: every([0], 'h_render', BIGGEST)(deep) + every([1], 'h_render', 0.3, fams=FAMS, tag='#debug', only=(None if deep else lambda n: hash_(n) % 5 == 0))(deep),
    'C26': c26,
    'C27': c27,
    'C28': c28,
    'C29': c29,
    'C30': every([], 'h_where', BIGGEST),
    'C31': c31,
}


def jobs(prop, deep):
    js = PROPS[prop](deep)
    m = COSTS.get(prop, {})
    for j in js:
        j['cost'] = m.get(j['id'], j['cost'])
    ids = [j['id'] for j in js]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1][:5]
    js.sort(key=lambda j: -j['cost'])
    if not deep:
        left, out = BUDGET, []
        for j in reversed(js):
            if j.get('known') or j.get('always'):
                out.append(j)
            elif j['cost'] <= BIGGEST and left >= j['cost']:
                left -= j['cost']
                out.append(j)
        js = out[::-1]
    return js
