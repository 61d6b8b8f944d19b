"""Templates: lists of byte holes from which the harness builds its input.

An item is an int (literal byte), ('s', ranges) (a symbolic byte constrained to the ranges) or
('r', pattern, count) (a literal pattern of up to six bytes, repeated)."""

PRE = [0x00, 0x61, 0x73, 0x6D, 1, 0, 0, 0]
TERM = [0xFF << 56]


def S(*rs):
    """one symbolic byte within the given values/ranges"""
    return [('s', tuple((r, r) if isinstance(r, int) else r for r in rs))]


def F(n=1):
    """n unconstrained symbolic bytes"""
    return [('s', ((0, 255),))] * n


def R(pattern, count):
    return [('r', tuple(pattern), count)] if count else []


def size(t):
    return sum(len(x[1]) * x[2] if isinstance(x, tuple) and x[0] == 'r' else 1 for x in t)


def nsym(t):
    return sum(1 for x in t if isinstance(x, tuple) and x[0] == 's')


def uleb(v):
    o = []
    while True:
        b = v & 0x7F
        v >>= 7
        if v:
            o.append(b | 0x80)
        else:
            return o + [b]


def uleb_pad(v, n):
    """v in exactly n bytes"""
    o = []
    for i in range(n):
        o.append((v & 0x7F) | (0x80 if i < n - 1 else 0))
        v >>= 7
    return o


def L(n, last=((0x00, 0x7F),)):
    """a LEB128 integer of exactly n bytes with arbitrary payload"""
    return [('s', ((0x80, 0xFF),))] * (n - 1) + [('s', tuple(last))]


def toolong(n):
    """n bytes that all have the continuation bit set"""
    return [('s', ((0x80, 0xFF),))] * n


def shapes(mx):
    """every shape of a LEB128 integer of at most mx bytes: the legal lengths and one too long"""
    return [(f'{n}', L(n)) for n in range(1, mx + 1)] + [('x', toolong(mx))]


def vec(*elems):
    o = uleb(len(elems))
    for e in elems:
        o = o + list(e)
    return o


def sec(i, body):
    return [i] + uleb(size(body)) + body


def mod(*parts):
    o = list(PRE)
    for p in parts:
        o = o + p
    return o


def args(t):
    """the job arguments that encode the template"""
    out, run = [], []

    def flush():
        nonlocal run
        for i in range(0, len(run), 6):
            c = run[i:i + 6]
            v = 0
            for j, x in enumerate(c):
                v |= x << (8 * j)
            out.append((3 << 56) | (len(c) << 48) | v)
        run = []
    i = 0
    while i < len(t):
        x = t[i]
        if isinstance(x, int):
            assert 0 <= x <= 255
            run.append(x)
            i += 1
            continue
        flush()
        if x[0] == 'r':
            p = x[1]
            assert 1 <= len(p) <= 6
            out += [(5 << 56) | (len(p) << 48) | sum(b << (8 * j) for j, b in enumerate(p)), x[2]]
            i += 1
            continue
        if x[1] == ((0, 255),):
            n = 1
            while i + n < len(t) and t[i + n] == x:
                n += 1
            out.append((2 << 56) | n)
            i += n
            continue
        assert 1 <= len(x[1]) <= 3
        v = (1 << 56) | (len(x[1]) << 48)
        for k, (lo, hi) in enumerate(x[1]):
            assert 0 <= lo <= hi <= 255
            v |= (lo << (16 * k)) | (hi << (16 * k + 8))
        out.append(v)
        i += 1
    flush()
    return out


def show(t):
    """readable form, for evidence and DESIGN"""
    o, i = [], 0
    while i < len(t):
        x = t[i]
        if isinstance(x, int):
            o.append(f'{x:02x}')
        elif x[0] == 'r':
            o.append('(' + ''.join(f'{b:02x}' for b in x[1]) + f')*{x[2]}')
        else:
            n = 1
            while i + n < len(t) and t[i + n] == x:
                n += 1
            i += n - 1
            rs = '' if x[1] == ((0, 255),) else ':' + ','.join(f'{a:02x}' if a == b else f'{a:02x}-{b:02x}' for a, b in x[1])
            o.append(f'<{n}{rs}>')
        i += 1
    return ' '.join(o)
