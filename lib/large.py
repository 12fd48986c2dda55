"""Long operands: sizes at which an implementation might do something else than for short ones."""
import props
from props import *

SIZES = [15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300]

def size(g, top=300):
    return g.choice([s for s in SIZES if s <= top])

def long_map(g, t, top=300, most=None, hi=9):
    """A polynomial of degree size - 1, dense or with few terms."""
    if top >= 300 and g.random() < 0.06:
        # a few terms far apart
        n = g.choice([513, 1024, 1025, 2049, 4097])
        f = {d: g.nz(t, hi) for d in g.sample(range(n - 1), 5)}
        f[n - 1] = g.nz(t, hi)
        return f
    n = size(g, top)
    z = g.choice([0, 0, 0.1, 0.5, 0.9])
    if top >= 300 and not most and g.random() < 0.06:
        n, z = g.choice([513, 600, 1025, 1100]), 0
    f = {d: g.small(t, hi) for d in range(n) if g.random() >= z}
    f[n - 1] = g.nz(t, hi)
    f = {d: c for d, c in f.items() if c}
    if most and len(f) > most:
        keep = set(g.sample(sorted(f), most - 1)) | {n - 1}
        f = {d: c for d, c in f.items() if d in keep}
    return f

def spell(g, k, f):
    """A representation, with stored zeros."""
    if k == 'D':
        n = max(f) + 1 if f else 0
        pad = g.choice([0, 0, 1, 3, 16, 64, 100])
        if g.random() < 0.08:
            pad = g.choice([255, 256, 1023, 1024, 1025, 1100, 2050, 4099])
        return [0] * pad + [f.get(n - 1 - i, 0) for i in range(n)]
    s = dict(f)
    for _ in range(g.choice([0, 0, 3, 40])):
        s.setdefault(g.randint(0, 400), 0)
    return [(c, d) for d, c in sorted(s.items())]

def put(g, h, r, k, f):
    h.put(r, k, spell(g, k, f), 'lit' if g.random() < 0.7 else 'new')

def ring_types(n):
    ts = ['i32', 'gf', 'f64', 'i64', 'i128', 'f32', 'isize', 'i16']
    return [ts[i % len(ts)] for i in range(n)]

def c01(g, n):
    hs = []
    for i, t in enumerate(ring_types(n)):
        if i % 5 == 4:
            t = g.choice(['u8', 'u16', 'u32', 'u64', 'u128', 'usize'])
        k = g.choice('DS')
        h = Hist(t)
        a, b = long_map(g, t), long_map(g, t)
        r = g.random()
        if r < 0.5 and not is_unsigned(t):
            # the upper part cancels
            cut = g.randint(0, max(a))
            m = (lambda c: GF - c) if t == 'gf' else (lambda c: -c)
            b = {d: m(c) for d, c in a.items() if d >= cut}
            b.update({d: g.small(t) for d in range(min(cut, 3))})
            b = {d: c for d, c in b.items() if c}
        put(g, h, 1, k, a)
        put(g, h, 2, k, b)
        for f in ADD_FORMS[k]:
            h.bin('add', f, 1, 2, 3)
        h.bin('add', 'op', 2, 1, 4)
        if not is_unsigned(t):
            for f in SUB_FORMS[k]:
                h.bin('sub', f, 1, 2, 5)
            h.neg(1, 6)
            h.bin('sub', 'op', 3, 2, 7)
            if k == 'S':
                put(g, h, 8, 'D', b)
                h.bin('sub', 'op', 1, 8, 7)
        hs.append(h)
    return hs

def c02(g, n):
    hs = []
    for i, t in enumerate(ring_types(n)):
        h = Hist(t)
        h.need = 13
        r = g.random()
        if i % 6 == 5:
            # both operands long
            k = g.choice('DDS')
            t = h.t = g.choice(['gf', 'i64', 'i128', 'f64'])
            both = [64, 65, 100, 127, 128, 129, 160, 200] + ([255, 256, 257, 300] if k == 'D' else [])
            x = g.choice(both)
            y = g.choice([m for m in both if m <= 160 or x <= 160])
            if k == 'D' and i == 5:
                x, y = g.choice([512, 513]), g.choice([512, 513])
            f = [{d: g.nz(t, 5) for d in range(m) if d == m - 1 or g.random() < 0.9} for m in (x, y)]
            put(g, h, 1, k, f[0])
            put(g, h, 2, k, f[1])
            for form in g.sample(MUL_FORMS[k], 2):
                h.bin('mul', form, 1, 2, 3)
            if g.random() < 0.3 and min(x, y) < 200:
                h.bin('mul', 'rr', *([1, 1] if x < y else [2, 2]), 4)
        elif r < 0.6:
            k = g.choice('DDS')
            if t == 'i16':
                t = h.t = 'i32'
            a = long_map(g, t, 260, 100 if k == 'S' else None, 5)
            b = long_map(g, t, max(17, 6000 // (max(a) + 1)), 60 if k == 'S' else None, 5)
            if g.random() < 0.2:
                b = {g.choice([0, 1, 2, 64]): g.nz(t)}
            if g.random() < 0.2 and not is_unsigned(t) and t != 'gf':
                m = size(g, 129)
                a = {d: 1 for d in range(m)}
                b = {1: 1, 0: -1}
            x, y = g.sample([1, 2], 2)
            put(g, h, x, k, a)
            put(g, h, y, k, b)
            for f in MUL_FORMS[k]:
                h.bin('mul', f, 1, 2, 3)
            c = g.nz(t)
            for f in ('op', 'as'):
                h.scal('smul', f, 1, c, 5)
            c = g.nz(t) if not is_float(t) else g.choice([1, -1, 2, -4])
            for f in ('op', 'as'):
                h.scal('sdiv', f, 1, c, 6)
        elif r < 0.8:
            k = g.choice('DS')
            t = h.t = g.choice(['gf', 'i128', 'f64'])
            a = {1: 1, 0: 1 if t == 'gf' else g.choice([1, -1])}
            if g.random() < 0.3:
                a = {2: 1, 0: 1}
            put(g, h, 1, k, a)
            for e in g.sample([18, 23, 24, 31, 32, 33, 40, 45, 48], 3):
                h.pow(1, e, 2)
            if t == 'gf':
                h.pow(1, g.choice([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]), 2)
            if t == 'i128':
                h.pow(1, g.choice([63, 64, 65, 99, 100, 124]), 2)
        else:
            # powers of a single term: any exponent
            k = g.choice('MMS') if t != 'gf' else 'S'
            c = g.choice([1, -1]) if t != 'gf' else 1
            d = g.choice([0, 1, 2, 3, 5, 2**20])
            h.put(1, k, [(c, d)])
            for e in g.sample([18, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 1023, 2**16 - 1, 2**16, 2**16 + 1, 2**20 + 1, 2**31 - 1], 6):
                if t != 'gf' or d * e < 2**31:
                    h.pow(1, e, 2)
            if t != 'gf':
                # exponents beyond 32 bits
                huge = [2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**33 + 1, 2**40 + 1, 2**48, 2**63, 2**64 - 1]
                for e in g.sample(huge, 4):
                    h.pow(1, e, 5)
                h.put(6, 'D', [0] * g.pad() + [c])
                h.pow(6, g.choice(huge), 7)
                h.put(6, g.choice('DS'), [])
                h.pow(6, g.choice(huge), 7)
                h.put(6, 'M', [(0, 0)])
                h.pow(6, g.choice(huge), 7)
            if k == 'M' and is_int(t):
                h.put(3, 'M', [(2, 1)])
                h.pow(3, g.choice([2**31, 2**32, 2**32 + 1, 2**33 + 2]), 4)
                top = INT_TYPES[t][1].bit_length()
                for e in (top - 2, top - 1, top):
                    h.pow(3, e, 4)
        hs.append(h)
    return hs

def c03(g, n):
    hs = []
    ts = ['gf', 'i64', 'i128', 'gf', 'i32', 'f64']
    for i in range(n):
        t = ts[i % len(ts)]
        k = g.choice('DS')
        h = Hist(t)
        p = GF if t == 'gf' else None
        hi = 3 if t != 'gf' else 96
        nb = g.choice([1, 2, 3, 5, 16, 17, 33, 64, 65, 128, 129, 257])
        nq = g.choice([1, 2, 16, 17, 33, 64, 65, 100, 129, 257] if nb < 6 else
                      [1, 2, 16, 17, 33, 64, 65, 100] if nb < 20 else [1, 2, 16, 17, 33] if nb < 70 else [1, 2, 5])
        b = {d: g.small(t, hi) for d in range(nb - 1) if g.random() < 0.7}
        b[nb - 1] = g.nz(t) if t == 'gf' else g.choice([1, -1])
        q = {d: g.small(t, hi) for d in range(nq - 1) if g.random() < g.choice([0.1, 0.8])}
        q[nq - 1] = g.nz(t, hi)
        b, q = ({d: c for d, c in f.items() if c} for f in (b, q))
        a = pmul(b, q, p)
        if max(b) > 0 and g.random() < 0.7:
            r = {d: g.small(t, hi) for d in range(max(b)) if g.random() < 0.6}
            a = padd(a, {d: c for d, c in r.items() if c}, p)
        if t == 'f64':
            h.rel = 40
            h.need = 65
        put(g, h, 1, k, a)
        put(g, h, 2, k, b)
        h.div(1, 2, 3, 4)
        if k == 'D':
            h.asdiv('quo', 1, 2, 3, 5)
        h.asdiv('rem', 1, 2, 4, 6)
        h.asdiv('remas', 1, 2, 4, 7)
        if t == 'gf':
            h.div(2, 1, 5, 6)
        hs.append(h)
    return hs

def c04(g, n):
    hs = []
    for i, t in enumerate(ring_types(n)):
        k = g.choice('DDS') if t != 'gf' else 'D'
        h = Hist(t)
        a = long_map(g, t, hi=9 if t == 'gf' else 3)
        put(g, h, 1, k, a)
        pts = [0, 1] + ([g.randrange(GF) for _ in range(4)] if t == 'gf' else [-1])
        for x in pts:
            h.eval(1, x)
        if t in ('i128', 'i64'):
            # powers up to the limit of the type
            m = 120 if t == 'i128' else 58
            f = {d: g.small(t, 1) for d in range(g.choice([m, m - 1, m // 2, 17, 33]))}
            h.put(2, k, spell(g, k, {d: c for d, c in f.items() if c}))
            h.eval(2, 2)
            h.eval(2, -2)
        if is_float(t):
            m = FLOATS[t] - 4
            f = {d: g.small(t, 1) for d in range(g.choice([m, m - 1, m // 2, 17]))}
            h.need = 80
            h.put(2, k, spell(g, k, {d: c for d, c in f.items() if c}))
            h.eval(2, 2)
            h.eval(2, Fraction(-1, 2))
        hs.append(h)
    return hs

def c05(g, n):
    hs = []
    for i in range(n):
        t = ['i32', 'f64', 'i64', 'u32', 'f32', 'i128', 'u64', 'i16'][i % 8]
        k = g.choice('DS')
        h = Hist(t)
        a = long_map(g, t)
        put(g, h, 1, k, a)
        h.der(1, 2)
        h.der(2, 3)
        hs.append(h)
    return hs

def c06(g, n):
    hs = []
    for i in range(n):
        t = ['i32', 'f64', 'i64', 'u32', 'f32', 'i128', 'u64', 'i16'][i % 8]
        k = g.choice('DS')
        h = Hist(t)
        if is_float(t):
            h.rel = 40 if t == 'f64' else 14
            h.need = 65
        a = long_map(g, t)
        if g.random() < 0.5:
            m = 30000 if t == 'i16' else 10**6
            a = {d: c * (d + 1) for d, c in a.items() if abs(c * (d + 1)) < m}
        put(g, h, 1, k, a)
        h.integ(1, 2)
        h.area(1, 2, 0, 1)
        h.area(1, 2, 1, 0)
        h.repc(1, 2, g.small(t), 3)
        hs.append(h)
    return hs

def c07(g, n):
    hs = []
    for i, t in enumerate(ring_types(n)):
        k = g.choice('DS')
        h = Hist(t)
        a = long_map(g, t) if g.random() < 0.9 else {}
        put(g, h, 1, k, a)
        put(g, h, 2, k, a)
        c = dict(a)
        if c and g.random() < 0.7:
            del c[g.choice(sorted(c))]
        else:
            c[g.choice([0, 1, 63, 64, 255, 256, 299, 301])] = g.nz(t)
        put(g, h, 3, k, c)
        for r in (1, 2, 3):
            h.obs(r, sorted({0, 1, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, g.randint(0, 300), max(list(a) + [0])}))
        h.eq(1, 2).eq(1, 3).eq(3, 2).eq(2, 1).eq(1, 1)
        if k == 'D':
            h.trim(1)
            h.raw_len(1)
            h.eq(1, 2).eq(3, 1)
            h.put(4, 'D', spell(g, 'D', a), g.choice(['new', 'from']))
            h.raw_len(4)
        h.setz(2)
        h.eq(1, 2)
        h.obs(2, [0, 64, 256])
        hs.append(h)
    return hs

def c08(g, n):
    hs = []
    for i, t in enumerate(ring_types(n)):
        k = g.choice('DDS')
        h = Hist(t)
        a = long_map(g, t) if g.random() < 0.9 else {0: 1}
        put(g, h, 1, k, a)
        low = min(a)
        for _ in range(4):
            m = g.choice(SIZES + [max(a), max(a) + 1, low, low + 1, 500])
            o = g.choice(['shl', 'shr'])
            s = g.choice([m, -m])
            for f in ('op', 'as'):
                h.shift(o, f, 1, s, 2)
            h.shift(o, g.choice(['op', 'as']), 2, -s, 3)
        hs.append(h)
    return hs

def c09(g, n):
    hs = []
    for i in range(n):
        t = ['i32', 'f64', 'u16', 'i64', 'f32', 'u64', 'i128'][i % 7]
        k = g.choice('DS')
        h = Hist(t)
        h.need = 13
        a = long_map(g, t, most=60)
        put(g, h, 1, k, a)
        for _ in range(6):
            d = g.choice(SIZES + sorted(a)[:3] + [max(a), max(a) + 1, 600])
            o = g.choice(['tadd', 'tsub', 'aterm'])
            h.term(o, 1, g.choice([g.small(t), a.get(d, 1)]), d)
        ts = [(g.small(t), g.choice(SIZES + [0, 1, 2])) for _ in range(g.choice([20, 40, 66]))]
        h.fterms(k, 2, ts)
        kk = g.choice('DS')
        put(g, h, 3, kk, long_map(g, t, 129, 40))
        h.polyto(g.choice(['addp', 'subp']), g.choice(['fn', 'mac']), 3, 1)
        h.pmac(g.choice(['padd', 'psub']), 1, 3, 4)
        h.polyto('addp', 'fn', 3, 2)
        hs.append(h)
    return hs

def c10(g, n):
    hs = []
    for i in range(n):
        t = ['i32', 'f64', 'u16', 'i64', 'f32', 'u64', 'i128', 'u128', 'i8'][i % 9]
        h = Hist(t)
        h.big = True
        h.need = 52
        k = g.choice('DS')
        seen = {}
        s = ''
        for _ in range(g.choice([17, 33, 64, 100])):
            d = g.choice([g.randint(0, 300), g.choice(SIZES), 0, 1])
            c = g.small(t, 9)
            if seen.get(d, 0) + abs(c) > 100:
                continue
            seen[d] = seen.get(d, 0) + abs(c)
            x = spell_term(g, t, c, d, not s)
            s += g.choice(['', '', ' ']) + x
        h.parse(k, 1, s)
        # long numbers
        z = '0' * g.choice([5, 20, 40, 100])
        v = g.choice([0, 1, 7, INT_TYPES[t][1] if is_int(t) else 64])
        sep = g.choice(['', ' ', '_', ','])
        h.parse(g.choice('DSM'), 2, '%s%s%dx^%s%d' % (z, sep, v, z, g.randint(0, 9)))
        h.parse(g.choice('DSMLQ'), 3, ' ' * g.choice([10, 64, 200]) + str(v))
        h.parse(g.choice('SM'), 4, '%d0%sx' % (max(v, 1), z) if is_int(t) else 'x^1' + z)
        if i == 0:
            h.parse(g.choice('DS'), 5, '7' + ' + x' * 18000)
        if i % 12 == 0:
            # texts longer than 8- and 16-bit positions
            m = g.choice([250, 1000, 4090, 65520]) + g.randint(0, 30)
            s = g.choice([' ' * m + '5x', '5x' + ' ' * m + '^2', '5' + '_' * m + '3', '0' * m + '7x^2 + 3', '7x^' + '0' * m + '2 + 3x',
                          '7' + ' + x' * (m // 4 % 25000), '3x^2 + ' + ',' * m + '5q', '1 +' + ' ' * m + '+2', '3x^' + ' ' * m + '^2', '+ ' * (m // 2), '-' + ' ' * m + 'x'])
            h.parse(g.choice('DS'), 5, s)
            h.parse(g.choice('MLQ'), 6, s)
            h.term_text(s)
        hs.append(h)
    return hs

def c11(g, n):
    hs = []
    for i in range(n):
        t = ['i32', 'f64', 'u16', 'i64', 'f32', 'u64', 'i128', 'u128', 'i8'][i % 9]
        h = Hist(t)
        h.big = True
        h.need = 26
        k = g.choice('DS')
        put(g, h, 1, k, long_map(g, t, most=100))
        h.disp(1)
        h.rt(1, 2)
        h.eq(1, 2)
        hs.append(h)
    return hs

def c14(g, n):
    """The operands of a few steps are long."""
    hs = []
    for i, t in enumerate(ring_types(n)):
        if t == 'i16':
            t = 'i64'
        k = g.choice('DS')
        h = Hist(t)
        hi = 9 if t == 'gf' else 2
        for r in (1, 2, 3):
            put(g, h, r, k, long_map(g, t, 66, 30, hi))
        for _ in range(8):
            o = g.choice(['add', 'sub', 'shl', 'shr', 'neg', 'smul', 'aterm', 'setz'] + (['trim', 'trim'] if k == 'D' else []))
            a, b = g.choice([1, 2, 3]), g.choice([1, 2, 3])
            if o in ('add', 'sub'):
                h.bin(o, g.choice({'add': ADD_FORMS, 'sub': SUB_FORMS}[o][k]), a, b, a)
            elif o in ('shl', 'shr'):
                h.shift(o, g.choice(['op', 'as']), a, g.choice([-64, -17, -1, 1, 3, 16, 33, 64, 65]), a)
            elif o == 'neg':
                h.neg(a, a)
            elif o == 'smul':
                h.scal('smul', g.choice(['op', 'as']), a, g.choice([0, 1, 2]), a)
            elif o == 'aterm':
                h.term('aterm', a, g.nz(t), g.choice(SIZES[:12]))
            elif o == 'setz':
                if g.random() < 0.3:
                    h.setz(a)
            else:
                h.trim(a)
                h.raw_len(a)
            h.obs(a, [0, 16, 63, 64, 65])
        h.eq(1, 2).eq(2, 3)
        hs.append(h)
    return hs

def c16(g, n):
    return props.c16(g, n, [17, 33, 65, 65, 12, 128, 128, 256, 300])

# ---- degrees up to the largest usize ----------------------------------------------------------
TOPS = [2**63 - 2, 2**63 - 1, 2**63, 2**63 + 1, USIZE - 2, USIZE - 1, USIZE]
WIDE_T = ['i32', 'f64', 'u64', 'i128', 'u8', 'f32', 'i64', 'u128', 'usize', 'i16', 'isize', 'u16', 'i8', 'u32']

def high(g, t, k, hi=9):
    """A sparse polynomial or monomial with terms at the highest degrees; stored zeros only at low ones."""
    ds = g.sample(TOPS, g.choice([1, 1, 2, 3])) + g.sample([0, 1, 2, 5, 2**32], g.choice([0, 1, 2]))
    a = [(g.nz(t, hi), d) for d in sorted(ds)]
    if k == 'M':
        return [a[-1]]
    if g.random() < 0.3:
        a.append((0, 3))
    return sorted(a, key=lambda x: x[1])

def topped(g, n, each, ts=WIDE_T):
    hs = []
    for i in range(n):
        t = ts[i % len(ts)]
        h = Hist(t)
        h.big = True
        h.need = 13
        k = g.choice('SSM')
        h.put(1, k, high(g, t, k))
        each(h, t, k)
        hs.append(h)
    return hs

def t01(g, n):
    def each(h, t, k):
        if k == 'M':
            if not is_unsigned(t):
                h.neg(1, 2)
            return
        h.put(2, k, high(g, t, k))
        for f in ADD_FORMS[k]:
            h.bin('add', f, 1, 2, 3)
        if not is_unsigned(t):
            for f in SUB_FORMS[k]:
                h.bin('sub', f, 1, 2, 3)
            h.neg(1, 3)
            h.bin('add', 'op', 1, 3, 4)
    return topped(g, n, each)

def t02(g, n):
    def each(h, t, k):
        h.put(2, k, [(g.nz(t), d) for d in sorted(g.sample([0, 1, 2, 3], 1 if k == 'M' else 2))])
        h.put(3, k, [(g.nz(t), 2**63)])
        for x, y in ((1, 2), (2, 1), (1, 3)):
            for f in MUL_FORMS[k]:
                h.bin('mul', f, x, y, 4)
        h.pow(1, 2, 4)
        h.put(3, k, [(1, 2**21 - 1)])
        h.pow(3, 3, 4)
        h.put(3, k, [(1, (2**64 - 1) // 3)])
        h.pow(3, 3, 4)
        h.scal('smul', 'op', 1, 2, 4)
        h.scal('sdiv', 'as', 1, 2, 4)
    return topped(g, n, each)

def t03(g, n):
    def each(h, t, k):
        top = g.choice(TOPS)
        q = {g.choice([0, 1, 2, 7]): g.nz(t, 3)}
        b = {top - 9 - g.randint(0, 3): g.choice([1, -1]), g.choice([0, 1, 5, 2**33]): g.nz(t, 3)}
        if g.random() < 0.3:
            b = {max(b): 1}
        a = pmul(b, q)
        if g.random() < 0.7:
            a = padd(a, {g.choice([0, 3, 2**32, 2**62]): g.nz(t, 3)})
        h.put(1, 'S', sorted(((c, d) for d, c in a.items()), key=lambda x: x[1]))
        h.put(2, 'S', sorted(((c, d) for d, c in b.items()), key=lambda x: x[1]))
        h.div(1, 2, 3, 4)
        h.asdiv('rem', 1, 2, 4, 6)
        h.asdiv('remas', 1, 2, 4, 7)
        if t != 'f64':
            h.div(2, 1, 3, 4)
    return topped(g, n, each, ['i64', 'i128', 'i32', 'f64'])

def t04(g, n):
    def each(h, t, k):
        for x in [0, 1] + ([-1] if not is_unsigned(t) else []):
            h.eval(1, x)
    return topped(g, n, each)

def t05(g, n):
    def each(h, t, k):
        h.put(1, k, [(1 if c else 0, d) for c, d in high(g, t, k)])
        h.der(1, 2)
    return topped(g, n, each, [t for t in WIDE_T if 'size' not in t])

def t06(g, n):
    def each(h, t, k):
        h.integ(1, 2)
    return topped(g, n, each, [t for t in WIDE_T if 'size' not in t and t[0] != 'f'])

def t07(g, n):
    def each(h, t, k):
        look = [0, 1, 2**32, 2**63 - 1, 2**63, USIZE - 1, USIZE]
        h.obs(1, look)
        h.clone(1, 2)
        h.eq(1, 2)
        h.put(2, k, high(g, t, k))
        h.eq(1, 2).eq(2, 1)
        for j, kk in enumerate('DLQM'):
            h.put(3 + j, kk, g.value(t, kk, 'int', 'small', 6))
            h.obs(3 + j, look)
        h.setz(1)
        h.obs(1, look)
    return topped(g, n, each)

def t08(g, n):
    def each(h, t, k):
        for o in ('shl', 'shr'):
            for f in ('op', 'as'):
                for m in g.sample([0, 1, -1, 2, -2, 2**31 - 1, 1 - 2**31, 2**16], 3):
                    h.shift(o, f, 1, m, 2)
    return topped(g, n, each)

def t09(g, n):
    def each(h, t, k):
        for _ in range(4):
            h.term(g.choice(['tadd', 'tsub'] + (['aterm'] if k == 'S' else [])), 1, g.small(t), g.choice(TOPS + [0, 5]))
        for j, kk in enumerate('LQ'):
            h.put(2 + j, kk, g.value(t, kk, 'int'))
            for d in (USIZE, USIZE - 1, 2**63, 2**32, 2**32 + 1):
                h.term(g.choice(['tadd', 'tsub']), 2 + j, g.small(t), d)
        h.polyto('addp', 'fn', 1, 2)
        h.put(4, 'S', high(g, t, 'S'))
        h.polyto(g.choice(['addp', 'subp']), 'fn', 1, 4)
    return topped(g, n, each)

def t10(g, n):
    def each(h, t, k):
        h.need = 52
        s = ''
        ts = high(g, t, 'S')
        g.shuffle(ts)
        for c, d in ts:
            s += g.choice(['', ' ']) + spell_term(g, t, c, d, not s)
        h.parse('S', 2, s)
        h.parse('M', 3, spell_term(g, t, g.nz(t), g.choice(TOPS), True))
        d = g.choice(TOPS + [USIZE + 1, USIZE + 2, 2**65, 10**20])
        h.parse(g.choice('SMLQ'), 4, '%dx^%d' % (g.randint(1, 9), d))
        h.term_text('%dx^%d' % (g.randint(1, 9), d))
    return topped(g, n, each)

def t11(g, n):
    def each(h, t, k):
        h.need = 26
        h.disp(1)
        h.rt(1, 2)
        h.eq(1, 2)
        if k == 'S' and g.random() < 0.5:
            # every term but the first is a trailing one
            h.put(3, 'S', [(c, d) for c, d in high(g, t, k) if d < USIZE] + [(g.nz(t), USIZE)])
            h.disp(3)
            h.rt(3, 4)
    return topped(g, n, each)

def t12(g, n):
    def each(h, t, k):
        h.put(1, 'M', high(g, t, 'M'))
        h.root(1)
    return topped(g, n, each, [t for t in WIDE_T if t != 'usize'])

def t14(g, n):
    def each(h, t, k):
        # below the very top, so that no stored zero can be raised beyond it
        tops = [2**62, 2**63 - 1, 2**63, 2**63 + 1, 2**63 + 2**62]
        down = lambda a: sorted({d: (c, d) for c, d in ((c, g.choice(tops) if d > 2**40 else d) for c, d in a)}.values(), key=lambda x: x[1])
        h.put(1, k, down(high(g, t, k)))
        h.put(2, k, down(high(g, t, k)))
        h.put(3, k, [(g.nz(t, 3), g.choice([0, 1, 2, 7]))])
        for _ in range(10):
            a, b = g.choice([1, 2]), g.choice([1, 2])
            o = g.choice(['tadd', 'tsub', 'shl', 'shr', 'smul', 'mul', 'setz', 'clone', 'der'] + (['add', 'sub', 'neg'] if k == 'S' else []))
            if is_unsigned(t) and o in ('sub', 'neg', 'tsub'):
                o = 'tadd'
            if is_float(t) and o == 'der' or 'size' in t and o == 'der':
                o = 'shr'
            if o in ('tadd', 'tsub'):
                h.term(o, a, g.small(t, 3), g.choice(tops + [0, 1]))
            elif o in ('add', 'sub'):
                h.bin(o, g.choice({'add': ADD_FORMS, 'sub': SUB_FORMS}[o][k]), a, b, a)
            elif o == 'mul':
                h.bin(o, g.choice(MUL_FORMS[k]), a, 3, a)
            elif o in ('shl', 'shr'):
                h.shift(o, g.choice(['op', 'as']), a, g.choice([-3, -1, 0, 1, 2, 5, 2**31 - 1]), a)
            elif o == 'smul':
                h.scal('smul', g.choice(['op', 'as']), a, g.choice([1, 1, 2]), a)
            elif o == 'neg':
                h.neg(a, a)
            elif o == 'setz':
                if g.random() < 0.2:
                    h.setz(a)
            elif o == 'clone':
                h.clone(a, b)
            elif o == 'der':
                h.der(a, b)
            h.obs(a, [0, 1] + tops + [USIZE])
    return topped(g, n, each, ['i64', 'i128', 'f64', 'i32', 'u64', 'isize'])

def t15(g, n):
    def each(h, t, k):
        for u in WIDER[t]:
            h.conv(u, 1, [0, 1, 2**32, 2**63 - 1, 2**63, USIZE - 1, USIZE])
    return topped(g, n, each, [t for t in WIDE_T if WIDER.get(t)])

# ---- coefficients among which products of non-zero values can be zero ----------------------------
def ring(g, n):
    """Residues modulo 12: leading terms vanish from products, powers and scaled polynomials."""
    hs = []
    pick = lambda: g.choice([0, 1, 2, 3, 4, 6, 6, 8, 9, 11, g.randrange(RING)])
    for i in range(n):
        h = Hist('ring')
        k = 'DDSSMLQ'[i % 7]
        def val(most=5):
            if k == 'D':
                return [0] * g.choice([0, 0, 1, 3]) + [pick() for _ in range(g.randint(0, most))]
            if k == 'S':
                return [(pick(), d) for d in sorted(g.sample(range(9), g.randint(0, most)))]
            if k == 'M':
                return [(pick(), g.randint(0, 5))]
            return [pick() for _ in range(2 if k == 'L' else 3)]
        for r in (1, 2, 3):
            h.put(r, k, val())
        for _ in range(12):
            a, b, d = g.choice([1, 2, 3]), g.choice([1, 2, 3]), g.choice([1, 2, 3, 4])
            o = g.choice(['smul', 'neg', 'obs', 'eq', 'clone', 'put'] + (['add', 'sub'] if k != 'M' else []) + (['mul', 'mul', 'shl', 'shr', 'put'] if k in 'DSM' else [])
                         + (['pow', 'aterm', 'fterms'] if k in 'DS' else []) + (['eval'] if k in 'DLQ' else []) + (['trim'] if k == 'D' else []))
            if o in ('add', 'sub'):
                h.bin(o, g.choice({'add': ADD_FORMS, 'sub': SUB_FORMS}[o][k]), a, b, d)
            elif o == 'mul':
                # squares of what has grown would grow without end
                h.put(b, k, val(3))
                h.bin(o, g.choice(MUL_FORMS[k]), a, b, d)
            elif o == 'pow':
                h.put(a, k, val(3))
                h.pow(a, g.randint(0, 6), d)
            elif o == 'smul':
                h.scal(o, g.choice(['op', 'as']), a, pick(), d)
            elif o in ('shl', 'shr'):
                h.shift(o, g.choice(['op', 'as']), a, g.choice([-3, -1, 0, 1, 2, 4]), d)
            elif o == 'aterm':
                h.term('aterm', a, pick(), g.randint(0, 9))
            elif o == 'fterms':
                h.fterms(k, d, [(pick(), g.randint(0, 6)) for _ in range(g.randint(0, 6))])
            elif o == 'eval':
                h.eval(a, pick())
            elif o == 'neg':
                h.neg(a, d)
            elif o == 'obs':
                h.obs(a, [0, 1, 2, 3, 5])
            elif o == 'eq':
                h.eq(a, b)
            elif o == 'trim':
                h.trim(a)
            elif o == 'put':
                h.put(a, k, val())
            else:
                h.clone(a, d)
        hs.append(h)
    return hs

# ---- dense polynomials longer than 16-bit indices -------------------------------------------------
FAR = [2**16 - 1, 2**16, 2**16 + 1, 70001, 2**17 - 1, 2**17, 2**17 + 1, 200001]

def far_map(g, t, hi=3, tops=FAR):
    f = {d: g.nz(t, hi) for d in g.sample([0, 1, 2, 255, 256, 32767, 65534, 65535, 65536, 65537], g.choice([0, 1, 2, 4]))}
    top = g.choice(tops)
    f = {d: c for d, c in f.items() if d < top}
    f[top] = g.nz(t, hi)
    return f

def far_put(g, h, r, t, f, pad=True):
    ts = [(c, d) for d, c in f.items()]
    g.shuffle(ts)
    h.fterms('D', r, ts)
    if pad and g.random() < 0.4:
        # leading zeros stay stored
        d = max(f, default=0) + g.choice([1, 2, 255, 65535, 65536, 65537])
        h.term('tadd', r, 1, d)
        h.term('tsub', r, 1, d)

def far(g, n, each, ts):
    hs = []
    for i in range(n):
        t = ts[i % len(ts)]
        h = Hist(t)
        h.need = 13
        f = far_map(g, t)
        far_put(g, h, 1, t, f)
        each(h, t, f)
        hs.append(h)
    return hs

def w01(g, n):
    def each(h, t, f):
        b = far_map(g, t) if g.random() < 0.6 else {g.choice([0, 1, 3]): g.nz(t)}
        far_put(g, h, 2, t, b)
        for x, y in ((1, 2), (2, 1)):
            for form in ADD_FORMS['D']:
                h.bin('add', form, x, y, 3)
            if not is_unsigned(t):
                for form in SUB_FORMS['D']:
                    h.bin('sub', form, x, y, 4)
        if not is_unsigned(t):
            h.neg(1, 5)
            h.put(6, 'S', [(1, 0), (1, 65536)])
            h.bin('sub', 'op', 6, 1, 7)
    return far(g, n, each, ['i32', 'f64', 'u16', 'i64', 'i8'])

def w02(g, n):
    # No product here takes long, even if every pair of stored coefficients is multiplied.
    def each(h, t, f):
        if g.random() < 0.1:
            f = far_map(g, t, tops=[32768, 32769, 33000])
            far_put(g, h, 1, t, f, pad=False)
            far_put(g, h, 2, t, far_map(g, t, tops=[32766, 32767, 32768, 33001]), pad=False)
            h.pow(1, 2, 3)
        else:
            far_put(g, h, 2, t, {d: g.nz(t, 3) for d in g.sample([0, 1, 2, 255, 256], 2)}, pad=False)
        for x, y in ((1, 2), (2, 1)):
            h.bin('mul', g.choice(MUL_FORMS['D']), x, y, 3)
        h.pow(1, 1, 3)
        h.scal('smul', g.choice(['op', 'as']), 1, 2, 3)
        h.scal('sdiv', g.choice(['op', 'as']), 1, 2, 3)
    return far(g, n, each, ['i32', 'f64', 'u16', 'i64'])

def w03(g, n):
    def each(h, t, f):
        b = {max(f) - g.choice([0, 1, 5]): g.choice([1, -1]), g.choice([0, 1, 300]): g.nz(t, 2)}
        q = {g.choice([0, 1, 2]): g.nz(t, 2), 0: g.nz(t, 2)}
        a = padd(pmul(b, q), {g.choice([0, 7, 65000]): g.nz(t, 2)})
        far_put(g, h, 1, t, a)
        far_put(g, h, 2, t, b)
        h.div(1, 2, 3, 4)
        h.asdiv('quo', 1, 2, 3, 5)
        h.asdiv('rem', 1, 2, 4, 6)
        h.asdiv('remas', 1, 2, 4, 7)
        h.div(2, 1, 3, 4)
    return far(g, n, each, ['i32', 'i64'])

def w04(g, n):
    def each(h, t, f):
        for x in [0, 1] + ([-1] if not is_unsigned(t) else []):
            h.eval(1, x)
        h.term('tadd', 1, 1, 0)
        h.eval(1, 1)
    return far(g, n, each, ['i32', 'f64', 'u16', 'i64', 'f32'])

def w05(g, n):
    def each(h, t, f):
        h.der(1, 2)
        if t != 'f32':
            h.der(2, 3)
    return far(g, n, each, ['i64', 'u32', 'f64', 'i128', 'u64', 'i32', 'f32'])

def w06(g, n):
    def each(h, t, f):
        f = {d: (d + 1) * g.nz(t, 2) for d in f}
        far_put(g, h, 1, t, f)
        h.integ(1, 2)
        h.area(1, 2, 0, 1)
        h.area(1, 2, 1, 0)
        h.repc(1, 2, g.small(t), 3)
    return far(g, n, each, ['i64', 'u32', 'i128', 'u64', 'i32'])

def w07(g, n):
    def each(h, t, f):
        far_put(g, h, 2, t, f)
        b = dict(f)
        b[g.choice(sorted(b))] = g.nz(t)
        far_put(g, h, 3, t, b)
        for r in (1, 2, 3):
            h.obs(r, [0, 1, 255, 256, 65534, 65535, 65536, 65537, 131072, max(f), max(f) + 1])
        h.eq(1, 2).eq(2, 1).eq(1, 3).eq(3, 2)
        h.trim(1)
        h.raw_len(1)
        h.eq(1, 2)
        h.setz(2)
        h.eq(1, 2)
    return far(g, n, each, ['i32', 'f64', 'u16', 'i64'])

def w08(g, n):
    def each(h, t, f):
        for _ in range(3):
            m = g.choice([1, 255, 256, 65535, 65536, 65537, 70000, 131072, max(f) - 1, max(f), max(f) + 1])
            s = g.choice([m, -m])
            for o in ('shl', 'shr'):
                for form in ('op', 'as'):
                    h.shift(o, form, 1, s, 2)
            h.shift('shl', 'as', 2, g.choice([1, 65536]), 3)
    return far(g, n, each, ['i32', 'f64', 'u16', 'i64'])

def w09(g, n):
    def each(h, t, f):
        for _ in range(5):
            h.term(g.choice(['tadd', 'tsub', 'aterm']), 1, g.small(t, 3), g.choice([0, 1, 255, 65535, 65536, 65537, 131072, max(f), max(f) + 1]))
        far_put(g, h, 2, t, far_map(g, t))
        h.polyto(g.choice(['addp', 'subp']), g.choice(['fn', 'mac']), 2, 1)
        h.pmac(g.choice(['padd', 'psub']), 1, 2, 4)
    return far(g, n, each, ['i32', 'f64', 'u16', 'i64'])

def w10(g, n):
    def each(h, t, f):
        h.big = True
        h.need = 52
        s = ''
        for d, c in f.items():
            s += g.choice(['', ' ']) + spell_term(g, t, c, d, not s)
        h.parse('D', 2, s)
        h.parse('D', 3, '%dx^%d' % (g.randint(1, 9), g.choice(FAR)))
    return far(g, n, each, ['i32', 'f64', 'u16', 'i64'])

def w11(g, n):
    def each(h, t, f):
        h.big = True
        h.need = 26
        h.disp(1)
        h.rt(1, 2)
        h.eq(1, 2)
    return far(g, n, each, ['i32', 'f64', 'u16', 'i64'])

def w15(g, n):
    pairs = [(t, u) for t in ('u16', 'i32', 'f32', 'u8', 'i64') for u in WIDER[t]]
    hs = []
    for i in range(n):
        t, u = pairs[i % len(pairs)]
        h = Hist(t)
        h.need = 65 if is_float(t) else 0
        f = far_map(g, t)
        looks = [0, 1, 65535, 65536, 65537, max(f)]
        far_put(g, h, 1, t, f)
        h.conv(u, 1, looks)
        n1 = max(f) + 1
        line = 'put 2 S from %s' % wr_list(t, [f.get(n1 - 1 - j, 0) for j in range(n1)])
        # the zeros of the vector are left out of the event: they do not matter to the value
        h.raw(line, dict(o='put', d=2, k='S', raw=[(c, d) for d, c in f.items()], _r='r'))
        h.obs(2, looks)
        h.conv(u, 2, looks)
        hs.append(h)
    return hs

def w14(g, n):
    def each(h, t, f):
        far_put(g, h, 2, t, far_map(g, t))
        h.put(3, 'D', [1, 0, 2])
        for _ in range(8):
            a, b = g.choice([1, 2]), g.choice([1, 2, 3])
            o = g.choice(['add', 'sub', 'shl', 'shr', 'neg', 'mul', 'aterm', 'trim', 'clone'])
            if o in ('add', 'sub'):
                h.bin(o, g.choice({'add': ADD_FORMS, 'sub': SUB_FORMS}[o]['D']), a, b, a)
            elif o in ('shl', 'shr'):
                h.shift(o, g.choice(['op', 'as']), a, g.choice([-65537, -65536, -1, 1, 255, 65535, 65536]), a)
            elif o == 'neg':
                h.neg(a, a)
            elif o == 'mul':
                h.bin(o, g.choice(MUL_FORMS['D']), a, 3, a)
            elif o == 'aterm':
                h.term('aterm', a, g.nz(t), g.choice([0, 65535, 65536, 131072]))
            elif o == 'trim':
                h.trim(a)
            else:
                h.clone(a, g.choice([1, 2]))
            h.obs(a, [0, 1, 65535, 65536, 131072])
        h.eq(1, 2)
    return far(g, n, each, ['i64', 'i128', 'f64'])

# ---- floats of other scales -----------------------------------------------------------------------
EXPS = {'f64': 300, 'f32': 40}     # scaled numbers stay within these powers of two, so that products stay normal

def lg(v):
    v = abs(Fraction(v))
    return max(abs(v.numerator.bit_length()), abs(v.denominator.bit_length()))

def degrees_of(h):
    return [d for _, e in h.cmds for d in degs_of({k: v for k, v in e.items() if k in ('o', 'g', 'n', 'ts', 'raw')})] + \
           [len(e['raw']) for _, e in h.cmds if e['o'] == 'put']

def rescale(h, k, j):
    """The same calls with every polynomial p(x) replaced by 2^k p(x / 2^j)."""
    t = h.t
    m = lambda c, d: Fraction(c) * Fraction(2) ** (k - j * d)
    x = lambda c: Fraction(c) * Fraction(2) ** j
    out = Hist(t, h.rel, h.label)
    out.loose, out.big = h.loose, h.big or h.rel is not None
    span = abs(k) + abs(j) * max(degrees_of(h) + [0])
    out.need = h.need + 4 * span + abs(j)
    for line, e in h.cmds:
        e = dict(e)
        p = line.split(' ')
        o = e['o']
        if o == 'put':
            v = e['raw']
            if e['k'] in 'SM':
                e['raw'] = [(m(c, d), d) for c, d in v]
                if e['k'] == 'S' and p[3] == 'from':
                    p[4] = wr_list(t, [c for c, _ in e['raw']])
                else:
                    p[4] = wr_pairs(t, e['raw'])
            else:
                e['raw'] = [m(c, len(v) - 1 - i) for i, c in enumerate(v)]
                p[4] = wr_list(t, e['raw'])
        elif o in ('tadd', 'tsub'):
            e['c'] = m(e['c'], e['g'])
            p[2] = wr(t, e['c'])
        elif o == 'fterms':
            e['ts'] = [(m(c, d), d) for c, d in e['ts']]
            p[3] = wr_pairs(t, e['ts'])
        elif o in ('eval', 'area'):
            for f in ('c', 'c2'):
                if f in e:
                    e[f] = x(e[f])
            at = 2 if p[0] != 'wrap' else 3
            p[at:] = [wr(t, e[f]) for f in ('c', 'c2') if f in e]
        elif o == 'repc':
            e['c'] = m(e['c'], 0 if p[0] == 'wrap' else -1)
            p[3 if p[0] == 'wrap' else 2] = wr(t, e['c'])
        elif o == 'tnew':
            e['c'] = m(e['c'], e['g'])
            p[1] = wr(t, e['c'])
        for f in ('w', 'cw'):
            if f in e:
                e[f] = deep(x, e[f])
        if 'pair' in e:
            e['pair'] = [[u * Fraction(2) ** j, v * Fraction(4) ** j] for u, v in e['pair']]
        out.cmds.append((' '.join(p), e))
    return out

def low(h):
    """Degree at most three: roots by formulas, at any scale."""
    e = h.cmds[0][1]
    return max(list(terms_of(e['k'], e['raw'])) + [0]) <= 3

def plain(h):
    """Without the calls that add products to what is there, where the scales would not match."""
    h.cmds = [c for c in h.cmds if c[1]['o'] not in ('mulp',)]
    return h

def scaled(gen, powers=True, points=True, limit=None):
    """Float histories of gen at other scales: coefficients, points or both far from one."""
    def go(g, n):
        hs = []
        while len(hs) < n:
            for h in gen(g, n):
                if not is_float(h.t) or any(e['o'] in ('term', 'parse') for _, e in h.cmds):
                    continue
                top = EXPS[h.t] if not limit else min(limit, EXPS[h.t])
                for _, e in h.cmds:
                    if e['o'] == 'pow':
                        top = min(top, EXPS[h.t] * 2 // max(e['n'], 2))
                deg = max(degrees_of(h) + [1])
                j = 0
                if points and deg <= 40 and g.random() < 0.6:
                    j = g.randint(-(top // 2 // deg), top // 2 // deg)
                room = top - abs(j) * deg
                k = 0
                if powers and (not j or g.random() < 0.5):
                    k = g.randint(-room, room)
                if g.random() < 0.5:
                    k, j = k // 8, int(j / 4)
                hs.append(rescale(h, k, j))
                if len(hs) == n:
                    break
        return hs
    return go

def near_one(g, n):
    """High powers of points close to one."""
    hs = []
    for i in range(n):
        t = ['f64', 'f64', 'f32'][i % 3]
        h = Hist(t)
        h.big = True
        h.rel = 20 if t == 'f64' else 9
        h.need = 400
        k = 'SMD'[i % 5 % 3]
        m = g.randint(4, 20) if t == 'f64' else g.randint(4, 10)
        top = 2**m * g.choice([1, 2, 3, 50, 100]) + g.randint(-2, 2)
        top = min(top, 2**21 if t == 'f64' else 2**10)
        if k == 'D':
            top = min(top, 5000)
        ds = [top] if k == 'M' else sorted(set([top] + [g.randint(0, top) for _ in range(g.choice([0, 1, 3]))]))
        f = {d: g.nz(t) for d in ds}
        if k == 'D':
            h.fterms('D', 1, [(c, d) for d, c in f.items()])
        else:
            h.put(1, k, [(c, d) for d, c in f.items()])
        for x in (1 - Fraction(1, 2**m), 1 + Fraction(1, 2**m), g.choice([1, -1]) * (1 + Fraction(g.choice([-3, 3]), 2**(m + 2)))):
            # the power stays between 2^-110 and 2^110
            if abs(x - 1 if x > 0 else -x - 1) * top < 75:
                h.eval(1, x)
        hs.append(h)
    return hs

SCALES = {
    'C01': (scaled(props.c01),), 'C02': (scaled(props.c02, powers=False), scaled(lambda g, n: [plain(h) for h in props.c02(g, n)])), 'C03': (scaled(props.c03),),
    'C04': (scaled(props.c04), near_one), 'C05': (scaled(props.c05),), 'C06': (scaled(props.c06),),
    'C07': (scaled(props.c07),), 'C08': (scaled(props.c08),), 'C09': (scaled(props.c09, powers=False),),
    'C12': (scaled(props.c12),), 'C13': (scaled(lambda g, n: [h for h in props.c13(g, n) if low(h)], limit=80), scaled(lambda g, n: [h for h in props.c13(g, n) if not low(h)], points=False)),
    'C15': (scaled(props.c15),), 'C16': (scaled(lambda g, n: [plain(h) for h in props.c16(g, n)]),),
}
