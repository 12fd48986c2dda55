"""Histories per property: which calls are made on which inputs."""
from gen import *

ADD_FORMS = {k: ['op', 'as'] for k in 'DSLQ'}
SUB_FORMS = {'D': ['op', 'ref', 'as', 'asref'], 'S': ['op', 'as'], 'L': ['op', 'as'], 'Q': ['op', 'as']}
MUL_FORMS = {'D': ['vv', 'vr', 'rv', 'rr', 'av', 'ar'], 'S': ['vv', 'vr', 'rr', 'av', 'ar'],
             'M': ['vv', 'vr', 'av', 'ar']}
BUILTIN = SIGNED + UNSIGNED + ['f32', 'f64']
KINDS = 'DSMLQ'
CALC = [t for t in BUILTIN if 'size' not in t]     # the types with derivatives and integrals

def styles(g, t):
    return g.choice(['small', 'small', 'mix', 'extreme', 'uniform', 'unit'])

def neg_ok(t, raw):
    """raw negated, with values that have no negation replaced."""
    lo = INT_TYPES[t][0] if is_int(t) else None
    f = lambda c: 1 if c == lo else -c
    if t == 'gf':
        f = lambda c: (GF - c) % GF
    return [(f(x[0]), x[1]) if isinstance(x, tuple) else f(x) for x in raw]

# ---- C01 -------------------------------------------------------------------------------------
def c01(g, n):
    hs = []
    for i in range(n):
        t = ALL[i % len(ALL)]
        k = g.choice(['D', 'D', 'S', 'S', 'L', 'Q', 'M'])
        st = styles(g, t)
        ds = g.choice(['small', 'small', 'mid', 'any'])
        h = Hist(t)
        size = 300 if g.random() < 0.02 else 20
        a = g.value(t, k, st, ds, size)
        b = g.value(t, k, st, ds, size)
        if size == 300 and k == 'D':
            a = [0] * g.randint(0, 5) + [g.coef(t, 'int') for _ in range(g.randint(60, 300))]
            b = [g.coef(t, 'int') for _ in range(g.randint(60, 300))]
        r = g.random()
        if r < 0.2 and not is_unsigned(t):
            # cancels completely, or in its leading terms
            b = neg_ok(t, a)
            if b and g.random() < 0.5:
                j = g.randrange(len(b))
                b[j] = (g.coef(t, 'int'), b[j][1]) if isinstance(b[j], tuple) else g.coef(t, 'int')
        elif r < 0.3:
            b = list(a)
        g.put(h, 1, k, a)
        g.put(h, 2, k, b)
        signed = not is_unsigned(t)
        if k != 'M':
            for f in ADD_FORMS[k]:
                h.bin('add', f, 1, 2, 3)
            if signed or k in 'LQ':
                for f in SUB_FORMS[k]:
                    h.bin('sub', f, 1, 2, 4)
        if signed:
            h.neg(1, 5)
            h.neg(2, 6)
        if k == 'S' and signed:
            h.put(7, 'D', g.vec(t, st, 12))
            h.bin('sub', 'op', 1, 7, 8)
            h.bin('sub', 'op', 3, 7, 8)
        if k != 'M':
            # once more, on the results
            x, y = g.choice([3, 1, 2]), g.choice([3, 4, 5, 6] if signed else [3])
            h.bin('add', g.choice(ADD_FORMS[k]), x, y, 8)
            if signed:
                h.bin('sub', g.choice(SUB_FORMS[k]), y, x, 8)
        hs.append(h)
    return hs

# ---- C02 -------------------------------------------------------------------------------------
def fits(t, magnitude, bits=0):
    """Are all values up to this magnitude with this many fractional bits exact in float type t?"""
    return not is_float(t) or magnitude * 2**bits < 2**FLOATS[t]

def massof(k, raw):
    return sum(abs(x[0] if isinstance(x, tuple) else x) for x in raw)

def c02(g, n):
    hs = []
    for i in range(n):
        t = ALL[i % len(ALL)]
        h = Hist(t)
        h.need = 26
        what = g.choice(['mul', 'mul', 'mul', 'pow', 'scal', 'scal', 'macro'])
        st = g.choice(['small', 'small', 'mix', 'unit', 'uniform'])
        if is_float(t):
            st = g.choice(['small', 'unit', 'int'])
        ds = g.choice(['small', 'small', 'mid', 'any'])
        if what == 'macro' and t == 'gf':
            what = 'mul'
        if what == 'mul':
            k = g.choice('DDDSSM')
            size = 12
            if g.random() < 0.05:
                size, st = 33, 'int'
            a, b = g.value(t, k, st, ds, size), g.value(t, k, st, ds, size)
            r = g.random()
            if r < 0.1 and k == 'D':
                b = [0] * g.pad() + [g.coef(t, 'int')]
            elif r < 0.15 and k == 'D':
                b = [0] * g.pad()
            elif r < 0.3 and k == 'D' and not is_unsigned(t) and t != 'gf':
                # (x^j - 1) times a geometric-looking factor: cancels inside
                m = g.randint(1, 6)
                a = [0] * g.pad() + [1] * m
                b = [0] * g.pad() + [1, -1]
            g.put(h, 1, k, a)
            g.put(h, 2, k, b)
            for f in MUL_FORMS[k]:
                h.bin('mul', f, 1, 2, 3)
            h.bin('mul', g.choice(MUL_FORMS[k]), 2, 1, 4)
            h.bin('mul', g.choice(MUL_FORMS[k] + (['rr'] if k in 'DS' else [])), 1, 1, 5)
            if k == 'D':
                h.bin('add', 'op', 3, 4, 6)
        elif what == 'pow':
            k = g.choice('DDSSM') if t != 'gf' else g.choice('DS')
            st = g.choice(['unit', 'int', 'mix' if is_int(t) else 'int'])
            if k == 'D':
                a = g.vec(t, st, 4)
            elif k == 'S':
                a = g.pairs(t, st, ds, most=3)
            else:
                a = g.value(t, k, st, ds)
            g.put(h, 1, k, a)
            m = massof(k, a)
            for e in {0, 1, 2, g.choice([3, 4, 5, 6, 7]), g.choice([8, 9, 12, 16, 17])}:
                if fits(t, max(m, 1)**e) and (e <= 7 or k == 'M' or len(terms_of(k, a)) <= 2):
                    if (max(m, 1)**e).bit_length() < 380:
                        h.pow(1, e, 2)
        elif what == 'scal':
            k = g.choice(KINDS)
            st = styles(g, t)
            a = g.value(t, k, st, ds, 12)
            g.put(h, 1, k, a)
            for _ in range(2):
                c = g.coef(t, g.choice(['small', 'extreme', 'unit', 'mix']))
                if is_float(t):
                    c = g.choice([0, 1, -1, 2, -3, Fraction(1, 2), Fraction(5, 4)])
                for f in ('op', 'as'):
                    h.scal('smul', f, 1, c, 2)
                c = g.coef(t, g.choice(['small', 'extreme', 'unit', 'mix']))
                if is_float(t):
                    c = g.choice([1, -1, 2, -4, Fraction(1, 2), Fraction(-1, 8)])
                if c == 0 and g.random() < 0.7:
                    c = 1
                for f in ('op', 'as'):
                    if c != 0 or not is_float(t):
                        h.scal('sdiv', f, 1, c, 2)
        else:
            ks = [g.choice(KINDS) for _ in range(3)]
            for j, k in enumerate(ks):
                g.put(h, j + 1, k, g.value(t, k, 'int' if is_float(t) else st, 'small', 6))
            h.pmac('pmul', 1, 2, 4)
            h.zero('D', 5)
            h.mulp(1, 2, 5)
            h.zero('S', 6)
            h.mulp(2, 1, 6)
            h.mulp(1, 2, 3)
            h.mulsink(2, 4)
            h.mulsink(1, 5)
            if g.random() < 0.6:
                ks = g.choice(['DDD', 'SSS', 'MMM', 'LLL', 'QQQ', 'DML', 'SDM'])
                for j, k in enumerate(ks):
                    g.put(h, j + 1, k, g.value(t, k, 'int' if is_float(t) else st, 'small', 4))
                h.pmac3('pmul3', 1, 2, 3, 7)
                ks = g.choice(['DD', 'SS', 'MM', 'LM'])
                for j, k in enumerate(ks):
                    g.put(h, j + 1, k, g.value(t, k, 'int' if is_float(t) else st, 'small', 3))
                k = g.choice('DSML')
                g.put(h, 3, k, g.value(t, k, 'int' if is_float(t) else st, 'small', 3))
                h.sink2('mulsink2', 1, 2, 3)
        hs.append(h)
    return hs

# ---- C03 -------------------------------------------------------------------------------------
def pmul(a, b, p=None):
    r = {}
    for i, x in a.items():
        for j, y in b.items():
            r[i + j] = r.get(i + j, 0) + x * y
    return {d: (c % p if p else c) for d, c in r.items() if (c % p if p else c)}

def padd(a, b, p=None):
    r = dict(a)
    for d, c in b.items():
        r[d] = r.get(d, 0) + c
    return {d: (c % p if p else c) for d, c in r.items() if (c % p if p else c)}

def raw_of(g, k, f, zeros=True):
    """A representation of the polynomial f ({degree: coeff}) with arbitrary stored zeros."""
    if k == 'S':
        m = dict(f)
        if zeros:
            for _ in range(g.randint(0, 3)):
                m.setdefault(g.randint(0, max(list(f) + [0]) + 3) if max(list(f) + [0]) < 2**40 else g.randint(0, 9), 0)
        return sorted(((c, d) for d, c in m.items()), key=lambda x: x[1])
    n = max(list(f) + [-1]) + 1
    return [0] * (g.pad() if zeros else 0) + [f.get(n - 1 - i, 0) for i in range(n)]

def c03(g, n):
    hs = []
    types = SIGNED * 2 + ['gf'] * 5 + ['f64', 'f64', 'f64', 'f32'] + ['u8', 'u32', 'u64']
    for i in range(n):
        t = types[i % len(types)]
        k = 'D' if is_unsigned(t) else g.choice('DS')
        h = Hist(t)
        p = GF if t == 'gf' else None
        def rnd(lo, hi, fl=False):
            """Random polynomial with degree in lo..hi."""
            d = g.randint(lo, hi)
            f = {j: g.small(t, 6) for j in range(d) if g.random() < g.choice([0.3, 0.9])}
            f[d] = g.nz(t, 6)
            return {a: b for a, b in f.items() if b}
        r = g.random()
        b = rnd(0, 4)
        if is_int(t) and g.random() < 0.6:
            b[max(b)] = 1 if is_unsigned(t) else g.choice([1, -1, 1, 2])
        if r < 0.35:
            # an exact multiple plus something of lower degree
            q = rnd(0, 5)
            a = pmul(b, q, p)
            if g.random() < 0.7 and max(b) > 0:
                a = padd(a, rnd(0, max(b) - 1), p)
        elif r < 0.8:
            a = rnd(0, 9)
        elif r < 0.85:
            a = {}
        elif r < 0.9:
            b = {}
            a = rnd(0, 5)
        elif is_int(t):
            # near the limits of the type
            a = {j: g.extreme(t) for j in range(g.randint(1, 5))}
            b = {j: g.choice([g.extreme(t), g.small(t)]) for j in range(g.randint(1, 3))}
            a = {d: c for d, c in a.items() if c}
            b = {d: c for d, c in b.items() if c}
        else:
            a = rnd(3, 30 if not is_float(t) else 8)
        if k == 'S' and g.random() < 0.15 and t != 'gf':
            # large degrees, small gap
            s = g.choice([2**20, 2**31, 2**33, 2**40])
            a = {d + s: c for d, c in a.items()}
            b = {d + s - g.choice([0, 0, 1, 2]): c for d, c in b.items()}
        if is_float(t):
            h.rel = 40 if t == 'f64' else 14
            h.need = 65
            if not all(fits(t, abs(c)) for c in list(a.values()) + list(b.values())):
                continue
        g_put = lambda d, f: h.put(d, k, raw_of(g, k, f), 'lit' if g.random() < 0.8 else 'new')
        g_put(1, a)
        g_put(2, b)
        h.div(1, 2, 3, 4)
        if k == 'D':
            h.asdiv('quo', 1, 2, 3, 5)
        h.asdiv('rem', 1, 2, 4, 6)
        h.asdiv('remas', 1, 2, 4, 7)
        if not is_float(t):
            # divide the results again
            h.div(3, 2, 5, 6)
            h.div(2, 4, 5, 6)
            h.asdiv('remas', 2, 4, 6, 7)
            h.div(1, 1, 5, 6)
        hs.append(h)
    return hs

# ---- C04 -------------------------------------------------------------------------------------
def c04(g, n):
    hs = []
    for i in range(n):
        t = (BUILTIN + ['gf'])[i % (len(BUILTIN) + 1)]
        k = g.choice('DDSSMLQ') if t != 'gf' else g.choice('DLQ')
        h = Hist(t)
        fl = is_float(t)
        r = g.random()
        sm = lambda: g.choice([0, 0, 1] if is_unsigned(t) else [0, 1, -1] if t != 'gf' else [0, 1, 96])
        if k in 'SM' and r < 0.45:
            # any degree at all, points 0, 1, -1
            ds = g.choice(['mid', 'big', 'any'])
            a = g.value(t, k, 'int' if fl else g.choice(['small', 'mix']), ds)
            g.put(h, 1, k, a)
            for x in ([0, 1] if is_unsigned(t) else [0, 1, -1]):
                h.eval(1, x)
            if not fl and g.random() < 0.5:
                # and a point at which a large degree has to overflow
                h.put(2, k, [(g.nz(t), g.choice([2**16, 2**31, 2**32, 2**32 + 1, 2**33 + 2, 2**40]) + g.randint(-2, 2))])
                for x in (0, 1, 2, 3):
                    h.eval(2, x)
            if fl:
                # powers of two are exact as long as the exponent range lasts
                d = g.randint(0, 60)
                h.put(2, k, [(g.nz(t), d)])
                h.need = 80
                h.eval(2, 2)
                h.eval(2, Fraction(1, 2))
                h.eval(2, -2)
        else:
            top = g.choice([3, 6, 12])
            st = 'int' if fl else g.choice(['small', 'mix', 'unit'])
            a = g.value(t, k, st, 'small', top)
            if g.random() < 0.03 and k == 'D':
                a = [g.coef(t, 'unit') for _ in range(300)]
                g.put(h, 1, k, a)
                for x in (0, 1, sm()):
                    h.eval(1, x)
                hs.append(h)
                continue
            g.put(h, 1, k, a)
            f = terms_of(k, a)
            dg = max(list(f) + [0])
            for _ in range(4):
                x = g.choice([sm(), g.small(t), g.coef(t, 'mix') if not fl else g.choice([2, -2, Fraction(1, 2), Fraction(-3, 2), 3])])
                bits = max(abs(Fraction(x).numerator), Fraction(x).denominator).bit_length()
                if fl:
                    m = sum(abs(c) * abs(x)**d for d, c in f.items()) + 1
                    b = frac_bits(x) * max(dg, len(a))
                    mx = max([1, abs(x)**max(dg, 1)])
                    if not fits(t, max(m, mx), b):
                        continue
                    h.need = max(h.need, b + 4)
                elif bits * dg > 380:
                    continue
                h.eval(1, x)
        hs.append(h)
    return hs

# ---- C05 -------------------------------------------------------------------------------------
def c05(g, n):
    hs = []
    for i in range(n):
        t = CALC[i % len(CALC)]
        k = g.choice('DDSSMMLQ')
        h = Hist(t)
        fl = is_float(t)
        r = g.random()
        if k == 'D' and r < 0.12 and t in ('i8', 'u8', 'i16', 'f32', 'i64'):
            # around the largest degree the coefficient type can represent
            m = 127 if t == 'i8' else 255
            ln = m + g.choice([-1, 0, 1, 2, 3])
            a = [0] * g.pad() + [g.choice([0, 1, 1]) if g.random() < 0.1 else 0 for _ in range(ln)]
            a[-ln] = 1
        elif k in 'SM' and r < 0.5:
            lim = {'i8': 127, 'u8': 255, 'i16': 2**15 - 1, 'u16': 2**16 - 1, 'i32': 2**31 - 1, 'u32': 2**32 - 1,
                   'f32': 2**24, 'f64': 2**53, 'i64': 2**63 - 1, 'isize': 2**63 - 1, 'usize': 2**64 - 3, 'u64': 2**64 - 3}.get(t, 2**40)
            ds = {max(0, lim + g.choice([-2, -1, 0, 0, 1, 1, 2])), g.randint(0, 9), g.degree(t, 'any')}
            if fl and g.random() < 0.5:
                ds.add(g.choice([2**25, 2**25 + 2, 2**60, 3 * 2**50, 2**54 + 2, 2**54 + 1]))
            ds = sorted(ds)
            if k == 'M':
                ds = [g.choice(ds)]
            cs = [1, 1, 0] if is_unsigned(t) else [1, -1, 0, 1]
            a = [(g.choice(cs), d) for d in ds]
        else:
            a = g.value(t, k, 'small' if fl else g.choice(['small', 'mix', 'extreme']), 'small', 20)
            h.need = 13
        g.put(h, 1, k, a)
        h.der(1, 2)
        if k == 'D' and len(a) <= 5:
            h.der(1, 6, mac=True)
        if not fl or max(list(terms_of(k, a)) + [0]) < 40:
            h.der(2, 3)
            h.der(3, 4)
            h.der(4, 5)
        hs.append(h)
    return hs

# ---- C06 -------------------------------------------------------------------------------------
def c06(g, n):
    hs = []
    for i in range(n):
        t = CALC[i % len(CALC)]
        k = g.choice('DDSSMMLQ')
        h = Hist(t)
        fl = is_float(t)
        r = g.random()
        if fl:
            h.rel = 40 if t == 'f64' else 14
            h.need = 65
        if k == 'D' and r < 0.08 and t in ('i8', 'u8', 'i64'):
            m = 127 if t == 'i8' else 255
            ln = m + g.choice([-2, -1, 0, 1, 2])
            a = [0] * g.pad() + [0 if g.random() < 0.9 else g.small(t) for _ in range(ln)]
            a[-ln] = g.nz(t)
        elif k in 'SM' and r < 0.4:
            lim = {'i8': 127, 'u8': 255, 'i16': 2**15 - 1, 'u16': 2**16 - 1, 'i32': 2**31 - 1, 'u32': 2**32 - 1,
                   'f32': 2**24, 'f64': 2**53, 'i64': 2**63 - 1, 'isize': 2**63 - 1, 'usize': 2**64 - 2, 'u64': 2**64 - 2,
                   'i128': 2**64 - 2, 'u128': 2**64 - 2}[t]
            ds = sorted({max(0, lim + g.choice([-3, -2, -1, -1, 0, 0, 1, 1])), g.randint(0, 9), g.degree(t, 'any')})
            if k == 'M':
                ds = [g.choice(ds + [max(ds)] * 2)]
            how = g.choice(['mix', 'extreme', 'uniform'])
            a = [(g.small(t) if fl else g.coef(t, how), d) for d in ds]
        else:
            a = g.value(t, k, 'int' if fl else g.choice(['small', 'mix', 'extreme', 'uniform']), 'small', 8)
        g.put(h, 1, k, a)
        h.integ(1, 2)
        if k == 'D' and len(a) <= 5:
            h.integ(1, 7, mac=True)
        f = terms_of(k, a)
        dg = max(list(f) + [0])
        pts = [0, 1, 1, 2, 3] + ([] if is_unsigned(t) else [-1, -2, -3])
        if not fl and g.random() < 0.3:
            pts = [g.coef(t, 'mix') for _ in range(3)]
        for _ in range(3):
            x, y = g.choice(pts), g.choice(pts)
            b = max(abs(x), abs(y)).bit_length()
            if b > 1 and b * (dg + 1) > (60 if fl else 380):
                continue
            if fl and b > 1 and dg > 9:
                continue
            h.area(1, 2, x, y)
            if k in 'DS':
                h.wrap_area(1, x, y)
        if k in 'DS':
            h.wrap_repc(1, g.small(t) if fl else g.coef(t, 'mix'), 8)
            h.wrap_inner(1, 8)
            if not fl:
                h.integ(8, 8)
        h.repc(1, 2, g.small(t) if fl else g.coef(t, 'mix'), 3)
        h.repc(1, 2, 0, 4)
        if not fl:
            h.integ(3, 5)
            h.integ(5, 6)
        hs.append(h)
    return hs

# ---- C07 -------------------------------------------------------------------------------------
def looks_for(g, k, a, t=None):
    f = terms_of(k, a)
    top = max(list(f) + [0])
    s = {0, 1, 2, top, min(top + 1, USIZE), g.randint(0, 12), g.choice([2**20, 2**28] if t == 'gf' else [2**20, 2**32, 2**40, USIZE]) if g.random() < 0.1 else 3}
    if top > 0:
        s.add(top - 1)
    s |= set(g.sample(sorted(f), min(3, len(f))))
    return sorted(s)

def respell(g, k, f):
    """Another representation of the polynomial f."""
    if k in 'DS':
        return raw_of(g, k, f)
    if k == 'M':
        return [(list(f.values())[0], list(f)[0])] if f else [(0, g.randint(0, 5))]
    n = 2 if k == 'L' else 3
    return [f.get(n - 1 - i, 0) for i in range(n)]

def c07(g, n, trim_sparse=False):
    hs = []
    for i in range(n):
        t = ALL[i % len(ALL)]
        k = g.choice('DDDSSSMLQ')
        h = Hist(t)
        st = styles(g, t)
        ds = g.choice(['small', 'small', 'mid', 'any']) if t != 'gf' else 'small'
        a = g.value(t, k, st, ds, 33)
        if k == 'D' and g.random() < 0.2:
            # exactly around the block size of the zero scan
            a = [0] * g.randint(0, 17) + [g.coef(t, st) for _ in range(g.randint(0, 5))]
        f = terms_of(k, a)
        if k == 'D' and g.random() < 0.3:
            h.put(1, 'D', a, g.choice(['new', 'from'] + (['mac', 'mac'] if len(a) <= 5 else [])))
            h.raw_len(1)
        elif k == 'S' and g.random() < 0.2:
            a = g.vec(t, st, 12)
            f = terms_of('D', a)
            h.put(1, 'S', a, 'from')
            a = [(c, d) for d, c in f.items()]
        else:
            g.put(h, 1, k, a)
        h.obs(1, looks_for(g, k, a, t))
        b = respell(g, k, f)
        h.put(2, k, b)
        h.obs(2, looks_for(g, k, b, t))
        h.eq(1, 2).eq(2, 1).eq(1, 1)
        c = dict(f)
        r = g.random()
        if r < 0.4 and f:
            d = g.choice(list(f))
            c[d] = g.coef(t, st)
        elif r < 0.6 and f:
            del c[g.choice(list(f))]
        elif k in 'DS':
            c[g.randint(0, 9)] = g.coef(t, st)
        elif k == 'M':
            c = {d + 1: x for d, x in f.items()}
        c = {d: x for d, x in c.items() if x}
        h.put(3, k, respell(g, k, c))
        h.eq(1, 3).eq(3, 1).eq(2, 3)
        if k == 'D' or (k == 'S' and trim_sparse):
            h.trim(1)
            h.raw_len(1)
            h.obs(1, looks_for(g, k, a, t))
            h.eq(1, 2).eq(1, 3)
        h.zero(k, 4)
        h.obs(4, [0, 1, 2])
        h.eq(4, 1)
        h.clone(2, 5)
        h.setz(2)
        h.obs(2, looks_for(g, k, a, t))
        h.eq(2, 4).eq(5, 1)
        if t != 'gf':
            h.tnew(g.choice([0, g.coef(t, st)]), g.degree(t, 'any'))
        hs.append(h)
    return hs

# ---- C08 -------------------------------------------------------------------------------------
def c08(g, n):
    hs = []
    for i in range(n):
        t = ALL[i % len(ALL)]
        k = g.choice('DDDSSMLQ')
        h = Hist(t)
        ds = g.choice(['small', 'small', 'mid', 'any']) if t != 'gf' else 'small'
        a = g.value(t, k, styles(g, t), ds, 33)
        if k in 'SM' and g.random() < 0.08 and t != 'gf':
            a = [(1, 2**64 - 1 - g.randint(0, 6))]
        g.put(h, 1, k, a)
        f = terms_of(k, a)
        top = max(list(f) + [0])
        low = min(list(f) + [0])
        ns = [0, 1, 2, 3, 4, 5, g.randint(0, 12), len(a), len(a) + 1, max(0, len(a) - 1)]
        ns += [x for x in (top, top + 1, top - 1, low, low + 1) if 0 <= x < 2**31]
        for _ in range(3):
            m = g.choice(ns)
            huge = g.choice([100, 1000, 2**16, 2**31 - 2, 2**31 - 1])
            for o in ('shl', 'shr'):
                if k in 'LQ':
                    if o == 'shl':
                        continue
                    m = g.choice([0, 1, 2, 3, 4, 100, 2**31, 2**32 - 1])
                    if t == 'gf':
                        m = g.choice([0, 1, 2, 3, 4, 100])
                    h.shift(o, g.choice(['op', 'as']), 1, m, 2)
                    continue
                s = g.choice([m, m, -m])
                if g.random() < 0.15:
                    left = o == 'shl'
                    if t == 'gf':
                        huge = 1000
                    if k == 'D':
                        s = -huge if left else huge       # only to the right: the result has to fit
                    else:
                        s = g.choice([huge, -huge])
                for form in ('op', 'as'):
                    h.shift(o, form, 1, s, 2)
                h.shift(g.choice(['shl', 'shr']), g.choice(['op', 'as']), 2, g.randint(-6, 6), 3)
                h.obs(3, [0, 1, 2])
        hs.append(h)
    return hs

# ---- C09 -------------------------------------------------------------------------------------
def c09(g, n):
    hs = []
    for i in range(n):
        t = BUILTIN[i % len(BUILTIN)]
        h = Hist(t)
        h.need = 13
        k = g.choice('DDSSMMLQ')
        st = g.choice(['small', 'small', 'mix', 'extreme']) if not is_float(t) else 'int'
        what = g.random()
        def deg(k):
            if k in 'SM':
                return g.degree(t, g.choice(['small', 'small', 'any']))
            if k == 'D':
                return g.choice([g.randint(0, 9), g.randint(0, 9), g.randint(0, 70)])
            return g.choice([0, 1, 2, 3, 4, 5, 2**40, 256, 2**32, USIZE]) if g.random() < 0.4 else g.randint(0, 1 if k == 'L' else 2)
        if what < 0.5:
            a = g.value(t, k, st, 'small', 9)
            g.put(h, 1, k, a)
            for _ in range(g.randint(2, 7)):
                f = terms_of(k, a)
                d = deg(k)
                if f and g.random() < 0.4:
                    d = g.choice(list(f))
                c = g.coef(t, st)
                if g.random() < 0.2:
                    c = 0
                if g.random() < 0.2 and d in f:
                    c = f[d]                       # cancels
                ops = ['tadd', 'tsub'] + (['aterm'] if k in 'DS' else [])
                h.term(g.choice(ops), 1, c, d)
                if g.random() < 0.3:
                    h.obs(1, [d, 0])
        elif what < 0.62:
            k = g.choice('DS')
            ts = [(g.coef(t, st), deg(k)) for _ in range(g.randint(0, 7))]
            if ts and g.random() < 0.5:
                ts.append((g.coef(t, st), g.choice(ts)[1]))
            h.fterms(k, 1, ts)
            h.obs(1, [d for _, d in ts][:4])
            if is_signed(t) or is_float(t):
                lo = INT_TYPES[t][0] if is_int(t) else None
                h.fterms(k, 2, ts + [(-c, d) for c, d in ts if c != lo])
        else:
            ks = [g.choice(KINDS) for _ in range(3)]
            for j, kk in enumerate(ks):
                g.put(h, j + 1, kk, g.value(t, kk, st, 'small', 6))
            for _ in range(4):
                x, y = g.sample([1, 2, 3], 2)
                o = g.choice(['addp', 'subp', 'addp', 'subp', 'mulp', 'mulsink', 'padd', 'psub'])
                if o in ('addp', 'subp'):
                    h.polyto(o, g.choice(['fn', 'mac']), x, y)
                elif o == 'mulp':
                    h.mulp(x, g.choice([1, 2, 3]), y)
                elif o == 'mulsink':
                    h.mulsink(x, y)
                else:
                    h.pmac(o, x, y, 4)
            h.obs(1, [0, 1, 2])
            for j, kk in enumerate(g.choice(['DDD', 'SSS', 'MMM', 'LLL', 'QQQ', 'DML', 'SDM'])):
                g.put(h, j + 1, kk, g.value(t, kk, st, 'small', 6))
            h.pmac3(g.choice(['padd3', 'psub3']), 1, 2, 3, 5)
            for j, kk in enumerate(g.choice(['DD', 'SS', 'MM', 'LM'])):
                g.put(h, j + 1, kk, g.value(t, kk, st, 'small', 6))
            kk = g.choice(KINDS)
            g.put(h, 3, kk, g.value(t, kk, st, 'small', 6))
            h.sink2(g.choice(['addp2', 'subp2']), 1, 2, 3)
        hs.append(h)
    return hs

# ---- text ------------------------------------------------------------------------------------
ODD = ['\t', '\n', '\u00a0', '\u2003', 'X', 'y', '*', '/', '(', 'e', 'E', '\u00b2', '\u0661', '\uff11', '\u2212', '\U0001d465', '\0', "'", 'i', 'n', 'f']

def decimal(v):
    """Exact decimal text of a dyadic magnitude."""
    v = abs(Fraction(v))
    k = frac_bits(v)
    if k == 0:
        return str(v.numerator)
    n = v.numerator * 5**k
    s = str(n).rjust(k + 1, '0')
    return s[:-k] + '.' + s[-k:]

def text_coef(g, t):
    if is_float(t):
        d = 6 if t == 'f32' else 15
        while True:
            v = g.choice([Fraction(g.randint(-99, 99)), Fraction(g.randint(-999, 999), 8), Fraction(g.randint(-64, 64), 64),
                          Fraction(g.randint(-10**5, 10**5)), Fraction(1), Fraction(-1), Fraction(1, 4)])
            if len(decimal(v).replace('.', '').strip('0')) <= d and len(decimal(v)) <= d:
                return v
    return g.coef(t, g.choice(['small', 'unit', 'extreme', 'mix', 'uniform']))

def spell_number(g, v):
    s = decimal(v)
    if g.random() < 0.15:
        s = '0' * g.randint(1, 3) + s
    if '.' in s and s.startswith('0.') and g.random() < 0.4:
        s = s[1:]
    return s

def sprinkle(g, s):
    out = ''
    for ch in s:
        if g.random() < 0.15:
            out += g.choice([' ', ' ', ',', '_', '  '])
        out += ch
    return out + g.choice(['', '', ' '])

def spell_term(g, t, c, d, first):
    neg = c < 0
    sign = '-' if neg else ('' if first and g.random() < 0.7 else '+')
    m = spell_number(g, c)
    if d == 0:
        body = g.choice([m, m, m + 'x^0', m + 'x0'])
    else:
        if abs(c) == 1 and g.random() < 0.7:
            m = ''
        e = str(d)
        if g.random() < 0.1:
            e = '00' + e
        body = m + (g.choice(['x', 'x', 'x^1']) if d == 1 else g.choice(['x^', 'x^', 'x']) + e)
    return sign + body

def parse_text(g, t, k):
    """A text that is in the grammar, or close to it."""
    fixed = {'L': 1, 'Q': 2}
    n = g.choice([1, 1, 2, 3, 4, 6]) if k != 'M' else g.choice([1, 1, 1, 2, 3])
    md = g.randint(0, 9)
    ts = []
    for i in range(n):
        if k == 'M':
            d = md if g.random() < 0.85 else g.randint(0, 9)
        elif k in fixed:
            d = g.randint(0, fixed[k]) if g.random() < 0.93 else g.randint(0, 5)
        elif k == 'D':
            d = g.choice([0, 1, 2, 3, g.randint(0, 40)])
        else:
            d = g.choice([0, 1, 2, g.degree(t, 'any'), USIZE - g.randint(0, 2)])
        ts.append((text_coef(g, t), d))
    if ts and g.random() < 0.25:
        c, d = g.choice(ts)
        if not is_unsigned(t) and (not is_int(t) or c != INT_TYPES[t][0]):
            ts.append((g.choice([-c, c]), d))
    s = ''
    for i, (c, d) in enumerate(ts):
        x = spell_term(g, t, c, d, i == 0)
        if g.random() < 0.4:
            x = sprinkle(g, x)
        s += g.choice(['', '', ' ']) + x
    r = g.random()
    if r < 0.35:
        # disturb it
        s = list(s)
        for _ in range(g.choice([1, 1, 1, 2, 3])):
            i = g.randrange(len(s) + 1)
            what = g.random()
            if what < 0.35 and s:
                del s[min(i, len(s) - 1)]
            elif what < 0.8:
                s.insert(i, g.choice(list('x^+-. ,_0x^+-1') + ['5', '9', ' ']))
            elif what < 0.92:
                s.insert(i, g.choice(ODD))
            elif s:
                j = min(i, len(s) - 1)
                s[j] = g.choice(list('x^+-.0'))
        s = ''.join(s)
    elif r < 0.42 and is_int(t):
        # just outside the range of the type
        lo, hi = INT_TYPES[t]
        v = g.choice([hi + 1, lo - 1, hi, lo, hi * 10, -hi])
        s = '%d%s' % (v, g.choice(['', 'x', 'x^2', ' x ^ 3', 'x^^']))
    elif r < 0.45 and k in 'SM':
        s = 'x^%d' % g.choice([USIZE, USIZE + 1, 10 * USIZE, USIZE - 1])
    return s

def too_precise(s):
    """Decimals a float cannot hold exactly are outside what the texts check (their value is rounded)."""
    num = ''
    for ch in s + 'x':
        if ch.isascii() and (ch.isdigit() or ch == '.'):
            num += ch
        elif ch in ' ,_':
            continue
        else:
            if num.count('.') == 1 and num != '.':
                a, b = num.split('.')
                b = b.rstrip('0')
                v = Fraction(int((a or '0') + b), 10**len(b))
                if v.denominator & (v.denominator - 1) or len((a + b).strip('0')) > 6 or len(b) > 40:
                    return True
            elif len(num.strip('0')) > 6:
                return True
            num = ''
    return False

def dense_ok(s):
    """Keeps dense parsing within memory."""
    import re
    return all(len(x) < 5 for x in re.findall(r'\d+', re.sub(r'[ ,_^+\-.]', '', s[s.find('x'):] if 'x' in s else '')))

SHORT = 'x^+-01. '
WIDE = 'xX^+-019. ,_\t\u2003'
def short_texts(maxlen, alphabet=SHORT):
    import itertools
    for n in range(maxlen + 1):
        for p in itertools.product(alphabet, repeat=n):
            yield ''.join(p)

def c10_short(g, maxlen, share=1.0, alphabet=SHORT):
    """Every text of up to maxlen characters over the alphabet."""
    hs = []
    h = None
    i = 0
    for s in short_texts(maxlen, alphabet):
        if share < 1 and len(s) == maxlen and g.random() > share:
            continue
        if h is None or len(h.cmds) >= 60:
            t = BUILTIN[len(hs) % len(BUILTIN)]
            h = Hist(t)
            h.big = True
            h.need = 13
            hs.append(h)
        k = 'DSMLQ'[i % 5]
        i += 1
        if is_float(h.t) and too_precise(s):
            continue
        h.parse(k, 1 + i % 8, s)
        if i % 3 == 0:
            h.term_text(s)
    return hs

def c10(g, n):
    hs = []
    for i in range(n):
        t = BUILTIN[i % len(BUILTIN)]
        h = Hist(t)
        h.big = True
        h.need = 52
        for _ in range(6):
            k = g.choice(KINDS)
            s = parse_text(g, t, k)
            if is_float(t) and too_precise(s):
                continue
            if k == 'D' and not dense_ok(s):
                k = 'S'
            if g.random() < 0.02:
                s = g.choice(['', ' ', '   ', '+', '-', '--', '+-x', ',', '_', ' - x', ',-x', '\t-x', '\u2003-5', '-\u20035', 'x^-1', 'x^+1', '.', '-.', 'x^.', '1.', '.x', '5 x 3', 'x2^3', 'x^2x', '^x', '0x^99', '-0', '-0x'])
            h.parse(k, g.randint(1, 4), s)
            s = g.choice([s, s.strip(), s.replace('+', '', 1), s.replace('-', '', 1)])
            if g.random() < 0.4 and not (is_float(t) and too_precise(s)):
                h.term_text(s)
        hs.append(h)
    return hs

# ---- C11 -------------------------------------------------------------------------------------
def shown_value(g, t, k):
    z = g.choice([0, 0.2, 0.6])
    cf = lambda: 0 if g.random() < z else text_coef(g, t)
    if k == 'D':
        return [0] * g.pad() + [cf() for _ in range(g.choice([0, 1, 2, 3, 4, 7, 12]))]
    if k == 'S':
        return [(cf(), d) for d in sorted({g.choice([0, 1, 2, 3, g.degree(t, 'any'), USIZE]) for _ in range(g.randint(0, 6))})]
    if k == 'M':
        return [(cf(), g.choice([0, 1, 2, 10, g.degree(t, 'any'), USIZE]))]
    return [cf() for _ in range(2 if k == 'L' else 3)]

def float_holds(v, p):
    n = abs(v.numerator)
    return v.denominator & (v.denominator - 1) == 0 and (n == 0 or n.bit_length() - (n & -n).bit_length() < p)

def wild_float(g, t):
    """Any finite float of the type."""
    p = FLOATS[t]
    lo, hi = (-149, 127) if t == 'f32' else (-1074, 1023)
    r = g.random()
    if r < 0.1:
        return g.choice([1, -1]) * g.choice([Fraction(2)**lo, (2 - Fraction(1, 2**(p - 1))) * Fraction(2)**hi, Fraction(2)**(lo + p - 1)])
    if r < 0.35:
        # next to a value the text treats specially, or to an integer
        u = Fraction(1, 2**g.choice([p - 1, p, p - 2, g.randint(3, p - 1), 23, 24, 10]))
        v = g.choice([1, -1]) * (g.choice([1, 1, 1, 2, 10, 1000]) + g.choice([1, -1]) * u)
        v = Fraction(v)
        return v if float_holds(v, p) else g.choice([1, -1]) * (1 + g.choice([2, -1]) * Fraction(1, 2**p))
    e = g.randint(-40, 40) if r < 0.8 else g.randint(lo + p, hi - 1)
    m = g.choice([1, -1]) * g.randint(2**(p - 1), 2**p - 1)
    return Fraction(m) * Fraction(2)**(e - p + 1)

def c11(g, n):
    hs = []
    for i in range(n):
        t = BUILTIN[i % len(BUILTIN)]
        h = Hist(t)
        h.big = True
        h.need = 26
        for _ in range(2):
            k = g.choice(KINDS)
            g.put(h, 1, k, shown_value(g, t, k))
            h.disp(1)
            h.rt(1, 2)
            h.eq(1, 2)
        if is_float(t):
            k = g.choice(KINDS)
            w = lambda: g.choice([0, wild_float(g, t), wild_float(g, t)])
            a = {'D': lambda: [w() for _ in range(g.randint(0, 5))],
                 'S': lambda: [(w(), d) for d in sorted({g.degree(t, 'any') for _ in range(g.randint(0, 5))})],
                 'M': lambda: [(w(), g.degree(t, 'any'))], 'L': lambda: [w(), w()], 'Q': lambda: [w(), w(), w()]}[k]()
            h2 = Hist(t)
            h2.big = True
            h2.put(3, k, a)
            cs = list(terms_of(k, a).values())
            if all(abs(c) >= Fraction(2)**(-126 if t == 'f32' else -1022) for c in cs):
                h2.rel = 20 if t == 'f32' else 49
                h2.disp(3)
            h2.rt(3, 4)
            h2.eq(3, 4)
            hs.append(h2)
        hs.append(h)
    return hs

def c10_decimals(g, n):
    """Decimals a float can only approximate."""
    hs = []
    for i in range(n):
        t = ['f64', 'f32'][i % 2]
        h = Hist(t)
        h.big = True
        h.rel = 20 if t == 'f32' else 49
        h.need = 260
        def number():
            r = g.random()
            if r < 0.3:
                s = g.choice(['0.1', '.1', '0.2', '0.3', '3.14159', '2.718281828459045', '1.1', '0.7', '99.99', '1234.5678', '0.001', '00.1', '0.10'])
            elif r < 0.6:
                s = '%d.%s' % (g.randint(0, 10**g.randint(1, 6)), ''.join(g.choice('0123456789') for _ in range(g.randint(1, 20))))
            elif r < 0.75:
                s = '0.' + '0' * g.randint(1, 30 if t == 'f64' else 15) + str(g.randint(1, 10**g.randint(1, 12)))
            elif r < 0.9:
                s = str(g.randint(1, 10**g.randint(10, 35)))
            else:
                s = str(g.randint(1, 99)) + '.'
            return sprinkle(g, s).strip() if g.random() < 0.2 else s
        for _ in range(4):
            k = g.choice(KINDS)
            top = {'D': 40, 'S': 10**6, 'M': 10**6, 'L': 1, 'Q': 2}[k]
            ds = g.sample(range(top + 1), min(top + 1, 1 if k == 'M' else g.randint(1, 4)))
            s = ''
            for d in ds:
                s += g.choice(['-', '+', ' - ', ' + '] if s else ['', '', '-', '+']) + number() + ('' if d == 0 else g.choice(['x', 'x^1']) if d == 1 else 'x^%d' % d)
            h.parse(k, 1, s)
            h.parse(k, 2, number() + ('' if k in 'LQ' else 'x') + g.choice([' + 5.5.5', '^^', '..', 'y', '']))
            h.term_text(number() + g.choice(['', 'x', 'x^3', '.', '.x', '-']))
        hs.append(h)
    return hs

# ---- C06, display of integrals ------------------------------------------------------------------
def c06_text(g, n):
    hs = []
    for i in range(n):
        t = CALC[i % len(CALC)]
        k = g.choice(KINDS)
        h = Hist(t)
        h.big = True
        h.need = 26
        a = shown_value(g, t, k)
        if k in 'SM':
            a = [(c, d % 1000 if d > 10**6 else d) for c, d in a]
        if is_float(t):
            # keep the quotients exact and short: coefficients are multiples of the new degree
            fx = lambda d: g.choice([0, 1, -1, 2, -3, Fraction(1, 2)]) * (d + 1)
            if k in 'SM':
                a = [(fx(d), d) for c, d in a if d < 1000]
                if k == 'M' and not a:
                    a = [(4, 1)]
            else:
                a = [fx(len(a) - 1 - j) for j in range(len(a))]
        h.put(1, k, a)
        h.integ(1, 2)
        h.idisp(1, 2)
        if k in 'DS':
            h.wrap_disp(1)
        h.zero(k, 3)
        h.integ(3, 4)
        h.idisp(3, 4)
        hs.append(h)
    return hs

# ---- C12 -------------------------------------------------------------------------------------
QUAD_TYPES = ['i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64']

def exact_roots(a, b, c, integral):
    """The two roots of a*x^2 + b*x + c if they are representable, as (re, im) pairs."""
    from math import isqrt
    if a == 0:
        return ()
    den = 1
    for v in (a, b, c):
        den = max(den, Fraction(v).denominator)
    A, B, C = (int(Fraction(v) * den) for v in (a, b, c))
    d = B * B - 4 * A * C
    s = isqrt(abs(d))
    if s * s != abs(d):
        return ()
    def rep(v):
        if integral:
            return v.denominator == 1
        return v.denominator & (v.denominator - 1) == 0 and abs(v.numerator) < 2**20
    p, q = Fraction(-B, 2 * A), Fraction(s, 2 * A)
    zs = [(p + q, 0), (p - q, 0)] if d >= 0 else [(p, q), (p, -q)]
    if not all(rep(Fraction(x)) for z in zs for x in z):
        return ()
    return tuple((int(x), int(y)) if integral else (x, y) for x, y in zs)

def c12(g, n):
    hs = []
    for i in range(n):
        t = g.choice(SIGNED + ['f32', 'f64'] + QUAD_TYPES * 2)
        h = Hist(t)
        fl = is_float(t)
        if fl:
            h.rel = 24 if t == 'f64' else 8
            h.need = 60 if t == 'f64' else 40
            h.big = True
        lo, hi = INT_TYPES.get(t, (0, 0))
        # linear and monomial roots
        L = [g.coef(t, g.choice(['small', 'mix'])) if not fl else g.choice([g.small(t), g.dyadic(t)]) for _ in range(2)]
        if g.random() < 0.3:
            L[g.randrange(2)] = 0
        elif g.random() < 0.3:
            L[1] = L[0] * g.randint(-9, 9)
            if is_int(t) and not lo <= L[1] <= hi:
                L[1] = 0
        h.put(1, 'L', L)
        h.lroot(1)
        h.put(2, 'M', [(g.choice([0, g.nz(t)]), g.choice([0, 0, 1, 2, 3, 2**33]))])
        h.root(2)
        if t in QUAD_TYPES:
            for _ in range(3):
                r = g.random()
                big = 1
                if is_int(t) and r < 0.3:
                    big = g.choice([1, 1, 10, 100, int(abs(hi)**0.25), int(abs(hi)**0.4)])
                z = lambda: g.randint(-9 * big, 9 * big)
                a = g.choice([1, -1, 2, -2, 3, g.nz(t)])
                if r < 0.45:
                    p, q = z(), g.choice([z(), z(), 0])
                    if g.random() < 0.15:
                        q = p
                    if fl:
                        p, q = Fraction(p, g.choice([1, 2, 4])), Fraction(q, g.choice([1, 2]))
                    b, c = -a * (p + q), a * p * q
                elif r < 0.65:
                    p, q = z(), z()
                    b, c = -2 * a * p, a * (p * p + q * q)
                elif r < 0.8:
                    b, c = g.small(t, 20), g.small(t, 20)
                elif r < 0.9 and is_int(t):
                    a, b, c = g.coef(t, 'mix'), g.coef(t, 'mix'), g.coef(t, 'mix')
                else:
                    a, b, c = g.small(t), g.small(t), g.small(t)
                    if g.random() < 0.5:
                        a = 0
                    if g.random() < 0.3:
                        b = 0
                    if g.random() < 0.3:
                        c = 0
                if is_int(t):
                    if not all(lo <= v <= hi for v in (a, b, c)):
                        continue
                elif not all(abs(v) < 10**4 for v in (a, b, c)):
                    continue
                w = exact_roots(a, b, c, not fl)
                if is_int(t) and any(not lo <= x <= hi for zz in w for x in zz):
                    w = ()
                h.put(3, 'Q', [a, b, c], g.choice(['lit', 'new']))
                h.disc(3)
                h.quad('qroots', 3, w)
                h.quad('rfac', 3, w)
                h.quad('cfac', 3, w)
        hs.append(h)
    return hs

# ---- C13 -------------------------------------------------------------------------------------
def from_roots(lead, w, pairs=()):
    f = {0: Fraction(lead)}
    for r in w:
        f = padd({d + 1: c for d, c in f.items()}, {d: -r * c for d, c in f.items()})
    for u, v in pairs:
        f = pmul(f, {2: Fraction(1), 1: Fraction(u), 0: Fraction(v)})
    return {d: c for d, c in f.items() if c}

def c13(g, n):
    hs = []
    for i in range(n):
        h = Hist('f64')
        h.big = True
        h.rel = 20
        h.need = 130
        k = g.choice('DS')
        wit, w, pairs = False, (), ()
        r = g.random()
        lead = g.choice([1, 1, -1, 2, -3, Fraction(1, 2), 5])
        if r < 0.1:
            f = {g.choice([0, 1, 2, 3, 4, 7, 50]): g.choice([0, 0, g.nz('f64')])}
        elif r < 0.2:
            f = {1: g.nz('f64'), 0: g.small('f64')}
            if g.random() < 0.5:
                f = {1: g.nz('f64') * Fraction(2) ** g.randint(-20, 20), 0: g.nz('f64', 10**6) * Fraction(2) ** g.randint(-20, 20)}
        elif r < 0.35:
            top = g.choice([20, 20, 1000])
            f = {2: g.nz('f64'), 1: g.small('f64', top), 0: g.small('f64', top)}
            if g.random() < 0.2:
                s = Fraction(2) ** g.randint(-10, 10)
                f = {d: c * s for d, c in f.items()}
        elif r < 0.5:
            f = {d: g.small('f64', g.choice([9, 9, 60])) for d in range(3)}
            f[3] = g.nz('f64')
        elif r < 0.62:
            # cubics from their roots, possibly repeated
            top = g.choice([5, 5, 20])
            rs = [g.randint(-top, top) for _ in range(3)]
            if g.random() < 0.3:
                rs[1] = rs[0]
            if g.random() < 0.1:
                rs[2] = rs[1] = rs[0]
            f = from_roots(lead, rs)
        elif r < 0.9:
            np = g.choice([0, 0, 1, 1, 2])
            nw = g.randint(max(0, 4 - 2 * np), 6 - np)
            st = g.choice([1, 1, 2])
            if np == 0 and g.random() < 0.3:
                st, nw = g.choice([(1, 7), (1, 8), (1, 9), (1, 10), (4, 4)])
            w = tuple(Fraction(x, st) for x in g.sample(range(-5 * st, 5 * st + 1), nw))
            pairs = []
            while len(pairs) < np:
                u = g.randint(-3, 3)
                p = (u, u * u // 4 + g.randint(1, 6))
                if p not in pairs:
                    pairs.append(p)
            f = from_roots(lead, w, pairs)
            wit = True
        else:
            # nothing promised about completeness: repeated roots, several complex pairs
            f = {0: Fraction(lead)}
            for _ in range(g.randint(2, 4)):
                u = g.randint(-2, 2)
                f = pmul(f, {2: Fraction(1), 1: Fraction(u), 0: Fraction(g.randint(-2, 5))})
            f = {d: c for d, c in f.items() if c}
        f = {d: c for d, c in f.items() if c}
        h.put(1, k, raw_of(g, k, f))
        h.froots(1, wit, w, pairs)
        hs.append(h)
    return hs

# ---- C14 -------------------------------------------------------------------------------------
def c14(g, n, calls=40):
    """Long histories over all kinds at once: every call works on results of earlier ones."""
    hs = []
    types = SIGNED + UNSIGNED + ['gf', 'gf', 'f64', 'f32']
    for i in range(n):
        t = types[i % len(types)]
        h = Hist(t, label='history')
        h.loose = True             # a call that panicked leaves its target empty
        gf, un, fl = t == 'gf', is_unsigned(t), is_float(t)
        st = 'int' if fl else g.choice(['small', 'unit', 'small', 'mix'])
        kind = {}
        size = {}                      # a bound on the degree, to keep histories finite
        mass = {}                      # a bound on the coefficients (floats only)
        def fresh(d):
            k = g.choice('DDDSSSMLQ')
            raw = g.value(t, k, st, 'small', 6)
            g.put(h, d, k, raw)
            kind[d] = k
            size[d] = max(list(terms_of(k, raw)) + [0])
            mass[d] = massof(k, raw) + 1
        for d in (1, 2, 3, 4):
            fresh(d)
        for _ in range(calls):
            o = g.choice(['put', 'add', 'sub', 'mul', 'neg', 'smul', 'sdiv', 'pow', 'shl', 'shr', 'div', 'remas',
                          'eval', 'der', 'tadd', 'tsub', 'aterm', 'addp', 'subp', 'mulsink', 'pmac', 'setz', 'trim', 'clone',
                          'obs', 'eq', 'obs', 'eq'])
            a = g.choice(list(kind))
            same = [r for r in kind if kind[r] == kind[a]]
            b = g.choice(same)
            d = g.choice([a, g.randint(1, 8), g.randint(1, 8)])
            k = kind[a]
            big = lambda s, m=0: s > 40 or (fl and m >= 2**(20 if t == 'f32' else 48))
            def res(s, m, dd=None):
                kind[dd or d], size[dd or d], mass[dd or d] = k, s, m
            if o == 'put':
                fresh(d)
            elif o == 'add' and k in ADD_FORMS and not big(0, mass[a] + mass[b]):
                h.bin('add', g.choice(ADD_FORMS[k]), a, b, d)
                res(max(size[a], size[b]), mass[a] + mass[b])
            elif o == 'sub' and k in SUB_FORMS and (not un or k in 'LQ') and not big(0, mass[a] + mass[b]):
                c = [r for r in kind if kind[r] == 'D']
                if k == 'S' and c and g.random() < 0.4:
                    b = g.choice(c)
                    h.bin('sub', 'op', a, b, d)
                else:
                    h.bin('sub', g.choice(SUB_FORMS[k]), a, b, d)
                res(max(size[a], size[b]), mass[a] + mass[b])
            elif o == 'mul' and k in MUL_FORMS and not big(size[a] + size[b], mass[a] * mass[b]):
                h.bin('mul', g.choice(MUL_FORMS[k]), a, b, d)
                res(size[a] + size[b], mass[a] * mass[b])
            elif o == 'neg' and not un:
                h.neg(a, d)
                res(size[a], mass[a])
            elif o == 'smul':
                c = g.coef(t, st)
                if not big(0, mass[a] * abs(c)):
                    h.scal('smul', g.choice(['op', 'as']), a, c, d)
                    res(size[a], mass[a] * max(abs(c), 1))
            elif o == 'sdiv':
                c = g.nz(t) if not fl else g.choice([1, -1])
                h.scal('sdiv', g.choice(['op', 'as']), a, c, d)
                res(size[a], mass[a])
            elif o == 'pow' and k in ('DS' if gf else 'DSM'):
                e = g.choice([0, 1, 2, 3])
                if not big(size[a] * e, mass[a]**e):
                    h.pow(a, e, d)
                    res(size[a] * e, mass[a]**e + 1)
            elif o in ('shl', 'shr'):
                m = g.randint(0, 6)
                if k in 'LQ':
                    if o == 'shr':
                        h.shift(o, g.choice(['op', 'as']), a, m, d)
                        res(size[a], mass[a])
                else:
                    m = g.choice([m, m, -m])
                    if not big(size[a] + 6):
                        h.shift(o, g.choice(['op', 'as']), a, m, d)
                        res(size[a] + abs(m), mass[a])
            elif o in ('div', 'remas') and k in ('D' if un else 'DS') and not fl:
                e = g.randint(1, 8)
                if o == 'div' and e != d:
                    h.div(a, b, d, e)
                    res(size[a], mass[a])
                    res(size[a], mass[a], e)
                elif o == 'remas':
                    e = g.choice([x for x in range(1, 9) if x not in (a, b, d)])
                    f = g.choice([x for x in range(1, 9) if x not in (a, b, d, e)])
                    h.div(a, b, e, f)
                    h.asdiv(g.choice(['rem', 'remas']), a, b, f, d)
                    for x in (e, f, d):
                        res(size[a], mass[a], x)
            elif o == 'eval' and (k in 'DLQ' or not gf):
                x = g.choice([0, 1, g.small(t) if not fl else 1])
                if x.bit_length() * size[a] < 380:
                    h.eval(a, x)
            elif o == 'der' and t in CALC and not big(0, mass[a] * max(size[a], 1)):
                h.der(a, d)
                res(size[a], mass[a] * max(size[a], 1))
            elif o in ('tadd', 'tsub', 'aterm') and not (gf and o != 'aterm') and not (o == 'aterm' and k not in 'DS'):
                dg = g.randint(0, 3 if k in 'LQ' else 9)
                c = g.coef(t, st)
                h.term(o, a, c, dg)
                size[a] = max(size[a], dg)
                mass[a] += abs(c)
            elif o in ('addp', 'subp', 'mulsink') and not gf:
                b = g.choice(list(kind))
                if a != b and not big(size[a] + size[b], mass[a] * mass[b]):
                    if o == 'mulsink':
                        h.mulsink(a, b)
                        size[b], mass[b] = size[a] + size[b], mass[a] * mass[b]
                    else:
                        h.polyto(o, g.choice(['fn', 'mac']), a, b)
                        size[b], mass[b] = max(size[a], size[b]), mass[a] + mass[b]
            elif o == 'pmac' and not gf:
                b = g.choice(list(kind))
                o = g.choice(['padd', 'psub', 'pmul'])
                if not big(size[a] + size[b], mass[a] * mass[b]):
                    h.pmac(o, a, b, d)
                    k = 'D'
                    res(size[a] + size[b], mass[a] * mass[b])
            elif o == 'setz':
                h.setz(a)
            elif o == 'trim' and k == 'D':
                h.trim(a)
            elif o == 'clone':
                h.clone(a, d)
                res(size[a], mass[a])
            elif o == 'obs':
                h.obs(a, sorted({0, 1, size[a], g.randint(0, 9)}))
            elif o == 'eq':
                h.eq(a, b)
        hs.append(h)
    return hs

# ---- behaviours of Gen.tla ---------------------------------------------------------------------
def replay(g, log, t, looks=False):
    """The calls of a generated behaviour with the answers it prescribes; None if type t does not suit it.
    looks: also look at what every register holds in the end."""
    h = Hist(t, label='behaviour')
    exp = []
    val, kinds = {}, {}
    pairs = lambda l: [(c, d) for c, d in l]
    def want(f, text):
        f.text = text
        exp.append(f)
    def result(l, x='ok'):
        l = pairs(l)
        want(lambda e, l=l, x=x: e.get('x', 'ok') == x and '!' not in e['o'] and e.get('r') == l, '%s %s' % (x, l))
    def look(a, r):
        m = {dg: c for c, dg in r}
        deg = [r[0][1]] if r else []
        h.obs(a, sorted({0, 1, 2, g.randint(0, 9)} | set(g.sample(sorted(m), min(2, len(m))))))
        want(lambda x, r=r, m=m, dg=deg: x['o'] == 'obs' and x['deg'] == dg and x['z'] == (not r) and x['it'] == r
             and x['tv'] == r and all(l == ([l[0], m[l[0]], l[0]] if l[0] in m else [l[0]]) for l in x['look']),
             'degree %s terms %s' % (deg, r))
    for e in log:
        o = e['o']
        a, b, d = e.get('a'), e.get('b'), e.get('d')
        k = kinds.get(a)
        if o == 'put':
            k = e['k']
            g.put(h, d, k, pairs(e['raw']) if k in 'SM' else e['raw'])
            result(e['r'])
        elif o in ('add', 'sub', 'mul'):
            forms = {'add': ADD_FORMS, 'sub': SUB_FORMS, 'mul': MUL_FORMS}[o][k]
            h.bin(o, 'op' if k == 'S' and kinds[b] == 'D' else g.choice(forms), a, b, d)
            result(e['r'])
        elif o == 'neg':
            h.neg(a, d)
            result(e['r'])
        elif o in ('smul', 'sdiv'):
            if o == 'sdiv' and is_float(t) and any(c % e['x'] for c, _ in val[a]):
                return None
            h.scal(o, g.choice(['op', 'as']), a, e['x'], d)
            result(e['r'])
        elif o == 'pow':
            h.pow(a, e['x'], d)
            result(e['r'])
        elif o in ('shl', 'shr'):
            h.shift(o, g.choice(['op', 'as']), a, e['x'], d)
            result(e['r'])
        elif o == 'der':
            if t not in CALC:
                return None
            h.der(a, d)
            result(e['r'])
        elif o == 'setz':
            h.setz(a)
            result(e['r'])
        elif o == 'trim':
            h.trim(a)
            result(e['r'])
        elif o == 'clone':
            h.clone(a, d)
            result(e['r'])
        elif o == 'div':
            h.div(a, b, d, e['e'])
            q, r = pairs(e['q']), pairs(e['r'])
            want(lambda x, q=q, r=r: x.get('x') == 'ok' and x['q'] == q and x['r'] == r, 'quotient %s remainder %s' % (q, r))
            val[e['e']], kinds[e['e']] = r, k
            val[d], kinds[d] = q, k
            continue
        elif o == 'remas':
            h.asdiv(g.choice(['rem', 'remas']), a, b, a, a)
            result(e['r'])
        elif o in ('tadd', 'tsub'):
            h.term(g.choice([o, 'aterm']) if o == 'tadd' and k in 'DS' else o, a, e['c'], e['g'])
            result(e['r'], e['x'])
        elif o in ('addp', 'subp'):
            h.polyto(o, g.choice(['fn', 'mac']), a, b)
            result(e['r'], e['x'])
            val[b] = pairs(e['r'])
            continue
        elif o == 'eval':
            h.eval(a, e['c'])
            want(lambda x, v=e['v']: x.get('x') == 'ok' and x['v'] == v, str(e['v']))
            continue
        elif o == 'eq':
            h.eq(a, b)
            want(lambda x, v=e['v']: x.get('v') == v, str(e['v']))
            continue
        elif o == 'obs':
            if e['deg'] != [x[1] for x in e['r'][:1]]:
                raise RuntimeError('the specification lists terms %s with degree %s' % (e['r'], e['deg']))
            look(a, pairs(e['r']))
            continue
        else:
            raise RuntimeError(o)
        t2 = d if d is not None else a
        val[t2], kinds[t2] = pairs(e['r']), k
    if looks:
        for a in sorted(val):
            look(a, val[a])
        if kinds[1] == kinds[2]:
            h.eq(1, 2)
            want(lambda x, v=val[1] == val[2]: x.get('v') == v, str(val[1] == val[2]))
    return h, exp

# ---- C15 -------------------------------------------------------------------------------------
WIDER = {'u8': 'u16 u32 u64 u128 i16 i32 i64 i128 f32 f64', 'u16': 'u32 u64 u128 i32 i64 i128 f32 f64',
         'u32': 'u64 u128 i64 i128 f64', 'u64': 'u128 i128', 'i8': 'i16 i32 i64 i128 f32 f64',
         'i16': 'i32 i64 i128 f32 f64', 'i32': 'i64 i128 f64', 'i64': 'i128', 'f32': 'f64'}
WIDER = {t: v.split() for t, v in WIDER.items()}

def float_any(g, t):
    """Any ordinary float."""
    m = g.randint(-2**FLOATS[t] + 1, 2**FLOATS[t] - 1)
    return Fraction(m) * Fraction(2)**g.randint(-60, 30)

def c15(g, n):
    hs = []
    pairs = [(t, u) for t in WIDER for u in WIDER[t]]
    for i in range(n):
        t, u = pairs[i % len(pairs)]
        k = KINDS[i // len(pairs) % 5]
        h = Hist(t)
        h.need = 65 if is_float(t) else 0
        st = g.choice(['small', 'extreme', 'uniform', 'mix'])
        a = g.value(t, k, st, g.choice(['small', 'small', 'any']), 12)
        if is_float(t) and g.random() < 0.6:
            f = lambda c: float_any(g, t) if c else c
            a = [(f(x[0]), x[1]) if isinstance(x, tuple) else f(x) for x in a]
        g.put(h, 1, k, a)
        h.conv(u, 1, looks_for(g, k, a, t))
        if k == 'D':
            h.put(2, 'D', a, 'from').raw_len(2)
            h.put(3, 'S', a, 'from')
            h.conv(u, 3, looks_for(g, k, a, t))
        elif k == 'M':
            h.put(2, 'M', [(a[0][0], 0)], 'from')
            h.conv(u, 2, [0, 1])
        hs.append(h)
    return hs

def c15_all():
    """Every 8-bit coefficient, to every wider type."""
    hs = []
    for t in ('u8', 'i8'):
        lo, hi = INT_TYPES[t]
        vals = list(range(lo, hi + 1))
        for u in WIDER[t]:
            h = Hist(t)
            h.put(1, 'D', vals).conv(u, 1, [0, 255])
            h.put(2, 'S', [(c, i) for i, c in enumerate(vals)]).conv(u, 2, [0, 255])
            hs.append(h)
            for j in range(0, 256, 3):
                v = (vals + vals)[j:j + 3]
                h = Hist(t)
                h.put(1, 'Q', v).conv(u, 1, [0, 1, 2])
                h.put(2, 'L', v[:2]).conv(u, 2, [0, 1])
                h.put(3, 'L', v[1:]).conv(u, 3, [0, 1])
                for k, c in enumerate(v):
                    h.put(4 + k, 'M', [(c, j)]).conv(u, 4 + k, [j])
                hs.append(h)
    return hs

# ---- C16 -------------------------------------------------------------------------------------
SIZES = [0, 1, 2, 3, 4, 5, 6, 8, 9, 12]

def counts(t, m):
    """Is m a value of the coefficient type?"""
    return is_float(t) or m <= INT_TYPES[t][1]

def c16(g, n, sizes=None):
    hs = []
    sizes = sizes or SIZES
    for i in range(n):
        t = BUILTIN[i % len(BUILTIN)]
        fl = is_float(t)
        h = Hist(t)
        h.need = 26
        m = g.choice(sizes)
        m2 = g.choice(sizes)
        st = 'int' if fl else g.choice(['small', 'small', 'unit', 'mix', 'extreme'])
        def arr(m, lead=None):
            z = g.choice([0, 0.3, 0.7])
            v = [0 if g.random() < z else g.coef(t, st) for _ in range(m)]
            for j in range(g.choice([0, 0, 1, 2, m])):
                if j < m:
                    v[j] = 0                       # leading zeros
            return v
        a = arr(m)
        h.put(1, 'A', a)
        h.put(2, 'A', arr(m))
        h.put(3, 'A', arr(m2))
        look = lambda m: sorted({0, 1, max(m - 1, 0), m, m + 1, g.randint(0, 12), g.choice([13, 2**40, USIZE])})
        h.obs(1, look(m)).obs(3, look(m2))
        h.eq(1, 2).eq(1, 1)
        b = list(a)
        if b:
            b[g.randrange(m)] = g.coef(t, st)
        h.put(4, 'A', b).eq(1, 4).eq(4, 1)
        what = g.random()
        if what < 0.35:
            f = terms_of('D', a)
            dg = max(list(f) + [0])
            for _ in range(3):
                x = g.choice([0, 1, g.small(t), g.small(t) if fl else g.coef(t, 'mix')])
                if fl and sum(abs(c) * abs(x)**d for d, c in f.items()) + abs(x)**dg >= 2**FLOATS[t]:
                    continue
                if abs(x).bit_length() * dg < 380:
                    h.eval(1, x)
        elif what < 0.55 and t in CALC and counts(t, m - 1):
            h.der(1, 5).der(5, 6)
            if t != 'f32' or m <= 65:
                h.der(6, 7)
            h.obs(5, look(m))
        elif what < 0.75 and t in CALC and counts(t, m):
            if fl:
                h.rel, h.need = (40 if t == 'f64' else 14), 65
            h.integ(1, 5)
            f = terms_of('D', a)
            for x, y in ((0, 1), (1, 2), (g.choice([0, 1, 2, 3]), g.choice([0, 1, 2]))):
                if t != 'f32' or m <= 65 or max(x, y) < 2:
                    h.area(1, 5, x, y)
            h.repc(1, 5, g.small(t), 6)
        else:
            for _ in range(g.randint(2, 6)):
                d = g.choice([g.randint(0, max(m - 1, 0)), g.randint(0, max(m - 1, 0)), m, m + 1, g.choice([2**32, 2**40, 2**63, USIZE]), g.randint(0, 14)])
                c = g.choice([g.coef(t, st), 0, (list(terms_of('D', a).values()) + [1])[0]])
                o = g.choice(['tadd', 'tsub'])
                h.raw('%s 1 %s %d' % (o, wr(t, c), d), dict(o=o, a=1, n=m, c=c, g=d, _r='xr', f=o))
            h.obs(1, look(m))
            for _ in range(3):
                o = g.choice(['addp', 'subp', 'mulp'] if m <= 12 else ['addp', 'subp'])
                x, y = g.choice([(1, 3), (3, 1), (2, 1), (2, 3)])
                nn = m if y in (1, 2) else m2
                if o == 'mulp':
                    if not fl or st == 'int':
                        e = g.choice([1, 2, 3])
                        h.raw('mulp %d %d %d' % (x, e, y), dict(o='mulp', a=x, e=e, b=y, n=nn, _r='xr'))
                else:
                    h.raw('%s fn %d %d' % (o, x, y), dict(o=o, a=x, b=y, n=nn, _r='xr', f='fn'))
            h.obs(3, look(m2))
        h.clone(2, 7)
        h.setz(2).obs(2, look(m)).eq(2, 1)
        h.raw('zero %d 8' % m, dict(o='zero', d=8, k='A', _r='r'))
        h.eq(8, 2)
        h.obs(7, look(m))
        hs.append(h)
    return hs

def c16_roots(g, n):
    """The histories of C12 with arrays of two and three coefficients."""
    out = []
    for h in c12(g, n):
        cmds = []
        for line, ev in h.cmds:
            if (ev['o'] == 'put' and ev['k'] == 'M') or ev['o'] == 'root' or (h.t == 'i8' and ev['o'] == 'lroot'):
                continue
            if ev['o'] == 'put':
                ev = dict(ev, k='A')
                line = 'put %d A lit %s' % (ev['d'], wr_list(h.t, ev['raw']))
            cmds.append((line, ev))
        h.cmds = cmds
        out.append(h)
    return out
