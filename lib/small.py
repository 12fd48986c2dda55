"""Every small input: exhaustive histories within small scopes (see DESIGN.md for the scopes)."""
import itertools
from props import *

def values(t, wide=False):
    """A few coefficients of type t: zero, one, and the nearest others."""
    if t == 'gf':
        return [0, 1, GF - 1] + ([2] if wide else [])
    if is_unsigned(t):
        return [0, 1, 2] + ([3] if wide else [])
    return [0, 1, -1] + ([2] if wide else [])

def vectors(t, most, wide=False):
    """Every vector of up to `most` coefficients, leading zeros included."""
    for n in range(most + 1):
        yield from (list(v) for v in itertools.product(values(t, wide), repeat=n))

def maps(t, degrees, wide=False):
    """Every map over the degrees: each absent or present, with a zero or another coefficient."""
    for cs in itertools.product([None] + values(t, wide), repeat=len(degrees)):
        yield [(c, d) for c, d in zip(cs, degrees) if c is not None]

def shapes(t, k, size, wide=False):
    if k == 'D':
        return list(vectors(t, size, wide))
    if k == 'S':
        return list(maps(t, list(range(size)), wide))
    if k == 'M':
        return [[(c, d)] for c in values(t, True) for d in range(size + 1)]
    return [list(v) for v in itertools.product(values(t, True), repeat=2 if k == 'L' else 3)]

def packs(t, items, limit, start, each):
    """Histories of about `limit` calls: start(h) opens one, each(h, item) adds calls for an item."""
    h = None
    for x in items:
        if h is None or len(h.cmds) >= limit:
            h = Hist(t, label='small scope')
            start(h)
            yield h
        each(h, x)

def some(g, items, share):
    return items if share >= 1 else [x for x in items if g.random() < share]

def pairs_of(g, t, k, size, share, wide, each, need=0, limit=60, per=None):
    """Every pair of small values of one kind."""
    xs = shapes(t, k, size, wide)
    out = []
    for a in xs:
        def start(h, a=a):
            h.need = need
            h.put(1, k, a)
        out += packs(t, some(g, xs, share), limit, start, each)
    return out

EDGES = sorted({d for b in (7, 8, 15, 16, 24, 31, 32, 53, 63, 64) for d in range(2**b - 3, 2**b + 2) if d < 2**64})
def edges(g, t, deep, each, share=0.12, kinds='MS', limit=60):
    """Terms with the coefficients and degrees at which types end."""
    if t == 'gf':
        return []       # residues are modelled with small degrees
    if is_float(t):
        cs = [1, -1, Fraction(1, 2), -4]   # exact however large the degree it is multiplied by
    else:
        lo, hi = INT_TYPES[t]
        cs = [1, hi, hi // 2 + 1] + ([] if lo == 0 else [lo, -1])
    out = []
    for k in kinds:
        if k == 'M':
            xs = [[(c, d)] for c in cs for d in EDGES]
        else:
            xs = [[(c, d), (g.choice(cs), 1)] for c in cs for d in EDGES]
        xs = [x for x in xs if deep or x[0][1] >= 2**64 - 2 or g.random() < share]
        out += packs(t, xs, limit, lambda h: None, lambda h, a: each(h, k, a))
    return out

def c01(g, deep):
    hs = []
    for t, k, size, share in [('i8', 'D', 3, 1), ('i64', 'S', 3, 0.35), ('u8', 'D', 2, 1), ('u32', 'S', 2, 1), ('f64', 'D', 3, 0.2),
                              ('gf', 'S', 2, 1), ('i16', 'L', 0, 1), ('f32', 'L', 0, 0.3), ('u16', 'L', 0, 1), ('isize', 'Q', 0, 0.2)]:
        if deep:
            size, share = size + (1 if k in 'DS' and size < 3 else 0), 1
        un = is_unsigned(t)
        def each(h, b):
            h.put(2, k, b)
            for f in ADD_FORMS[k]:
                h.bin('add', f, 1, 2, 3)
            if not un or k in 'LQ':
                for f in SUB_FORMS[k]:
                    h.bin('sub', f, 1, 2, 4)
            if k == 'S' and not un:
                h.put(5, 'D', [dict((d, c) for c, d in b).get(2 - i, 0) for i in range(3)])
                h.bin('sub', 'op', 1, 5, 6)
        hs += pairs_of(g, t, k, size, share, False, each)
    for t in ('i8', 'f64', 'gf'):
        for k in KINDS:
            hs += packs(t, shapes(t, k, 3), 60, lambda h: None, lambda h, a: h.put(1, k, a).neg(1, 2))
    return hs

def c02(g, deep):
    hs = []
    for t, k, size, share in [('i8', 'D', 3, 1), ('i64', 'S', 3, 0.35), ('u8', 'D', 2, 1), ('u32', 'S', 2, 1), ('f64', 'D', 3, 0.2),
                              ('gf', 'D', 2, 1), ('gf', 'S', 2, 1), ('i16', 'M', 3, 1), ('f32', 'M', 2, 1)]:
        if deep:
            size, share = size + (1 if k in 'DS' and size < 3 else 0), 1
        def each(h, b):
            h.put(2, k, b)
            for f in MUL_FORMS[k]:
                h.bin('mul', f, 1, 2, 3)
        hs += pairs_of(g, t, k, size, share, False, each, need=4)
    for t, k in [('i32', 'D'), ('i128', 'S'), ('f64', 'D'), ('f32', 'S'), ('gf', 'D'), ('gf', 'S'), ('u16', 'D'), ('u64', 'S'), ('i16', 'M'), ('usize', 'M')]:
        def each(h, a):
            h.need = 4
            h.put(1, k, a)
            for e in range(8 if deep else 6):
                h.pow(1, e, 2)
        hs += packs(t, shapes(t, k, 3 if deep else 2), 60, lambda h: None, each)
    for t in ('i8', 'u8', 'f64', 'gf'):
        for k in KINDS:
            def each(h, a):
                h.need = 8
                h.put(1, k, a)
                for c in values(t, True):
                    for f in ('op', 'as'):
                        h.scal('smul', f, 1, c, 2)
                        if c != 0 or not is_float(t):
                            h.scal('sdiv', f, 1, c, 2)
            hs += packs(t, shapes(t, k, 2), 60, lambda h: None, each)
    for t in BUILTIN:
        def each(h, k, a):
            h.need = 8
            h.put(1, k, a)
            h.put(2, k, [(1, g.choice([0, 1, 2]))])
            h.bin('mul', g.choice(MUL_FORMS[k]), 1, 2, 3)
            h.bin('mul', g.choice(MUL_FORMS[k]), 1, 1, 3)
            h.pow(1, g.choice([0, 1, 2, 3]), 3)
        hs += edges(g, t, deep, each, share=0.05)
    for ks in itertools.product(KINDS, repeat=3):
        t = 'i32'
        h = Hist(t, label='small scope')
        pick = [g.sample(shapes(t, k, 2), min(4 if deep else 2, len(shapes(t, k, 2)))) for k in ks]
        for raws in itertools.product(*pick):
            for d, (k, raw) in enumerate(zip(ks, raws)):
                h.put(d + 1, k, raw)
            h.pmac('pmul', 1, 2, 4)
            h.mulp(1, 2, 3)
            h.mulsink(1, 2)
        hs.append(h)
    return hs

def c03(g, deep):
    hs = []
    for t, k, size, share in [('i8', 'D', 3, 0.6), ('i32', 'S', 3, 0.12), ('gf', 'D', 3, 0.6), ('gf', 'S', 3, 0.12), ('f64', 'D', 3, 0.25),
                              ('u8', 'D', 2, 1), ('f32', 'S', 2, 0.5), ('isize', 'S', 2, 0.5)]:
        if deep:
            share = 1
        def each(h, b):
            if is_float(t):
                h.rel = 40 if t == 'f64' else 14
                h.need = 65
            h.put(2, k, b)
            h.div(1, 2, 3, 4)
            if k == 'D':
                h.asdiv('quo', 1, 2, 3, 5)
            if k == 'D' or not is_unsigned(t):
                h.asdiv('rem', 1, 2, 4, 6)
                h.asdiv('remas', 1, 2, 4, 7)
        hs += pairs_of(g, t, k, size, share, True, each)
    return hs

def c04(g, deep):
    hs = []
    for t in BUILTIN + ['gf']:
        for k in ('DSMLQ' if t != 'gf' else 'DLQ'):
            size = 3
            if k == 'D' and (deep or t in ('i32', 'f64', 'u16')):
                size = 4
            pts = [0, 1, 2, 3] if is_unsigned(t) or t == 'gf' else [0, 1, -1, 2, -2]
            if is_float(t):
                pts.append(Fraction(1, 2))
            def each(h, a):
                h.need = 10
                h.put(1, k, a)
                for x in pts:
                    h.eval(1, x)
            hs += packs(t, some(g, shapes(t, k, size, t == 'i64'), 1 if deep or t in ('i32', 'f64') else 0.3), 60, lambda h: None, each)
    for t in BUILTIN:
        def each(h, k, a):
            h.need = 10
            h.put(1, k, a)
            for x in [0, 1] + ([] if is_unsigned(t) else [-1]):
                h.eval(1, x)
        hs += edges(g, t, deep, each, share=0.08)
    return hs

LONG = [('i16', 2**15 - 1), ('u16', 2**16 - 1), ('f32', 2**24)]
def long_dense(call, shift):
    """Dense polynomials whose top degree is around the largest the coefficient type can represent."""
    hs = []
    for t, m in LONG:
        for off in (-1, 0, 1, 2):
            h = Hist(t)
            h.need = 26
            h.put(1, 'D', [m if t == 'f32' and call == 'int' else 1, 0, 1])
            h.shift('shl', 'as', 1, m + off - shift - 2, 2)
            if call == 'der':
                h.der(2, 3)
            else:
                if t == 'f32':
                    h.rel = 14
                    h.need = 65
                h.integ(2, 3)
            hs.append(h)
    return hs

def c05(g, deep):
    hs = long_dense('der', 0)
    for t in CALC:
        for k in KINDS:
            size = 3
            if k == 'D' and (deep or t in ('i32', 'f32', 'u16')):
                size = 5
            if k == 'M':
                size = 6
            def each(h, a):
                h.put(1, k, a)
                h.der(1, 2)
                h.der(2, 3)
            hs += packs(t, some(g, shapes(t, k, size), 1 if deep or t in ('i32', 'f32') else 0.5), 60, lambda h: None, each)
        def each(h, k, a):
            h.need = 70
            h.put(1, k, a)
            h.der(1, 2)
        hs += edges(g, t, deep, each)
    return hs

def c06(g, deep):
    hs = long_dense('int', 1)
    for t in CALC:
        for k in KINDS:
            size = 3
            if k == 'D' and (deep or t in ('i32', 'f64', 'u16')):
                size = 4
            def each(h, a):
                if is_float(t):
                    h.rel = 40 if t == 'f64' else 14
                    h.need = 65
                h.put(1, k, a)
                h.integ(1, 2)
                h.area(1, 2, 0, 1).area(1, 2, 1, 2).area(1, 2, 2, 0)
                h.repc(1, 2, 1, 3)
                h.repc(1, 2, 0, 3)
            hs += packs(t, some(g, shapes(t, k, size, True) if k != 'D' or not size > 3 else shapes(t, k, size), 1 if deep or t in ('i32', 'f64') else 0.25),
                        60, lambda h: None, each)
        def each(h, k, a):
            if is_float(t):
                h.rel = 40 if t == 'f64' else 14
                h.need = 65
            h.put(1, k, a)
            h.integ(1, 2)
            h.area(1, 2, 0, 1)
            h.repc(1, 2, 1, 3)
        hs += edges(g, t, deep, each)
    return hs

def c07(g, deep):
    hs = []
    for t in ALL if deep else ['i8', 'u64', 'f32', 'f64', 'gf', 'isize']:
        for k in KINDS:
            size = 5 if k == 'D' and (deep or t in ('i8', 'f64')) else 3
            def each(h, a):
                h.put(1, k, a)
                h.obs(1, [0, 1, 2, 3, 4, 5])
                if k == 'D':
                    h.trim(1)
                    h.raw_len(1)
                    h.obs(1, [0, 1, 2, 3])
            hs += packs(t, some(g, shapes(t, k, size), 1 if deep or t in ('i8', 'f64') else 0.4), 60, lambda h: None, each)
    for t, k, size, share in [('i8', 'D', 3, 1), ('i64', 'S', 3, 1), ('f64', 'S', 2, 1), ('u8', 'D', 3, 0.4), ('i32', 'M', 3, 1), ('i16', 'L', 0, 1), ('f32', 'Q', 0, 0.5), ('gf', 'D', 3, 0.4)]:
        def each(h, b):
            h.put(2, k, b)
            h.eq(1, 2)
        hs += pairs_of(g, t, k, size, 1 if deep else share, False, each)
    # the zero scan works in blocks: every length and every position of the first non-zero coefficient
    for t in ('i32', 'f64'):
        def each(h, x):
            n, i = x
            v = [0] * n
            if i < n:
                v[i] = 1
            h.put(1, 'D', v)
            h.obs(1, [0, max(n - 1 - i, 0), n, n + 1])
            h.trim(1)
            h.raw_len(1)
            h.put(2, 'D', v + [1])
            h.obs(2, [0, 1])
        hs += packs(t, [(n, i) for n in range(18 if deep else 14) for i in range(n + 1)], 60, lambda h: None, each)
    return hs

def c08(g, deep):
    hs = []
    for t in (ALL if deep else ['i8', 'u64', 'f64', 'gf']):
        for k in KINDS:
            ns = range(0, 5) if k in 'LQ' else range(-5, 6)
            def each(h, a):
                h.put(1, k, a)
                for m in ns:
                    for o in (['shr'] if k in 'LQ' else ['shl', 'shr']):
                        for f in ('op', 'as'):
                            h.shift(o, f, 1, m, 2)
            hs += packs(t, some(g, shapes(t, k, 4 if k == 'D' else 3), 1 if deep else 0.5 if t == 'i8' else 0.15), 90, lambda h: None, each)
        def each(h, k, a):
            h.put(1, k, a)
            for m in (g.choice([1, 2, 3]), g.choice([-2, -1, 0, 2**31 - 1, -2**31 + 1])):
                for o in ('shl', 'shr'):
                    h.shift(o, g.choice(['op', 'as']), 1, m, 2)
        hs += edges(g, t, deep, each)
    return hs

def fresh(k, a, d):
    return k == 'D' and d >= len(a) or k == 'S' and d not in [x for _, x in a]

def c09(g, deep):
    hs = []
    for t in (BUILTIN if deep else ['i8', 'u8', 'f64', 'u128']):
        for k in KINDS:
            cs = values(t)
            def each(h, a):
                h.put(1, k, a)
                for c in cs:
                    for d in range(5):
                        for o in ['tadd', 'tsub'] + (['aterm'] if k in 'DS' else []):
                            h.clone(1, 2)
                            h.term(o, 2, c, d, fresh(k, a, d))
            hs += packs(t, some(g, shapes(t, k, 3), 1 if deep else 0.25), 90, lambda h: None, each)
        def each(h, k, a):
            h.put(1, k, a)
            (c, d) = a[0]
            for o in ['tadd', 'tsub'] + (['aterm'] if k == 'S' else []):
                for e in (d, d - 1, 2**64 - 1):
                    h.clone(1, 2)
                    h.term(o, 2, 1, e, fresh(k, a, e))
        hs += edges(g, t, deep, each)
    for t in ['u8', 'u16', 'u32', 'u64', 'u128', 'usize']:
        for k in 'DS':
            def each(h, a):
                h.put(1, k, a)
                for d in range(4):
                    h.clone(1, 2)
                    h.term('tsub', 2, 1, d, fresh(k, a, d))
                # a refusal leaves nothing behind: the next one goes the same way
                h.clone(1, 2)
                for d in (5, 5, 4, 3, 6, 3):
                    if fresh(k, a, d):
                        h.term('tsub', 2, 1, d, True)
            hs += packs(t, some(g, shapes(t, k, 2), 1), 90, lambda h: None, each)
    for t in (['i8', 'u8', 'f64', 'i64', 'u64'] if deep else ['i8', 'u8']):
        for k1, k2 in itertools.product(KINDS, repeat=2):
            xs, ys = shapes(t, k1, 2), shapes(t, k2, 2)
            def each(h, p):
                h.put(1, k1, p[0])
                h.put(2, k2, p[1])
                for o in ('addp', 'subp'):
                    for f in ('fn', 'mac'):
                        h.clone(2, 3)
                        h.polyto(o, f, 1, 3)
                h.clone(2, 3)
                h.mulsink(1, 3)
                h.clone(2, 3)
                h.mulp(1, 2, 3)
                h.pmac('padd', 1, 2, 4)
                h.pmac('psub', 1, 2, 4)
            ps = list(itertools.product(xs, ys))
            hs += packs(t, g.sample(ps, min(len(ps), 400 if deep else 40)), 90, lambda h: None, each)
    return hs

def c11(g, deep):
    hs = []
    for t in BUILTIN:
        for k in KINDS:
            def each(h, a):
                h.big = True
                h.need = 4
                h.put(1, k, a)
                h.disp(1)
                h.rt(1, 2)
                h.eq(1, 2)
            xs = shapes(t, k, 4 if deep and k == 'D' else 3, True)
            hs += packs(t, some(g, xs, 1 if deep else 1 if t in ('i8', 'f64') and k != 'S' else 0.2), 60, lambda h: None, each)
    return hs

def c12(g, deep):
    hs = []
    for t in QUAD_TYPES:
        fl = is_float(t)
        r = 6 if deep else 4
        def each(h, v):
            if fl:
                h.rel = 24 if t == 'f64' else 8
                h.need = 60 if t == 'f64' else 40
                h.big = True
            h.put(1, 'Q', list(v))
            h.disc(1)
            w = exact_roots(*v, not fl)
            for o in ('qroots', 'rfac', 'cfac'):
                h.quad(o, 1, w)
        vs = list(itertools.product(range(-r, r + 1), repeat=3))
        hs += packs(t, some(g, vs, 1 if deep or t == 'i32' else 0.15), 60, lambda h: None, each)
        def each(h, v):
            if fl:
                h.rel, h.need, h.big = 24 if t == 'f64' else 8, 60 if t == 'f64' else 40, True
            h.put(1, 'L', list(v))
            h.lroot(1)
            h.put(2, 'M', [(v[0], abs(v[1]))])
            h.root(2)
        hs += packs(t, list(itertools.product(range(-r, r + 1), repeat=2)), 60, lambda h: None, each)
    return hs

def c13(g, deep):
    hs = []
    def each(h, v):
        h.big, h.rel, h.need = True, 20, 130
        k = 'DS'[len(h.cmds) // 2 % 2]
        f = {len(v) - 1 - i: c for i, c in enumerate(v) if c}
        h.put(1, k, raw_of(g, k, f))
        h.froots(1)
    for n in range(1, 4):
        hs += packs('f64', list(itertools.product(range(-4, 5), repeat=n)), 60, lambda h: None, each)
    cubics = list(itertools.product(range(-3, 4), repeat=4))
    hs += packs('f64', some(g, cubics, 1 if deep else 0.5), 60, lambda h: None, each)
    # quartics and quintics with small distinct integer roots and at most one complex pair
    def witness(h, x):
        h.big, h.rel, h.need = True, 20, 130
        w, pairs, lead = x
        k = 'DS'[len(h.cmds) // 2 % 2]
        h.put(1, k, raw_of(g, k, from_roots(lead, w, pairs)))
        h.froots(1, True, w, list(pairs))
    xs = [(tuple(map(Fraction, w)), (), l) for n in (4, 5) for w in itertools.combinations(range(-4, 5), n) for l in (1, -2)]
    xs += [(tuple(map(Fraction, w)), ((u, v),), 1) for n in (2, 3) for w in itertools.combinations(range(-3, 4), n) for u in (-2, 0, 1) for v in (2, 5)]
    hs += packs('f64', some(g, xs, 1 if deep else 0.6), 40, lambda h: None, witness)
    return hs

def c15(g, deep):
    hs = []
    for t in WIDER:
        for u in WIDER[t]:
            for k in KINDS:
                def each(h, a):
                    h.put(1, k, a)
                    h.conv(u, 1, [0, 1, 2, 3])
                hs += packs(t, some(g, shapes(t, k, 3), 1 if deep else 0.12), 60, lambda h: None, each)
            def each(h, k, a):
                h.put(1, k, a)
                h.conv(u, 1, [0, 1, a[0][1], a[0][1] - 1])
            hs += edges(g, t, deep, each, share=0.03)
    return hs

def c16(g, deep):
    hs = []
    for t in (BUILTIN if deep else ['i8', 'u8', 'f64', 'i64']):
        calc = t in CALC
        def each(h, a):
            if is_float(t):
                h.rel, h.need = (40 if t == 'f64' else 14), 65
            n = len(a)
            h.put(1, 'A', a)
            h.obs(1, [0, 1, 2, 3, 4])
            for x in (0, 1, 2):
                h.eval(1, x)
            if calc:
                h.der(1, 5)
                h.integ(1, 6)
                h.area(1, 6, 0, 1).area(1, 6, 1, 2)
                h.repc(1, 6, 1, 7)
            for d in range(5):
                for o in ('tadd', 'tsub'):
                    h.clone(1, 2)
                    h.raw('%s 2 %s %d' % (o, wr(t, 1), d), dict(o=o, a=2, n=n, c=1, g=d, _r='xr', f=o))
        hs += packs(t, some(g, list(vectors(t, 4 if deep else 3)), 1), 90, lambda h: None, each)
        for n in (1, 2, 3):
            xs = [list(v) for v in itertools.product(values(t), repeat=n)]
            for a in xs:
                def start(h, a=a):
                    h.put(1, 'A', a)
                hs += packs(t, xs, 90, start, lambda h, b: h.put(2, 'A', b).eq(1, 2))
    return hs
