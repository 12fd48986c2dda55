"""Random and systematic inputs.  Everything is drawn from one seeded generator."""
import random
from fractions import Fraction
from hist import *

class Gen(random.Random):
    # ---- numbers ----
    def small(self, t, hi=9):
        if t == 'gf':
            return self.randrange(GF)
        if is_unsigned(t):
            return self.randint(0, hi)
        return self.randint(-hi, hi)

    def nz(self, t, hi=9):
        while True:
            v = self.small(t, hi)
            if v:
                return v

    def dyadic(self, t, hi=9, bits=3):
        """A float with few significant bits."""
        return Fraction(self.randint(-hi << bits, hi << bits), 1 << bits)

    def extreme(self, t):
        if t == 'gf':
            return self.choice([0, 1, GF - 1, GF // 2, GF // 2 + 1, 2])
        if is_float(t):
            return self.choice([Fraction(1), Fraction(-1), Fraction(1, 1024), Fraction(4096), Fraction(-4096),
                                Fraction(1, 2), Fraction(-3, 4)])
        lo, hi = INT_TYPES[t]
        c = [lo, hi, hi - 1, hi // 2, hi // 2 + 1, 0, 1, 2]
        if lo < 0:
            c += [lo + 1, -1, lo // 2, lo // 2 - 1]
        return self.choice(c)

    def uniform(self, t):
        if t == 'gf':
            return self.randrange(GF)
        if is_float(t):
            return self.dyadic(t, 1000, 6)
        lo, hi = INT_TYPES[t]
        if self.random() < 0.5:
            b = self.randrange(1, hi.bit_length())
            hi2 = min(hi, (1 << b))
            return self.randint(max(lo, -hi2), hi2)
        return self.randint(lo, hi)

    def coef(self, t, style):
        if style == 'mix':
            style = self.choice(['small', 'small', 'extreme', 'uniform', 'unit'])
        if style == 'small':
            return self.dyadic(t) if is_float(t) and self.random() < 0.5 else self.small(t)
        if style == 'int':
            return self.small(t)
        if style == 'unit':
            return self.choice([0, 1, 1] if is_unsigned(t) else [0, 1, GF - 1 if t == 'gf' else -1])
        if style == 'extreme':
            return self.extreme(t)
        return self.uniform(t)

    # ---- shapes ----
    def length(self, top=12):
        r = self.random()
        if r < 0.72:
            return self.randint(0, min(9, top))
        return self.choice([x for x in (10, 11, 12, 13, 16, 17, 31, 33) if x <= top] or [top])

    def pad(self):
        return self.choice([0, 0, 0, 1, 2, 3, 4, 5, 7, 8])

    def vec(self, t, style='small', top=12, pad=None, zeros=None):
        n = self.length(top)
        z = self.choice([0, 0.2, 0.5, 0.8]) if zeros is None else zeros
        v = [0 if self.random() < z else self.coef(t, style) for _ in range(n)]
        p = self.pad() if pad is None else pad
        return [0] * p + v

    def degree(self, t, style='small'):
        if style == 'small':
            return self.randint(0, 9)
        if style == 'mid':
            return self.choice([self.randint(0, 9), self.randint(0, 40), 126, 127, 128, 129, 254, 255, 256, 257])
        if style == 'big':
            b = self.choice([2**15, 2**16, 2**24, 2**31, 2**32, 2**33, 2**53, 2**62, 2**63 - 2**33][:3 if t == 'gf' else None])
            return b + self.randint(-3, 3)
        return self.degree(t, self.choice(['small', 'small', 'mid', 'big']))

    def pairs(self, t, style='small', dstyle='small', zeros=None, most=8):
        n = self.randint(0, most)
        z = self.choice([0, 0.2, 0.5]) if zeros is None else zeros
        ds = sorted({self.degree(t, dstyle) for _ in range(n)})
        out = {}
        for d in ds:
            c = 0 if self.random() < z else self.coef(t, style)
            if c:
                out[d] = c
            else:
                out.setdefault(d if d < 2**40 else d % 1000, 0)
        return [(c, d) for d, c in sorted(out.items())]

    def value(self, t, k, style='small', dstyle='small', top=12):
        """A raw value of kind k."""
        if k in 'DA':
            return self.vec(t, style, top)
        if k == 'S':
            return self.pairs(t, style, dstyle)
        if k == 'M':
            c, d = self.coef(t, style), self.degree(t, dstyle)
            # The degree of a zero coefficient is stored too, and could overflow.
            return [(c, d if c or d < 2**40 else d % 1000)]
        n = 2 if k == 'L' else 3
        return [0 if self.random() < 0.25 else self.coef(t, style) for _ in range(n)]

    def form(self, k):
        return self.choice({'D': ['lit', 'lit', 'lit', 'new'], 'S': ['lit', 'new'], 'M': ['lit', 'new'],
                            'L': ['lit', 'new'], 'Q': ['lit', 'new']}[k])

    def put(self, h, d, k, raw):
        f = self.form(k)
        if k == 'D' and self.random() < 0.15:
            f = 'from'
        if k == 'M' and raw[0][1] == 0 and self.random() < 0.5:
            f = 'from'
        h.put(d, k, raw, f)

def terms_of(k, raw):
    """Non-zero terms of a raw value, as {degree: coeff} (used to steer generation only)."""
    if k in 'SM':
        return {d: c for c, d in raw if c}
    n = len(raw)
    return {n - 1 - i: c for i, c in enumerate(raw) if c}

def opposite(raw, k):
    return [(-c, d) for c, d in raw] if k in 'SM' else [-c for c in raw]

ALL = SIGNED + UNSIGNED + ['f32', 'f64', 'gf']
