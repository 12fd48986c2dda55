"""Histories: scripts of library calls, and the events the library's answers amount to.

A history is a list of (script line, event template).  The driver answers every line; `absorb`
turns an answer into the event that is checked against the specification.  Nothing in this file
decides whether an answer is right."""
from fractions import Fraction
import json, re

INT_TYPES = {
    'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
    'i64': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1),
    'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1),
    'u64': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
    'isize': (-2**63, 2**63 - 1), 'usize': (0, 2**64 - 1)}
FLOATS = {'f32': 24, 'f64': 53}
SIGNED = ['i8', 'i16', 'i32', 'i64', 'i128', 'isize']
UNSIGNED = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize']
GF = 97
RING = 12
USIZE = 2**64 - 1
SMALL = 2**29          # below this everything the specification computes fits a TLC integer

def is_float(t): return t in FLOATS
def is_int(t): return t in INT_TYPES
def is_signed(t): return t[0] == 'i'
def is_unsigned(t): return t[0] == 'u'

# ---- text form of numbers -------------------------------------------------------------------
def wr(t, v):
    if is_float(t):
        f = Fraction(v)
        n, d = f.numerator, f.denominator
        e = -(d.bit_length() - 1)
        assert 1 << -e == d, v
        while n and n % 2 == 0:
            n, e = n // 2, e + 1
        return '%d@%d' % (n, e)
    return str(int(v))

class Garbage(Exception):
    pass

def rd(t, s):
    if is_float(t):
        if s == 'nan':
            raise Garbage()
        m, e = s.split('@')
        return Fraction(int(m)) * Fraction(2)**int(e)
    return int(s)

def wr_list(t, v): return ','.join(wr(t, x) for x in v) or '-'
def wr_pairs(t, v): return ','.join('%s:%d' % (wr(t, c), d) for c, d in v) or '-'
def rd_pairs(t, s):
    if s == '-':
        return []
    out = []
    for x in s.split(','):
        c, d = x.rsplit(':', 1)
        out.append((rd(t, c), int(d)))
    return out

# ---- histories ------------------------------------------------------------------------------
class Hist:
    """Builds one history.  `ev` templates hold inputs; outputs are filled in by absorb()."""
    def __init__(self, t, rel=None, label=None):
        self.t = t
        self.rel = rel            # float tolerance in bits, None for exact
        self.cmds = []            # (line, template)
        self.events = []
        self.label = label
        self.dead = False
        self.stuck = None
        self.loose = False        # calls the operands' kinds do not offer are left out
        self.big = False          # always use the big number system
        self.zeros = 0
        self.need = 0             # extra fractional bits the specification needs (floats)

    def raw(self, line, ev):
        if self.t in FLOATS and '0@0' in line:
            # zero has two signs; every other one here is the negative one
            line = re.sub(r'(?<![0-9])0@0(?![0-9])', self.zero_text, line)
        self.cmds.append((line, ev))
        return self

    def zero_text(self, _):
        self.zeros += 1
        return '0@0' if self.zeros % 3 else '-0@0'

    # constructors: raw is a vector for D L Q, a list of (coeff, degree) for S M
    def put(self, d, k, raw, form='lit'):
        t = self.t
        if k in 'SM':
            if form == 'from':
                if k == 'S':
                    # raw given as a vector
                    line = 'put %d S from %s' % (d, wr_list(t, raw))
                    n = len(raw)
                    raw = [(c, n - 1 - i) for i, c in enumerate(raw)]
                else:
                    line = 'put %d M from %s' % (d, wr_pairs(t, raw))
            else:
                line = 'put %d %s %s %s' % (d, k, form, wr_pairs(t, raw))
        else:
            line = 'put %d %s %s %s' % (d, k, form, wr_list(t, raw))
        return self.raw(line, dict(o='put', d=d, k=k, raw=list(raw), _r='r'))

    def bin(self, o, form, a, b, d):
        return self.raw('%s %s %d %d %d' % (o, form, a, b, d), dict(o=o, a=a, b=b, d=d, _r='xr', f=form))
    def neg(self, a, d): return self.raw('neg %d %d' % (a, d), dict(o='neg', a=a, d=d, _r='xr'))
    def scal(self, o, form, a, c, d):
        return self.raw('%s %s %d %s %d' % (o, form, a, wr(self.t, c), d),
                        dict(o=o, a=a, c=c, d=d, _r='xr', f=form))
    def pow(self, a, n, d):
        if n >= 2**31:
            self.big = True
        return self.raw('pow %d %d %d' % (a, n, d), dict(o='pow' if n < 2**31 else 'powbig', a=a, n=n, d=d, _r='xr'))
    def shift(self, o, form, a, n, d):
        return self.raw('%s %s %d %d %d' % (o, form, a, n, d), dict(o=o, a=a, n=n, d=d, _r='xr', f=form))
    def div(self, a, b, d, e):
        return self.raw('div %d %d %d %d' % (a, b, d, e), dict(o='div', a=a, b=b, d=d, e=e, _r='xqr'))
    def asdiv(self, how, a, b, s, d):
        return self.raw('%s %d %d %d' % (how, a, b, d), dict(o='asdiv', a=a, b=b, s=s, d=d, _r='xr', f=how))
    def eval(self, a, c): return self.raw('eval %d %s' % (a, wr(self.t, c)), dict(o='eval', a=a, c=c, _r='xv'))
    def der(self, a, d, mac=False): return self.raw('der %d %d%s' % (a, d, ' mac' if mac else ''), dict(o='der', a=a, d=d, _r='xr'))
    def integ(self, a, d, mac=False): return self.raw('int %d %d%s' % (a, d, ' mac' if mac else ''), dict(o='int', a=a, d=d, _r='xr'))
    def area(self, a, i, c, c2):
        return self.raw('area %d %s %s' % (a, wr(self.t, c), wr(self.t, c2)),
                        dict(o='area', a=i, c=c, c2=c2, _r='xv'))
    def repc(self, a, i, c, d):
        return self.raw('repc %d %s %d' % (a, wr(self.t, c), d), dict(o='repc', a=i, c=c, d=d, _r='xr'))
    # Integral::new around the polynomial in register a
    def wrap_area(self, a, c, c2):
        return self.raw('wrap area %d %s %s' % (a, wr(self.t, c), wr(self.t, c2)), dict(o='area', a=a, c=c, c2=c2, _r='xv'))
    def wrap_repc(self, a, c, d):
        return self.raw('wrap repc %d %s %d' % (a, wr(self.t, c), d), dict(o='repc', a=a, c=c, d=d, _r='xr'))
    def wrap_inner(self, a, d): return self.raw('wrap inner %d %d' % (a, d), dict(o='same', a=a, d=d, _r='r', f='inner'))
    def wrap_disp(self, a): return self.raw('wrap disp %d' % a, dict(o='idisp', a=a, _r='text'))
    def term(self, o, a, c, g, fresh=False):
        """o: tadd, tsub, aterm; fresh: nothing is stored at that degree, and the type can grow"""
        ev = dict(o='tadd' if o == 'aterm' else o, a=a, n=0, c=c, g=g, fresh=fresh, _r='xr', f=o)
        return self.raw('%s %d %s %d' % (o, a, wr(self.t, c), g), ev)
    def fterms(self, k, d, ts):
        return self.raw('fterms %s %d %s' % (k, d, wr_pairs(self.t, ts)),
                        dict(o='fterms', k=k, d=d, ts=list(ts), _r='xr'))
    def polyto(self, o, form, a, b):
        return self.raw('%s %s %d %d' % (o, form, a, b), dict(o=o, a=a, b=b, n=0, _r='xr', f=form))
    def mulp(self, x, y, b):
        return self.raw('mulp %d %d %d' % (x, y, b), dict(o='mulp', a=x, e=y, b=b, n=0, _r='xr'))
    def mulsink(self, x, b):
        return self.raw('mulsink %d %d' % (x, b), dict(o='mulsink', a=x, b=b, n=0, _r='xr'))
    def pmac(self, o, a, b, d):
        return self.raw('%s %d %d %d' % (o, a, b, d), dict(o=o, a=a, b=b, d=d, _r='xr'))
    def pmac3(self, o, a, b, e, d):
        """o: padd3, psub3, pmul3"""
        return self.raw('%s %d %d %d %d' % (o, a, b, e, d), dict(o=o, a=a, b=b, e=e, d=d, _r='xr'))
    def sink2(self, o, x, y, b):
        """o: addp2, subp2, mulsink2"""
        return self.raw('%s %d %d %d' % (o, x, y, b), dict(o=o, a=x, e=y, b=b, n=0, _r='xr'))
    def tnew(self, c, g):
        return self.raw('tnew %s %d' % (wr(self.t, c), g), dict(o='tnew', c=c, g=g, _r='xr'))
    def obs(self, a, looks):
        return self.raw('obs %d %s' % (a, ','.join(map(str, looks)) or '-'), dict(o='obs', a=a, _r='obs'))
    def conv(self, to, a, looks):
        return self.raw('conv %s %d %s' % (to, a, ','.join(map(str, looks)) or '-'), dict(o='conv', to=to, a=a, _r='conv'))
    def raw_len(self, a): return self.raw('raw %d' % a, dict(o='len', a=a, _r='len'))
    def eq(self, a, b): return self.raw('eq %d %d' % (a, b), dict(o='eq', a=a, b=b, _r='eq'))
    def zero(self, k, d): return self.raw('zero %s %d' % (k, d), dict(o='zero', d=d, k=k, _r='r'))
    def setz(self, a): return self.raw('setz %d' % a, dict(o='setz', a=a, _r='r'))
    def trim(self, a): return self.raw('trim %d' % a, dict(o='same', a=a, d=a, _r='r', f='trim'))
    def clone(self, a, d): return self.raw('clone %d %d' % (a, d), dict(o='same', a=a, d=d, _r='r', f='clone'))

    # ---- text ----
    def parse(self, k, d, text):
        return self.raw('parse %s %d %s' % (k, d, text.encode().hex() or '-'),
                        dict(o='parse', k=k, d=d, s=[ord(c) for c in text], _r='parse'))
    def term_text(self, text):
        return self.raw('term %s' % (text.encode().hex() or '-'), dict(o='term', s=[ord(c) for c in text], _r='parse'))
    def disp(self, a): return self.raw('disp %d' % a, dict(o='disp', a=a, _r='text'))
    def idisp(self, a, i): return self.raw('idisp %d' % a, dict(o='idisp', a=i, _r='text'))
    def rt(self, a, d): return self.raw('rt %d %d' % (a, d), dict(o='same', a=a, d=d, _r='r', f='roundtrip'))

    # ---- roots ----
    def lroot(self, a): return self.raw('lroot %d' % a, dict(o='lroot', a=a, _r='roots'))
    def root(self, a): return self.raw('root %d' % a, dict(o='root', a=a, _r='roots'))
    def disc(self, a): return self.raw('disc %d' % a, dict(o='disc', a=a, _r='xv'))
    def quad(self, o, a, cw=()):
        """o: qroots, rfac, cfac; cw: the two roots as (re, im), when they are known exactly"""
        return self.raw('%s %d' % (o, a), dict(o=o, a=a, cw=list(cw), _r='roots' if o == 'qroots' else 'fac'))
    def froots(self, a, wit=False, w=(), pair=()):
        return self.raw('froots %d' % a, dict(o='froots', a=a, wit=wit, w=list(w), pair=list(pair), _r='roots'))

    # ---- answers ----
    def absorb(self, i, ans):
        line, ev = self.cmds[i]
        if ans == 'skip':
            return
        if ans == 'unsup' and self.loose:
            return
        if ans == 'unsup':
            # The history cannot go on. Either an earlier answer was wrong, which the verdict on the
            # events so far tells, or this history should not have been generated.
            self.stuck = self.stuck or 'driver does not support: %s (%s)' % (line, self.t)
        if self.stuck:
            return
        t = self.t
        e = {k: v for k, v in ev.items() if not k.startswith('_')}
        kind = ev['_r']
        tok = ans.split(' ')
        try:
            if kind == 'r':
                e['r'] = rd_pairs(t, tok[1]) if tok[0] == 'ok' else [(0, 0)]
                if tok[0] != 'ok':
                    e['o'] = e['o'] + '!' + tok[0]      # never accepted
            elif kind == 'xr':
                e['x'] = tok[0]
                e['r'] = rd_pairs(t, tok[1]) if len(tok) > 1 else []
            elif kind == 'xqr':
                e['x'] = tok[0]
                e['q'] = rd_pairs(t, tok[1]) if tok[0] == 'ok' else []
                e['r'] = rd_pairs(t, tok[2]) if tok[0] == 'ok' else []
            elif kind == 'xv':
                e['x'] = tok[0]
                e['v'] = rd(t, tok[1]) if tok[0] == 'ok' else 0
            elif kind in ('obs', 'conv'):
                if tok[0] != 'ok':
                    e['o'] = e['o'] + '!' + tok[0]
                else:
                    tt = t
                    if kind == 'conv':
                        tt = ev['to']
                        e['r'] = rd_pairs(tt, tok.pop(1))
                    e['deg'] = [] if tok[1] == '-' else [int(tok[1])]
                    e['z'] = tok[2] == 'true'
                    e['it'] = rd_pairs(tt, tok[3])
                    e['tv'] = rd_pairs(tt, tok[4])
                    lk = []
                    if tok[5] != '-':
                        for x in tok[5].split(','):
                            p = x.split(':')
                            lk.append([int(p[0])] if len(p) == 1 else [int(p[0]), rd(tt, p[1]), int(p[2])])
                    e['look'] = lk
                    if not is_float(t) and any(Fraction(c).denominator != 1 for c in coefs_of(e)):
                        raise Garbage()
            elif kind == 'len':
                e['x'] = tok[0]
                e['m'] = int(tok[1]) if tok[0] == 'ok' else 0
            elif kind == 'roots':
                e['x'] = tok[0]
                e['cl'], e['re'], e['co'] = '', [], []
                if tok[0] == 'ok':
                    e['cl'] = tok[1]
                    if tok[2] != '-':
                        for x in tok[2].split(','):
                            if ':' in x:
                                e['co'].append([rd(t, y) for y in x.split(':')])
                            else:
                                e['re'].append(rd(t, x))
            elif kind == 'fac':
                e['x'] = tok[0]
                e['some'], e['v'], e['fs'] = False, 0, []
                if tok[0] == 'ok' and tok[1] == 'some':
                    e['some'] = True
                    e['v'] = rd(t, tok[2])
                    z = [[rd(t, y) for y in (x if ':' in x else x + ':' + wr(t, 0)).split(':')] for x in tok[3].split(',')]
                    e['fs'] = [z[:2], z[2:]]
            elif kind == 'parse':
                e['u'] = 0
                e['r'] = []
                if tok[0] == 'err':
                    x, _, u = tok[1].partition(':')
                    e['x'], e['u'] = x, int(u or 0)
                else:
                    e['x'] = tok[0]
                    if tok[0] == 'ok':
                        e['r'] = rd_pairs(t, tok[1])
            elif kind == 'text':
                e['x'] = tok[0]
                e['s'] = [ord(c) for c in bytes.fromhex('' if tok[1] == '-' else tok[1]).decode()] if tok[0] == 'ok' else []
            elif kind == 'eq':
                if tok[0] != 'ok':
                    e['o'] = 'eq!' + tok[0]
                elif tok[1] == tok[2]:
                    e['o'] = 'eq!both'                   # == and != agree: never accepted
                else:
                    e['v'] = tok[1] == 'true'
            else:
                raise RuntimeError(kind)
        except Garbage:
            e = {k: v for k, v in ev.items() if not k.startswith('_')}
            e['o'] = e['o'] + '!garbage'
        e['_line'] = i
        self.events.append(e)

    def broken(self, i, why):
        """The call never answered (hang) or ended the process (crash)."""
        ev = self.cmds[i][1]
        e = {k: v for k, v in ev.items() if not k.startswith('_')}
        e['o'] = e['o'] + '!' + why
        e['_line'] = i
        self.events.append(e)
        self.dead = True

# ---- encoding for TLC -----------------------------------------------------------------------
COEF = {'c', 'c2', 'v'}
LISTS = {'r', 'q', 'it', 'tv', 'ts'}

def frac_bits(v):
    return Fraction(v).denominator.bit_length() - 1

NESTED = {'re', 'co', 'cw', 'w', 'pair', 'fs'}
def flat(v):
    for x in v:
        if isinstance(x, (list, tuple)):
            yield from flat(x)
        else:
            yield x

def deep(f, v):
    return [deep(f, x) for x in v] if isinstance(v, (list, tuple)) else f(v)

def coefs_of(e):
    for k, v in e.items():
        if k in NESTED:
            yield from flat(v)
        if k in COEF and not isinstance(v, bool):
            yield v
        elif k in LISTS:
            for c, _ in v:
                yield c
        elif k == 'raw':
            for x in v:
                yield x[0] if isinstance(x, tuple) else x
        elif k == 'look':
            for x in v:
                if len(x) > 1:
                    yield x[1]

def degs_of(e):
    for k, v in e.items():
        if k == 'g' or (k == 'n' and e['o'] in ('shl', 'shr', 'powbig')):
            yield abs(v)
        elif k in LISTS:
            for _, d in v:
                yield d
        elif k == 'raw':
            for x in v:
                if isinstance(x, tuple):
                    yield x[1]
        elif k == 'look':
            for x in v:
                yield x[0]
        elif k == 'deg':
            yield from v

def mass(p): return sum(abs(c) for c, _ in p)
def top(p): return p[0][1] if p else 0

def powcap(x, n):
    x = abs(x)
    if x <= 1:
        return 1
    if n > 40:
        return 2 * SMALL
    return x**n

def evalmass(p, x):
    m = 1
    for c, d in p:
        m = max(m, powcap(x, d))
    return m + sum(abs(c) * powcap(x, d) for c, d in p)

def divbound(a, b):
    """Largest magnitude long division of a by b meets."""
    from collections import defaultdict
    if not b:
        return 0
    r = defaultdict(Fraction, {d: Fraction(c) for c, d in a})
    bound = mass(a) + mass(b)
    while True:
        ds = [d for d in r if r[d] != 0]
        if not ds or max(ds) < b[0][1]:
            return bound
        d = max(ds)
        q = r[d] / b[0][0]
        exact = q.denominator == 1
        q = Fraction(int(q))
        if q == 0:
            return bound
        for c, e in b:
            r[e + d - b[0][1]] -= q * c
            bound = max(bound, abs(r[e + d - b[0][1]]), abs(q * c))
        bound = max(bound, abs(q) * mass(b))
        if not exact or bound > SMALL:
            return bound

SINKS = ('addp', 'subp', 'mulp', 'mulsink', 'addp2', 'subp2', 'mulsink2')
def bound_of(events):
    """A bound on everything the specification computes for these events."""
    regs = {}
    b = 1
    for e in events:
        o = e['o']
        get = lambda k: regs.get(e.get(k), [])
        for c in coefs_of(e):
            b = max(b, abs(c))
        for d in degs_of(e):
            b = max(b, d)
        if '!' in o:
            break
        A, B = get('a'), get('b')
        if o in ('add', 'sub', 'padd', 'psub', 'addp', 'subp', 'repc', 'tadd', 'tsub', 'neg', 'sdiv', 'int'):
            b = max(b, mass(A) + mass(B) + abs(e.get('c', 0)))
            if o == 'sdiv':
                b = max(b, (mass(e['r']) + 1) * abs(e['c']))
            if o == 'int':
                b = max(b, (mass(e['r']) + 1) * (top(A) + 2))
        elif o in ('mul', 'pmul'):
            b = max(b, mass(A) * mass(B), top(A) + top(B))
        elif o == 'smul':
            b = max(b, mass(A) * abs(e['c']))
        elif o == 'pow':
            b = max(b, powcap(max(mass(A), 1), e['n']), top(A) * e['n'])
        elif o == 'shl':
            b = max(b, top(A) + abs(e['n']))
        elif o == 'div':
            b = max(b, divbound(A, B), mass(e['q']) * mass(B) + mass(e['r']))
        elif o == 'asdiv':
            b = max(b, divbound(A, B))
        elif o == 'eval':
            b = max(b, evalmass(A, e['c']))
        elif o == 'area':
            b = max(b, evalmass(A, e['c']) + evalmass(A, e['c2']))
        elif o == 'der':
            b = max(b, max([abs(c) * d for c, d in A] or [0]), top(A) + 1)
        elif o in ('lroot', 'disc', 'qroots', 'rfac', 'cfac'):
            m = max([mass(A), 1] + [abs(c) for c in coefs_of(e)])
            b = max(b, 16 * m * m * (m if o not in ('lroot', 'disc') else 1))
        elif o == 'fterms':
            b = max(b, mass(e['ts']))
        elif o in ('padd3', 'psub3', 'addp2', 'subp2'):
            b = max(b, mass(A) + mass(B) + mass(get('e')))
        elif o in ('pmul3', 'mulsink2'):
            b = max(b, mass(A) * mass(B) * mass(get('e')), mass(A) * mass(B), mass(B) * mass(get('e')))
        elif o in ('mulp', 'mulsink'):
            b = max(b, mass(A) * mass(get('e') if o == 'mulp' else B) + mass(B))
        if b > SMALL:
            return b
        if 'r' in e and o not in ('div', 'tnew', 'term'):
            d = e['b'] if o in SINKS else e.get('d', e.get('a'))
            regs[d] = e['r']
        if o == 'div':
            regs[e['d']], regs[e['e']] = e['q'], e['r']
        if e.get('x') == 'panic' and o not in ('div', 'eval', 'area', 'tnew', 'term'):
            d = e['b'] if o in SINKS else e.get('d', e.get('a'))
            regs[d] = []
    return b

def big(v):
    if v == 0:
        return [0]
    s = 1 if v > 0 else -1
    v = abs(v)
    out = [s]
    while v:
        out.append(v & 8191)
        v >>= 13
    return out

def encode(h):
    """The history as the JSON object Trace.tla reads."""
    t = h.t
    evs = h.events
    if t in ('gf', 'ring'):
        n = dict(k='mod', t='field', p=GF if t == 'gf' else RING, fx=0, min=0, max=0, rel=-1, prec=0)
        cc = dd = int
    else:
        cs = [c for e in evs for c in coefs_of(e)]
        fb = max([frac_bits(c) for c in cs] or [0])
        small = not h.big and fb == 0 and bound_of(evs) < SMALL
        kind = 'float' if is_float(t) else 'signed' if is_signed(t) else 'unsigned'
        if small:
            lo, hi = INT_TYPES.get(t, (0, 0))
            n = dict(k='int', t=kind, p=0, fx=0, min=max(lo, -(2**31 - 1)), max=min(hi, 2**31 - 1), rel=-1, prec=FLOATS.get(t, 0))
            cc = dd = int
        else:
            fx = 0
            if is_float(t):
                fx = -(-max(fb, h.need) // 13)
            lo, hi = INT_TYPES.get(t, (0, 0))
            n = dict(k='big', t=kind, p=0, fx=fx, min=big(lo), max=big(hi), rel=h.rel if h.rel else -1,
                     prec=FLOATS.get(t, 0))
            cc = lambda v: big(int(v * 2**(13 * fx)))
            dd = lambda v: big(int(v))
    out = []
    for e in evs:
        j = {}
        for k, v in e.items():
            if k == '_line':
                continue
            if '!' in e['o'] and k not in ('o', 'f'):
                continue
            if k in COEF and not isinstance(v, bool):
                v = cc(v)
            elif k in NESTED:
                v = deep(cc, v)
            elif k in LISTS:
                v = [[cc(c), dd(d)] for c, d in v]
            elif k == 'raw':
                v = [[cc(x[0]), dd(x[1])] if isinstance(x, tuple) else cc(x) for x in v]
            elif k == 'g' or (k == 'n' and e['o'] in ('shl', 'shr', 'powbig')):
                v = dd(v)
            elif k == 'deg':
                v = [dd(x) for x in v]
            elif k == 'look':
                v = [[dd(x[0])] if len(x) == 1 else [dd(x[0]), cc(x[1]), dd(x[2])] for x in v]
            j[k] = v
        if e['o'] == 'tsub':
            j.setdefault('fresh', False)
        out.append(j)
    return dict(n=n, ev=out)
