"""Recorded histories with one answer falsified: the specification has to reject each at that answer."""
import copy

FREE = ('addp2', 'subp2', 'mulsink2', 'padd3', 'psub3', 'pmul3')    # after a refusal only partly specified

def falsify(rng, h):
    """A copy of the history's events up to a falsified answer, or None."""
    if h.rel and any('wit' in e for e in h.events):
        return wrong_roots(rng, h)
    if h.rel or h.dead or h.stuck or not h.events:
        return None
    i = rng.randrange(len(h.events))
    e = h.events[i]
    if '!' in e['o'] or e['o'] in FREE:
        return None
    ok = e.get('x', 'ok') == 'ok'
    e = dict(e)
    ways = []
    def terms(k):
        def change():
            v = [tuple(x) for x in e[k]]
            w = rng.randrange(3)
            if w == 0 and v:
                j = rng.randrange(len(v))
                v[j] = (v[j][0] + 1, v[j][1])
            elif w == 1 and v:
                del v[rng.randrange(len(v))]
            elif not v or v[0][1] < 2**64 - 1:
                v = [(1, v[0][1] + 1 if v else rng.randrange(3))] + v
            else:
                v = v[1:]
            e[k] = v
        ways.append(change)
    def put(k, f): ways.append(lambda: e.update({k: f(e[k])}))
    if 'r' in e and (ok or e['o'] in ('tadd', 'tsub')) and e.get('x') != 'panic': terms('r')
    if 'q' in e and ok: terms('q')
    if e['o'] in ('obs', 'conv'):
        terms('it')
        terms('tv')
        put('z', lambda z: not z)
        put('deg', lambda d: [d[0] + 1] if d and d[0] < 2**64 - 1 else [] if d else [0])
        if e['look']:
            put('look', lambda l: [[x[0]] if len(x) > 1 else [x[0], 1, x[0]] for x in l])
    if ok and e['o'] in ('eval', 'area', 'disc'): put('v', lambda v: v + 1)
    if e['o'] == 'eq': put('v', lambda v: not v)
    if e['o'] == 'len' and ok: put('m', lambda m: m + 1)
    if 'cl' in e and ok: put('cl', lambda c: 'NoRoots' if c != 'NoRoots' else 'InfiniteRoots')
    if e['o'] in ('disp', 'idisp') and ok:
        put('s', lambda s: s[:-1] if rng.random() < .5 else s + [48])
    if e['o'] in ('parse', 'term') and not ok and e['x'] != 'panic':
        ways.append(lambda: e.update(x='ok', r=[]))
    if e['o'] in ('tadd', 'tsub') and not ok and e['x'] != 'panic' and e['c'] != 0:     # a zero term may be refused or not
        put('x', lambda x: 'ok')
    if not ways:
        return None
    rng.choice(ways)()
    c = copy.copy(h)
    c.events = h.events[:i] + [e]
    return c

def wrong_roots(rng, h):
    """A report of float roots with another class, a root missing, or a root far off."""
    deg = {}
    for i, e in enumerate(h.events):
        if e['o'] == 'put':
            deg[e['d']] = e['r'][0][1] if e['r'] else 0
        if e['o'] == 'froots' and e['x'] == 'ok' and (e['wit'] or deg.get(e['a'], 9) <= 3) and rng.random() < .7:
            break
    else:
        return None
    e = dict(e)
    k = 're' if e['re'] else 'co'
    w = rng.randrange(3)
    if w == 0 or not e[k]:
        e['cl'] = 'NoRoots' if e['cl'] != 'NoRoots' else 'InfiniteRoots'
    elif w == 1:
        j = rng.randrange(len(e[k]))
        e[k] = e[k][:j] + e[k][j + 1:]
    else:
        j = rng.randrange(len(e[k]))
        far = lambda v: 2 * v + 1 if v > 0 else 2 * v - 1
        e[k] = [x if i != j else [far(y) for y in x] if k == 'co' else far(x) for i, x in enumerate(e[k])]
    c = copy.copy(h)
    c.events = h.events[:i] + [e]
    return c
