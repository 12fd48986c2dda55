"""What each check runs."""
import json
from concurrent.futures import ThreadPoolExecutor
import large, props, run, small
from gen import Gen

def traces(c, gen, quick, thorough, exe=None, module='Trace', stage='random', **kw):
    n = thorough if c.thorough() else quick
    done = 0
    step = 12000
    exe = exe or run.build() + '/drive'
    while done < n:
        m = min(step, n - done)
        g = Gen(c.seed * 1000003 + done)
        c.traces_of(gen(g, m), exe, module=module, stage=stage, **kw)
        done += m

def every_small(c, exe=None, module='Trace'):
    """Every input within the small scopes of small.py."""
    gen = getattr(small, c.id.lower(), None)
    if gen:
        exe = exe or run.build() + '/drive'
        c.traces_of(list(gen(Gen(c.seed), c.thorough())), exe, module=module, stage='every small input', chunk=1200)

def long_operands(c, exe=None, module='Trace', quick=120, thorough=3000):
    if c.id in ('C03', 'C09'):
        quick, thorough = 60, 1500
    gen = getattr(large, c.id.lower(), None)
    if gen:
        traces(c, gen, quick, thorough, exe, module=module, stage='long operands', chunk=40)
    gen = getattr(large, 't' + c.id[1:], None)
    if gen:
        traces(c, gen, 280, 6000, exe, module=module, stage='the highest degrees')
    gen = getattr(large, 'w' + c.id[1:], None)
    if gen:
        traces(c, gen, 60, 1200, exe, module=module, stage='dense, beyond 16-bit lengths', chunk=30)

def scales(c, exe=None, module='Trace'):
    for gen in large.SCALES.get(c.id, ()):
        traces(c, gen, 350, 12000, exe, module=module, stage='floats of other scales', chunk=400)

def zero_divisors(c, exe=None):
    traces(c, large.ring, 700, 30000, exe, stage='coefficients with zero divisors')

def simple(gen, quick, thorough, module='Trace'):
    def plan(c):
        every_small(c, module=module)
        traces(c, gen, quick, thorough, module=module)
        if hasattr(large, c.id.lower()) or hasattr(large, 't' + c.id[1:]):
            long_operands(c, module=module)
        scales(c, module=module)
        if c.id == 'C02':
            zero_divisors(c)
    return plan

def c06(c):
    every_small(c)
    traces(c, props.c06, 4000, 120000)
    long_operands(c)
    scales(c)
    traces(c, props.c06_text, 2000, 40000, module='TextTrace', stage='display')

def c10(c):
    exe = run.build() + '/drive'
    c.traces_of(props.c10_short(Gen(c.seed), 5 if c.thorough() else 4), exe, module='TextTrace', stage='every short text')
    c.traces_of(props.c10_short(Gen(c.seed), 4 if c.thorough() else 3, alphabet=props.WIDE), exe, module='TextTrace',
                stage='every shorter text over a wider alphabet')
    traces(c, props.c10, 4000, 120000, exe, module='TextTrace')
    traces(c, props.c10_decimals, 500, 20000, exe, module='TextTrace', stage='decimals a float rounds')
    long_operands(c, exe, module='TextTrace')

def generated(c, cfg, types, quick, thorough, seeds=3, depth=40):
    """Behaviours TLC's simulator draws from Gen.tla, replayed into the code."""
    exe = run.build() + '/drive'
    n = thorough if c.thorough() else quick
    def sim(i):
        rc, out = run.tlc('Gen', cfg, workers=1, extra=['-simulate', 'num=%d' % (n // seeds), '-depth', str(depth),
                                                        '-seed', str(c.seed * 7919 + i)])
        if rc:
            raise run.ToolError('Gen failed (%d):\n%s' % (rc, out[out.find('Error'):][:2000]))
        return [json.loads(json.loads(l)[10:]) for l in out.splitlines() if l.startswith('"BEHAVIOUR')]
    with ThreadPoolExecutor(seeds) as ex:
        logs = [l for part in ex.map(sim, range(seeds)) for l in part]
    if len(logs) < n // 2:
        raise run.ToolError('Gen produced only %d behaviours' % len(logs))
    g = Gen(c.seed)
    cases = []
    for i, log in enumerate(logs):
        for t in (types[i % len(types)], types[(i + 1) % len(types)]):
            case = props.replay(g, log, t)
            if case:
                cases.append(case)
    c.states += sum(len(l) for l in logs)
    c.behaviours(cases, exe, stage='behaviours of Gen.tla (%s)' % cfg)

OPS = 'add sub mul neg smul sdiv pow shl shr der setz trim clone div remas tadd tsub addp subp'.split()
def enumerated(c, types):
    """Every short history of Enum.tla, replayed into the code."""
    exe = run.build() + '/drive'
    deep = c.thorough()
    pairs = ['DD', 'SS', 'MM', 'LL', 'QQ', 'SD', 'DS'] + (['DM', 'MD', 'SL', 'LS', 'QD', 'DQ', 'LQ', 'QM', 'ML'] if deep else ['DM', 'QD', 'LS'])
    scopes = [(2, deep)] + ([(3, False)] if deep else [])
    g = Gen(c.seed)
    for calls, wide in scopes:
        for a, b in pairs:
            out = c.model('Enum', ['TypeOK', 'Emit'], dict(
                Regs='{1, 2}', Field='FALSE', Depth=calls + 2, First='"%s"' % a, Second='"%s"' % b,
                Wide=str(wide).upper(), Ops='{%s}' % ', '.join('"%s"' % o for o in OPS)), 'EInit', 'ENext', stage='every short history')
            cases = []
            n = 0
            for l in out.splitlines():
                if l.startswith('"BEHAVIOUR'):
                    t = types[n % len(types)]
                    n += 1
                    case = props.replay(g, json.loads(json.loads(l)[10:]), t, looks=True)
                    if case:
                        cases.append(case)
                    if len(cases) >= 40000:
                        c.behaviours(cases, exe, stage='every history of %d calls on %s and %s' % (calls, a, b))
                        cases = []
            c.behaviours(cases, exe, stage='every history of %d calls on %s and %s' % (calls, a, b))

def c14(c):
    enumerated(c, ['i16', 'f64', 'i32', 'i64', 'f32', 'i128'])
    generated(c, 'Gen.cfg', ['i16', 'i32', 'f64', 'i64', 'f32', 'i128', 'isize'], 1500, 40000)
    generated(c, 'GenField.cfg', ['gf'], 900, 30000)
    traces(c, props.c14, 1200, 40000, stage='long histories', chunk=300)
    zero_divisors(c)
    long_operands(c)

def c15(c):
    exe = run.build() + '/drive'
    every_small(c, exe)
    c.traces_of(props.c15_all(), exe, stage='every 8-bit coefficient', chunk=800)
    traces(c, props.c15, 6000, 200000, exe)
    long_operands(c, exe)
    scales(c, exe)

def c16(c):
    rel = run.build(array=True)
    every_small(c, rel + '/arr')
    traces(c, props.c16, 6000, 150000, rel + '/arr')
    long_operands(c, rel + '/arr', quick=400, thorough=8000)
    scales(c, rel + '/arr')
    traces(c, props.c16_roots, 1500, 40000, rel + '/arr', module='RootsTrace', stage='roots of arrays')
    traces(c, lambda g, n: props.c07(g, n, trim_sparse=True), 1500, 20000, rel + '/drive', stage='observers with the optional features on')

def laws(c):
    """The specification's own laws, for the part of it this property rests on."""
    deep = c.thorough()
    top = 2 if deep else 1
    def ring(system, *inv):
        c.model('Laws', list(inv), dict(System='"%s"' % system, Top=top))
    def layout(system, *inv):
        c.model('Layout', list(inv), dict(System='"%s"' % system, Size=3 if deep else 2))
    def text(*types):
        for t in types:
            c.model('TextLaws', ['RoundTrip', 'Injective', 'AnyOrder', 'Spaces', 'Sums', 'Nearly'],
                    dict(Regs='{1}', Type='"%s"' % t, Top=1 if deep else 0), 'LInit', 'LNext')
    def roots():
        c.model('RootsLaws', ['RealReport', 'ComplexReport', 'Degenerate', 'CubicLaw'], dict(Regs='{1}'), 'LInit', 'LNext')
    def big():
        c.model('BigLaws', ['Agrees', 'Laws'])
        if deep:
            c.model('BigLaws', ['Agrees', 'Laws'], native=False)
    stages = {
        'C01': [lambda: ring('int', 'RingLaws', 'MassLaws')],
        'C02': [lambda: ring('mod', 'RingLaws', 'PowLaws')],
        'C03': [lambda: ring('mod', 'DivLaws')],
        'C04': [lambda: ring('int', 'EvalLaws', 'MassLaws')],
        'C05': [lambda: ring('int', 'DeriveLaws')],
        'C06': [lambda: ring('big', 'DeriveLaws', 'EvalLaws')],
        'C07': [lambda: layout('int', 'DenseRefines', 'SparseRefines', 'Conversions')],
        'C08': [lambda: ring('int', 'ShiftLaws')],
        'C09': [lambda: ring('int', 'ListingLaws')],
        'C10': [lambda: text('signed')],
        'C11': [lambda: text('float')],
        'C12': [roots],
        'C13': [roots],
        'C14': [lambda: layout('mod', 'DenseRefines', 'SparseRefines', 'Conversions')],
        'C15': [big],
        'C16': [lambda: layout('int', 'DenseRefines')],
    }
    more = {
        'C01': [lambda: ring('mod', 'RingLaws'), lambda: layout('int', 'DenseRefines', 'SparseRefines')],
        'C02': [lambda: ring('int', 'RingLaws', 'PowLaws', 'MassLaws')],
        'C03': [lambda: ring('int', 'DivLaws'), lambda: ring('big', 'DivLaws')],
        'C04': [lambda: ring('mod', 'EvalLaws')],
        'C10': [lambda: text('unsigned', 'float'), big],
        'C11': [lambda: text('signed', 'unsigned'), big],
    }
    for f in stages[c.id] + (more.get(c.id, []) if deep else []):
        f()

PLANS = {
    'C01': simple(props.c01, 9000, 300000),
    'C02': simple(props.c02, 7000, 200000),
    'C03': simple(props.c03, 7000, 200000),
    'C04': simple(props.c04, 9000, 300000),
    'C05': simple(props.c05, 9000, 300000),
    'C06': c06,
    'C07': simple(props.c07, 7000, 200000),
    'C08': simple(props.c08, 7000, 200000),
    'C09': simple(props.c09, 7000, 200000),
    'C10': c10,
    'C11': simple(props.c11, 8000, 200000, 'TextTrace'),
    'C12': simple(props.c12, 4000, 100000, 'RootsTrace'),
    'C13': simple(props.c13, 6000, 150000, 'RootsTrace'),
    'C14': c14,
    'C15': c15,
    'C16': c16,
}

def check(c):
    PLANS[c.id](c)
    laws(c)
