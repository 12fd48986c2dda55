"""Running the checks: stages, verdicts, replay files and evidence."""
import json, os, re, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import corrupt, run
from hist import Hist, encode
from gen import Gen

class Violation(Exception):
    def __init__(self, replay, why):
        self.replay, self.why = replay, why

def parse_state(out):
    """History and event number of the last state TLC printed."""
    m = re.findall(r'/\\ hist = (\d+)', out)
    q = re.findall(r'/\\ pos = (\d+)', out)
    return (int(m[-1]), int(q[-1])) if m and q else None

def validate(hists, module='Trace', workers=4):
    """Checks recorded histories against the specification.
    Returns (generated, distinct, None) or (generated, distinct, (history index, event index, TLC output))."""
    os.makedirs(run.WORK, exist_ok=True)
    path = os.path.join(run.WORK, 'trace-%d-%d.ndjson' % (os.getpid(), id(hists)))
    try:
        with open(path, 'w') as o:
            for h in hists:
                o.write(json.dumps(encode(h)) + '\n')
        rc, out = run.tlc(module, module + '.cfg', env={'TRACE': path}, workers=workers)
    finally:
        if os.path.exists(path):
            os.remove(path)
    g, d = run.stats(out)
    if rc == 0:
        return g, d, None
    at = parse_state(out)
    if rc == 11 and at:
        return g, d, (at[0] - 1, at[1] - 1, out)
    err = out[out.find('Error:'):][:1500]
    e = run.ToolError('TLC failed (%d) on %s %s:\n%s' % (rc, module, at, err))
    e.at = at
    raise e

class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.stages = []
        self.undecided = []
        self.probed = set()

    def thorough(self): return self.tier == 'thorough'

    def count(self, key, n=1): self.counts[key] = self.counts.get(key, 0) + n

    # ---- design models -------------------------------------------------------------------
    def model(self, module, invariants, constants=None, init='Init', next='Next', workers=8, native=True,
              stage='laws of the specification'):
        """Model checks laws of the specification itself (a failure is an error of ours, not a violation)."""
        os.makedirs(run.WORK, exist_ok=True)
        cfg = os.path.join(run.WORK, '%s-%d.cfg' % (module, os.getpid()))
        with open(cfg, 'w') as o:
            o.write('INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n' % (init, next, ' '.join(invariants)))
            for k, v in (constants or {}).items():
                o.write('CONSTANT %s = %s\n' % (k, v))
        try:
            rc, out = run.tlc(module, cfg, workers=workers, native=native)
        finally:
            os.remove(cfg)
        g, d = run.stats(out)
        if rc:
            raise run.ToolError('design model %s failed (%d):\n%s' % (module, rc, out[out.find('Error:'):][:3000]))
        self.states += d
        self.transitions += g
        self.stages.append(dict(stage=stage, module=module, invariants=invariants,
                                constants=constants or {}, states=d))
        return out

    # ---- implementation traces against the specification -----------------------------------
    def replay_file(self, name, data):
        os.makedirs(run.REPLAYS, exist_ok=True)
        p = os.path.join(run.REPLAYS, '%s-%s.json' % (self.id, name))
        with open(p, 'w') as o:
            json.dump(data, o, indent=1, default=str)
        return p

    def reject(self, h, j, out, module):
        ev = h.events[j]
        line = h.cmds[ev['_line']][0]
        i = out.rfind('State ')
        p = self.replay_file('trace', dict(
            property=self.id, kind='trace', module=module, type=h.t, rel=h.rel, need=h.need, label=h.label,
            script=['H ' + h.t] + [c[0] for c in h.cmds], call=line, event=ev,
            explanation='no action of %s.tla allows this event after the calls before it' % module,
            last_state=out[i:i + 3000]))
        raise Violation(p, '%s [%s] -> %s' % (line, h.t, {k: v for k, v in ev.items() if k in ('o', 'x', 'r', 'q', 'v', 'it', 'deg', 'look', 'roots')}))

    def traces_of(self, hists, exe, module='Trace', chunk=1500, stage='random', jvms=2):
        """Runs the histories through the code and their answers through the specification."""
        run.Driver(exe, 8).run(hists)
        parts = [hists[i:i + chunk] for i in range(0, len(hists), chunk)]
        bad = []
        skipped = []
        tot = [0, 0]
        def one(part):
            part = [h for h in part if h.events]
            while part and not bad:
                try:
                    g, d, rej = validate(part, module, workers=max(1, 8 // jvms))
                except run.ToolError as e:
                    # The specification could not be evaluated on one history: set it aside, decide the others.
                    if not getattr(e, 'at', None) or len(skipped) > 3:
                        raise
                    skipped.append((part[e.at[0] - 1], str(e)))
                    part = part[:e.at[0] - 1] + part[e.at[0]:]
                    continue
                tot[0] += g
                tot[1] += d
                if rej:
                    bad.append((part[rej[0]], rej[1], rej[2]))
                return
        with ThreadPoolExecutor(jvms) as ex:
            list(ex.map(one, parts))
        n = sum(1 for h in hists if h.events and not h.dead)
        evs = sum(len(h.events) for h in hists)
        self.traces += n
        self.events += evs
        self.states += tot[1]
        self.transitions += tot[0]
        for h in hists:
            for e in h.events:
                self.count('%s%s' % (e['o'], '' if e.get('x', 'ok') == 'ok' else ':' + str(e['x']).split(':')[0]))
        self.stages.append(dict(stage=stage, module=module, histories=n, events=evs, states=tot[1]))
        if hists and len(self.samples) < 4:
            h = hists[len(hists) // 3]
            self.samples.append(dict(stage=stage, type=h.t, calls=[c[0] for c in h.cmds][:12],
                                     last_event={k: str(v) for k, v in (h.events[-1] if h.events else {}).items()}))
        if bad:
            h, j, out = bad[0]
            self.reject(h, j, out, module)
        if skipped:
            self.undecided += [s[1] for s in skipped]
        self.undecided += [h.stuck for h in hists if h.stuck][:3]
        if self.thorough() and stage not in self.probed and not self.undecided and hists:
            self.probed.add(stage)
            self.falsified(hists, module)

    def falsified(self, hists, module, n=1500, stage='falsified answers'):
        """The specification rejects recorded histories in which one answer was changed (else it is too weak)."""
        rng = Gen(self.seed)
        bad = [b for b in (corrupt.falsify(rng, rng.choice(hists)) for _ in range(n)) if b]
        spec = {'Trace': 'TraceSpec', 'TextTrace': 'TextSpec', 'RootsTrace': 'RootsSpec'}[module]
        path = os.path.join(run.WORK, 'false-%d.ndjson' % os.getpid())
        cfg = path + '.cfg'
        with open(cfg, 'w') as o:
            o.write('SPECIFICATION %s\nINVARIANT FalsifiedRejected\nCHECK_DEADLOCK FALSE\n'
                    'CONSTANT Regs = {1, 2, 3, 4, 5, 6, 7, 8}\n' % spec)
        try:
            with open(path, 'w') as o:
                for h in bad:
                    o.write(json.dumps(encode(h)) + '\n')
            rc, out = run.tlc(module, cfg, env={'TRACE': path}, workers=8)
        finally:
            for p in (path, cfg):
                if os.path.exists(p):
                    os.remove(p)
        if rc:
            at = parse_state(out)
            raise run.ToolError('%s accepts a falsified answer (%d): %s\n%s' % (
                module, rc, at and (bad[at[0] - 1].t, [c[0] for c in bad[at[0] - 1].cmds], bad[at[0] - 1].events[-2:]), out[out.find('Error'):][:800]))
        self.stages.append(dict(stage=stage, module=module, rejected=len(bad)))

    # ---- specification behaviours replayed into the code -------------------------------------
    def behaviours(self, cases, exe, stage='behaviours'):
        """cases: (Hist, [expected per command]) with expected None or a predicate on the answer text."""
        hists = [h for h, _ in cases]
        run.Driver(exe, 8).run(hists)
        for h, exp in cases:
            for e in h.events:
                want = exp[e['_line']]
                if want is not None and not want(e):
                    line = h.cmds[e['_line']][0]
                    p = self.replay_file('behaviour', dict(
                        property=self.id, kind='behaviour', type=h.t, label=h.label,
                        script=['H ' + h.t] + [c[0] for c in h.cmds], call=line, event=e,
                        expected=getattr(want, 'text', None),
                        explanation='the code does not follow this behaviour of the specification'))
                    raise Violation(p, '%s [%s] -> %s, specification: %s' % (
                        line, h.t, {k: v for k, v in e.items() if k in ('o', 'x', 'r', 'v', 'it', 'deg')}, getattr(want, 'text', '')))
                self.count('behaviour ' + e['o'])
        self.undecided += [h.stuck for h in hists if h.stuck][:3]
        self.traces += len(hists)
        self.events += sum(len(h.events) for h in hists)
        self.stages.append(dict(stage=stage, behaviours=len(hists), steps=sum(len(h.events) for h in hists)))

    # ---- evidence ----------------------------------------------------------------------------
    def evidence(self, violations):
        d = os.path.join(run.ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, events=self.events,
                                calls=dict(sorted(self.counts.items())), stages=self.stages,
                                samples=self.samples or [dict(note='stopped before the first trace')]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(d, self.id + '.json'), 'w') as o:
            json.dump(ev, o, indent=1, default=str)

def known_findings(pid):
    """Open findings listed for a property (lines 'open: property=<id> ...')."""
    p = os.path.join(run.ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'open: property=(\S+) (.*)', ln)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out

def main(argv, plans):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    c = Check(pid, tier, seed)
    try:
        plans(c)
        if c.undecided:
            raise run.ToolError('the specification could not be evaluated:\n' + '\n'.join(c.undecided)[:3000])
        for k in known_findings(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        c.evidence(0)
        print('ok: %s held on %d traces (%d events), %d states, %.1f s'
              % (pid, c.traces, c.events, c.states, time.time() - c.t0))
        return 0
    except Violation as v:
        c.evidence(1)
        print('VIOLATION property=%s replay=%s' % (pid, v.replay))
        print(v.why[:1500])
        return 1
    except run.ToolError as e:
        c.evidence(0)
        print('ERROR: %s' % e)
        return 2
    except Exception:
        c.evidence(0)
        traceback.print_exc()
        return 2
