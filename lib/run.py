"""Building the driver, running scripts through it, and running TLC."""
import atexit, json, os, re, resource, select, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, 'target')
SPEC = os.path.join(ROOT, 'spec')
WORK = os.path.join(ROOT, 'work')
REPLAYS = os.path.join(ROOT, 'replays')
HANG = 60.0            # seconds of its own processor time a call may take
STUCK = 300.0          # and seconds altogether

class ToolError(Exception):
    pass

def build(array=False):
    env = dict(os.environ)
    env['CARGO_NET_OFFLINE'] = 'true'
    env.pop('RUSTFLAGS', None)
    cmd = ['cargo', 'build', '--offline', '--release', '--quiet', '--manifest-path',
           os.path.join(ROOT, 'harness', 'Cargo.toml')]
    tgt = TARGET
    if array:
        tgt = TARGET + '-array'
        env['RUSTC_BOOTSTRAP'] = '1'
        env['RUSTFLAGS'] = '--cfg rustnomial_verif'
        cmd += ['--features', 'array', '--bin', 'arr', '--bin', 'drive']
    else:
        cmd += ['--bin', 'drive']
    env['CARGO_TARGET_DIR'] = tgt
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode and 'Res<' in p.stdout:
        # The library asks more of a client's coefficient type than it did: decide the built-in types.
        p = subprocess.run(cmd + ['--no-default-features'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not p.returncode:
            Driver.residues = False
    if p.returncode:
        raise ToolError('harness build failed:\n' + p.stdout[-4000:])
    return os.path.join(tgt, 'release')

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def _cpu(pid):
    """Processor time a process has used so far."""
    try:
        with open('/proc/%d/stat' % pid) as f:
            v = f.read().rsplit(')', 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0

class Driver:
    """Runs histories in one or more processes, restarting after a call that does not answer."""
    residues = True
    def __init__(self, exe, jobs=4):
        self.exe, self.jobs = exe, jobs

    def run(self, hists):
        from concurrent.futures import ThreadPoolExecutor
        if not self.residues:
            for h in hists:
                h.dead = h.dead or h.t in ('gf', 'ring')
            hists = [h for h in hists if h.t not in ('gf', 'ring')]
        n = max(1, min(self.jobs, len(hists)))
        parts = [hists[i::n] for i in range(n)]
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(self._run, parts))

    def _run(self, hists):
        todo = list(hists)
        bad = 0
        while todo:
            done = self._batch(todo)
            if done == len(todo):
                return
            bad += 1
            todo = todo[done + 1:]
            if bad >= 2:
                for h in todo:
                    h.dead = True
                return

    def _batch(self, hists):
        """Returns how many histories were answered completely."""
        script = []
        for h in hists:
            script.append('H ' + h.t)
            script += [c[0] for c in h.cmds]
        inp = tempfile.TemporaryFile()
        inp.write(('\n'.join(script) + '\n').encode())
        inp.seek(0)
        p = subprocess.Popen([self.exe], stdin=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             preexec_fn=_limits)
        buf = b''
        why = None
        lines = 0
        hi, ci = 0, -1
        fd = p.stdout.fileno()
        last, used = time.time(), 0.0
        try:
            while True:
                ready, _, _ = select.select([fd], [], [], 2.0)
                if not ready:
                    if time.time() - last < STUCK and _cpu(p.pid) - used < HANG:
                        continue
                    why = 'hang'
                    break
                data = os.read(fd, 1 << 16)
                if not data:
                    why = 'end'
                    break
                last, used = time.time(), _cpu(p.pid)
                buf += data
                *full, buf = buf.split(b'\n')
                for ln in full:
                    ans = ln.decode()
                    if ci >= 0:
                        hists[hi].absorb(ci, ans)
                    ci += 1
                    if ci == len(hists[hi].cmds):
                        hi, ci = hi + 1, -1
        finally:
            if p.poll() is None:
                if why != 'end':
                    p.kill()
            p.wait()
            inp.close()
        if hi == len(hists):
            return hi
        if ci < 0:
            raise ToolError('driver stopped between histories')
        hists[hi].broken(ci, 'hang' if why == 'hang' else 'crash')
        return hi

# ---- TLC --------------------------------------------------------------------------------------
TLA = '/opt/veriftools/tla'
_classes = []
_lock = threading.Lock()
def classes():
    """Compiles the TLC module override of Big.tla (once per run)."""
    with _lock:
        if not _classes:
            d = tempfile.mkdtemp(prefix='classes-', dir=WORK)
            atexit.register(shutil.rmtree, d, True)
            p = subprocess.run(['javac', '-nowarn', '-cp', TLA + '/tla2tools.jar', '-d', d,
                                os.path.join(SPEC, 'java', 'Big.java')],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise ToolError('javac failed:\n' + p.stdout)
            _classes.append(d)
        return _classes[0]

def tlc(module, cfg, env=None, workers=None, extra=(), timeout=850, heap='6g', cwd=None, meta=None, native=True):
    """Runs TLC on spec/<module>.tla; returns (exit code, output).  native: with the Java override of Big."""
    os.makedirs(WORK, exist_ok=True)
    cp = [TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar'] + ([classes()] if native else [])
    meta = meta or tempfile.mkdtemp(prefix='tlc-', dir=WORK)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss256m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + meta, '-cp', ':'.join(cp), 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers or 'auto'),
           '-config', os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, cwd=cwd or SPEC)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        raise ToolError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ''))
    m2 = re.findall(r'(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found', out)
    if m2:
        g, d = m2[-1]
        return int(g.replace(',', '')), int(d.replace(',', ''))
    return 0, 0
