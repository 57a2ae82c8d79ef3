"""Infrastructure: building the harness from /repo's working tree, driving the real code, running TLC,
evidence and verdicts. No oracle lives here; see spec/."""
import atexit, fcntl, hashlib, json, os, random, re, resource, select, shutil, signal, subprocess
import sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'
T0 = time.time()
NPROC = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- scratch

_scratch = None


def scratch():
    """A scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='dsv-', dir='/tmp')
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    d = _scratch
    assert d and d.startswith('/tmp/dsv-')
    shutil.rmtree(d, ignore_errors=True)


_n = [0]
_nl = threading.Lock()


def fresh(prefix='s'):
    with _nl:
        _n[0] += 1
        return os.path.join(scratch(), '%s%d' % (prefix, _n[0]))


# ---------------------------------------------------------------- build

def _repo_stamp():
    h = hashlib.sha256()
    files = [os.path.join(REPO, 'Cargo.toml')]
    for base in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness')):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != 'target')
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(threads=True):
    """Builds shim and harness against /repo's current tree; returns the directory of the binaries.
    Cargo judges freshness by modification times; a stamp of the contents decides here."""
    os.makedirs(BUILD, exist_ok=True)
    variant = 't' if threads else 'nt'
    out = os.path.join(BUILD, 'bin-' + variant)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = _repo_stamp()
        sf = os.path.join(out, 'stamp')
        if os.path.exists(sf) and open(sf).read() == stamp:
            return out
        os.makedirs(out, exist_ok=True)
        shim = os.path.join(out, 'shim.so')
        subprocess.run(['gcc', '-shared', '-fPIC', '-O2', '-o', shim,
                        os.path.join(VERIF, 'harness/shim/shim.c'), '-ldl', '-lpthread'], check=True)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'target'), CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None)
        cwd = os.path.join(VERIF, 'harness')
        tsf = os.path.join(BUILD, 'target-stamp')
        if not os.path.exists(tsf) or open(tsf).read() != stamp:
            subprocess.run(['cargo', 'clean', '--offline', '-p', 'dir-signature', '-p', 'dsv-driver', '-p', 'dsv-cli'],
                           cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ['cargo', 'build', '--offline', '--locked', '-q', '-p', 'dsv-driver', '-p', 'dsv-cli']
        if not threads:
            cmd.append('--no-default-features')
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            sys.stderr.write(p.stdout.decode(errors='replace')[-6000:])
            raise ToolError('building the harness failed')
        for b in ('dsv-driver', 'index'):
            shutil.copy2(os.path.join(BUILD, 'target/debug', b), os.path.join(out, b + '.new'))
            os.replace(os.path.join(out, b + '.new'), os.path.join(out, b))
        with open(tsf, 'w') as f:
            f.write(stamp)
        with open(sf, 'w') as f:
            f.write(stamp)
    return out


# ---------------------------------------------------------------- driver processes

def _limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Driver:
    """One harness process. A request that kills it or does not end in time is an observation too."""

    def __init__(self, bindir):
        self.bindir = bindir
        self.p = None

    def start(self):
        env = dict(os.environ, LD_PRELOAD=os.path.join(self.bindir, 'shim.so'), RUST_LOG='off')
        self.p = subprocess.Popen([os.path.join(self.bindir, 'dsv-driver')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env,
                                  preexec_fn=_limits, cwd=scratch())
        self.buf = b''

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def ask(self, rq, timeout=40):
        if self.p is None:
            self.start()
        data = (json.dumps(rq) + '\n').encode()
        end = time.time() + timeout
        fd_in, fd_out = self.p.stdin.fileno(), self.p.stdout.fileno()
        try:
            off = 0
            while off < len(data):
                off += os.write(fd_in, data[off:off + 65536])
            while b'\n' not in self.buf:
                left = end - time.time()
                if left <= 0:
                    self.stop()
                    return {'hang': True}
                r, _, _ = select.select([fd_out], [], [], left)
                if r:
                    d = os.read(fd_out, 1 << 20)
                    if not d:
                        raise OSError('eof')
                    if b'\n' in d:
                        i = d.index(b'\n')
                        self.buf += d[:i + 1]
                        assert i + 1 == len(d)
                    else:
                        self.buf += d
        except OSError:
            rc = self.p.wait() if self.p.poll() is None and _eof_wait(self.p) else self.p.poll()
            line, self.buf = self.buf, b''
            self.stop()
            return {'died': rc if rc is not None else -1}
        line, self.buf = self.buf, b''
        v = json.loads(line)['r']
        if isinstance(v, dict) and 'bad_request' in v:
            raise ToolError('bad request ' + str(v))
        return v


def _eof_wait(p):
    try:
        p.wait(5)
    except subprocess.TimeoutExpired:
        return False
    return True


class Pool:
    """A pool of harness processes; `map` keeps the order of the requests."""

    def __init__(self, bindir, n=NPROC, max_bad=6):
        self.drivers = [Driver(bindir) for _ in range(n)]
        self.free = list(self.drivers)
        self.lock = threading.Lock()
        self.ex = ThreadPoolExecutor(n)
        self.bad = 0
        self.max_bad = max_bad
        atexit.register(self.close)

    def _one(self, rq, timeout):
        # after several hangs or deaths the verdict is clear; do not wait for hundreds more
        if self.bad >= self.max_bad:
            return {'skipped': True}
        with self.lock:
            d = self.free.pop()
        try:
            r = d.ask(rq, timeout)
        finally:
            with self.lock:
                self.free.append(d)
        if isinstance(r, dict) and ('hang' in r or 'died' in r):
            self.bad += 1
        return r

    def map(self, rqs, timeout=40):
        return list(self.ex.map(lambda q: self._one(q, timeout), rqs))

    def ask(self, rq, timeout=40):
        return self._one(rq, timeout)

    def close(self):
        for d in self.drivers:
            d.stop()
        self.ex.shutdown(wait=False)


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.prints = []
        self.out = ''
        self.ok = False
        self.violated = None


def tlc(module, cfg=None, env=None, workers=1, deadlock=False, timeout=800, heap='3g', simulate=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg or module>.cfg. Lines printed as "@@json" are parsed."""
    meta = fresh('tlc')
    tmp = meta + '.tmp'
    os.mkdir(tmp)
    e = {k: os.environ[k] for k in ('PATH', 'HOME', 'LANG', 'TMPDIR') if k in os.environ}
    e['LC_ALL'] = 'C.UTF-8'
    for k, v in (env or {}).items():
        e[k] = str(v)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + tmp]
    cp = TLA_JAR
    extra = '/opt/veriftools/tla/CommunityModules-deps.jar'
    if os.path.exists(extra):
        cp += ':' + extra
    cmd += ['-cp', cp, 'tlc2.TLC', '-config', (cfg or module) + '.cfg', '-workers', str(workers),
            '-metadir', meta, '-noGenerateSpecTE', '-fp', '0']
    if not deadlock:
        cmd.append('-deadlock')
    if simulate:
        cmd += ['-simulate', simulate]
    cmd.append(module + '.tla')
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise ToolError('TLC timed out on ' + module)
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    r = TlcResult()
    r.out = out.decode('utf-8', errors='replace')
    for line in r.out.splitlines():
        if line.startswith('"@@'):
            r.prints.append(json.loads(json.loads(line)[2:]))
        m = re.match(r'(\d[\d,]*) states generated(?: \(.*\))?, (\d[\d,]*) distinct', line)
        if m:
            r.states = int(m.group(1).replace(',', ''))
            r.distinct = int(m.group(2).replace(',', ''))
        m = re.match(r'Error: (Invariant|Action property|Temporal properties|Temporal property|Property) ?(\S*).*violated', line)
        if m:
            r.violated = m.group(2) or m.group(1)
    r.ok = 'Model checking completed. No error has been found.' in r.out
    if not r.ok and not r.violated and not simulate:
        log(tail(r.out))
        raise ToolError('TLC failed on ' + module)
    return r


def design(module, cfg=None, env=None, workers=4, **kw):
    """An exhaustive check of the specification itself; a failure is an error of the specification."""
    r = tlc(module, cfg, env=env, workers=workers, **kw)
    if not r.ok:
        log(tail(r.out))
        raise ToolError('the specification %s violates %s' % (cfg or module, r.violated))
    return r


def judge(module, records, shards=None, env=None, timeout=800):
    """Lets TLC decide recorded executions: shards of records, one TLC each, in parallel. Returns
    (list of reports printed by the specification, states, transitions)."""
    if not records:
        return [], 0, 0
    shards = shards or max(1, min(NPROC, (len(records) + 149) // 150))
    files = []
    for i in range(shards):
        f = fresh('tr') + '.ndjson'
        with open(f, 'w') as fh:
            for r in records[i::shards]:
                fh.write(json.dumps(r, separators=(',', ':')) + '\n')
        files.append((f, len(records[i::shards])))
    def one(fn):
        e = dict(env or {})
        e['DSV_TRACE'] = fn[0]
        r = tlc(module, env=e, timeout=timeout)
        if not r.ok:
            log(tail(r.out))
            raise ToolError('trace validation failed to run: ' + module)
        done = [p for p in r.prints if isinstance(p, dict) and p.get('done') is not None]
        if len(done) != 1 or done[0]['done'] != fn[1]:
            log(tail(r.out))
            raise ToolError('trace validation did not reach the end: ' + module)
        return [p for p in r.prints if not (isinstance(p, dict) and p.get('done') is not None)], r.distinct, r.states
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, files))
    for f, _ in files:
        if not os.environ.get('DSV_KEEP'):
            os.unlink(f)
    reps = [p for r in rs for p in r[0]]
    return reps, sum(r[1] for r in rs), sum(r[2] for r in rs)


# ---------------------------------------------------------------- verdicts

class Check:
    """Collects what a check did and what it found."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%s/%d' % (prop, self.tier, self.seed))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.parts = {}
        self.samples = []
        self.violations = []   # (what, detail)
        self.known = {}
        self.assumptions = []
        self.thorough = self.tier == 'thorough'

    def count(self, part, **kw):
        d = self.parts.setdefault(part, {})
        for k, v in kw.items():
            d[k] = d.get(k, 0) + v

    def design(self, module, cfg=None, **kw):
        t = time.time()
        r = design(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.count('design:' + (cfg or module), states=r.distinct, transitions=r.states)
        log('design %s: %d states, %.1fs' % (cfg or module, r.distinct, time.time() - t))
        return r

    def judge(self, module, records, part=None, **kw):
        """Validates records; returns the reports. Counts one trace per record."""
        t = time.time()
        reps, s, tr = judge(module, records, **kw)
        self.states += s
        self.transitions += tr
        self.traces += len(records)
        self.count(part or module, records=len(records), states=s, transitions=tr, reports=len(reps))
        log('judged %d records by %s: %d reports, %.1fs' % (len(records), module, len(reps), time.time() - t))
        return reps

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, what, detail):
        self.violations.append((what, detail))

    def known_finding(self, key, what):
        self.known.setdefault(key, what)

    def finish(self):
        wall = time.time() - T0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'samples': self.samples[:6],
                'parts': self.parts,
            },
            'assumptions': self.assumptions,
            'wall_s': round(wall, 2),
            'violations': len(self.violations),
        }
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for k, w in sorted(self.known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        if self.violations:
            d = os.path.join(VERIF, '.replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.prop, os.getpid()))
            with open(path, 'w') as f:
                json.dump([{'what': w, 'detail': x} for w, x in self.violations[:20]], f, indent=1, default=str)
            for w, x in self.violations[:5]:
                log('violation: %s' % w)
                log(short(x))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            sys.stdout.flush()
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs'
              % (self.prop, self.states, self.transitions, self.traces, wall))
        return 0


def short(x, n=1500):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + '...'


def tail(out):
    return '\n'.join(x[:400] for x in out.splitlines() if not x.startswith(('Parsing', 'Semantic', 'Linting')))[-3000:]


def log(s):
    sys.stderr.write('[%6.1f] %s\n' % (time.time() - T0, s))
    sys.stderr.flush()


def known_findings():
    """The committed list of findings: {key: text} of the entries that are not fixed."""
    d = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(P\d+) key=(\S+) (.*)', line.strip())
            if m:
                d[(m.group(1), m.group(2))] = m.group(3)
    return d
