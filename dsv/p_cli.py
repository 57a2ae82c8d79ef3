"""P22: the index tool. spec/Cli.tla is what it does; the ends of its runs printed by TLC are realised with
the real tool, and every run is judged by spec/TraceCli.tla."""
import os, re, signal, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core, trees, scans
from .trees import D, F, S, P, HTS, l1
from .p_fault import OPEN, READ, STAT, READLINK, READDIR, OPN, ERRS, EINTR, targets, faults_for

WRITE = 7
OPNW = {**OPN, WRITE: 'write'}


class Tool:
    """one run: args (without the directories), directories, destination, faults [op, path, nth, errno]"""

    def __init__(self, opts, dirs, dest='out', faults=(), args='ok', progress=True, mode='pool', out=None, before=None, stdout=None, blocked=False, full=False, cwd=None, optpos=0, slow=0):
        self.opts, self.dirs, self.dest, self.faults, self.args = list(opts), list(dirs), dest, list(faults), args
        self.progress, self.mode, self.out, self.before, self.stdout = progress, mode, out, before, stdout
        self.blocked, self.full, self.cwd, self.optpos, self.slow = blocked, full, cwd, optpos, slow

    def run(self, bindir, base):
        work = core.fresh('c')
        os.mkdir(work)
        out = self.out or os.path.join(work, 'index')
        if self.before is not None:
            with open(out, 'wb') as f:
                f.write(self.before)
        env = {'PATH': os.environ.get('PATH', ''), 'RUST_LOG': 'off', 'LD_PRELOAD': os.path.join(bindir, 'shim.so')}
        log = os.path.join(work, 'log')
        if self.slow:
            env['DSV_SLOW'] = str(self.slow)
        if self.faults:
            env['DSV_FAULTS'] = ';'.join('%d|%s|%d|%d' % (f[0], {'<out>': out if self.dest == 'file' else '<stdout>'}.get(f[1], base + '/' + f[1]), f[2], f[3]) for f in self.faults)
            env['DSV_FAULT_LOG'] = log
        ds = [os.path.join(base, d) if self.cwd is None else d for d in self.dirs]
        args = list(self.opts)
        if self.dest == 'file':
            args += self.rng_o(out)
        # options may stand before or after the directories
        argv = [os.path.join(bindir, 'index')] + (args + ds if self.optpos == 0 else ds + args)
        argv = [a.encode('latin-1') for a in argv]
        env = {k: v.encode('latin-1') for k, v in env.items()}
        so = os.path.join(work, 'stdout')
        r = {}
        target = None
        with open(so, 'wb') as fo:
            if self.stdout == 'full':
                target = open('/dev/full', 'wb')
            elif self.stdout == 'pipe':
                rd, wr = os.pipe()
                os.close(rd)
                target = os.fdopen(wr, 'wb')
            p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=target or fo, stderr=subprocess.PIPE, env=env, cwd=base if self.cwd is not None else work)
            if target:
                target.close()
            try:
                _, err = p.communicate(timeout=60)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                rc, err = -9, b''
        so_data = open(so, 'rb').read()
        of_data = b''
        if self.dest == 'file' and os.path.isfile(out):
            of_data = open(out, 'rb').read()
        place, other = (of_data, so_data) if self.dest == 'file' else (so_data, b'')
        fired = '\n'  # names may hold line ends
        if os.path.exists(log):
            fired += open(log, 'rb').read().decode('latin-1')
        fs = []
        for f in self.faults:
            path = {'<out>': out if self.dest == 'file' else '<stdout>'}.get(f[1], base + '/' + f[1])
            fs.append({'op': OPNW[f[0]], 'nth': f[2], 'intr': f[3] == EINTR or f[3] < 0, 'fired': '\n%d|%s|%d\n' % (f[0], path, f[3]) in fired})
        text = err.decode('latin-1')
        sm = re.search(r'Done ([0-9a-fA-F]*)[^\n]*?(\d+) dirs[^\n]*?(\d+) files[^\n]*?(\d+) symlinks[^\n]*\n', text)
        left = re.sub(r'Done [^\n]*\n', '', re.sub(r'Indexing[^\r\n]*\r', '', text))
        left = '\n'.join(x for x in left.split('\n') if 'more than one source dir' not in x)
        return {'args': self.args, 'dest': self.dest, 'progress': self.progress, 'faults': fs, 'blocked': self.blocked, 'full': self.full, 'exit': rc, 'signal': rc < 0,
                'msg': left.strip() != '', 'place': place.decode('latin-1'), 'stray': other != b'', 'sum': list(sm.groups()) if sm else [], 'chat': 'ndexing' in text, 'mode': self.mode,
                '_raw': {'argv': [a.decode('latin-1') for a in argv[1:]], 'faults': self.faults, 'fired': fired, 'exit': rc, 'stderr': text[-600:], 'place': place.decode('latin-1')[:1500], 'stdout': self.stdout}}

    def rng_o(self, out):
        return [['-o', out], ['--write-index', out], ['--write-index=' + out], ['-o' + out]][(len(self.opts) + len(self.faults) + len(self.dirs)) % 4]


class Case:
    def __init__(self, ht, ov, tools):
        self.ht, self.ov, self.tools = ht, ov, tools


def perform(c, pool, bindir, cases):
    bases = [core.fresh('t') for _ in cases]
    for b, x in zip(bases, cases):
        os.mkdir(b)
    pool.map([{'op': 'mktree', 'path': '%s/r%d' % (b, i), 'nodes': trees.wire(t)} for b, x in zip(bases, cases) for i, t in enumerate(x.ov)])
    jobs = [(b, x, t) for b, x in zip(bases, cases) for t in x.tools]
    with ThreadPoolExecutor(core.NPROC) as ex:
        outs = list(ex.map(lambda j: j[2].run(bindir, j[0]), jobs))
    recs = []
    k = 0
    for x in cases:
        tab = trees.table(x.ov, x.ht, trees.BS, pool)
        runs, raw = [], []
        for t in x.tools:
            o = outs[k]
            k += 1
            place = o.pop('place')
            raw.append(o.pop('_raw'))
            o.update(trees.lex(place, x.ht, pool))
            runs.append(o)
        recs.append({'id': len(recs), 'ht': x.ht, 'bs': str(trees.BS), 'ov': [trees.tla(t, tab) for t in x.ov], 'runs': runs, '_raw': raw, '_tree': [trees.wire(t) for t in x.ov]})
    c.count('tool', runs=len(jobs), faults_met=sum(1 for r in recs for x in r['runs'] for f in x['faults'] if f['fired']))
    return recs


LABELS = ['crash', 'help', 'success', 'silent', 'failure', 'incomplete', 'stray', 'message', 'summary', 'chatter', 'K1']


def decide(c, recs, part='tool'):
    by = {r['id']: r for r in recs}
    for r in recs[:3]:
        c.sample({'tree': core.short(r['_tree'], 300), 'run': core.short(r['_raw'][0], 500)})
    for rep in c.judge('TraceCli', scans.strip(recs), part=part):
        ls = set(rep['labels'])
        if 'K1' in ls:
            text = core.known_findings().get((c.prop, 'K1'))
            if text:
                c.known_finding('K1', text)
                ls.discard('K1')
        hit = ls & set(LABELS)
        if hit:
            r = by[rep['id']]
            c.violation('tool: ' + ','.join(sorted(hit)), {'labels': rep['labels'], 'tree': r['_tree'], 'run': r['_raw'][rep['run'] - 1]})


def safe(t):
    """trees whose names can be given in the description of a fault"""
    for n in t:
        if any(b in (59, 124) for b in n['n']) or n['n'] == b'*':
            return False
        if n['t'] == 'd' and not safe(n['c']):
            return False
    return True


def options(rng, ht, quiet=None):
    """(options, progress, mode)"""
    o = []
    th = rng.choice([None, 0, 0, 1, 2, 4, 16])
    if th is not None:
        o += rng.choice([['-t', str(th)], ['--threads', str(th)], ['--threads=%d' % th], ['-t%d' % th]])
    if ht != HTS[0] or rng.random() < 0.3:
        o += rng.choice([['--hash', ht], ['--hash=' + ht]])
    quiet = rng.random() < 0.5 if quiet is None else quiet
    if quiet:
        if rng.random() < 0.2:
            o += ['--progress']
        o += [rng.choice(['-q', '--no-progress'])]
    elif rng.random() < 0.3:
        o += ['--progress']
    return o, not quiet, 'sync' if th == 0 else 'pool'


def realise(p, rng, ht, tgs):
    """a run of the tool for a behaviour of the specification"""
    o, progress, mode = options(rng, ht, not p['progress'])
    kw = {'dest': p['dest'], 'progress': progress, 'mode': mode, 'optpos': rng.choice([0, 1])}
    dirs = ['r0']
    if p['args'] == 'bad':
        o += rng.choice([['--nonsense'], ['-Z'], ['--hash', 'md5'], ['--hash', ''], ['--threads', 'x'], ['--threads', '-1'], ['-t', '']])
        kw['args'] = 'bad'
    elif p['args'] == 'help':
        o += [rng.choice(['-h', '--help'])]
        kw['args'] = 'help'
    elif p['args'] == 'none':
        dirs = []
        kw['args'] = 'none'
    if p['fop'] == 'create' and p['dest'] == 'file':
        r = rng.random()
        if r < 0.5:
            kw['faults'] = [[OPEN, '<out>', 1, rng.choice(ERRS)]]
        elif r < 0.75:
            kw.update(out='/nonexistent-dsv/index', blocked=p['args'] in ('ok', 'none'))
        else:
            kw.update(out=core.scratch(), blocked=p['args'] in ('ok', 'none'))
    elif p['fop'] == 'root':
        r = rng.random()
        if r < 0.4:
            kw['faults'] = [[OPEN, 'r0', rng.choice([1, 2]), rng.choice(ERRS)]]
        elif p['args'] == 'ok':
            dirs = rng.choice([['gone'], ['r0', 'gone'], ['gone', 'r0'], ['r0/gone/x']])
            kw['args'] = 'gone'
    elif p['fop'] == 'input':
        f = None
        while not f:
            cand = [x for x in faults_for(rng.choice(tgs), False, rng) if x[0] != STAT or x[2] == 0]
            f = rng.choice(cand) if cand else None
        kw['faults'] = [f]
    elif p['fop'] == 'write':
        if p['nth'] == 4 and rng.random() < 0.6:
            if p['dest'] == 'file':
                kw.update(out='/dev/full', full=p['args'] == 'ok')
            else:
                kw.update(stdout=rng.choice(['full', 'pipe']), full=p['args'] == 'ok')
        else:
            kw['faults'] = [[WRITE, '<out>', p['nth'] if rng.random() < 0.7 else rng.choice([1, 2, 5, 9, 20]), rng.choice([28, 5, 32, 27, 122, 11])]]
    if p['args'] == 'help':  # printing the usage is argparse's business, and it panics when it cannot
        kw.pop('faults', None)
        kw.pop('stdout', None)
    return Tool(o, dirs, **kw)


def p22(c):
    bindir = core.build()
    pool = core.Pool(bindir)
    core.log('built')
    rng = c.rng
    c.design('MCCli', workers=1)
    g = core.tlc('MCCli', 'GenCli', workers=1)
    ends = {tuple(sorted(p.items())): p for p in g.prints}
    if len(ends) < 100:
        raise core.ToolError('no behaviours generated')
    c.states += g.distinct
    behaviours = [ends[k] for k in sorted(ends)]
    core.log('%d behaviours' % len(behaviours))
    k = 8 if c.thorough else 1
    cases = []
    fixed = [D(b'd', F(b'e', 40000, m=0o755), S(b'l', b't'), D(b'x')), F(b'b c', 1), F(b'a', 100000), P(b'p'), S(b's', b'\xff\n')]
    for i in range(4 * k):
        t = fixed if i == 0 else trees.rand_tree(rng, n=20, special=0.05)
        if not safe(t):
            continue
        ht = HTS[i % 2]
        tgs = targets([t])
        cases.append(Case(ht, [t], [realise(p, rng, ht, tgs) for p in behaviours]))
    # no faults but in the output's moods; many trees, several directories
    for i in range(60 * k):
        nr = rng.choice([1, 1, 1, 1, 2, 3])
        ov = [trees.rand_tree(rng, n=rng.choice([0, 2, 10, 40]), sizes=trees.SMALL if i % 3 else trees.SIZES, special=0.06) for _ in range(nr)]
        ht = HTS[i % 3] if i % 2 else HTS[i % 2]
        tools = []
        for _ in range(6):
            o, progress, mode = options(rng, ht)
            kw = {'dest': rng.choice(['out', 'file']), 'progress': progress, 'mode': mode, 'optpos': rng.choice([0, 1])}
            if rng.random() < 0.3:
                kw['faults'] = [[WRITE, '<out>', n, rng.choice([EINTR, -1, -7, -100])] for n in rng.sample(range(1, 9), 3)]
            if kw['dest'] == 'file' and rng.random() < 0.4:
                kw['before'] = rng.choice([b'', b'x', b'y' * 100000])
            if i % 8 == 0 and nr == 1:
                # long enough for something to be said in between
                kw['slow'] = 300000 // (2 * trees.count(ov[0]) + 2)
            if rng.random() < 0.2:
                kw['cwd'] = True
            dirs = ['r%d' % j for j in range(nr)]
            if rng.random() < 0.2:
                dirs = [d + '/' for d in dirs]
            tools.append(Tool(o, dirs, **kw))
        # a write that fails, anywhere, the last ones included
        for _ in range(4):
            o, progress, mode = options(rng, ht)
            kw = {'dest': rng.choice(['out', 'file']), 'progress': progress, 'mode': mode}
            n = sum(trees.count(t) for t in ov)
            kw['faults'] = [[WRITE, '<out>', rng.choice([1, 2, n, n + 1, n + 2, n + 3, rng.randint(1, n + 4)]) if kw['dest'] == 'out' else rng.choice([1, 1, 2, 0]), rng.choice([28, 5, 32])]]
            tools.append(Tool(o, ['r%d' % j for j in range(nr)], **kw))
        cases.append(Case(ht, ov, tools))
    # indexes of many sizes around the capacity of the output's buffer
    for n in (1, 30, 60, 80, 90, 100, 150, 250):
        t = [F(b'f%03d' % i, 1, i) for i in range(n)]
        tools = []
        for m in (1, 2, 3, 4):
            o, progress, mode = options(rng, HTS[0])
            tools.append(Tool(o, ['r0'], dest='file', faults=[[WRITE, '<out>', m, 28]], progress=progress, mode=mode))
        o, progress, mode = options(rng, HTS[0])
        tools += [Tool(o, ['r0'], dest='file', out='/dev/full', full=True, progress=progress, mode=mode),
                  Tool(o, ['r0'], stdout='full', full=True, progress=progress, mode=mode), Tool(o, ['r0'], stdout='pipe', full=True, progress=progress, mode=mode),
                  Tool(o, ['r0'], dest='file', progress=progress, mode=mode), Tool(o, ['r0'], progress=progress, mode=mode)]
        cases.append(Case(HTS[0], [t], tools))
    # K1 shows with several blocks
    cases.append(Case(HTS[2], [fixed], [Tool(['--hash', HTS[2], '-q', '-t', n], ['r0'], progress=False, mode='sync' if n == '0' else 'pool') for n in ('0', '2')]))
    # arguments that are no text
    cases.append(Case(HTS[0], [fixed], [Tool([], ['r0', '\xff'], args='gone'), Tool(['\xff'], ['r0'], args='gone'), Tool(['-o'], [], args='bad'), Tool(['--hash'], [], args='bad'),
                                        Tool(['-q', '-t'], [], args='bad'), Tool(['-q'], [], args='none'), Tool([], ['r0/s'], args='gone'), Tool([], ['r0/a'], args='gone'), Tool([], ['r0/p'], args='gone')]))
    core.log('%d trees, %d runs' % (len(cases), sum(len(x.tools) for x in cases)))
    recs = perform(c, pool, bindir, cases)
    core.log('performed')
    decide(c, recs)
    if c.thorough:
        b2 = core.build(threads=False)
        cs = []
        for i in range(60):
            ht = HTS[i % 2]
            tools = []
            for _ in range(5):
                o, progress, mode = options(rng, ht)
                tools.append(Tool(o, ['r0'], dest=rng.choice(['out', 'file']), progress=progress, mode='sync'))
            cs.append(Case(ht, [trees.rand_tree(rng, n=12)], tools))
        decide(c, perform(c, pool, b2, cs), 'tool without threads')
