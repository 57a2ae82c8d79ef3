"""P29: progress. spec/TraceProgress.tla judges what scans tell on standard error, of whatever kind that is, and
their indexes."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core, trees, scans
from .trees import HTS, l1
from .p_side import files_of, dirs_of, OPEN, READ

BAD = ['full', 'pipe', 'ro', 'blocked']


def told(err):
    """the lines with counts, and the digest at the end"""
    lines, hx = [], ''
    for x in re.split('[\r\n]', err):
        m = [re.search(r'(\d+) ' + w, x) for w in ('dir', 'file', 'symlink')]
        if not all(m):
            continue
        done = 'Done' in x
        lines.append({'done': done, 'n': [int(y.group(1)) for y in m]})
        if done:
            h = re.search('Done ([0-9a-f]+)', x)
            hx = h.group(1) if h else '?'
    return lines, hx


class One:
    def __init__(self, rng, n, slow=0, steady=False, ht=None, tree=None):
        self.ht = ht or HTS[rng.randrange(2)]
        self.tree = tree or trees.rand_tree(rng, n=n, sizes=trees.SMALL)
        self.steady = steady
        self.slow = slow
        th = rng.choice([0, 0, 2, 3, 5])
        q = rng.choice([None, 0, 1, 4]) if th else None
        if steady and th:
            q = rng.choice([0, 1, 4])
        self.asked = rng.random() < 0.85
        self.calls = [['hash', self.ht], ['dir', 'r0'], ['threads', th]] + ([['queue', q]] if q is not None else []) + ([['progress']] if self.asked else [])
        rng.shuffle(self.calls)
        self.kind = rng.choice(BAD) if rng.random() < 0.35 else None
        self.how = {}
        if self.kind:
            self.how['err'] = self.kind
        if slow:
            self.how['slow'] = slow
        self.fails = False
        r = rng.random()
        at = [[op, 'r0/' + p] for p in files_of(self.tree) for op in (OPEN, READ)] + [[OPEN, 'r0/' + p] for p in dirs_of(self.tree)]
        if r < 0.15 and at:
            # an empty file need not be read
            x = rng.choice([y for y in at if y[0] == OPEN])
            self.how['faults'] = [x + [0, 5]]
            self.fails = True
        elif r < 0.3:
            self.how['sink'] = {'how': 'err'}
            if rng.random() < 0.4:
                self.how['sink']['cut'] = rng.choice([0, 60, 200])
            else:
                # in the footer, or shortly before it
                self.how['sink']['short'] = rng.choice([1, 2, 30, 65, 66, 100])
                self.fails = True

    def request(self):
        return {'op': 'settings', 'base': core.fresh('g'), 'roots': [['r0', trees.wire(self.tree)]], 'cmds': self.calls + [['scan', self.how]]}

    def record(self, i, o, pool):
        tab = trees.table([self.tree], self.ht, trees.BS, pool)
        lines, hx = told(o['err'])
        cut = 'sink' in self.how
        return {'id': i, 'hash': self.ht, 'roots': [trees.tla(self.tree, tab)], 'res': [str(x) for x in o['res'][:2]], 'out': o['out'], 'asked': self.asked, 'lines': lines, 'hex': hx,
                'good': self.kind is None, 'ms': o['ms'], 'steady': self.steady, 'mustfail': self.fails or cut and not o['res'][0] == 'ok',
                '_raw': {'calls': self.calls, 'how': self.how, 'result': o['res'], 'stderr': o['err'][-600:], 'ms': o['ms']}}


def tool(bindir, t, kind):
    """the index tool with such a standard error"""
    base = core.fresh('t')
    out = base + '.out'
    argv = [os.path.join(bindir, 'index'), '-o', out, '-t', str(t['threads'])] + ([] if t['asked'] else ['-q']) + ['--hash', t['ht'], t['dir']]
    ef = None
    if kind == 'full':
        ef = open('/dev/full', 'wb')
    elif kind == 'ro':
        ef = open('/dev/null', 'rb')
    elif kind in ('pipe', 'blocked'):
        rd, wr = os.pipe()
        os.close(rd)
        ef = os.fdopen(wr, 'wb')
    env = {'PATH': os.environ.get('PATH', ''), 'LD_PRELOAD': os.path.join(bindir, 'shim.so')}
    if t.get('slow'):
        env['DSV_SLOW'] = str(t['slow'])
    p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef or subprocess.PIPE, env=env)
    if ef:
        ef.close()
    try:
        _, err = p.communicate(timeout=60)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        rc, err = -9, b''
    data = open(out, 'rb').read() if os.path.exists(out) else b''
    return rc, data.decode('latin-1'), (err or b'').decode('latin-1')


def p29(c):
    b = core.build()
    pool = core.Pool(b)
    core.log('built')
    rng = c.rng
    c.design('MCProgress')
    recs = []
    big = 5 if c.thorough else 1
    ones = [One(rng, rng.choice([1, 3, 10, 30])) for _ in range(400 * big)]
    ones += [One(rng, rng.choice([100, 250]), slow=rng.choice([200, 500])) for _ in range(50 * big)]
    ones += [One(rng, 220, slow=4000, steady=True) for _ in range(8 * big)]
    # trees of one kind only
    for x in (lambda i: trees.D(b'%d' % i), lambda i: trees.S(b'%d' % i, b'x'), lambda i: trees.F(b'%d' % i, 5), lambda i: trees.D(b'%d' % i, trees.S(b'l', b'..'))):
        ones += [One(rng, 0, slow=6000, steady=True, tree=[x(i) for i in range(400)]) for _ in range(3 * big)]
    for x, a in zip(ones, pool.map([x.request() for x in ones], 120)):
        if 'skipped' in a:
            continue
        o = a['scans'][0] if a.get('scans') else {'res': ['hang'], 'out': '', 'err': '', 'ms': 0}
        recs.append(x.record(len(recs), o, pool))
    c.count('scans', scans=len(recs), slow=sum(r['ms'] > 1500 for r in recs))
    core.log('scanned')
    # the tool
    jobs = []
    for i in range(60 * big):
        t = trees.rand_tree(rng, n=rng.choice([1, 10, 60]), sizes=trees.SMALL)
        jobs.append({'tree': t, 'dir': core.fresh('d'), 'ht': HTS[rng.randrange(2)], 'threads': rng.choice([0, 1, 4]), 'asked': rng.random() < 0.8, 'kind': rng.choice([None] * 3 + BAD), 'slow': rng.choice([0, 0, 0, 1500])})
    for j in jobs:
        os.mkdir(j['dir'])
    pool.map([{'op': 'mktree', 'path': j['dir'] + '/r', 'nodes': trees.wire(j['tree'])} for j in jobs])
    for j in jobs:
        j['dir'] += '/r'
    with ThreadPoolExecutor(core.NPROC) as ex:
        outs = list(ex.map(lambda j: tool(b, j, j['kind']), jobs))
    for j, (rc, out, err) in zip(jobs, outs):
        tab = trees.table([j['tree']], j['ht'], trees.BS, pool)
        lines, hx = told(err)
        recs.append({'id': len(recs), 'hash': j['ht'], 'roots': [trees.tla(j['tree'], tab)], 'res': ['ok'] if rc == 0 else ['e'] if rc == 1 else ['crash'], 'out': out, 'asked': j['asked'],
                     'lines': lines, 'hex': hx, 'good': j['kind'] is None, 'ms': 0, 'steady': False, 'mustfail': False,
                     '_raw': {'tool': [j['threads'], j['ht'], j['asked']], 'stderr is': j['kind'], 'exit': rc, 'stderr': err[-600:]}})
    c.count('tool', runs=len(jobs))
    core.log('tool done')
    by = {r['id']: r for r in recs}
    for r in recs[:2] + recs[-1:]:
        c.sample(core.short(r['_raw'], 500))
    rs = list(recs)
    rng.shuffle(rs)
    for rep in c.judge('TraceProgress', scans.strip(rs), part='progress'):
        c.violation('progress: ' + ','.join(sorted(rep['labels'])), {'labels': rep['labels'], 'run': by[rep['id']]['_raw']})
