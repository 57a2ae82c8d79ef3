"""P08 (input failures) and P09 (output failures): spec/TraceFault.tla and spec/TraceSink.tla judge recorded
scans of real trees in which system calls or writes failed."""
import itertools
from . import core, trees, scans
from .trees import D, F, S, P, HTS, l1

OPEN, READ, STAT, READLINK, READDIR = 1, 2, 3, 4, 5
OPN = {OPEN: 'open', READ: 'read', STAT: 'stat', READLINK: 'readlink', READDIR: 'readdir'}
ERRS = [5, 13, 2, 24, 23, 12, 116, 11, 22, 6, 1, 20, 21, 40, 110, 122, 36, 75, 16, 38, 95, 61, 19, 121]
EINTR = 4


def start(c):
    pool = core.Pool(core.build())
    core.log('built')
    return pool


def targets(ov):
    """(path, what, size) of everything in the trees"""
    out = []

    def walk(path, ns):
        for n in ns:
            p = path + '/' + l1(n['n'])
            if n['t'] == 'd':
                out.append((p, 'dir', len(n['c'])))
                walk(p, n['c'])
            elif n['t'] == 'f':
                out.append((p, 'file', n['z'][0]))
            elif n['t'] == 's':
                out.append((p, 'link', 0))
            elif n['t'] in 'pu':
                out.append((p, 'special', 0))
    for i, t in enumerate(ov):
        out.append(('r%d' % i, 'root', len(t)))
        walk('r%d' % i, t)
    return out


def faults_for(tg, hide, rng):
    """faults at one place: [op, path, nth, errno]"""
    p, at, n = tg
    e = lambda: rng.choice(ERRS)
    out = []
    if at in ('root', 'dir'):
        out += [[OPEN, p, k, e()] for k in (1, 2, 0)]
        out += [[READDIR, p, k, e()] for k in sorted({0, 1, 2, n, n + 1, n + 2, n + 3})]
    if at == 'file':
        out += [[OPEN, p, 1, e()], [OPEN, p, 0, 2], [STAT, p, 0, e()], [STAT, p, 1, e()]]
        nr = n // 32768 + 2
        out += [[READ, p, k, e()] for k in sorted({0, 1, 2, nr, nr - 1} | set(range(1, min(nr, 5) + 1)))]
        out += [[READ, p, k, EINTR] for k in sorted({1, 2, nr, nr + 1})]
    if at == 'link':
        out += [[READLINK, p, k, e()] for k in (0, 1)] + [[READLINK, p, 1, 22]]
    if hide and at != 'root':
        out += [[STAT, p, 0, e()]]
    return out


MODES = [{}, {}, {'threads': 2, 'queue': 0}, {'threads': 4}, {'threads': 2, 'queue': 1}, {'threads': 8, 'queue': 3}]


def mode(rng):
    r = dict(rng.choice(MODES))
    if rng.random() < 0.15:
        r['progress'] = True
    if rng.random() < 0.3:
        r['perm'] = rng.randrange(1 << 30)
    if r.get('progress') and rng.random() < 0.2:
        # long enough for something to be printed
        r['slow'] = 6000
    if rng.random() < 0.15 and r.get('threads'):
        r['delay'] = rng.randrange(1 << 26)
    return r


class Case:
    def __init__(self, ht, ov, runs, setup='ok', dirs=None):
        self.ht, self.ov, self.runs, self.setup = ht, ov, runs, setup
        self.dirs = dirs if dirs is not None else [['r%d' % i, '/'] for i in range(len(ov))]

    def request(self):
        return {'op': 'scan', 'base': core.fresh('x'), 'roots': [['r%d' % i, trees.wire(t)] for i, t in enumerate(self.ov)],
                'runs': [dict(r, hash=self.ht, dirs=self.dirs) for r in self.runs]}


def perform(c, pool, cases, timeout=90):
    recs = []
    n = fired = 0
    for case, a in zip(cases, pool.map([x.request() for x in cases], timeout)):
        if isinstance(a, dict):
            if 'skipped' in a:
                continue
            a = [{'res': ['hang' if 'hang' in a else 'died'], 'out': ''}]
        tab = trees.table(case.ov, case.ht, trees.BS, pool)
        at = {p: k for p, k, _ in targets(case.ov)}
        runs, raw = [], []
        for r, o in zip(case.runs, a):
            fs = []
            for f, k in zip(r.get('faults', []), o.get('fired', [0] * 99)):
                fs.append({'op': OPN[f[0]], 'at': at[f[1]], 'nth': f[2], 'intr': f[3] == EINTR, 'fired': k > 0})
                fired += k > 0
            runs.append({'setup': r.get('setup', case.setup), 'faults': fs, 'res': [str(x) for x in o['res'][:2]], 'out': o['out']})
            raw.append({'run': r, 'res': o['res'], 'fired': o.get('fired'), 'out': o['out'][:1500]})
            n += 1
        recs.append({'id': len(recs), 'ht': case.ht, 'bs': str(trees.BS), 'ov': [trees.tla(t, tab) for t in case.ov], 'runs': runs,
                     '_raw': raw, '_tree': [trees.wire(t) for t in case.ov]})
    c.count('faults', scans=n, met=fired)
    return recs


LABELS = ['crash', 'success', 'category', 'prefix', 'error', 'bytes']


def decide(c, recs, module='TraceFault', labels=LABELS, part='faults'):
    by = {r['id']: r for r in recs}
    for r in recs[:3]:
        c.sample({'tree': core.short(r.get('_tree'), 300), 'runs': core.short(r['_raw'][:2], 400)})
    for rep in c.judge(module, scans.strip(recs), part=part):
        hit = set(rep['labels']) & set(labels)
        if hit:
            r = by[rep['id']]
            c.violation('%s: %s' % (part, ','.join(sorted(hit))), {'labels': rep['labels'], 'tree': r.get('_tree'), 'ht': r.get('ht'), 'run': r['_raw'][rep['run'] - 1]})


def all_faults(ov, rng, sample=None, modes=None):
    """runs with every single fault, in both kinds of scan"""
    runs = []
    for hide in (False, True):
        for tg in targets(ov):
            for f in faults_for(tg, hide, rng):
                for m in modes or [{}, mode(rng)]:
                    r = dict(m, faults=[f])
                    if hide:
                        r['hide'] = True
                    runs.append(r)
    if sample and len(runs) > sample:
        runs = rng.sample(runs, sample)
    return runs


def p08(c):
    pool = start(c)
    rng = c.rng
    from . import p_scan
    c.design('MCScan')
    k = 10 if c.thorough else 1
    cases = []
    # small trees of the specification, every fault
    ovs = [o for o in p_scan.small_overlays(c) if o]
    for i, o in enumerate(ovs):
        if i % (6 if not c.thorough else 2):
            continue
        ov = [trees.from_spec(t, rng) for t in o]
        cases.append(Case(HTS[i % 2], ov, all_faults(ov, rng, 60 if c.thorough else 24)))
    # larger trees, some faults, several at a time
    for i in range(120 * k):
        nr = rng.choice([1, 1, 1, 2, 3])
        ov = [trees.rand_tree(rng, n=rng.choice([4, 12, 30]), sizes=trees.SMALL if i % 3 else trees.SIZES, special=0.08) for _ in range(nr)]
        tgs = targets(ov)
        runs = all_faults(ov, rng, 30)
        for _ in range(10):
            fs = []
            for _ in range(rng.choice([2, 2, 3])):
                f = rng.choice(faults_for(rng.choice(tgs), False, rng) or [None])
                if f and f[0] != STAT:
                    fs.append(f)
            runs.append(dict(mode(rng), faults=fs))
        # only interruptions
        for _ in range(4):
            fs = [[READ, p, rng.choice([1, 2, 3]), EINTR] for p, at, _ in tgs if at == 'file' and rng.random() < 0.6][:16]
            runs.append(dict(mode(rng), faults=fs))
        cases.append(Case(HTS[i % 2], ov, runs))
    # one place in a wide or deep tree
    wide = [F(b'f%03d' % i, (i * 37) % 400, i % 250) for i in range(120)] + [S(b'l%d' % i, b't') for i in range(10)]
    deep = [F(b'x', 5)]
    for i in range(30):
        deep = [D(b'd', *deep), F(b'f', i), S(b's', b'q')]
    for t in (wide, deep):
        tgs = targets([t])
        runs = []
        for _ in range(60 * min(k, 4)):
            f = rng.choice(faults_for(rng.choice(tgs), False, rng))
            runs.append(dict(mode(rng), faults=[f]))
        cases.append(Case('sha512/256', [t], runs))
    # late in a tree of many entries
    n = 8000 if c.thorough else 2400
    vast = [F(b'f%d' % i, 0) if i % 4 else S(b'f%d' % i, b't') if i % 8 else D(b'f%d' % i, F(b'x', i % 3)) for i in range(n)]
    tgs = targets([vast])
    late = [x for x in tgs[len(tgs) * 3 // 4:]]
    runs = []
    for _ in range(12 * min(k, 4)):
        runs.append(dict(mode(rng), faults=[rng.choice(faults_for(rng.choice(late), False, rng))]))
    runs += [dict(mode(rng), faults=[[READDIR, 'r0', x, rng.choice(ERRS)]]) for x in (n - 1, n + 2, rng.randrange(n // 2, n))]
    runs += [dict(mode(rng), faults=[[READ, p, 1, EINTR] for p, at, _ in rng.sample(late, 20) if at == 'file'])]
    cases.insert(0, Case('blake2b/256', [vast], [x for x in runs if not x.get('delay') and not x.get('slow')]))
    # big files: a failure in the middle
    big = [F(b'a', 700000), F(b'b', 32768 * 4), D(b'c', F(b'd', 300000))]
    cases.append(Case('blake2b/256', [big], [dict(m, faults=[[READ, p, n, rng.choice(ERRS + [EINTR])]], **({'chunk': ch} if ch else {}))
                                            for p in ('r0/a', 'r0/b', 'r0/c/d') for n in list(range(1, 26)) for m, ch in (({}, 0), (mode(rng), 0), (mode(rng), 5000))]))
    # without a directory; with one that is missing or is none
    t = [D(b'd', F(b'f', 10)), S(b's', b'd'), F(b'g', 3), P(b'p')]
    ms = [{}, {'threads': 2}, {'threads': 8}, {'threads': 3, 'queue': 0}, {'progress': True}, {'threads': 2, 'progress': True}]
    cases.append(Case('sha512/256', [t], ms, 'noroot', []))
    for bad in ('missing', 'r0/g', 'r0/missing/x', 'r0/p', 'r0/g/x'):
        # what is no directory may be found out when it is opened or when it is listed
        what = 'nodir' if bad in ('r0/g', 'r0/p') else 'badroot'
        for pos in (0, 1, 2):
            ds = [['r0', '/'], ['r1', '/']]
            ds.insert(pos, [bad, '/'])
            cases.append(Case(HTS[pos % 2], [t, t], ms, what, ds))
        cases.append(Case('sha512/256', [t], ms, what, [[bad, '/']]))
    core.log('%d trees, %d runs' % (len(cases), sum(len(x.runs) for x in cases)))
    recs = perform(c, pool, cases)
    core.log('performed')
    decide(c, recs)


# ---------------------------------------------------------------- P09

def sinks(n, rng, every):
    """ways an output can behave while n bytes are written"""
    out = []
    far = {x + d for x in (4096, 8192, 32768, 65536, 131072, 1 << 20) for d in (-1, 0, 1) if x + 1 < n}
    cuts = range(n) if every else sorted(set(rng.randrange(n) for _ in range(12)) | {0, 1, n - 1, n - 2, n - 64, n - 65, n - 66} | (set(rng.sample(sorted(far), 6)) if len(far) > 6 else far))
    for i in cuts:
        if i >= 0:
            out.append({'cut': i, 'how': rng.choice(['err', 'err', 'zero'])})
            if rng.random() < 0.3:
                out.append({'cut': i, 'how': rng.choice(['err', 'err', 'zero']), 'once': True})
            if rng.random() < 0.3:
                out.append({'cut': i, 'how': rng.choice(['err', 'zero']), 'acc': rng.choice([[1], [7, -1], [3], [64, -1, 1]])})
    pats = [[1], [2], [3], [-1, 1], [1, -1], [-1, -1, 7], [5, -1, 64], [1, 1000000], [1000000, 1], [-1, 1000000], [31, 32, 33], [64], [65], [1, 2, 3, 4, 5, -1, 6]]
    for p in pats:
        if rng.random() < 0.4:
            out.append({'acc': p})
    for _ in range(4):
        p = [rng.choice([-1, 1, 1, 2, 3, 8, 60, 70, 1000]) for _ in range(rng.randint(2, 9))]
        if max(p) > 0:
            out.append({'acc': p})
    # nothing accepted at some call
    for _ in range(3):
        out.append({'acc': [rng.choice([-1, 1, 2, 9, 100000]) for _ in range(rng.choice([0, 1, 2, 5, 20, 50]))] + [0]})
    return out


def patterns(ln):
    return [list(p) for k in range(1, ln + 1) for p in itertools.product([1, 3, -1, 0], repeat=k) if max(p) > 0 or p == (0,)]


def p09(c):
    pool = start(c)
    rng = c.rng
    from . import p_blocks
    c.design('MCSink')
    k = 12 if c.thorough else 1
    jobs = []      # (requests of one index: plain one first, the sinks)
    small = [[], [F(b'a', 3)], [D(b'd', F(b'e', 40000), S(b'l', b't')), F(b'b c', 1, m=0o755)], [D(b'a', D(b'b'))], [S(b's', b'x y')]]
    for t in small:
        for m in ({}, {'threads': 2}, {'threads': 4, 'queue': 0}, {'progress': True}, {'threads': 3, 'progress': True}):
            for ht in HTS if t is small[2] else HTS[:2]:
                jobs.append((t, ht, m, True))
    # long enough for something to be printed
    for m in ({'progress': True, 'slow': 15000}, {'progress': True, 'threads': 2, 'slow': 15000}):
        jobs.append((small[2], HTS[0], m, False))
    for i in range(120 * k if k == 1 else 50 * k):
        t = trees.rand_tree(rng, n=rng.choice([1, 5, 20]), special=0.05)
        jobs.append((t, HTS[i % 3], rng.choice([{}, {'threads': 2}, {'threads': 8}, {'progress': True}, {'threads': 2, 'queue': 0}, {'threads': 3, 'progress': True}]), i % 10 == 0))
    big = [F(b'f%03d' % i, i * 500, i % 250) for i in range(150)] + [D(b'd%d' % i, F(b'x', 9)) for i in range(30)]
    for m in ({}, {'threads': 4}):
        jobs.append((big, 'sha512/256', m, False))
    # more than 64 KiB, and more than 1 MiB
    for n in ([900, 14000] if c.thorough else [900]):
        jobs.append(([F(b'f%d' % i, i % 2, i % 250) for i in range(n)], 'blake2b/256', {'threads': 3} if n % 200 else {}, False))
    first = pool.map([{'op': 'scan', 'base': core.fresh('o'), 'roots': [['r0', trees.wire(t)]], 'runs': [dict(m, hash=ht, dirs=[['r0', '/']])]} for t, ht, m, _ in jobs])
    qs, back = [], []
    for (t, ht, m, ev), a in zip(jobs, first):
        if isinstance(a, dict) or a[0]['res'][0] != 'ok':
            c.count('outputs', unusable=1)
            continue
        whole = a[0]['out']
        ss = sinks(len(whole), rng, ev and len(whole) < 900)
        if t is small[1] or t is small[4]:
            ss += [{'acc': p} for p in patterns(5 if c.thorough else 3)]
        qs.append({'op': 'scan', 'base': core.fresh('o'), 'roots': [['r0', trees.wire(t)]], 'runs': [dict(m, hash=ht, dirs=[['r0', '/']], sink=s) for s in ss]})
        back.append((t, ht, m, whole, ss))
    recs = []
    for (t, ht, m, whole, ss), a in zip(back, pool.map(qs, 90)):
        if isinstance(a, dict):
            if 'skipped' in a:
                continue
            a = [{'res': ['hang' if 'hang' in a else 'died'], 'out': '', 'sink_fired': False}]
        recs.append({'id': len(recs), 'whole': whole, 'runs': [{'out': o['out'], 'res': [str(x) for x in o['res'][:2]], 'fired': o['sink_fired']} for o in a],
                     '_raw': [{'mode': m, 'sink': s, 'res': o['res'], 'out': o['out'][:1000]} for s, o in zip(ss, a)], '_tree': trees.wire(t)})
    if len(qs) < len(jobs) // 2:
        # nothing to compare with: whether plain scans work is decided under P01
        raise core.ToolError('no plain output to compare with')
    c.count('outputs', runs=sum(len(r['runs']) for r in recs))
    core.log('scanned')
    decide(c, recs, 'TraceSink', ['crash', 'success', 'category', 'failure', 'bytes', 'prefix'], 'outputs')
    # the emitter
    ems = []
    for i in range(90 if k == 1 else 30 * k):
        t = trees.rand_tree(rng, n=rng.choice([0, 2, 6, 20]), special=0, sizes=trees.SMALL, ps=0.3)
        w = []
        for x in p_blocks.commands_of(t, rng):
            if x[0] == 'd':
                w.append(['d', '/' + '/'.join(l1(p) for p in x[1])])
            elif x[0] == 'l':
                w.append(['l', l1(x[1]), l1(x[2])])
            else:
                w.append(['f', l1(x[1]), x[2], 0, {'spec': x[3]}])
        ems.append({'op': 'emit', 'hash': HTS[i % 3], 'bs': str(rng.choice([100, 4096, 32768])), 'cmds': w})
    qs, back = [], []
    for i, (q, a) in enumerate(zip(ems, pool.map(ems))):
        if a.get('res', [''])[0] != 'ok':
            continue
        for s in sinks(len(a['out']), rng, i % 4 == 0 and len(a['out']) < 900):
            qs.append(dict(q, sink=s))
            back.append((i, a['out'], s))
    if not qs:
        raise core.ToolError('the emitter writes nothing to compare with')
    recs = {}
    for (i, whole, s), q, a in zip(back, qs, pool.map(qs)):
        if 'skipped' in a:
            continue
        if 'res' not in a:
            a = {'res': ['died'], 'out': '', 'fired': False}
        r = recs.setdefault(i, {'id': i, 'whole': whole, 'runs': [], '_raw': [], '_tree': core.short(q['cmds'], 600)})
        res = a['res'][0]
        r['runs'].append({'out': a['out'], 'res': ['e', 'Write' if a['res'][1].startswith('io: ') else 'Other'] if res == 'e' else [res], 'fired': a['fired']})
        r['_raw'].append({'sink': s, 'res': a['res'], 'out': a['out'][:1000]})
    decide(c, list(recs.values()), 'TraceSink', ['crash', 'success', 'category', 'failure', 'bytes', 'prefix'], 'emitter outputs')
