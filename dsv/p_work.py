"""P30: how often a scan touches what, how much readers are asked for, and how the time grows with the input, judged by
spec/TraceWork.tla; spec/Work.tla is the model of it."""
from . import core, trees, scans
from .trees import D, F, S, P, U, HTS

OPEN, READ, STAT, READLINK, READDIR, DIRINIT = 1, 2, 3, 4, 5, 6
GROW = 16
LONG = 60      # seconds; what is asked takes about one
NEVER = 10 ** 10
LINE, BUF = 200, 8192


def counted(nodes, path, work):
    """the nodes with what was done to each; takes it out of the table"""
    out = []
    for n in nodes:
        p = path + '/' + n['n'].decode('latin-1')
        w = work.pop(p, [0] * 8)
        m = {'t': {'d': 'd', 'f': 'f', 's': 's'}.get(n['t'], 'o'), 'w': w[1:7], 'sz': n.get('z', [0])[0] if n['t'] == 'f' else 0, 'ls': 0, 'c': []}
        if n['t'] == 'd':
            m['c'] = counted(n['c'], p, work)
            m['ls'] = len(n['c'])
        out.append(m)
    return out


WAYS = [{}, {'hide': True}, {'threads': 2}, {'threads': 4, 'queue': 0}, {'threads': 3, 'queue': 3, 'delay': 3}, {'progress': True}, {'progress': True, 'threads': 3, 'perm': 4}, {'sink': {'acc': [1, -1, 7]}}]


def touched(c, pool):
    rng = c.rng
    ovs = [[[]], [[F(b'f', n) for n in (0,)]], [[D(b'a', D(b'b', F(b'x', 10)), S(b'up', b'..')), S(b'l', b'a'), P(b'p'), U(b'u'), F(b'y', 100000)]],
           [[F(b'%d' % n, n) for n in trees.SIZES]], [[F(b'big', 5000001), F(b'big2', 1 << 20)]],
           [[S(b's%03d' % i, b't' * (i * 13 + 1)) for i in range(200)]], [[P(b'p%d' % i) for i in range(50)]],
           [[D(b'd%03d' % i, *[D(b'e%d' % j) for j in range(3)]) for i in range(200)]],
           [[D(b'd', *[D(b'e', F(b'f', 5))])]] * 2, [[F(b'x', 70000), D(b'd', F(b'x', 5))], [F(b'x', 70000), D(b'd', F(b'x', 5))], [F(b'x', 1), D(b'd', F(b'x', 5))]],
           [[F(b'secret', 40000, 3, 0o755), D(b'.git', F(b'index', 4)), F(b'.gitignore', 3), F(b'core', 5)]]]
    for i in range(400 if c.thorough else 90):
        ovs.append([trees.rand_tree(rng, n=rng.choice([5, 15, 40]), depth=rng.choice([2, 5]), sizes=trees.SIZES if i % 3 == 0 else trees.SMALL, special=0.1, ps=0.2) for _ in range(rng.choice([1, 1, 2, 3]))])
    cases = [(ov, [dict(w, work=True, hash=HTS[i % 3], dirs=[['r%d' % j, '/'] for j in range(len(ov))]) for w in WAYS]) for i, ov in enumerate(ovs)]
    rqs = [{'op': 'scan', 'base': core.fresh('w'), 'roots': [['r%d' % j, trees.wire(t)] for j, t in enumerate(ov)], 'runs': runs} for ov, runs in cases]
    recs = []
    for (ov, runs), a in zip(cases, pool.map(rqs, 200)):
        if isinstance(a, dict):
            c.count('scans', unanswered=1)      # crashes and hangs are decided under P08, P06
            continue
        for run, o in zip(runs, a):
            if o['res'][0] != 'ok':
                c.count('scans', failed=1)
                continue
            work = {k: v for k, v in o['work']}
            roots = []
            for j, t in enumerate(ov):
                w = work.pop('r%d' % j, [0] * 8)
                roots.append({'t': 'd', 'w': w[1:7], 'sz': 0, 'ls': len(t), 'c': counted(t, 'r%d' % j, work)})
            recs.append({'what': 'scan', 'roots': roots, 'other': [v[1:7] for v in work.values()], 'bytes': o['bytes'],
                         '_raw': {'run': run, 'elsewhere': sorted(work)[:5], 'bytes': o['bytes'], 'work': core.short(o['work'], 1500)}})
    c.count('scans', scans=len(recs))
    return recs


def readers(c, pool):
    """how far readers are read"""
    n = 60000 if c.thorough else 12000
    total = n * LINE + 44 + 65
    qs = [({'what': 'iterate'}, 1, total), ({'what': 'emit'}, 0, 0), ({'what': 'hash'}, 0, 0), ({'what': 'merge'}, 5, total), ({'what': 'iterate', 'bad': True}, 1, total)]
    for m in (0, 1, 2, 50, 1000):
        qs.append(({'what': 'few', 'm': m}, 1, (m + 1) * LINE))
    for m in (1, 2, 10, 100, 1000):
        end = (n * m // (m + 1) + 2) * LINE
        qs += [({'what': 'advance', 'm': m}, 1, end), ({'what': 'merge-advance', 'm': m}, 5, end), ({'what': 'back', 'm': m}, 1, (n // 2 + 2) * LINE)]
    recs = []
    for (q, k, upto), a in zip(qs, pool.map([dict(q, op='big', n=n) for q, _, _ in qs], 200)):
        if 'given' in a:
            # BUF: what the reader's own buffer takes at once
            recs.append({'what': 'read', 'given': a['given'], 'most': k * (upto + BUF + 4 * LINE) if k else 0, 'hash': q['what'] == 'hash', '_raw': {'lines': n, 'query': q, 'answer': a}})
    c.count('readers', runs=len(recs))
    return recs


def longline(n):
    h = 'DIRSIGNATURE.v1 sha512/256 block_size=32768\n/\n'
    return h + '  f f %d %s\n' % (n * 32768, ' '.join(['ab' * 32] * n)) + '0' * 64 + '\n'


def growing(c, pool):
    """the same at a size and at GROW times that size"""
    k = 3 if c.thorough else 1
    jobs = {}

    def scan(name, tree, n, **run):
        jobs['scan ' + name] = (n, lambda n: {'op': 'scan', 'base': core.fresh('w'), 'roots': [['r0', trees.wire(tree(n))]],
                                              'runs': [dict(run, hash=HTS[1], dirs=[['r0', '/']], sink={'null': True})]}, lambda a: a[0]['cpu'])
    scan('files', lambda n: [F(b'f%07d' % (i * 7919 % n), 0) for i in range(n)], 4000 * k)
    scan('files, threads', lambda n: [F(b'f%07d' % (i * 7919 % n), 0) for i in range(n)], 4000 * k, threads=3)
    scan('dirs', lambda n: [D(b'd%07d' % (i * 7919 % n)) for i in range(n)], 2500 * k)
    scan('dirs of dirs', lambda n: [D(b'd%05d' % i, *[D(b'e%d' % j) for j in range(10)]) for i in range(n // 10)], 2500 * k)
    scan('links', lambda n: [S(b's%07d' % (i * 7919 % n), b't') for i in range(n)], 4000 * k)
    scan('progress', lambda n: [F(b'f%07d' % i, 0) for i in range(n)], 4000 * k, progress=True)
    scan('one file', lambda n: [{'n': b'z', 't': 'f', 'z': [n << 20, 0, 1], 'm': 0o644, 'sparse': True}], 8 * k)
    for what, n, kw in [('iterate', 20000, {}), ('emit', 20000, {}), ('merge', 20000, {'k': 2}), ('iterate', 20000, {'bad': True}), ('advance', 20000, {'m': 'n'}),
                        ('merge-advance', 20000, {'m': 'n', 'k': 2}), ('back', 20000, {'m': 'n'})]:
        jobs['index %s %s' % (what, kw)] = (n * k, lambda n, what=what, kw=kw: {'op': 'big', 'what': what, 'n': n, **{x: n if y == 'n' else y for x, y in kw.items()}}, lambda a: a['cpu'])
    jobs['long line'] = (5000 * k, lambda n: {'op': 'parse', 'data': longline(n), 'reader': {}, 'ops': [['count']]}, lambda a: a['cpu'])
    jobs['long line, by pieces'] = (5000 * k, lambda n: {'op': 'parse', 'data': longline(n), 'reader': {'chunk': 64}, 'ops': [['count']]}, lambda a: a['cpu'])
    jobs['long target'] = (60000 * k, lambda n: {'op': 'parse', 'data': longline(1)[:46] + '  l s ' + '\\x20a' * n + '\n' + '0' * 64 + '\n', 'reader': {}, 'ops': [['count']]}, lambda a: a['cpu'])
    jobs['lines in vain'] = (40000 * k, lambda n: {'op': 'parse', 'data': longline(1)[:46] + '\n' * n, 'reader': {}, 'ops': [['count']]}, lambda a: a['cpu'])
    for w in (0, 1):
        jobs['stream %s' % ('hashed', 'checked')[w]] = (1 << 20, lambda n: {'op': 'hz', 'hash': HTS[1], 'bs': '512', 'zeros': n}, lambda a, w=w: a['cpus'][w])
    recs = []
    todo = list(jobs)
    best = {j: [None, None] for j in todo}
    late = {}
    for attempt in range(4):
        # the small ones first: what does not end at all is decided elsewhere
        for z in (0, 1):
            js = [j for j in todo if z == 0 or best[j][0] is not None]
            for j, a in zip(js, pool.map([jobs[j][1](jobs[j][0] * (GROW if z else 1)) for j in js], LONG)):
                if isinstance(a, dict) and 'hang' in a:
                    late[j] = late.get(j, 0) + z
                    a = {'cpu': NEVER, 'cpus': [NEVER] * 2} if z else {}
                    if z and j.startswith('scan'):
                        a = [a]
                try:
                    t = int(jobs[j][2](a))
                except (KeyError, TypeError, IndexError):
                    continue
                best[j][z] = t if best[j][z] is None else min(t, best[j][z])
        # what looks slow is tried again: a busy machine is no matter
        todo = [j for j in todo if late.get(j, 0) < 2 and (None in best[j] or best[j][1] > GROW * 5 // 2 * best[j][0] + 80000)]
        if not todo:
            break
    for j, (a, b) in best.items():
        if a is None or b is None:
            c.count('times', unanswered=1)
            continue
        recs.append({'what': 'time', 'grow': GROW, 'slack': 5 if j.startswith('scan') else 3, 'small': a // 10, 'large': b // 10, '_raw': {'job': j, 'n': jobs[j][0], 'us at n': a, 'us at %d n' % GROW: b}})
    c.count('times', jobs=len(recs))
    return recs


def p30(c):
    b = core.build()
    pool = core.Pool(b)
    core.log('built')
    c.design('MCWork')
    recs = touched(c, pool)
    core.log('scanned')
    recs += readers(c, pool)
    core.log('read')
    recs += growing(c, core.Pool(b, n=4))
    core.log('timed')
    for i, r in enumerate(recs):
        r['id'] = i
    for r in recs[:1] + recs[-2:]:
        c.sample(core.short(r['_raw'], 600))
    for rep in c.judge('TraceWork', scans.strip(recs), part='work'):
        c.violation('work: ' + ','.join(sorted(rep['labels'])), {'labels': rep['labels'], 'run': recs[rep['id']]['_raw']})
