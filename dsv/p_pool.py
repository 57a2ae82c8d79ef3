"""P06 and P07: threaded scans. spec/Pool.tla is the pool as it is built, spec/PoolAbs.tla what it promises;
schedules printed by TLC are forced on the real pool through gated files, and logs of real threaded scans
are validated event by event (spec/TracePool.tla)."""
from . import core, trees, scans
from .trees import D, F, S, HTS, l1


def start(c):
    pool = core.Pool(core.build())
    core.log('built')
    return pool


def tree_for(items, rng, nested, big=False):
    """a tree whose index has entries of these kinds in this order; returns it with the paths of the files"""
    assert items[0] == 'd'
    root = []
    cur, path = root, []
    paths = []
    nd = 0
    for i, k in enumerate(items):
        if i == 0:
            paths.append(None)
        elif k == 'd':
            nd += 1
            nm = b'd%03d' % nd
            d = D(nm)
            if nested:
                cur.append(d)
                path = path + [nm]
            else:
                root.append(d)
                path = [nm]
            cur = d['c']
            paths.append(None)
        elif k == 's':
            cur.append(S(b'e%03d' % i, b't%d' % i))
            paths.append(None)
        else:
            nm = b'e%03d' % i
            cur.append(F(nm, rng.choice([0, 1, 10, 1000, 40000] if big else [0, 1, 10, 100]), rng.randrange(250), rng.choice([0o644, 0o755])))
            paths.append(b'/'.join(path + [nm]))
    return root, ['r0/' + l1(p) if p else None for p in paths]


class Gated:
    """one run of the pool under control"""

    def __init__(self, items, rng, threads, queue, steps, nested=False, ht='sha512/256', idle=800, progress=False, delay=None, gates=None, big=False):
        """steps: [(number of lines to wait for, item to release or None)]; gates: items held back"""
        self.items, self.threads, self.queue = items, threads, queue
        self.tree, self.paths = tree_for(items, rng, nested, big)
        self.ht = ht
        self.run = {'threads': threads, 'hash': ht, 'dirs': [['r0', '/']], 'log': True}
        if queue is not None:
            self.run['queue'] = queue
        if progress:
            self.run['progress'] = True
        if delay is not None:
            self.run['delay'] = delay
        self.gates = [i for i in range(len(items)) if items[i] == 'f'] if gates is None else gates
        self.all_gated = gates is None
        self.steps = [{'lines': n, 'open': self.paths[i] if i is not None else None, 'idle_us': idle} for n, i in steps]

    def request(self):
        return {'op': 'pool', 'base': core.fresh('p'), 'roots': [['r0', trees.wire(self.tree)]], 'run': self.run,
                'gates': [self.paths[i] for i in self.gates], 'steps': self.steps, 'timeout_ms': 15000}

    def record(self, i, r, limit=None):
        if 'skipped' in r:
            return None
        at = {p: k + 1 for k, p in enumerate(self.paths) if p}
        evs = []
        for e in r.get('events', []):
            if e[0] in ('open', 'gate'):
                if e[1] in at:
                    evs.append([e[0], at[e[1]]])
            else:
                evs.append(e)
        res = 'hang'
        if 'res' in r:
            res = 'ok' if r['res'][0] == 'ok' else r['res'][0]
        elif 'died' in r:
            res = 'died'
        evs.append(['end', res])
        lim = limit if limit is not None else self.queue
        return {'id': i, 'items': self.items, 'limit': lim, 'threads': self.threads, 'gated': self.all_gated, 'ev': evs,
                '_raw': {'items': self.items, 'run': self.run, 'steps': self.steps, 'events': r.get('events'), 'res': r.get('res'), 'stuck': r.get('stuck')},
                '_out': r.get('out'), '_res': r.get('res') or [res], '_g': self}


def run(pool, gs, limits=None):
    recs = []
    for i, (g, r) in enumerate(zip(gs, pool.map([g.request() for g in gs], 60))):
        rec = g.record(i, r, limits[i] if limits else None)
        if rec:
            recs.append(rec)
    return recs


def decide(c, recs, labels, part):
    by = {r['id']: r for r in recs}
    for r in recs[:2]:
        c.sample({'items': r['items'], 'run': r['_raw']['run'], 'events': core.short(r['ev'], 500)})
    c.count(part, events=sum(len(r['ev']) for r in recs))
    for rep in c.judge('TracePool', [{k: v for k, v in r.items() if not k.startswith('_')} for r in recs], part=part, shards=max(1, min(core.NPROC, len(recs) // 60 + 1))):
        if rep['why'] in labels:
            c.violation('pool: %s at event %s' % (rep['why'], rep['at']), {'report': rep, 'run': by[rep['id']]['_raw']})


def same_output(c, pool, recs, part='outputs of schedules'):
    """the outputs of controlled runs against the single-threaded output and the tree"""
    groups, per = [], []
    for r in recs:
        g = r['_g']
        groups.append(scans.group(g.ht, [[g.tree]], []))
        per.append([(0, g.run, {'res': r['_res'], 'out': r['_out'] or ''})])
    rqs = [{'op': 'scan', 'base': core.fresh('t'), 'roots': [['r0', trees.wire(r['_g'].tree)]], 'runs': [{'hash': r['_g'].ht, 'dirs': [['r0', '/']]}]} for r in recs]
    for x, a, r in zip(per, pool.map(rqs), recs):
        if isinstance(a, list):
            x.insert(0, (0, {}, a[0]))
    scans.decide(c, scans.build(groups, per, pool, c), ['repro', 'K1'], part=part)


def schedules(c, rng, prints, every=1):
    gs = []
    for p in prints:
        if every > 1 and rng.randrange(every):
            continue
        steps = [(h['lines'] + 1, h['open'] - 1) for h in p['hist']]
        # at the end everything is there, the footer too
        gs.append(Gated(p['items'], rng, p['threads'], p['limit'], steps, nested=rng.random() < 0.5, ht=rng.choice(HTS[:2]), progress=rng.random() < 0.2, big=rng.random() < 0.2))
    return gs


def generate(c, ln, limit, threads, kinds):
    r = core.tlc('MCPool', 'GenPool', env={'DSV_LEN': ln, 'DSV_LIMIT': limit, 'DSV_THREADS': threads, 'DSV_KINDS': kinds}, workers=1, heap='8g')
    if not r.ok or len(r.prints) < 20:
        raise core.ToolError('no schedules generated')
    c.states += r.distinct
    return r.prints


def free_runs(rng, n):
    """logged runs whose interleaving is disturbed by random delays; nothing is held back"""
    gs = []
    for _ in range(n):
        items = ['d'] + [rng.choice('ffffsd') for _ in range(rng.choice([5, 20, 60]))]
        gs.append(Gated(items, rng, rng.choice([2, 2, 3, 4, 8, 16]), rng.choice([0, 1, 2, 5, 20, 100]), [], nested=rng.random() < 0.3, ht=rng.choice(HTS[:2]),
                        delay=rng.randrange(1 << 26), gates=[], big=rng.random() < 0.3))
    return gs


def design(c):
    c.design('MCPool', env={'DSV_LEN': 5 if c.thorough else 4, 'DSV_LIMIT': 3 if c.thorough else 2, 'DSV_THREADS': 3 if c.thorough else 2, 'DSV_KINDS': 'dsfe'}, workers=8)


def p06(c):
    pool = start(c)
    rng = c.rng
    design(c)
    prints = generate(c, 6 if c.thorough else 5, 3, 3, 'df') + generate(c, 5 if c.thorough else 4, 2, 2, 'dsfe')
    recs = run(pool, schedules(c, rng, prints))
    core.log('replayed %d schedules' % len(recs))
    decide(c, recs, ['early', 'held', 'end'], 'schedules')
    same_output(c, pool, recs)
    recs = run(pool, free_runs(rng, 1500 if c.thorough else 150))
    decide(c, recs, ['early', 'held', 'end'], 'free runs')
    same_output(c, pool, recs, 'outputs of free runs')
    # whole trees, many settings
    gs = []
    for i in range(1200 if c.thorough else 130):
        t = trees.rand_tree(rng, n=rng.choice([3, 15, 40, 80]), sizes=trees.SIZES if i % 3 else trees.SMALL)
        runs = [{}]
        for _ in range(5):
            r = {'threads': rng.choice([2, 2, 3, 4, 5, 8, 16, 33])}
            if rng.random() < 0.75:
                r['queue'] = rng.choice([0, 0, 1, 2, 3, 7, 50, 1 << 20])
            if rng.random() < 0.7:
                r['delay'] = rng.randrange(1 << 26)
            if rng.random() < 0.2:
                r['chunk'] = rng.choice([100, 4095, 32767])
            if rng.random() < 0.2:
                r['progress'] = True
            runs.append(r)
        runs += [{'threads': 'auto'}, {'threads': 1}]
        if i % 10 == 0:
            runs += [{'threads': 100, 'queue': 1}, {'threads': 64}, {'threads': 2, 'queue': 1 << 62}, {'threads': 3, 'again': True}, {'threads': 2, 'queue': 0, 'again': True},
                     {'threads': 4, 'slow': 1500, 'progress': True}]
            gs.append(scans.group(HTS[i % 2], [[t]], [{}, {'threads': 2}, {'threads': 3, 'queue': 0}, {'threads': 5, 'queue': 1, 'progress': True}] * 3, parallel=True))
        gs.append(scans.group(HTS[i % 2] if i % 6 else HTS[2], [[t]], runs))
    # large trees with the default queue
    for n in (400, 1500):
        t = [D(b'd%d' % i, *[F(b'f%d' % j, (i * j) % 300, j % 250) for j in range(n // 20)]) for i in range(20)]
        gs.append(scans.group('blake2b/256', [[t]], [{}, {'threads': 2}, {'threads': 8}, {'threads': 8, 'queue': 0}, {'threads': 3, 'delay': 5}]))
    recs = scans.perform(gs, pool, c)
    scans.decide(c, recs, ['repro', 'K1'])
    nothreads(c, rng, recs, gs)


def nothreads(c, rng, recs, gs):
    """built without threads, whatever is asked for is done by one"""
    p2 = core.Pool(core.build(threads=False))
    by = {r['id']: r for r in recs}
    g2, want = [], []
    for i, g in enumerate(gs[:60]):
        if g['ht'] != HTS[2] and i in by:
            g2.append(scans.group(g['ht'], g['variants'], [{'threads': 4, 'nothreads': True}, {'threads': 'auto', 'nothreads': True, 'queue': 1}]))
            want.append(by[i])
    per = []
    for g, w in zip(g2, want):
        m = w['_meta'][0]
        per.append([(0, {}, {'res': m['res'], 'out': m['full']})])
    rqs = [{'op': 'scan', 'base': core.fresh('t'), 'roots': [['r0', trees.wire(g['variants'][0][0])]],
            'runs': [dict(r, hash=g['ht'], dirs=[['r0', '/']]) for r in g['runs']]} for g in g2]
    for g, x, a in zip(g2, per, p2.map(rqs)):
        if isinstance(a, list):
            x += [(0, r, o) for r, o in zip(g['runs'], a)]
        elif 'skipped' not in a:
            x.append((0, g['runs'][0], {'res': ['died'], 'out': ''}))
    scans.decide(c, scans.build(g2, per, p2, c), ['repro'], part='without threads')
    p2.close()


def p07(c):
    pool = start(c)
    rng = c.rng
    design(c)
    prints = generate(c, 5, 3, 3, 'df')
    recs = run(pool, schedules(c, rng, prints, 1 if c.thorough else 2))
    decide(c, recs, ['ahead', 'held', 'end'], 'schedules')
    # one file is held back, the others are free; then it is released
    gs = []
    for i in range(1200 if c.thorough else 260):
        q = rng.choice([0, 0, 1, 2, 3, 4, 7, 15, 40])
        n = q + rng.choice([4, 10, 40])
        items = ['d'] + [rng.choice(rng.choice(['f', 'ffs', 'fffd', 'fsd'])) for _ in range(n)]
        files = [k for k in range(len(items)) if items[k] == 'f']
        if not files:
            continue
        # the entries held back: one, or a few
        held = sorted(rng.sample(files, min(len(files), rng.choice([1, 1, 1, 2, 3]))))
        if rng.random() < 0.5:
            held = sorted(set(held) | {files[0]})
        steps, released = [], []
        for k in held:
            steps.append((k + 1, k))
        gs.append(Gated(items, rng, rng.choice([len(held) + 1, len(held) + 2, 8, 16]), q, steps, nested=rng.random() < 0.3, idle=4000, gates=held))
    recs = run(pool, gs)
    core.log('read-ahead: %d runs' % len(recs))
    decide(c, recs, ['ahead', 'held', 'end'], 'read-ahead')
    # by default the bound is a multiple of the number of threads, whatever it is; 64 is taken to be too many
    gs, lims = [], []
    for th in (2, 3, 4, 8) if c.thorough else (2, 4):
        n = 64 * th + 400
        items = ['d'] + ['f'] * n
        gs.append(Gated(items, rng, th, None, [(2, 1)], idle=30000, gates=[1]))
        lims.append(64 * th)
    decide(c, run(pool, gs, lims), ['ahead', 'held', 'end'], 'default bound')
