"""P26: trees that change while they are scanned. spec/Race.tla is the scan with an environment that changes
things between any two of its steps; real scans whose system calls trigger such changes are judged by
spec/TraceRace.tla against all the trees there were."""
import copy
from . import core, trees, scans
from .trees import D, F, S, HTS, l1
from .p_fault import OPEN, READ, STAT, READLINK, READDIR

SECRET = [F(b'secret', 40123, 77), F(b'x', 5000, 78), D(b'dir', F(b'hidden', 70000, 79), S(b'e', b'secret'))]


def at(t, path):
    """(children list, node) of a path of names"""
    ns = t
    for i, n in enumerate(path):
        m = [x for x in ns if x['n'] == n]
        if not m:
            return None, None
        if i == len(path) - 1:
            return ns, m[0]
        if m[0]['t'] != 'd':
            return None, None
        ns = m[0]['c']
    return None, None


def paths(t, pre=()):
    out = []
    for n in t:
        out.append((pre + (n['n'],), n))
        if n['t'] == 'd':
            out += paths(n['c'], pre + (n['n'],))
    return out


def rel(p):
    return 'r0' + ''.join('/' + l1(x) for x in p)


class Change:
    """what happens to one thing: apply() gives the tree after it, wire() what the harness does"""

    def __init__(self, do, path, arg=None):
        self.do, self.path, self.arg = do, path, arg

    def apply(self, t):
        t = copy.deepcopy(t)
        ns, n = at(t, self.path)
        if n is None:
            return t
        if self.do == 'rm':
            ns.remove(n)
        elif self.do == 'link':
            ns[ns.index(n)] = S(n['n'], self.arg)
        elif self.do == 'file':
            ns[ns.index(n)] = F(n['n'], self.arg, 201)
        elif self.do == 'dir':
            ns[ns.index(n)] = D(n['n'], F(b'inner', 10, 5))
        elif self.do == 'mv':
            up = None if len(self.arg) == 1 else at(t, self.arg[:-1])[1]
            if len(self.arg) > 1 and (up is None or up['t'] != 'd'):
                # it has no place to go to any more
                return t
            ns.remove(n)
            ms, m = at(t, self.arg)
            if m is not None:
                ms.remove(m)
            host = t if len(self.arg) == 1 else up['c']
            host.append(dict(n, n=self.arg[-1]))
        elif self.do == 'add' and n['t'] == 'd':
            host = n['c']
            if not any(x['n'] == self.arg for x in host):
                host.append(F(self.arg, 33, 9))
        elif self.do == 'size' and n['t'] == 'f':
            n['z'] = [self.arg, n['z'][1], n['z'][2]]
        elif self.do == 'mode' and n['t'] != 's':
            n['m'] = self.arg
        return t

    def touched(self):
        if self.do == 'mv':
            return [self.path, self.arg]
        if self.do == 'add':
            return [self.path + (self.arg,)]
        return [self.path]

    def gone(self):
        return self.do in ('rm', 'link', 'file', 'dir', 'mv')

    def wire(self, isdir):
        p = rel(self.path)
        rm = ['rmtree' if isdir else 'rm', p]
        if self.do == 'rm':
            return [rm]
        if self.do == 'link':
            return [rm, ['symlink', p, l1(self.arg)]]
        if self.do == 'file':
            return [rm, ['write', p, [self.arg, 201, 509]]]
        if self.do == 'dir':
            return [rm, ['mkdir', p], ['write', p + '/inner', [10, 5, 509]]]
        if self.do == 'mv':
            return [['mv', p, rel(self.arg)]]
        if self.do == 'add':
            return [['write', p + '/' + l1(self.arg), [33, 9, 509]]]
        if self.do == 'size':
            return [['trunc', p, self.arg]]
        return [['chmod', p, self.arg]]


def changes_for(rng, t, path, n):
    """what can happen to one thing"""
    up = b'../' * len(path)
    out = [Change('rm', path), Change('link', path, rng.choice([b'', up]) + rng.choice([b'r1', b'r1/secret', b'r1/dir', b'r1/x'])),
           Change('link', path, up + (b'r1/dir' if n['t'] == 'd' else b'r1/secret')), Change('link', path, b'/nonexistent-dsv')]
    free = [b'zz-moved', b'a', b'b', b'.m']
    new = path[:-1] + (rng.choice(free),)
    if at(t, new)[1] is None:
        out.append(Change('mv', path, new))
    if n['t'] == 'f':
        z = n['z'][0]
        for s in {0, z // 2, max(0, z - 1), z + 1, z + 40000, 32768, 65537} - {z}:
            out.append(Change('size', path, s))
        out += [Change('mode', path, 0o755), Change('mode', path, 0o644), Change('file', path, rng.choice([0, 10, 40000]))]
    elif n['t'] == 'd':
        out += [Change('add', path, b'new'), Change('add', path, b'0'), Change('file', path, 5)]
        ds = [p for p, m in paths(t) if m['t'] == 'd' and p[:len(path)] != path]
        if ds:
            q = rng.choice(ds) + (b'mv' + path[-1],)
            out.append(Change('mv', path, q))
    else:
        out += [Change('file', path, 7), Change('link', path, b'other'), Change('dir', path)]
    return out


def own_call(n):
    return {'f': OPEN, 'd': OPEN, 's': READLINK}[n['t']]


def triggers(t):
    """(call, path, which) at which something may happen"""
    out = [(OPEN, (), 1), (OPEN, (), 2), (READDIR, (), 1), (READDIR, (), len(t) + 3)]
    for p, n in paths(t):
        if n['t'] == 'd':
            out += [(OPEN, p, 1), (OPEN, p, 2), (READDIR, p, 1), (READDIR, p, len(n['c']) + 3)]
        elif n['t'] == 'f':
            out += [(OPEN, p, 1), (STAT, p, 1)] + [(READ, p, k) for k in range(1, n['z'][0] // 16384 + 3)]
        elif n['t'] == 's':
            out += [(READLINK, p, 1)]
    return out


class Run:
    def __init__(self, t, ht, run, cs):
        """cs: [(trigger, Change)]"""
        self.t, self.ht, self.run, self.cs = t, ht, run, cs

    def request(self):
        ch = []
        for (op, p, k), x in self.cs:
            _, n = at(self.t, x.path)
            ch.append([op, rel(p), k, x.wire(n['t'] == 'd')])
        return {'op': 'scan', 'base': core.fresh('y'), 'roots': [['r0', trees.wire(self.t)], ['r1', trees.wire(SECRET)]],
                'runs': [dict(self.run, hash=self.ht, dirs=[['r0', '/']], changes=ch)]}

    def record(self, a, pool):
        fired = a.get('changed', [])
        vers, touched, gone, fatal = [self.t], [], False, False
        for i in fired:
            (op, p, k), x = self.cs[i]
            _, n = at(vers[-1], x.path)
            if n is None:
                continue
            vers.append(x.apply(vers[-1]))
            touched += x.touched()
            gone = gone or x.gone()
            # it was listed, and is not there when it is opened; nothing else has happened to it
            if p == x.path and k == 1 and op == own_call(n) and x.gone() and len(fired) == 1:
                fatal = fatal or x.do in ('rm', 'mv') or (x.do == 'link' and n['t'] != 's') or (x.do in ('file', 'dir') and n['t'] != 'f')
        lx = trees.lex(a['out'], self.ht, pool)
        lx.update(vers=vers, touched=[[list(c) for c in p] for p in touched], gone=gone, fatal=fatal, res=[str(x) for x in a['res'][:2]])
        return lx


def perform(c, pool, runs):
    recs = []
    res = pool.map([r.request() for r in runs], 60)
    fired = fatal = 0
    for r, a in zip(runs, res):
        if isinstance(a, dict):
            if 'skipped' in a:
                continue
            a = [{'res': ['hang' if 'hang' in a else 'died'], 'out': ''}]
        x = r.record(a[0], pool)
        fired += len(x['vers']) > 1
        fatal += x['fatal']
        x['vers'] = [trees.tla(v, trees.table([v], r.ht, trees.BS, pool)) for v in x['vers']]
        recs.append({'id': len(recs), 'ht': r.ht, 'bs': str(trees.BS), 'runs': [x],
                     '_raw': {'tree': trees.wire(r.t), 'run': r.run, 'changes': [[list(map(str, tr)), x2.do, rel(x2.path), str(x2.arg)] for tr, x2 in r.cs],
                              'changed': a[0].get('changed'), 'res': a[0]['res'], 'out': a[0]['out'][:3000]}})
    c.count('changes', scans=len(recs), changed=fired, fatal=fatal)
    return recs


LABELS = ['crash', 'frame', 'form', 'invented', 'order', 'lost', 'success', 'failure', 'category', 'whole']


def decide(c, recs):
    for r in recs[:3]:
        c.sample({k: core.short(v, 300) for k, v in r['_raw'].items()})
    by = {r['id']: r for r in recs}
    for rep in c.judge('TraceRace', scans.strip(recs), part='changes', shards=core.NPROC):
        hit = set(rep['labels']) & set(LABELS)
        if hit:
            c.violation('changing tree: ' + ','.join(sorted(hit)), by[rep['id']]['_raw'])


TREES = [[F(b'a', 100, 1), D(b'd', F(b'f', 40000, 2), S(b'l', b'f')), D(b'e', F(b'g', 3, 3), D(b'h')), S(b's', b'a')],
         [D(b'd', D(b'e', F(b'f', 70000, 4), F(b'g', 0, 5), S(b'x', b'..')), F(b'z', 32768, 6)), F(b'y', 65536, 7)]]


def p26(c):
    pool = core.Pool(core.build())
    core.log('built')
    rng = c.rng
    c.design('MCRace', workers=8)
    if c.thorough:
        c.design('MCRace', 'MCRaceAll', workers=8)
    modes = [{}, {'hide': True}, {'threads': 2}, {'threads': 4, 'queue': 0}, {'chunk': 5000}]
    runs = []
    # everything that can happen to one thing at every call
    for t in TREES:
        for tr in triggers(t):
            for p, n in paths(t):
                for x in changes_for(rng, t, p, n):
                    if not c.thorough and rng.random() > 0.35 and not (tr[1] == p and rng.random() < 0.7):
                        continue
                    m = rng.choice(modes)
                    runs.append(Run(t, rng.choice(HTS[:2]), m, [(tr, x)]))
    # larger trees, several changes
    for i in range(3000 if c.thorough else 500):
        t = trees.rand_tree(rng, n=rng.choice([6, 15, 30]), special=0, sizes=trees.SMALL if i % 3 else trees.SIZES, pd=0.4)
        ps = paths(t)
        if not ps:
            continue
        trs = triggers(t)
        cs = []
        used = []
        for _ in range(rng.choice([1, 2, 3])):
            p, n = rng.choice(ps)
            if any(q[:len(p)] == p or p[:len(q)] == q for q in used):
                continue
            x = rng.choice(changes_for(rng, t, p, n))
            used += x.touched()
            tr = rng.choice(trs) if rng.random() < 0.6 else rng.choice([y for y in trs if y[1] == p] or trs)
            cs.append((tr, x))
        m = dict(rng.choice(modes))
        if rng.random() < 0.3:
            m['perm'] = rng.randrange(1 << 26)
        runs.append(Run(t, rng.choice(HTS[:2]), m, cs))
    core.log('%d runs' % len(runs))
    recs = perform(c, pool, runs)
    core.log('performed')
    decide(c, recs)
