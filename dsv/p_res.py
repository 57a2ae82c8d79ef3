"""P24 (nothing left behind) and P25 (memory): what real scans hold on to while they run and afterwards, judged by
spec/TraceRes.tla; spec/Res.tla is the model of it."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core, trees, scans
from .trees import D, F, S, P, U, HTS
from .p_fault import targets, faults_for, all_faults, mode


def sized(nodes):
    """what the specification counts: lengths of names, equal siblings once"""
    out = {}
    for n in nodes:
        b = len(n['n']) + len(n.get('l', b''))
        if n['t'] == 'd':
            c = sized(n['c'])
            key = ('d', b, str(c))
            out.setdefault(key, {'t': 'd', 'b': b, 'k': 0, 'c': c})['k'] += 1
        else:
            out.setdefault(('f', b), {'t': 'f', 'b': b, 'k': 0})['k'] += 1
    return list(out.values())


def blocks(ov, bs=trees.BS):
    def most(ns):
        return max([0] + [most(n['c']) if n['t'] == 'd' else (n.get('z', [0])[0] + bs - 1) // bs for n in ns])
    return max([0] + [most(t) for t in ov])


def window(run):
    """(workers, queue size)"""
    w = run.get('threads') or 0
    if w <= 1:
        return 0, 0
    # how much is read ahead unless told otherwise is nowhere promised; see P07
    return w, run['queue'] if 'queue' in run else 64 * w


class Case:
    def __init__(self, ov, runs, hash=HTS[0], dirs=None, labels=None):
        self.ov, self.runs, self.hash = ov, runs, hash
        self.dirs = dirs if dirs is not None else [['r%d' % i, '/'] for i in range(len(ov))]


def perform(c, pool, cases, measure, timeout=200):
    """measure: 'resources' or 'memory'"""
    rqs = []
    for x in cases:
        runs = []
        for r in x.runs:
            r = dict(r, hash=x.hash, dirs=x.dirs)
            if measure == 'resources':
                r['resources'] = True
            else:
                r['sink'] = {'null': True}
            runs.append(r)
        rqs.append({'op': 'scan', 'base': core.fresh('m'), 'roots': [['r%d' % i, trees.wire(t)] for i, t in enumerate(x.ov)], 'runs': runs})
    recs, skipped = [], 0
    for x, a in zip(cases, pool.map(rqs, timeout)):
        if isinstance(a, dict):
            # crashes and hangs are decided under P08, P06
            skipped += 1
            c.count('scans', unanswered=1)
            continue
        sz, bl = [sized(t) for t in x.ov], blocks(x.ov)
        for r, o in zip(x.runs, a):
            w, q = window(r)
            rec = {'ov': sz, 'limit': q, 'workers': w, 'blocks': bl, 'fds': [], 'threads': [], 'touched': False, 'peak': -1, 'extra': 0}
            if measure == 'resources':
                rec.update(fds=o['fds'], threads=o['threads'], touched=o['touched'] is not False)
            else:
                rec['peak'] = o['peak'] // 1024
                if o['res'][0] != 'ok':
                    c.count('scans', failed=1)
            rec['_raw'] = {'run': r, 'res': o['res'], 'fired': o.get('fired'), 'fds': o.get('fds'), 'threads': o.get('threads'), 'touched': o.get('touched'), 'peak': o['peak'], 'written': o['total']}
            rec['_tree'] = core.short([trees.wire(t) for t in x.ov], 600)
            rec['_hash'] = x.hash
            recs.append(rec)
    c.count('scans', scans=len(recs))
    if skipped and skipped * 2 > len(cases):
        raise core.ToolError('most scans gave no answer')
    return recs


def decide(c, recs, labels, part):
    for i, r in enumerate(recs):
        r['id'] = i
    for r in recs[:2] + recs[-2:]:
        c.sample({'tree': r['_tree'], 'run': r['_raw']})
    for rep in c.judge('TraceRes', scans.strip(recs), part=part):
        hit = set(rep['labels']) & set(labels)
        if hit:
            r = recs[rep['id']]
            c.violation('%s: %s' % (part, ','.join(sorted(hit))), {'tree': r['_tree'], 'hash': r['_hash'], 'run': r['_raw'], 'fdbound': rep['fdbound'], 'membound_kib': rep['membound']})


WAYS = [{}, {'threads': 2, 'queue': 0}, {'threads': 3}, {'threads': 4, 'queue': 5}, {'progress': True}, {'threads': 2, 'progress': True, 'queue': 2}]


def chain(n, kids, width=0):
    t = kids
    for i in range(n):
        t = [D(b'd', *t)] + [D(b'e%d' % j) for j in range(width)] + [F(b'f', i % 9)]
    return t


def wide_dirs(n, each=1):
    return [D(b'd%05d' % i, *[F(b'f%d' % j, 3, i % 250) for j in range(each)]) for i in range(n)]


def p24(c):
    pool = core.Pool(core.build())
    core.log('built')
    rng = c.rng
    c.design('MCRes')
    k = 6 if c.thorough else 1
    cases = []
    special = [D(b'a', P(b'p'), U(b'u'), S(b'l', b'gone')), F(b'x', 40000), F(b'm', 5, m=0o000), S(b's', b'a'), S(b't', b'/etc/passwd'), P(b'q'), D(b'empty')]
    shapes = [[special], [[]], [wide_dirs(1500 * k)], [[F(b'f%04d' % i, 10) for i in range(2000)]], [[S(b's%04d' % i, b't') for i in range(1500)]],
              [[P(b'p%04d' % i) for i in range(400)]], [chain(60, [F(b'x', 1)], 12)], [chain(110, [])], [chain(20, [F(b'x')], 3)] * 4, [wide_dirs(150)] * 6,
              [[D(b'd%d' % i, *[D(b'e%d' % j, *[D(b'f%d' % l, F(b'g', 1)) for l in range(8)]) for j in range(8)]) for i in range(8)]],
              # each of the queued files in a directory of its own
              [[D(b'd%03d' % i, F(b'f', 33000, i % 200)) for i in range(300)]],
              # what no index holds
              [[D(b'd%d' % i, *[P(b'p%d' % j) for j in range(10)]) for i in range(100)]]]
    for ov in shapes:
        cases.append(Case(ov, WAYS))
        cases.append(Case(ov, [dict(WAYS[i], hide=True, perm=i) for i in (0, 2)] + [dict(WAYS[3], delay=5), dict(WAYS[1], again=True), {'again': True}], hash=HTS[1]))
    # outputs that fail
    for ov in (shapes[0], shapes[9], [chain(40, [])]):
        cases.append(Case(ov, [dict(m, sink={'cut': n, 'how': h}) for n in (0, 10, 45, 60, 100, 300, 900) for h in ('err', 'zero', 'panic') for m in WAYS[:4]]))
    # inputs that fail, everywhere
    for i in range(40 * k):
        ov = [trees.rand_tree(rng, n=rng.choice([4, 12, 30]), depth=6, sizes=trees.SMALL if i % 3 else trees.SIZES, special=0.1) for _ in range(rng.choice([1, 1, 2, 4]))]
        runs = all_faults(ov, rng, 30) + [mode(rng) for _ in range(3)]
        cases.append(Case(ov, runs, hash=HTS[i % 3]))
    for ov in ([wide_dirs(200)], [chain(40, [F(b'x', 3)], 2)], [[F(b'f%03d' % i, 32769) for i in range(150)]]):
        cases.append(Case(ov, all_faults(ov, rng, 40 * k)))
    # directories that are missing or none
    for bad in ('missing', 'r0/x', 'r0/q'):
        for ds in ([[bad, '/']], [['r0', '/'], [bad, '/']], [[bad, '/'], ['r0', '/']]):
            cases.append(Case([special], WAYS[:3], dirs=ds))
    cases.append(Case([special], WAYS[:3], dirs=[]))
    core.log('%d trees, %d runs' % (len(cases), sum(len(x.runs) for x in cases)))
    recs = perform(c, pool, cases, 'resources')
    core.log('performed')
    decide(c, recs, ['fds-left', 'fds-many', 'threads-left', 'touched'], 'resources')


# ---------------------------------------------------------------- P25

def big(name, size):
    return {'n': name, 't': 'f', 'z': [size, 0, 1], 'm': 0o644, 'sparse': True}


def p25(c):
    pool = core.Pool(core.build(), n=4)
    core.log('built')
    rng = c.rng
    c.design('MCRes')
    k = 4 if c.thorough else 1
    MB = 1 << 20
    cases = []
    ways = [{}, {'threads': 2}, {'threads': 3, 'queue': 2}, {'progress': True}]
    links = [D(b'd%03d' % i, *[S(b's%02d' % j + b'n' * 40, b't' * 3000) for j in range(40)]) for i in range(300 * k)]
    cases.append(Case([links], ways))
    # a million bytes of entries, in few and in many directories
    cases.append(Case([[D(b'd%03d' % i + b'x' * 200, *[F(b'%03d' % j + b'y' * 240, 0) for j in range(80)]) for i in range(400 * k)]], ways))
    cases.append(Case([[D(b'a%02d' % i + b'x' * 200, *[D(b'b%02d' % j + b'y' * 200, *[D(b'c%02d' % l + b'z' * 200, S(b's', b'z' * 1500)) for l in range(20)]) for j in range(25)]) for i in range(25 * k)]], ways[:3]))
    cases.append(Case([[D(b'd%02d' % i, *[F(b'f%03d' % j, 0) for j in range(150)]) for i in range(60)]] * 6, ways[:3]))
    for s in ([128] if not c.thorough else [256, 1024, 3000]):
        cases.append(Case([[big(b'z', s * MB), F(b'a', 5)]], [{}, {'threads': 2, 'queue': 0}], hash=HTS[1]))
    # many files of many blocks, one after the other: no more than the window's digests
    cases.append(Case([[big(b'f%03d' % i, 24 * MB) for i in range(16 * k)]], [{'threads': 2, 'queue': 0}, {}, {'threads': 4, 'queue': 3}], hash=HTS[1]))
    cases.append(Case([[F(b'f%05d' % i, 0) for i in range(8000 * k)]], ways))
    # one thread held up by a slow file: what follows waits
    core.log('%d trees, %d runs' % (len(cases), sum(len(x.runs) for x in cases)))
    recs = perform(c, pool, cases, 'memory', 600)
    core.log('performed')
    # hashing and checking a stream: digests only, whatever the block size
    qs = []
    for ht in HTS:
        for bs in [1 << 15, 1 << 20, 1 << 25, 1 << 32, (1 << 63) - 1, (1 << 64) - 1]:
            qs.append({'op': 'hz', 'hash': ht, 'bs': str(bs), 'zeros': (96 if c.thorough else 12) * MB})
        qs.append({'op': 'hz', 'hash': ht, 'bs': '4096', 'zeros': 8 * MB})
    for q, a in zip(qs, pool.map(qs, 300)):
        if 'peaks' not in a:
            continue
        for what, p in zip(('hash', 'check'), a['peaks']):
            recs.append({'ov': [[]], 'limit': 0, 'workers': 0, 'blocks': 0, 'fds': [], 'threads': [], 'touched': False, 'peak': p // 1024,
                         'extra': (q['zeros'] // int(q['bs']) + 1) * 32 * 3 // 1024, '_raw': {'stream': q, 'what': what, 'peak': p, 'answer': a}, '_tree': '', '_hash': q['hash']})
    # reading, seeking, merging, re-emitting long indexes: no more than a few lines
    qs = [{'op': 'big', 'what': w, 'n': 100000 * k} for w in ('iterate', 'advance', 'merge', 'merge-advance', 'hash', 'emit')]
    for q, a in zip(qs, pool.map(qs, 300)):
        if 'peak' in a:
            c.count('long indexes', runs=1, entries=a['n'] if isinstance(a['n'], int) else 0)
            recs.append({'ov': [[]], 'limit': 0, 'workers': 0, 'blocks': 0, 'fds': [], 'threads': [], 'touched': False, 'peak': a['peak'] // 1024, 'extra': 0,
                         '_raw': {'index': q, 'answer': a}, '_tree': '', '_hash': ''})
    recs += tool(c, pool, k)
    core.log('all performed')
    decide(c, recs, ['memory'], 'memory')


def tool(c, pool, k):
    """the index tool as a whole: resident memory at most"""
    bindir = core.build()
    base = core.fresh('m')
    os.mkdir(base)
    t = [D(b'd%03d' % i, *[S(b's%02d' % j + b'n' * 40, b't' * 3000) for j in range(40)]) for i in range(500 * k)]
    if pool.ask({'op': 'mktree', 'path': base + '/r0', 'nodes': trees.wire(t)}, 120) != 'ok':
        raise core.ToolError('no tree')
    runs = [[], ['-q'], ['-t0'], ['-t0', '-q'], ['-t2', '-q'], ['-t8', '-q']]

    def one(i):
        args = runs[i // 2]
        out = os.path.join(base, 'out%d' % i)
        argv = [os.path.join(bindir, 'index')] + args + [base + '/r0']
        code = ('import os,sys,resource\n'
                'p=os.fork()\n'
                'if p==0:\n'
                '    try:\n'
                '        os.execv(sys.argv[1],sys.argv[1:])\n'
                '    finally:\n'
                '        os._exit(127)\n'
                '_,s,u=os.wait4(p,0)\n'
                'sys.stderr.write("RSS %d %d\\n"%(u.ru_maxrss,s))\n')
        with open(out, 'wb') as fo:
            if i % 2:
                argv += ['-o', out]
                fo = subprocess.DEVNULL
            p = subprocess.run(['python3', '-S', '-c', code] + argv, stdout=fo, stderr=subprocess.PIPE, env={'PATH': os.environ.get('PATH', ''), 'RUST_LOG': 'off'}, timeout=120)
        w = p.stderr.decode('latin-1').rsplit('RSS ', 1)[1].split()
        size = os.path.getsize(out)
        os.unlink(out)
        return argv[1:], int(w[0]), int(w[1]), size
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(one, range(2 * len(runs))))
    recs = []
    for argv, rss, st, size in rs:
        c.count('tool', runs=1)
        w = 0 if '-t0' in argv else 8
        recs.append({'ov': [sized(t)], 'limit': 64 * w, 'workers': w, 'blocks': 0, 'fds': [], 'threads': [], 'touched': False, 'peak': rss,
                     # the program, its stacks and the interpreter it was started from
                     'extra': 24 * 1024, '_raw': {'argv': argv, 'rss_kib': rss, 'status': st, 'index': size}, '_tree': '', '_hash': HTS[0]})
    return recs
