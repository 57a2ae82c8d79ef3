"""P27: configurations. spec/TraceConfig.tla (against spec/Config.tla) judges scans with configurations made by
the sequences of calls that TLC printed, and random ones."""
import re
from . import core, trees, scans
from .trees import D, F, S, HTS

ROOTS = [[F(b'a', 5), D(b'd', F(b'x', 1, m=0o755), S(b'y', b'..')), S(b'z', b'a')], [F(b'b', 2), D(b'd', F(b'w', 9), D(b'e')), F(b'a', 3, m=0o700)]]



def wire(x):
    k = x['c']
    if k == 'dir':
        return ['dir', 'r%d' % (x['n'] - 1)]
    return [k] + [x[i] for i in 'hn' if i in x]


def masked(out, cmds, k):
    """the index of scan k; without digests if it is of blake3 (known finding K1: they depend on other files)"""
    h = [x['h'] for x in cmds[:[i for i, x in enumerate(cmds) if x['c'] == 'scan'][k]] if x['c'] == 'hash']
    return re.sub('[0-9a-f]{64}', 'd' * 64, out) if h and h[-1] == 'blake3/256' else out


def records(c, pool, seqs):
    qs = [{'op': 'settings', 'base': core.fresh('g'), 'roots': [['r%d' % i, trees.wire(t)] for i, t in enumerate(ROOTS)], 'cmds': [wire(x) for x in s]} for s in seqs]
    roots = {}
    for h in HTS:
        tab = trees.table(ROOTS, h, trees.BS, pool)
        if h == 'blake3/256':
            tab = {k: (['d' * 64] * len(v[0]),) + v[1:] for k, v in tab.items()}
        roots[h] = [trees.tla(t, tab) for t in ROOTS]
    recs = []
    for s, a in zip(seqs, pool.map(qs)):
        if 'skipped' in a:
            continue
        sc = [{'res': [str(x) for x in o['res'][:2]], 'out': masked(o['out'], s, k), 'threads': o['threads'], 'err': o['err'][:200]} for k, o in enumerate(a.get('scans', []))]
        recs.append({'id': len(recs), 'kind': 'calls', 'cmds': s, 'cpus': a.get('cpus', [1, 1 << 20]), 'roots': roots, 'scans': sc, '_raw': {'calls': [wire(x) for x in s], 'answer': core.short(a, 2500)}})
    c.count('calls', scans=sum(len(r['scans']) for r in recs))
    return recs


def work(c, pool, rng, cases):
    """files that cannot be finished: how many are in work"""
    qs = []
    metas = []
    cpus = pool.map([{'op': 'features'}])[0]['cpus']
    for th, q, n in cases:
        files = [b'f%03d' % i for i in range(n)]
        # what counts, among what does not, in any order
        calls = [{'c': 'auto'} if th == 'auto' else {'c': 'threads', 'n': th}] + ([] if q is None else [{'c': 'queue', 'n': q}])
        rng.shuffle(calls)
        for x in list(calls):
            for _ in range(rng.choice([0, 0, 1, 2])):
                y = {'c': 'queue', 'n': rng.choice([0, 1, 3, 100])} if x['c'] == 'queue' else rng.choice([{'c': 'auto'}, {'c': 'threads', 'n': rng.choice([0, 1, 2, 5])}])
                calls.insert(rng.randint(0, calls.index(x)), y)
        for x in [{'c': 'dir', 'n': 1}, {'c': 'hash', 'h': HTS[1]}]:
            calls.insert(rng.randint(0, len(calls)), x)
        metas.append((calls, n))
        least = cpus[0] if th == 'auto' else th
        busy = min(n, least if q is None else min(least, max(1, q)))
        qs.append({'op': 'pool', 'base': core.fresh('p'), 'roots': [['r0', trees.wire([F(f, 5) for f in files])]], 'run': {'log': True, 'calls': [wire(x) for x in calls]},
                   'gates': ['r0/' + f.decode() for f in files], 'steps': [{'lines': 1, 'open': None, 'opens': busy, 'idle_us': 1500}], 'timeout_ms': 12000})
    recs = []
    for (calls, n), a in zip(metas, pool.map(qs, 60)):
        if 'skipped' in a:
            continue
        opened = set()
        for e in a.get('events', []):
            if e[0] == 'gate':
                break
            if e[0] == 'open' and e[1] != 'r0':
                opened.add(e[1])
        recs.append({'id': len(recs) + (1 << 20), 'kind': 'work', 'cmds': calls, 'cpus': cpus, 'files': n, 'opened': len(opened),
                     'end': a['res'][0] if 'res' in a else 'hang', '_raw': {'calls': qs[len(recs)]['run']['calls'], 'files': n, 'answer': core.short(a, 1500)}})
    c.count('files in work', scans=len(recs))
    return recs


def p27(c):
    pool = core.Pool(core.build())
    core.log('built')
    rng = c.rng
    c.design('MCConfig', env={'DSV_LEN': 5 if c.thorough else 4})
    r = core.tlc('MCConfig', 'GenConfig', env={'DSV_LEN': 5 if c.thorough else 4}, workers=1, heap='8g')
    if len(r.prints) < 10000:
        raise core.ToolError('nothing generated')
    seqs = []
    for p in r.prints:
        s = p['cmds']
        if not any(x['c'] == 'dir' for x in s) and rng.random() < 0.95:
            continue
        if rng.random() < (0.1 if c.thorough else 0.2):
            seqs.append(s + [{'c': 'scan'}])
    # longer ones
    al = {str(x): x for p in r.prints[::37] for x in p['cmds']}
    al = [al[k] for k in sorted(al)] + [{'c': 'threads', 'n': 7}, {'c': 'threads', 'n': 2}, {'c': 'queue', 'n': 1}, {'c': 'scan'}, {'c': 'dir', 'n': 2}]
    for _ in range(4000 if c.thorough else 500):
        seqs.append([rng.choice(al) for _ in range(rng.randint(4, 15))] + [{'c': 'scan'}] * rng.choice([1, 1, 2, 3]))
    core.log('%d sequences' % len(seqs))
    recs = records(c, pool, seqs)
    cases = [(th, q, n) for th in (0, 1, 2, 3, 4, 8) + ((16, 33) if c.thorough else (16,)) for q in (None,) + tuple(sorted({0, 1, 2, max(0, th - 1), th, th + 1, 200})) for n in sorted({1, max(1, th - 1), max(1, th), th + 1, 3 * th + 2})]
    cases += [('auto', q, n) for q in (None, 0, 3, 200) for n in (2, 40)]
    recs += work(c, pool, rng, cases if c.thorough else rng.sample(cases, 90))
    core.log('performed')
    by = {x['id']: x for x in recs}
    for x in recs[:3] + recs[-2:]:
        c.sample(core.short(x['_raw'], 400))
    rng.shuffle(recs)
    for rep in c.judge('TraceConfig', scans.strip(recs), part='settings', shards=core.NPROC):
        c.violation('settings: ' + ','.join(sorted(rep['labels'])), {'labels': rep['labels'], 'run': by[rep['id']]['_raw']})
