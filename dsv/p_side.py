"""P28: uses of the library side by side in one process, each compared with the same use alone in another
process, by spec/TraceTogether.tla."""
import json
from . import core, trees, scans, index, p_index, p_merge, p_blocks, p_fault
from .trees import D, F, S, HTS, l1


OPEN, READ = 1, 2


def files_of(t, pre=''):
    """their paths, as the harness names them"""
    return [pre + l1(x['n']) for x in t if x['t'] == 'f'] + [p for x in t if x['t'] == 'd' for p in files_of(x['c'], pre + l1(x['n']) + '/')]


def dirs_of(t, pre=''):
    return [p for x in t if x['t'] == 'd' for p in [pre + l1(x['n'])] + dirs_of(x['c'], pre + l1(x['n']) + '/')]


def threaded(rng, bad):
    """a threaded scan, of a tree with something that cannot be read if bad"""
    t = trees.rand_tree(rng, n=rng.choice([8, 25, 60]), sizes=trees.SMALL)
    j = {'op': 'scan', 'roots': [['r0', trees.wire(t)]], 'run': {'hash': rng.choice(HTS), 'dirs': [['r0', '/']], 'threads': rng.choice([2, 3, 5])}, 'rel': rng.random() < 0.5}
    if rng.random() < 0.5:
        j['run']['queue'] = rng.choice([0, 1, 4, 100])
    at = [[op, 'r0/' + p] for p in files_of(t) for op in (OPEN, READ)]
    if bad and at:
        j['faults'] = [rng.choice(at) + [0, 5]]
    return j


def job(rng):
    j = kind_of_job(rng)
    if 'reader' in j and rng.random() < 0.12:
        # what reads gives up in the middle
        j['reader'] = dict(j['reader'], fail=rng.choice([0, 3, 40, 60, 100, 200]), panic=True)
    return j


def kind_of_job(rng):
    """a request of some kind, as small as may be"""
    r = rng.random()
    if r < 0.4:
        t = trees.rand_tree(rng, n=rng.choice([2, 8, 25]), sizes=trees.SIZES if rng.random() < 0.4 else trees.SMALL)
        run = {'hash': rng.choice(HTS), 'dirs': [['r0', '/']] * rng.choice([1, 1, 2])}
        if rng.random() < 0.4:
            run['threads'] = rng.choice([2, 3, 4])
            if rng.random() < 0.5:
                run['queue'] = rng.choice([0, 1, 4])
        if rng.random() < 0.15:
            run['progress'] = True
        if rng.random() < 0.2:
            run['dirs'] = run['dirs'] + [['missing', '/']]
        elif rng.random() < 0.2:
            # ends half-way
            run['sink'] = {'cut': rng.randint(0, 400), 'how': rng.choice(['err', 'panic'])}
        elif rng.random() < 0.2:
            run['sink'] = {'acc': rng.choice([[1], [7, -1], [64]])}
        j = {'op': 'scan', 'roots': [['r0', trees.wire(t)]], 'run': run, 'rel': rng.random() < 0.5}
        if rng.random() < 0.25:
            # a file or directory that cannot be read
            at = [[OPEN if rng.random() < 0.5 else READ, 'r0/' + p] for p in files_of(t)] + [[OPEN, 'r0/' + p] for p in dirs_of(t)]
            if at:
                j['faults'] = [rng.choice(at) + [0, 5]]
        return j
    if r < 0.6:
        return rng.choice([lambda: p_index.seek_sessions(rng, 1)[0], lambda: p_index.mutated_sessions(None, rng, 1)[0],
                           lambda: index.Session(p_index.good_index(rng)[0], index.rand_reader(rng), 'all')])().request()
    if r < 0.72:
        return p_merge.sessions(rng, 1, broken=0.3, ks=(1, 2, 3), files=0.0)[0].request()
    if r < 0.8:
        d = p_index.good_index(rng)[0]
        return {'op': 'gh', 'data': d if rng.random() < 0.7 else index.mutate(rng, d), 'reader': index.rand_reader(rng)}
    bs = rng.choice([1, 7, 100, 4096, 32768])
    z = [rng.choice([0, 1, bs - 1, bs, 3 * bs + 1]), rng.randrange(250), 17]
    if r < 0.86:
        return {'op': 'hf', 'hash': rng.choice(HTS), 'bs': str(bs), 'reader': index.rand_reader(rng), 'spec': z}
    if r < 0.92:
        return {'op': 'cf', 'src': {'hash': rng.choice(HTS), 'bs': str(bs), 'spec': z}, 'with': [{'reader': index.rand_reader(rng), 'spec': w} for w in (z, [z[0] + 1] + z[1:])]}
    t = trees.rand_tree(rng, n=6, special=0, sizes=trees.SMALL)
    w = []
    for x in p_blocks.commands_of(t, rng):
        w.append(['d', '/' + '/'.join(l1(p) for p in x[1])] if x[0] == 'd' else ['l', l1(x[1]), l1(x[2])] if x[0] == 'l' else ['f', l1(x[1]), x[2], 0, {'spec': x[3]}])
    return {'op': 'emit', 'hash': rng.choice(HTS), 'bs': '4096', 'cmds': w}


def answer(j, a):
    """what counts of an answer"""
    if a is None or a == 'panic' or (isinstance(a, dict) and 'panic' in a) or (isinstance(a, dict) and isinstance(a.get('res'), list) and a['res'][:1] == ['panic']):
        return 'crash'
    if j['op'] == 'scan':
        # how much is written before something fails is not fixed when there are threads
        a = [a['res'][:2], a['out'] if a['res'][0] == 'ok' or not j['run'].get('threads') else '']
        if j.get('faults') and j['run'].get('threads'):
            a = a[0][:1]
    return json.dumps(a, sort_keys=True)


def p28(c):
    pool = core.Pool(core.build())
    core.log('built')
    rng = c.rng
    c.design('MCTogether')
    n = 5000 if c.thorough else 500
    mixes = []
    for i in range(n):
        k = rng.choice([2, 4, 6, 9])
        kind = rng.random()
        if kind < 0.25:
            # the same use many times
            mixes.append([job(rng)] * k)
        elif kind < 0.4:
            # some fail, the others have nothing to do with it
            mixes.append([threaded(rng, x % 2 == 0) for x in range(k)])
        elif kind < 0.6:
            js = [job(rng) for _ in range(2)]
            mixes.append([js[x % 2] for x in range(k)])
        else:
            mixes.append([job(rng) for _ in range(k)])
    # each different use alone, first
    once = {}
    for m in mixes:
        for j in m:
            once[id(j)] = j
    keys = list(once)
    alone = {}
    one = lambda js, ms: {'op': 'together', 'base': core.fresh('s'), 'jobs': js, 'ms': ms}
    lone = core.Pool(core.build())
    for k, a in zip(keys, lone.map([one([once[k]], 0) for k in keys])):
        if 'skipped' in a:
            alone[k] = None
        else:
            alone[k] = answer(once[k], a['got'][0][0][0]) if 'got' in a else 'crash'
    core.log('%d uses alone' % len(keys))
    recs = []
    for m, a in zip(mixes, pool.map([dict(one(m, 25), **({'delay': i + 1} if i % 4 == 0 else {}), **({'nest': True} if i % 5 < 2 else {})) for i, m in enumerate(mixes)])):
        if 'skipped' in a or any(alone[id(j)] is None for j in m):
            continue
        got = a.get('got', [[[None, 1]]] * len(m))
        uses = []
        for j, xs in zip(m, got):
            uses.append({'alone': alone[id(j)], 'got': sorted({answer(j, x[0]) for x in xs})})
        recs.append({'id': len(recs), 'uses': uses, 'before': a.get('before', ''), 'after': a.get('after', ''), 'now': a.get('now', ''), 'seen': a.get('seen', []),
                     '_raw': {'jobs': [core.short(j, 1200) for j in m], 'alone': [core.short(u['alone'], 800) for u in uses],
                              'got': [[core.short(x, 800) for x in u['got'] if x != u['alone']][:2] for u in uses], 'process': core.short([a.get('now'), a.get('seen'), a.get('before') == a.get('after')], 1500)}})
        c.count('side by side', uses=sum(x[1] for xs in got for x in xs))
    core.log('performed')
    by = {r['id']: r for r in recs}
    for r in recs[:3]:
        c.sample({'jobs': core.short(r['_raw']['jobs'], 600)})
    for rep in c.judge('TraceTogether', scans.strip(recs), part='side by side'):
        c.violation('side by side: ' + ','.join(sorted(rep['labels'])), {'labels': rep['labels'], 'run': by[rep['id']]['_raw']})
    # threaded and plain scans of the same tree at once, judged against the tree
    gs = []
    for i in range(200 if c.thorough else 30):
        t = trees.rand_tree(rng, n=rng.choice([5, 20, 60]), sizes=trees.SMALL)
        gs.append(scans.group(HTS[i % 2], [[t]], [{}, {'threads': 2}, {'threads': 3, 'queue': 0}, {'threads': 5, 'queue': 1, 'progress': True}] * 3, parallel=True))
    scans.decide(c, scans.perform(gs, pool, c), ['repro', 'records', 'result', 'other', 'footer', 'header'], part='scans at once')
