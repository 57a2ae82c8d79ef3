"""Scanning scenarios: real scans under controlled conditions, recorded for TraceScan."""
import hashlib
from . import core, trees


def group(ht, variants, runs, bs=trees.BS, wrap=(), parallel=False):
    """One abstract tree. variants: realisations, each a list of root node lists (the first one is the
    tree given to the specification); runs: run settings, performed on every variant unless a run has
    'only': index, and at once if parallel is set; a run may have 'spell': how root i is called. wrap:
    names of directories around every tree. A tree that is the same object as an earlier one, or as the
    list of children of a directory of an earlier one, is that very directory added again."""
    return {'ht': ht, 'variants': variants, 'runs': runs, 'bs': bs, 'wrap': list(wrap), 'parallel': parallel}


def places(ov):
    """for each tree: (number of the root it lies in, path below that)"""
    seen, out = {}, []

    def note(nodes, i, path):
        seen.setdefault(id(nodes), (i, path))
        for n in nodes:
            if n['t'] == 'd' and n['n'].isascii():
                note(n['c'], i, path + '/' + n['n'].decode())
    for i, t in enumerate(ov):
        if id(t) not in seen:
            note(t, i, '')
        out.append(seen[id(t)])
    return out


def perform(groups, pool, check, timeout=90):
    """returns records for TraceScan"""
    rqs, back = [], []
    for gi, g in enumerate(groups):
        for vi, ov in enumerate(g['variants']):
            at = places(ov)
            runs = []
            for r in g['runs']:
                if r.get('only', vi) != vi:
                    continue
                r = dict(r)
                r.pop('only', None)
                r['hash'] = g['ht']
                sp = r.pop('spell', 'r%d')
                r['dirs'] = [[(sp % i if '%' in sp else sp) + path, r.get('prefix', '/')] for i, path in at]
                runs.append(r)
            rq = {'op': 'scan', 'base': core.fresh('t'), 'roots': [['r%d' % i, trees.wire(t)] for i, t in enumerate(ov) if at[i] == (i, '')],
                  'runs': runs, 'links': any(d[0].startswith('l') for r in runs for d in r['dirs'])}
            if g['wrap']:
                rq['wrap'] = [trees.l1(w) for w in g['wrap']]
            if g['parallel']:
                rq['parallel'] = True
            rqs.append(rq)
            back.append((gi, vi, runs))
    res = pool.map(rqs, timeout)
    per = [[] for _ in groups]
    for (gi, vi, runs), r in zip(back, res):
        if isinstance(r, dict):
            per[gi].append((vi, runs[0] if runs else {}, {'res': ['skipped'] if 'skipped' in r else ['hang' if 'hang' in r else 'died'], 'out': ''}))
            continue
        for run, o in zip(runs, r):
            per[gi].append((vi, run, o))
    return build(groups, per, pool, check)


def build(groups, per, pool, check):
    """per: for each group a list of (variant, run, outcome)"""
    recs = []
    for gi, g in enumerate(groups):
        outs = [x for x in per[gi] if x[2]['res'][0] != 'skipped']
        if not outs:
            continue
        distinct = {}
        for vi, run, o in outs:
            mode = 'pool' if (run.get('threads') or 0) not in (0, 1) and not run.get('nothreads') else 'sync'
            key = hashlib.sha256(('%s|%s' % (o['res'][:2], o['out'])).encode()).hexdigest()
            distinct.setdefault((key, mode), []).append((vi, run, o))
        ov = g['variants'][0]
        tab = trees.table(ov, g['ht'], g['bs'], pool)
        rr = []
        meta = []
        for (key, mode), xs in distinct.items():
            o = xs[0][2]
            lx = trees.lex(o['out'], g['ht'], pool)
            lx.update(res=[str(x) for x in o['res'][:2]], n=len(xs), key=key, mode=mode)
            rr.append(lx)
            meta.append({'runs': len(xs), 'first': xs[0][1], 'variant': xs[0][0], 'res': o['res'], 'out': o['out'][:3000], 'full': o['out']})
        recs.append({'id': gi, 'ht': g['ht'], 'bs': str(g['bs']), 'wrap': [list(w) for w in g['wrap']],
                     'ov': [trees.tla(t, tab) for t in ov], 'runs': rr, '_meta': meta,
                     '_tree': [trees.wire(t) for t in ov]})
        check.count('scans', scans=len(outs), trees=1, entries=sum(trees.count(t) for t in ov) * len(outs))
    return recs


def strip(recs):
    return [{k: v for k, v in r.items() if not k.startswith('_')} for r in recs]


def decide(check, recs, labels, part='scans'):
    """judge and turn the labels that belong to this property into verdicts"""
    by = {r['id']: r for r in recs}
    for i, r in enumerate(recs[:3]):
        check.sample({'tree': core.short(r['_tree'], 400), 'ht': r['ht'], 'runs': [m['first'] for m in r['_meta']][:2],
                      'index': r['_meta'][0]['out'][:400]})
    bad = 0
    for rep in check.judge('TraceScan', strip(recs), part=part):
        r = by[rep['id']]
        m = r['_meta'][rep['run'] - 1]
        ls = set(rep['labels'])
        if 'K1' in ls and 'K1' in labels:
            text = core.known_findings().get((check.prop, 'K1'))
            if text:
                check.known_finding('K1', text)
                ls.discard('K1')
        hit = ls & set(labels)
        if hit:
            bad += 1
            check.violation('scan: ' + ','.join(sorted(hit)), {'labels': sorted(ls), 'tree': r['_tree'], 'ht': r['ht'], 'run': {k: v for k, v in m.items() if k != 'full'}})
    return bad
