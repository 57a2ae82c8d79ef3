"""P19 (hashing and checking streams), P20 (the emitter), P21 (the stored hash): spec/TraceBlocks.tla,
spec/TraceEmit.tla and spec/TraceGetHash.tla judge recorded uses of the real code."""
import itertools
from . import core, trees, index
from .trees import HTS, l1


def start(c):
    pool = core.Pool(core.build())
    core.log('built')
    return pool


def known(c, labels, want):
    """takes out the label of a known finding if it is one of this property"""
    ls = set(labels)
    if 'K1' in ls:
        text = core.known_findings().get((c.prop, 'K1'))
        if text:
            c.known_finding('K1', text)
            ls.discard('K1')
    return ls & set(want)


def decide(c, module, recs, labels, part=None, what=''):
    by = {r['id']: r for r in recs}
    for r in recs[:2]:
        c.sample(r.get('_raw'))
    n = 0
    for rep in c.judge(module, [{k: v for k, v in r.items() if not k.startswith('_')} for r in recs], part=part):
        hit = known(c, rep['labels'], labels)
        if hit:
            n += 1
            c.violation('%s: %s' % (what or module, ','.join(sorted(hit))), {'labels': rep['labels'], 'run': by[rep['id']].get('_raw')})
    return n


# ---------------------------------------------------------------- P21

GH = ['crash', 'swallowed', 'refused', 'accepted', 'bytes', 'memory']


def decide_gethash(c, recs, labels=('crash', 'swallowed', 'refused', 'accepted', 'bytes'), part='stored hash'):
    return decide(c, 'TraceGetHash', recs, labels, part, 'get_hash')


def gh_record(i, q, a, limit=None):
    data = q['data']
    rd = q.get('reader', {})
    seen = data
    lx = index.lex(seen)
    res = a['res'] if 'res' in a else ['crash']
    r = {'id': i, 'lines': lx['lines'], 'part': lx['part'], 'fired': a.get('fired', False), 'res': [str(x) for x in res[:2]],
         '_raw': {'data': data[:2000], 'len': len(data), 'reader': rd, 'res': res}}
    if limit is not None:
        r['peak'] = min(a.get('peak', 0), index.CLAMP)
        r['limit'] = min(limit, index.CLAMP)
    return r


def run_gethash(c, pool, qs, **kw):
    recs = []
    for i, (q, a) in enumerate(zip(qs, pool.map(qs))):
        if 'skipped' not in a:
            recs.append(gh_record(i, q, a, **kw))
    return recs


def complete_indexes(rng, n):
    out = []
    for i in range(n):
        t = trees.rand_tree(rng, n=rng.choice([0, 1, 2, 6, 20]), special=0, sizes=trees.SMALL, ps=0.25)
        data, _b = index.index_of(t, rng, ht=HTS[i % 3])
        out.append(data)
    return out


def bad_footers(rng, data):
    """neighbours of an index: header and footer changed, cut, extended"""
    body, dg = data[:-66], data[-65:-1]
    head, rest = data.split('\n', 1)
    out = [data[:-1], data + '\n', data + ' ', data[:-1] + '\r\n', data[:-2] + '\n', data[1:], rest, '\n' + data,
           body + '\n' + dg[:-1] + '\n', body + '\n' + dg + '0\n', body + '\n' + dg[:-2] + '\n', body + '\n ' + dg[1:] + '\n',
           body + '\n' + dg[:63] + 'g\n', body + '\n' + 'g' + dg[1:] + '\n', body + '\n' + dg[:30] + ' ' + dg[31:] + '\n', body + '\n+' + dg[1:] + '\n',
           body + '\n' + dg[:31] + '+' + dg[32:] + '\n', body + '\n' + dg[:32] + '-' + dg[33:] + '\n', body + '\n0x' + dg[2:] + '\n',
           body + '\n' + dg.upper() + '\n', body + dg + '\n', body + ' ' + dg + '\n', body + '/' + dg + '\n', body + '0' + dg + '\n', body + '\r' + dg + '\n', body + '\0' + dg + '\n',
           body + '\n' + dg + '\n' + dg + '\n', body + '\n' + dg + dg + '\n', body + '\n\n' + dg + '\n', body + '\n\xff' + dg[1:] + '\n', dg + '\n', head + '\n', head + '\n' + dg + '\n',
           head + ' x\n' + rest, 'X' + data[1:], data.replace('v1', 'v2', 1), data.replace('block_size', 'blocksize', 1), data.replace('/256', '/512', 1), head.split(' ')[0] + '\n' + rest,
           ' '.join(head.split(' ')[:2]) + '\n' + rest, 'DIRSIGNATURE.v1 md5 block_size=1\n' + rest, data.replace(' ', '\t', 1), data.replace('\n', '\r\n', 1), data.replace('\n', '\r\n'),
           data.replace('\n', '', 1), head + '\n' + body[:-1] + dg + '\n', '']
    for _ in range(12):
        out.append(index.mutate(rng, data))
    for _ in range(6):
        i = rng.randrange(max(0, len(data) - 70), len(data))
        out.append(data[:i] + chr(rng.choice([0, 10, 32, 43, 47, 48, 58, 64, 71, 96, 102, 103, 128, 255])) + data[i + 1:])
    return out


def p21(c):
    pool = start(c)
    rng = c.rng
    c.design('MCGetHash', env={'DSV_DEEP': 1 if c.thorough else 0})
    k = 12 if c.thorough else 1
    qs = []

    def add(data, rd=None):
        qs.append({'op': 'gh', 'data': data, 'reader': rd if rd is not None else index.rand_reader(rng)})
    whole = complete_indexes(rng, 60 * k)
    for d in whole:
        add(d, {})
        for ch in (1, 31, 32, 64, 65, 66, 7):
            add(d, {'chunk': ch, 'intr': rng.choice([0, 0, 2, 3])})
        # a read or seek that fails
        for _ in range(6):
            add(d, dict(index.rand_reader(rng), fail=rng.choice([rng.randint(0, len(d) - 1), len(d) - rng.randint(1, 67), rng.randint(0, 40)]), once=rng.random() < 0.5))
        for x in (True, 1, 2, 3):
            add(d, dict(index.rand_reader(rng), seek_fail=x))
    # far from the start
    for n in (1500, 10000) if c.thorough else (900,):
        d = index.index_of([trees.F(b'f%d' % i, i % 2) for i in range(n)], rng, 'sha512/256', 4096)[0]
        for rd in ({}, {'chunk': 64}, {'chunk': 4096, 'intr': 2}, {'seek_fail': 2}, {'fail': len(d) - 1}):
            add(d, rd)
        add(d[:-1], {})
        add(d + 'x', {})
    for d in sorted(whole, key=len)[:25 * k]:
        if len(d) < 700:
            for i in range(len(d)):
                add(d[:i], {} if rng.random() < 0.7 else None)
        else:
            for i in set(list(range(len(d) - 140, len(d))) + list(range(0, 60)) + [rng.randrange(len(d)) for _ in range(60)] + [len(x) for x in itertools.accumulate(d.splitlines(True))][:-1]):
                add(d[:i])
    for d in whole[:50 * k]:
        for x in bad_footers(rng, d):
            add(x)
    from . import p_index
    for s in p_index.noise_sessions(rng, 300 * k) + p_index.spec_sessions(c, rng, 8 if not c.thorough else 2):
        add(s.data)
    decide_gethash(c, run_gethash(c, pool, qs))
    # scanned and emitted indexes hold the hash that is read
    from . import scans
    gs = [scans.group(HTS[i % 3], [[trees.rand_tree(rng, n=rng.choice([0, 3, 12]))]], [{}, {'threads': 3}]) for i in range(30 * k)]
    qs = []
    for r in scans.perform(gs, pool, c):
        for m in r['_meta']:
            if m['res'][0] == 'ok':
                qs.append({'op': 'gh', 'data': m['full'], 'reader': index.rand_reader(rng)})
    decide_gethash(c, run_gethash(c, pool, qs), part='hashes of scanned indexes')


# ---------------------------------------------------------------- P19

BSS = [1, 2, 3, 7, 63, 64, 65, 128, 1000, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65536, 100000, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


class Blk:
    """digest tables of contents, own and accumulating"""

    def __init__(self, pool):
        self.pool = pool
        self.memo = {}

    def own(self, ht, z, bs):
        return self.get(ht, z, bs)[0]

    def get(self, ht, z, bs):
        key = (ht, tuple(z) if isinstance(z, list) else z, bs)
        if key not in self.memo:
            if ht == 'blake3/256':
                n = len(z) if isinstance(z, str) else z[0]
                if isinstance(z, str):
                    segs = [[z[o:o + k]] for o, k in trees.blocks(n, bs)]
                else:
                    segs = [[z, o, k] for o, k in trees.blocks(n, bs)]
                a = self.pool.ask({'op': 'b3', 'segs': segs}, 120)
                self.memo[key] = (a['own'], a['cum'])
            elif isinstance(z, str):
                data = z.encode('latin-1')
                out = []
                for o, n in trees.blocks(len(data), bs):
                    h = trees.hasher(ht)
                    h.update(data[o:o + n])
                    out.append(h.hexdigest())
                self.memo[key] = (out, None)
            else:
                self.memo[key] = (trees.digests(ht, z, bs), None)
        return self.memo[key]


def length(z):
    return len(z) if isinstance(z, str) else z[0]


def wire_content(z):
    return {'data': z} if isinstance(z, str) else {'spec': z}


def sizes_for(bs, rng):
    xs = {0, 1}
    if bs < 200000:
        for m in (1, 2, 3, 5):
            xs |= {m * bs - 1, m * bs, m * bs + 1}
        xs.add(rng.randint(0, 40 * bs if bs < 5000 else 3 * bs))
    else:
        xs |= {2, 100, 32768, 70000, 200000}
    return sorted(x for x in xs if x >= 0)


def readers_for(bs, n, rng):
    """ways to split the reads; none of them slow"""
    out = [{}]
    for ch in (1, 2, 3, 7, bs - 1, bs, bs + 1, bs // 2, bs // 3, 4096, 8191):
        if ch > 0 and n // ch < 5000 and ch < 1 << 31:
            out.append({'chunk': ch})
    return [dict(r, intr=rng.choice([0, 0, 2, 3])) for r in rng.sample(out, min(len(out), 4))] + [{'intr': 2}]


def p19(c):
    pool = start(c)
    rng = c.rng
    c.design('MCBlocks', workers=8)
    tab = Blk(pool)
    k = 8 if c.thorough else 1
    qs, back = [], []
    # hashing: what is returned
    for rnd in range(2 * k):
        for bs in BSS:
            for n in sizes_for(bs, rng):
                if rnd and rng.random() < 0.6:
                    continue
                ht = HTS[rng.choice([0, 0, 1, 1, 2])]
                z = [n, rng.randrange(250), rng.choice([1, 17, 509, 4096])]
                for rd in readers_for(bs, n, rng)[:None if n < 20000 else 2]:
                    rd = dict(rd)
                    if rng.random() < 0.2:
                        rd['fail'] = rng.choice([0, n, rng.randint(0, n), min(n, bs), max(0, n - 1)])
                        rd['once'] = rng.random() < 0.3
                    qs.append(dict({'op': 'hf', 'hash': ht, 'bs': str(bs), 'reader': rd}, **wire_content(z)))
                    back.append((ht, bs, z))
    recs = []
    for (ht, bs, z), q, a in zip(back, qs, pool.map(qs)):
        if 'skipped' in a:
            continue
        own, cum = tab.get(ht, z, bs)
        recs.append({'id': len(recs), 'op': 'hf', 'ht': ht, 'bs': str(bs), 'len': str(length(z)), 'h': own, 'd': cum if cum is not None else own,
                     'fired': a.get('fired', False), 'res': a['res'] if 'res' in a else ['crash'], '_raw': {'request': q, 'answer': core.short(a, 600)}})
    decide(c, 'TraceBlocks', recs, ['crash', 'swallowed', 'failed', 'size', 'K1', 'number', 'digests', 'access'], 'hashing', 'hashing')
    # checking: the verdict
    recs = []
    qs, back = [], []
    for rnd in range(k):
        for bs in BSS:
            for n in sizes_for(bs, rng):
                if n > 250000 or rng.random() < 0.3:
                    continue
                ht = HTS[rng.choice([0, 0, 1, 1, 2])]
                if n <= 6000 and rng.random() < 0.6:
                    z = ''.join(chr(rng.randrange(256)) for _ in range(n))
                else:
                    z = [n, rng.randrange(250), rng.choice([1, 17, 509])]
                withs = [z]
                if isinstance(z, str):
                    if n:
                        for i in {0, n - 1, rng.randrange(n), min(n - 1, bs), min(n - 1, bs - 1)}:
                            withs.append(z[:i] + chr(ord(z[i]) ^ (1 << rng.randrange(8))) + z[i + 1:])
                        withs += [z[:-1], z[1:], z[:rng.randrange(n)]]
                        if n > bs:
                            m = (n - 1) // bs * bs
                            withs += [z[:m], z[:bs], z[bs:], z[:bs] + z, z[m:] + z[:m], z[bs:2 * bs] + z[:bs] + z[2 * bs:]]
                    withs += [z + '\0', z + 'x', z + z[-1:], z + '\0' * min(bs, 3000), z + ''.join(chr(rng.randrange(256)) for _ in range(rng.choice([1, 2, min(bs, 3000)]))), '']
                else:
                    withs += [[n + 1, z[1], z[2]], [max(0, n - 1), z[1], z[2]], [n, z[1] + 1, z[2]], [n + bs if bs < 70000 else n + 5, z[1], z[2]], [0, 1, 1]]
                    if n > bs:
                        withs.append([(n - 1) // bs * bs, z[1], z[2]])
                ws = []
                for w in withs:
                    rd = rng.choice(readers_for(bs, length(w), rng))
                    rd = dict(rd)
                    if rng.random() < 0.25:
                        m = length(w)
                        rd['fail'] = rng.choice([m, m, rng.randint(0, m), min(m, bs), 0])
                        rd['once'] = rng.random() < 0.3
                    ws.append(dict({'reader': rd}, **wire_content(w)))
                qs.append({'op': 'cf', 'src': dict({'hash': ht, 'bs': str(bs)}, **wire_content(z)), 'with': ws})
                back.append((ht, bs, z, withs))
    for (ht, bs, z, withs), q, a in zip(back, qs, pool.map(qs)):
        if 'skipped' in a:
            continue
        if 'res' not in a:
            a = {'res': [{'res': ['crash'], 'fired': False}]}
        h0 = tab.own(ht, z, bs)
        for w, wq, x in zip(withs, q['with'], a['res']):
            recs.append({'id': len(recs), 'op': 'cf', 'ht': ht, 'bs': str(bs), 'len0': str(length(z)), 'h0': h0, 'len': str(length(w)), 'h': tab.own(ht, w, bs),
                         'fired': x['fired'], 'res': x['res'], '_raw': {'src': core.short(q['src'], 300), 'with': core.short(wq, 300), 'answer': x}})
    decide(c, 'TraceBlocks', recs, ['crash', 'swallowed', 'failed', 'verdict'], 'checking', 'checking')


# ---------------------------------------------------------------- P20

def commands_of(nodes, rng):
    """commands that write an index of a tree"""
    out = []

    def walk(path, ns):
        out.append(['d', path])
        for n in sorted([n for n in ns if n['t'] in 'fs'], key=lambda n: n['n']):
            out.append(['l', n['n'], n['l']] if n['t'] == 's' else ['f', n['n'], rng.random() < 0.5, n['z']])
        for n in sorted([n for n in ns if n['t'] == 'd'], key=lambda n: n['n']):
            walk(path + [n['n']], n['c'])
    walk([], nodes)
    return out


def with_footer(data, ht, pool):
    """the same index with the digest of its lines"""
    lines = data.split('\n')
    body = lines[1:-2]
    dg = trees.digest(ht, ''.join(x + '\n' for x in body).encode('latin-1'), pool)
    return '\n'.join([lines[0]] + body + [dg, ''])


def p20(c):
    pool = start(c)
    rng = c.rng
    from . import scans
    from .index import Session
    c.design('MCEmit', env={'DSV_LEN': 4 if c.thorough else 3})
    tab = Blk(pool)
    k = 12 if c.thorough else 1
    qs, back = [], []
    LONG = 2
    for i in range(500 * k + LONG):
        ht = HTS[i % 3]
        bs = rng.choice([1, 2, 7, 100, 4096, 32768, 32769, 1 << 32, 1 << 40, (1 << 63), (1 << 64) - 1])
        small = bs < 100
        if i >= 500 * k:
            # many entries; many blocks
            ht, bs, ordered = HTS[i % 2], 100, True
            n = 8000 if c.thorough else 2000
            cmds = commands_of([trees.F(b'f%d' % j, j % 2, j % 250) for j in range(n)] if i % 2 else [trees.F(b'a', 100 * n + 1), trees.F(b'b', 1)], rng)
        elif i % 3:
            t = trees.rand_tree(rng, n=rng.choice([0, 1, 4, 15]), special=0, ps=0.3, sizes=[0, 1, bs, 2 * bs + 1, bs - 1] if small else trees.SMALL + [40000])
            cmds = commands_of(t, rng)
            ordered = True
        else:
            # any sequence: the emitter does not validate
            ordered = False
            cmds = []
            for _ in range(rng.randint(0, 12)):
                r = rng.random()
                if r < 0.35:
                    cmds.append(['d', [trees.rand_name(rng) for _ in range(rng.randint(0, 4))]])
                elif r < 0.75:
                    cmds.append(['f', trees.rand_name(rng), rng.random() < 0.5, [rng.choice([0, 1, bs, 3 * bs] if small else trees.SMALL), rng.randrange(250), 17]])
                else:
                    cmds.append(['l', trees.rand_name(rng), rng.choice(trees.TARGETS + [trees.rand_name(rng)])])
        w, cs = [], []
        for x in cmds:
            if x[0] == 'd':
                w.append(['d', '/' + '/'.join(l1(p) for p in x[1])])
                cs.append({'c': 'd', 'p': [list(p) for p in x[1]]})
            elif x[0] == 'l':
                w.append(['l', l1(x[1]), l1(x[2])])
                cs.append({'c': 'l', 'n': list(x[1]), 'l': list(x[2])})
            else:
                w.append(['f', l1(x[1]), x[2], 0, {'spec': x[3]}])
                own, cum = tab.get(ht, x[3], bs)
                # whether the digests are right is decided under P19; here they only pass through
                cs.append({'c': 'f', 'n': list(x[1]), 'x': x[2], 'sz': str(x[3][0]), 'h': cum if cum is not None else own})
                if own and (rng.random() < 0.3 if bs > 1 << 30 or not ordered else False):
                    # any size that takes as many blocks (any at all, if the emitter need not make sense)
                    w[-1][3] = cs[-1]['sz'] = str(index.large_size(rng, bs, (len(own),)) if ordered else rng.choice([0, 1, 99, 1 << 53, (1 << 53) + 1, 1 << 63, (1 << 64) - 1, rng.randrange(1 << 64)]))
        q = {'op': 'emit', 'hash': ht, 'bs': str(bs), 'cmds': w}
        if rng.random() < 0.5:
            # outputs that take their time
            q['sink'] = {'acc': rng.choice([[1], [2], [3, -1], [7], [-1, 5], [64], [65, 1], [rng.randint(1, 90), rng.choice([-1, 1, 4]), rng.randint(1, 40)]])}
        qs.append(q)
        back.append((ht, bs, cs, ordered))
    recs, outs, ghs = [], [], []
    for (ht, bs, cs, ordered), q, a in zip(back, qs, pool.map(qs)):
        if 'skipped' in a:
            continue
        if 'res' not in a:
            a = {'res': ['crash'], 'out': '', 'log': []}
        # what hashing returned is what was handed to the emitter
        fs = [x for x in cs if x['c'] == 'f']
        for x, g in zip(fs, a.get('log', [])):
            x['sz'], x['h'] = g
        rec = {'id': len(recs), 'kind': 'cmds', 'ht': ht, 'bs': str(bs), 'cmds': cs, 'res': [str(x) for x in a['res']]}
        rec.update(trees.lex(a['out'], ht, pool))
        rec['_raw'] = {'request': core.short(q, 1500), 'result': a['res'], 'out': a['out'][:2000]}
        recs.append(rec)
        if a['res'][0] == 'ok' and ordered:
            outs.append((ht, a['out'], cs))
    decide(c, 'TraceEmit', recs, ['crash', 'failed', 'header', 'rows', 'footer', 'end'], 'emitting', 'emitter')
    # what well-ordered commands wrote parses back and has a readable hash
    ss = [Session(o, index.rand_reader(rng) if rng.random() < 0.3 else {}, 'all', tag='emitted') for _, o, _ in outs]
    index.decide(c, index.run_sessions(pool, ss), ['accept', 'reject', 'line', 'value', 'end', 'after', 'open', 'crash'], part='parsing what was emitted')
    decide_gethash(c, run_gethash(c, pool, [{'op': 'gh', 'data': o, 'reader': index.rand_reader(rng)} for _, o, _ in outs]), part='hashes of what was emitted')
    # indexes emitted again: scanned ones, and those made by hand
    idx = []
    gs = [scans.group(HTS[i % 3], [[trees.rand_tree(rng, n=rng.choice([1, 4, 15, 40]), sizes=trees.SMALL if i % 4 else trees.SIZES)]], [{}, {'threads': 3}]) for i in range(120 * k)]
    from . import p_scan
    gs += [scans.group(h, [[p_scan.LINKY]], [{}]) for h in HTS]
    for r in scans.perform(gs, pool, c):
        for m in r['_meta']:
            if m['res'][0] == 'ok':
                idx.append(m['full'])
    for i in range(300 * k):
        ht = HTS[i % 3]
        t = trees.rand_tree(rng, n=rng.choice([0, 2, 6, 20]), special=0, sizes=trees.SMALL, ps=0.25)
        data, _b = index.index_of(t, rng, ht=ht)
        idx.append(with_footer(data, ht, pool))
    # files of very many blocks, very many entries
    for n in (70000, 140000) if not c.thorough else (70000, 300000, 1100000):
        some = [index.digest_text(rng) for _ in range(97)]
        idx.append(with_footer('DIRSIGNATURE.v1 %s block_size=%d\n/\n  a x %d %s\n  b f 1 %s\n%s\n' % (HTS[n % 3], n % 7 + 1, n * (n % 7 + 1), ' '.join(some[i % 97] for i in range(n)), some[0], some[1]), HTS[n % 3], pool))
        idx.append(with_footer('DIRSIGNATURE.v1 %s block_size=1\n/\n%s%s\n' % (HTS[n % 3], ''.join('/%06d\n' % i if i % 3 else '/%06d\n  l s %d\n' % (i, i) for i in range(n)), some[0]), HTS[n % 3], pool))
    recs = []
    for d, a in zip(idx, pool.map([dict({'op': 'emit', 'idx': d}, **({'sink': {'acc': rng.choice([[1], [5, -1], [33]])}} if rng.random() < 0.3 else {})) for d in idx])):
        if 'skipped' not in a:
            recs.append({'id': len(recs), 'kind': 're', 'idx': d, 'out': a.get('out', ''), 'res': [str(x) for x in a.get('res', ['crash'])],
                         '_raw': {'index': d[:2000], 'result': a.get('res'), 'out': a.get('out', '')[:2000]}})
    decide(c, 'TraceEmit', recs, ['crash', 'failed', 'reproduce'], 'emitting again', 'emitter')
