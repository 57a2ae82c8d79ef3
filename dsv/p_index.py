"""P10-P15: reading an index. spec/TraceReader.tla (against spec/Reader.tla and spec/Grammar.tla) judges
recorded sessions with the real parser; spec/TraceRound.tla judges what is parsed from scanned trees
against the trees; spec/TraceOrder.tla judges comparisons."""
import hashlib, itertools
from . import core, trees, scans, index, p_blocks
from .trees import D, F, S, HTS, l1
from .index import Session

READ = ['value', 'accept', 'reject', 'line', 'end', 'after', 'open', 'crash', 'outside']


def start(c):
    pool = core.Pool(core.build())
    core.log('built')
    return pool


def parse_back(c, pool, recs, labels, rng, part):
    """what the parser makes of scanned indexes, judged by the grammar"""
    ss = []
    for r in recs:
        for m in r['_meta'][:None if c.thorough else 1]:
            if m['res'][0] == 'ok':
                ss.append(Session(m['full'], index.rand_reader(rng) if rng.random() < 0.5 else {}, 'all'))
    return index.decide(c, index.run_sessions(pool, ss), labels, part=part, shards=core.NPROC)


# ---------------------------------------------------------------- P10

def round_trips(c, pool, gs, rng, part='round trips'):
    """scans, parses, checks; judged against the trees"""
    recs = scans.perform(gs, pool, c, timeout=120)
    jobs = []
    for g, r in zip([gs[x['id']] for x in recs], recs):
        for x, m in zip(r['runs'], r['_meta']):
            if m['res'][0] != 'ok':
                # whether that is right is decided elsewhere (P01); here nothing can be parsed
                jobs.append((g, r, x, m, None))
                continue
            jobs.append((g, r, x, m, Session(m['full'], index.rand_reader(rng) if rng.random() < 0.6 else {}, 'all')))
    ss = [j[4] for j in jobs if j[4]]
    rs = iter(pool.map([s.request() for s in ss], 60))
    cq, out = [], []
    for k, (g, r, x, m, s) in enumerate(jobs):
        if s is None:
            continue
        o = next(rs)
        if 'skipped' in o:
            continue
        if 'open' not in o:
            o = {'open': ['died'], 'res': []}
        files = [src for _, src in trees.sorted_files(g['variants'][0])]
        rec = {'id': k, 'ht': r['ht'], 'bs': r['bs'], 'ov': r['ov'], 'mode': x['mode'], 'open': index.open_obs(o['open']) if o['open'] else ['crash'],
               'res': [index.obs(v) for v in o['res']], 'checks': [],
               '_raw': {'tree': r['_tree'], 'run': m['first'], 'index': m['out'], 'reader': s.reader, 'open': o['open'], 'res': o['res'][:50]}}
        out.append(rec)
        for n, src in enumerate(files):
            q = {'op': 'cf', 'src': {'idx': m['full'], 'n': n}, 'with': [{'spec': src['z'], 'reader': index.rand_reader(rng)}]}
            if src['z'][0] < 1 << 22:
                cq.append((rec, n, q))
            else:
                rec['checks'].append('true')
    for (rec, n, q), a in zip(cq, pool.map([q for _, _, q in cq])):
        if 'skipped' in a:
            v = 'true'
        elif 'res' in a and a['res'][0]['res'][0] == 'ok':
            v = 'true' if a['res'][0]['res'][1] else 'false'
        else:
            v = 'error'
            rec['_raw']['check'] = [n, a]
        rec['checks'].append(v)
    c.count(part, checks=len(cq))
    return out


def p10(c):
    pool = start(c)
    rng = c.rng
    c.design('MCReader', env={'DSV_DEEP': 0})
    from . import p_scan
    gs = []
    modes = [{}, {'threads': 3}]
    ovs = [o for o in p_scan.small_overlays(c)]
    for i, ov in enumerate(ovs):
        if i % (2 if c.thorough else 9) == 0 and ov:
            gs.append(scans.group(HTS[i % 2], [[trees.from_spec(t, rng) for t in ov]], modes))
    n = 1200 if c.thorough else 200
    for i in range(n):
        t = trees.rand_tree(rng, n=rng.choice([3, 10, 25]), sizes=trees.SMALL if i % 3 else trees.SIZES, special=0.05)
        gs.append(scans.group(HTS[i % 3] if i % 4 == 0 else HTS[i % 2], [[t]], modes))
    gs.append(scans.group('sha512/256', [[p_scan.LINKY]], modes))
    gs.append(scans.group('sha512/256', [[p_scan.SPECIALS]], modes))
    gs.append(scans.group('sha512/256', [[[F(b'f%d' % i, s, i) for i, s in enumerate(trees.SIZES + [524288, 524289, 1000000])]]], modes))
    gs.append(scans.group('blake2b/256', [[[{'n': b'big', 't': 'f', 'z': [(1 << 31) + 5, 0, 1], 'm': 0o755, 'sparse': True}]]], [{}]))
    gs.append(scans.group('blake3/256', [[[F(b'a', 40000), F(b'b', 100000), D(b'c', F(b'd', 32768), F(b'e', 0), F(b'f', 1))]]], modes))
    # many entries, many blocks
    n = 12000 if c.thorough else 2500
    gs.insert(0, scans.group('blake2b/256', [[[F(b'f%d' % i, i % 3, i % 250) if i % 4 else S(b'f%d' % i, b't%d' % i) if i % 8 else D(b'f%d' % i, F(b'x', 1)) for i in range(n)]]], modes))
    gs.insert(0, scans.group('sha512/256', [[[F(b'a', 1), F(b'b', 32768 * (12000 if c.thorough else 1500) + 1, 7), F(b'c', 1)]]], modes))
    recs = round_trips(c, pool, gs, rng)
    p_blocks.decide(c, 'TraceRound', recs, ['crash', 'header', 'missing', 'value', 'end', 'check', 'K1'], 'round trips', 'round trip')


# ---------------------------------------------------------------- inputs

def spec_inputs(c, thorough):
    r = core.tlc('MCReader', 'GenReader', env={'DSV_DEEP': 1 if thorough else 0}, workers=1, heap='6g')
    if not r.ok or len(r.prints) < 1000:
        raise core.ToolError('no inputs generated')
    return r.prints


def spec_sessions(c, rng, every=1):
    ss = []
    for i, p in enumerate(spec_inputs(c, c.thorough)):
        if every > 1 and rng.randrange(every):
            continue
        lines = [x if x != [] else [''] for x in p['lines']]
        data = index.join(lines, p['part'])
        rd = index.rand_reader(rng) if rng.random() < 0.3 else {}
        if p['fail']:
            rd['fail'] = len(data)
        ss.append(Session(data, rd, 'all', tag='spec'))
    return ss


def good_index(rng, n=None, **kw):
    t = trees.rand_tree(rng, n=n or rng.choice([2, 6, 14]), special=0, sizes=trees.SMALL, ps=0.25)
    if rng.random() < 0.25:
        lengthen(t, b'n' * rng.choice([20, 45, 60, 61, 62, 63, 64, 65, 66, 120, 190, 230]))
    return index.index_of(t, rng, **kw)


def lengthen(t, by):
    for n in t:
        n['n'] = (n['n'] + by)[:255] if len(n['n']) < 20 else n['n']
        lengthen(n.get('c', []), by)


PIECES = ['\\x41', '\\x', '\\x4', '\\', '\\x4g', 'a', '\\x5c', '\\X41', '\\xff', 'x4', '\\xFf', '4']


def escape_sessions(rng, most=3):
    """all there is of escapes, whole and not, in names of all kinds and in targets"""
    toks = [''.join(x) for n in range(1, most + 1) for x in itertools.product(PIECES, repeat=n)]
    rng.shuffle(toks)
    ss = []
    for i in range(0, len(toks), 150):
        lines = ['/']
        for j, t in enumerate(toks[i:i + 150]):
            lines.append(['  %s f 0', '  %s s x', '  l s %s', '/%s', '/a/%s', '  %s x 0'][rng.randrange(6)] % t)
        ss.append(Session('\n'.join([index.header('sha512/256', 1)] + lines + [index.digest_text(rng)]) + '\n', index.rand_reader(rng), 'all', tag='escapes'))
    return ss


def mutated_sessions(c, rng, n, fail=0.1):
    ss = []
    for _ in range(n):
        data, _b = good_index(rng)
        for _ in range(rng.choice([1, 1, 2])):
            data = index.mutate(rng, data)
        ss.append(Session(data, index.rand_reader(rng, len(data), fail), 'all', tag='mutated'))
    return ss


def noise_sessions(rng, n):
    ss = []
    for _ in range(n):
        k = rng.random()
        if k < 0.4:
            data = ''.join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 200)))
        elif k < 0.8:
            data = index.header(rng.choice(HTS), rng.choice([0, 1, 7, 32768, (1 << 64) - 1, 1 << 64])) + '\n'
            data += ''.join(rng.choice(['/', ' ', '  ', '\n', 'a', '..', '.', '\\x', '\\x2f', '0', '64', ' f ', ' s ', ' x ', index.digest_text(rng), '\xff', '\0', '\r', '/a\n', '  a f 0\n'])
                            for _ in range(rng.randint(0, 60)))
        else:
            data = ' '.join(rng.choice(['DIRSIGNATURE.v1', 'DIRSIGNATURE.v2', 'DIRSIGNATURE', 'sha512/256', 'blake2b/256', 'blake3/256', 'block_size=0', 'block_size=1', 'block_size=',
                                        'block_size', 'a', '', '=', 'block_size=18446744073709551616', '\xff', '\t']) for _ in range(rng.randint(0, 6))) + rng.choice(['\n', '', '\r\n'])
        ss.append(Session(data, index.rand_reader(rng, len(data), 0.1), 'all', tag='noise'))
    return ss


def cut_sessions(rng, n, ext=True):
    """every proper prefix of indexes, extended ones"""
    ss = []
    for _ in range(n):
        data, _b = good_index(rng, n=rng.choice([1, 3, 6]))
        step = 1 if len(data) < 700 else rng.randint(2, 5)
        for i in range(0, len(data), step):
            ss.append(Session(data[:i], {}, 'all', tag='cut'))
        for i in range(0, len(data) + 1, 17):
            ss.append(Session(data, {'fail': i, 'once': rng.random() < 0.5}, 'all', tag='cut by error'))
        for x in ('\n', ' ', 'x', '/\n', '  a f 0\n', data, data.split('\n')[-2] + '\n', '\0', '/zz'):
            ss.append(Session(data + x, index.rand_reader(rng), 'all', tag='extended'))
    return ss


def seek_sessions(rng, n, broken=0.5):
    """mixed calls on sound and broken indexes"""
    ss = []
    for _ in range(n):
        data, body = good_index(rng)
        keys = [{'o': 'a', 'k': k, 'p': [list(x) for x in p]} for k, p, _l in body]
        if rng.random() < broken:
            data = index.mutate(rng, data)
        ops = []
        for _ in range(rng.randint(1, 20)):
            r = rng.random()
            if r < 0.5:
                ops.append({'o': 'n'})
            elif r < 0.8 and keys:
                ops.append(rng.choice(keys))
            elif r < 0.95:
                ops.append(rand_key(rng, keys))
            else:
                ops.append({'o': 'r'})
        ops += [{'o': 'n'}] * rng.randint(0, 4)
        rd = index.rand_reader(rng, len(data), 0.05)
        if {'o': 'r'} in ops:
            # a failure that goes away is not the same input the second time
            rd.pop('once', None)
        ss.append(Session(data, rd, ops, tag='seeking'))
    return ss


def long_sessions(rng, thorough, seeks):
    """indexes of many lines: read from end to end, or with seeks that pass over many entries"""
    ss = []
    for n in ([8000, 20000] if thorough else [3000]):
        for flat in (True, False):
            if flat:
                t = [F(b'f%d' % i, 0) if i % 5 else S(b'f%d' % i, b't%d' % i) for i in range(n)]
            else:
                t = [D(b'd%d' % i, F(b'a', 0), S(b'b', b'..')) for i in range(n // 3)]
            data, body = index.index_of(t, rng, 'blake2b/256', 1 << 20)
            if not seeks:
                lines = data.split('\n')
                bad = rng.randrange(len(lines) // 2, len(lines) - 2)
                ss.append(Session('\n'.join(lines[:bad] + [rng.choice(index.NASTY)] + lines[bad:]), index.rand_reader(rng), 'all', tag='long'))
                continue
            keys = [{'o': 'a', 'k': k, 'p': [list(x) for x in p]} for k, p, _l in body]
            at = sorted(rng.sample(range(len(keys)), 12))
            ops = []
            for i in at:
                ops += [keys[i] if rng.random() < 0.8 else rand_key(rng, [keys[i]]), {'o': 'n'}]
                if rng.random() < 0.2:
                    # one that has been passed
                    ops.append(keys[rng.randrange(i + 1)])
            ss.append(Session(data, {}, ops, tag='long'))
            ss.append(Session(data, {}, [keys[-1], {'o': 'n'}, {'o': 'r'}, {'o': 'n'}, {'o': 'a', 'k': 'd', 'p': [[255]]}, {'o': 'n'}], tag='long'))
    if not seeks:
        # many digests
        for n in ([70000] if thorough else [5000]):
            for size in (n, n - 1, n + 1):
                ss.append(Session('\n'.join([index.header('blake2b/256', 1), '/', '  a f %d%s' % (size, ''.join(' ' + index.digest_text(rng) for _ in range(n))), '  b f 0', index.digest_text(rng)]) + '\n', {}, 'all', tag='long'))
        # line numbers of any length
        for n in ([300000] if thorough else [70000]):
            ss.append(Session('\n'.join([index.header('sha512/256', 1)] + ['x'] * n + ['/', '  a f 0', '  b', index.digest_text(rng)]) + '\n', {}, 'all', tag='long'))
    return ss


def rand_key(rng, keys):
    """an entry near those there are"""
    k = rng.choice(keys) if keys else {'k': 'd', 'p': []}
    p = [list(x) for x in k['p']]
    kind = k['k']
    r = rng.random()
    if r < 0.3:
        kind = 'f' if kind == 'd' else 'd'
    elif r < 0.5:
        p = p[:-1]
    elif r < 0.7:
        p = p + [list(trees.rand_name(rng))]
    elif p:
        x = p[-1]
        p[-1] = rng.choice([x + [33], x[:-1] or [97], x[:-1] + [min(255, x[-1] + 1)], x[:-1] + [max(1, x[-1] - 1)], list(trees.rand_name(rng))])
    p = [x for x in p if x not in ([46], [46, 46], []) and 47 not in x and 0 not in x]
    if kind == 'f' and not p:
        kind = 'd'
    return {'o': 'a', 'k': kind, 'p': p}


# ---------------------------------------------------------------- P11

def memory_cases(rng, thorough):
    """(data, longest line): inputs that declare much and are little"""
    ht = 'sha512/256'
    dg = '0' * 64
    big = '18446744073709551615'
    cases = []
    for bs in ('1', '2', '4096', big, '9223372036854775808'):
        for sz in (big, '18446744073709551614', '9223372036854775807', '4294967296', '1000000000000', '288230376151711743', '288230376151711744'):
            for nd in (0, 1, 2, 50):
                cases.append('DIRSIGNATURE.v1 %s block_size=%s\n/\n  a f %s%s\n%s\n' % (ht, bs, sz, (' ' + dg) * nd, dg))
    # many entries, each of them small: memory must not grow with their number
    many = 60000 if not thorough else 400000
    cases.append('DIRSIGNATURE.v1 %s block_size=1\n/\n' % ht + ''.join('  f%d f 1 %s\n' % (i, dg) for i in range(many // 2)) + dg + '\n')
    cases.append('DIRSIGNATURE.v1 %s block_size=1\n' % ht + ''.join('/d%d\n' % i for i in range(many)) + dg + '\n')
    cases.append('DIRSIGNATURE.v1 %s block_size=1\n' % ht + ''.join('x%d\n' % i for i in range(many)) + dg + '\n')
    cases.append('DIRSIGNATURE.v1 %s block_size=1\n' % ht + '\n' * many)
    # long lines
    for n in (1000, 100000, 3000000):
        cases += ['DIRSIGNATURE.v1 %s block_size=1\n/\n  %s f 0\n%s\n' % (ht, 'n' * n, dg), 'DIRSIGNATURE.v1 %s block_size=1\n/%s\n%s\n' % (ht, 'n/' * (n // 2), dg),
                  'x' * n, 'DIRSIGNATURE.v1 ' + ' ' * n + '\n', 'DIRSIGNATURE.v1 %s block_size=%s\n' % (ht, '9' * n), 'DIRSIGNATURE.v1 %s block_size=1\n/\n  a f %s\n' % (ht, '9' * n),
                  'DIRSIGNATURE.v1 %s block_size=1\n/\n  a f %d%s\n%s\n' % (ht, n // 65, (' ' + dg) * (n // 65), dg), 'DIRSIGNATURE.v1 %s block_size=1\n/\n  a s %s\n%s\n' % (ht, '\\x41' * (n // 4), dg),
                  'DIRSIGNATURE.v1 %s block_size=1\n/\n%s\n%s\n' % (ht, ' ' * n, dg), 'DIRSIGNATURE.v1 %s block_size=1\n/\n  %s\n%s\n' % (ht, 'a ' * (n // 2), dg)]
    return [(x, max(len(l) for l in x.split('\n'))) for x in cases]


def mem_limit(longest):
    return 64 * longest + 65536


def p11(c):
    pool = start(c)
    rng = c.rng
    c.design('MCReader', env={'DSV_DEEP': 1 if c.thorough else 0})
    k = 12 if c.thorough else 1
    ss = spec_sessions(c, rng, 1 if c.thorough else 6) + mutated_sessions(c, rng, 1000 * k, 0.3) + noise_sessions(rng, 700 * k) + seek_sessions(rng, 500 * k) + escape_sessions(rng)
    index.decide(c, index.run_sessions(pool, ss), ['crash', 'end', 'after'], part='readings', shards=core.NPROC)
    # memory, whatever is declared
    recs = []
    cases = memory_cases(rng, c.thorough)
    qs = [{'op': 'parse', 'data': d, 'reader': {'chunk': rng.choice([0, 100, 4096])}, 'ops': [['count']]} for d, _ in cases]
    qs += [{'op': 'parse', 'data': d, 'reader': {}, 'ops': [['a', 'f', '/zzz/zzz'], ['count']]} for d, _ in cases]
    for i, (q, (d, lg), r) in enumerate(zip(qs, cases + cases, pool.map(qs, 60))):
        if 'skipped' in r:
            continue
        dead = 'open' not in r or r['open'] is None or (r['res'] and r['res'][-1][0] in ('panic', 'endless'))
        # only what is needed for the verdicts here: crash and memory
        recs.append({'id': i, 'lines': [], 'part': False, 'fail': False, 'open': ['e', '1'] if not dead else ['crash'], 'ops': [], 'res': [],
                     'peak': 0 if dead else min(r['peak'], index.CLAMP), 'limit': mem_limit(lg),
                     '_raw': {'data': d[:300], 'len': len(d), 'longest': lg, 'reader': q['reader'], 'ops': q['ops'], 'res': core.short(r, 500)}})
    index.decide(c, recs, ['crash', 'memory'], part='memory')
    # reading the hash of anything
    qs = [{'op': 'gh', 'data': s.data, 'reader': index.rand_reader(rng, len(s.data), 0.3)} for s in ss[::2]] + [{'op': 'gh', 'data': d, 'reader': {}} for d, _ in cases]
    for q in qs:
        if rng.random() < 0.05:
            q['reader'] = dict(q['reader'], seek_fail=True)
    small = [dict(q, data=q['data']) for q in qs if len(q['data']) < 20000]
    p_blocks.decide_gethash(c, p_blocks.run_gethash(c, pool, small, limit=mem_limit(1000)), ['crash', 'memory'], part='hashes of anything')
    # merged with others
    from . import p_merge
    p_merge.anything(c, pool, rng, 150 * k)


# ---------------------------------------------------------------- P12, P13

def p12(c):
    pool = start(c)
    rng = c.rng
    c.design('MCReader', env={'DSV_DEEP': 1 if c.thorough else 0})
    c.design('MCNum')
    k = 12 if c.thorough else 1
    ss = spec_sessions(c, rng, 1 if c.thorough else 3) + mutated_sessions(c, rng, 1500 * k) + cut_sessions(rng, 5 * k) + noise_sessions(rng, 200 * k) + seek_sessions(rng, 300 * k, 0.8)
    ss = long_sessions(rng, c.thorough, False) + escape_sessions(rng) + ss
    index.decide(c, index.run_sessions(pool, ss), ['accept', 'reject', 'line', 'value', 'end', 'after', 'open', 'crash'], part='readings', shards=core.NPROC)


def evil_sessions(rng, n):
    """lines that try to leave the tree"""
    frag = ['..', '.', '/', '\\x2e', '\\x2f', '\\x2E', 'a', '\\x00', '', '\\x2e\\x2e', '...', '..a', '\\x5c', '\\x2f..', '../', '\xff', '\\xff', '\\x2', '\\', 'b']
    ss = []
    for i in range(n):
        lines = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            tok = ''.join(rng.choice(frag) for _ in range(rng.randint(0, 4)))
            if r < 0.35:
                lines.append('/' + tok + ''.join('/' + ''.join(rng.choice(frag) for _ in range(rng.randint(0, 2))) for _ in range(rng.randint(0, 2))))
            elif r < 0.6:
                lines.append('  %s %s 0' % (tok, rng.choice('fx')))
            elif r < 0.75:
                lines.append('  %s s %s' % (tok, ''.join(rng.choice(frag) for _ in range(rng.randint(1, 3))) or 'x'))
            elif r < 0.85:
                lines.append(rng.choice(['/', '/d', '  f f 0', '  l s ..']))
            else:
                lines.append(rng.choice(index.NASTY))
        data = '\n'.join([index.header(rng.choice(HTS), 32768)] + (['/'] if rng.random() < 0.6 else []) + lines + [index.digest_text(rng)]) + '\n'
        ss.append(Session(data, index.rand_reader(rng) if rng.random() < 0.2 else {}, 'all', tag='evil'))
    return ss


def p13(c):
    pool = start(c)
    rng = c.rng
    c.design('MCReader', env={'DSV_DEEP': 1 if c.thorough else 0})
    k = 12 if c.thorough else 1
    ss = spec_sessions(c, rng, 1 if c.thorough else 5) + evil_sessions(rng, 2500 * k) + mutated_sessions(c, rng, 600 * k) + escape_sessions(rng)
    index.decide(c, index.run_sessions(pool, ss), ['outside', 'accept', 'value', 'crash'], part='readings', shards=core.NPROC)


# ---------------------------------------------------------------- P14

# universes of keys: seven entries in index order, the first one a directory; each can be replaced
UNIVERSES = [
    # the root, its files, directories
    [('d', []), ('f', [b'a']), ('f', [b'b']), ('d', [b'a']), ('f', [b'a', b'a']), ('d', [b'a', b'b']), ('d', [b'b'])],
    [('d', []), ('d', [b'a']), ('d', [b'a', b'b']), ('d', [b'a', b'b', b'c']), ('d', [b'a', b'c']), ('d', [b'a!']), ('d', [b'b'])],
    [('d', [b'd']), ('f', [b'd', b'\\']), ('f', [b'd', b'\xff']), ('d', [b'd', b' ']), ('f', [b'd', b' ', b'x']), ('d', [b'd', b'~']), ('d', [b'd!'])],
    [('d', []), ('f', [b'b']), ('f', [b'z']), ('d', [b'a']), ('f', [b'a', b'z']), ('d', [b'a', b'a']), ('f', [b'a', b'a', b'a'])],
]


def item_lines(key, cd, rng, bad=False):
    """the line of an entry, and the directory line it needs first, if another directory is the current one"""
    k, p = key
    if k == 'd':
        return ['/' + '/'.join(index.esc(x) for x in p)], p
    r = rng.random()
    name = index.esc(p[-1])
    line = '  %s s x' % name if r < 0.3 else '  %s f 0' % name if r < 0.6 else '  %s x 3 %s' % (name, index.digest_text(rng))
    return [line], cd


def cursor_sessions(c, rng, prints, every):
    ss = []
    for i, p in enumerate(prints):
        if every > 1 and rng.randrange(every):
            continue
        u = UNIVERSES[rng.randrange(len(UNIVERSES))]
        lines = []
        cd = None
        ok = True
        for it in p['items']:
            if it < 0:
                lines.append(rng.choice(['bad', '  x', '/a b', '  y f', '']))
                continue
            k, pp = u[it]
            if k == 'f' and cd != pp[:-1]:
                # the directory is not among the items: not this universe
                ok = False
                break
            ls, cd = item_lines(u[it], cd, rng)
            lines += ls
        if not ok:
            u = UNIVERSES[1]
            lines = []
            for it in p['items']:
                lines += [rng.choice(['bad', '  x', '  y f', ''])] if it < 0 else item_lines(u[it], None, rng)[0]
        ops = [{'o': 'n'} if o[0] == 'n' else {'o': 'a', 'k': u[o[1]][0], 'p': [list(x) for x in u[o[1]][1]]} for o in p['ops']] + [{'o': 'n'}] * (len(p['items']) + 2)
        data = '\n'.join([index.header('sha512/256', 32768)] + lines + [index.digest_text(rng)]) + '\n'
        ss.append(Session(data, index.rand_reader(rng) if rng.random() < 0.1 else {}, ops, tag='cursor'))
    return ss


def p14(c):
    pool = start(c)
    rng = c.rng
    c.design('MCCursor', env={'DSV_OPS': 4})
    r = core.tlc('MCCursor', 'GenCursor', env={'DSV_OPS': 3 if c.thorough else 2}, workers=1, heap='6g')
    if len(r.prints) < 1000:
        raise core.ToolError('nothing generated')
    ss = cursor_sessions(c, rng, r.prints, 1)
    if not c.thorough:
        r3 = core.tlc('MCCursor', 'GenCursor', env={'DSV_OPS': 3}, workers=1, heap='6g')
        ss += cursor_sessions(c, rng, r3.prints, 8)
    ss += seek_sessions(rng, 12000 if c.thorough else 1200, 0.0)
    ss = long_sessions(rng, c.thorough, True) + ss
    index.decide(c, index.run_sessions(pool, ss), ['value', 'accept', 'reject', 'end', 'after', 'line', 'crash'], part='seeking', shards=core.NPROC)


# ---------------------------------------------------------------- P15

ORD = [b'a', b'a!', b'a ', b'a-b', b'a.b', b'ab', b'A', b'b', b'\xff', b'\x01', b'~', b'aa', b'a\xff', b'..a', b'.a', b'0', b'\x80', b'\\', b'a0', b'B', b'_', b'a\x01', b'...']


def kinds_of(t):
    """as an index lists them; only for the harness' input"""
    return [(k, p) for k, p, _l in index.body_of(t, __import__('random').Random(1), 1 << 40, digests=lambda r: '')]


def p15(c):
    pool = start(c)
    rng = c.rng
    c.design('MCOrder')
    recs, qs = [], []

    def add(ks, is_sorted=False):
        qs.append({'op': 'cmp', 'kinds': [[k, '/' + '/'.join(l1(x) for x in p)] for k, p in ks]})
        recs.append({'id': len(recs), 'kinds': [{'k': k, 'p': [list(x) for x in p]} for k, p in ks], 'sorted': is_sorted})
    # everything up to depth 3 over a few names
    names = [b'a', b'b', b'a!']
    small = [('d', [])] + [(k, list(p)) for d in (1, 2, 3) for p in itertools.product(names, repeat=d) for k in 'df']
    for i in range(0, 1 if not c.thorough else 3):
        rng.shuffle(small)
        add(small)
    # pairs of all bytes
    for b in range(0, 256, 25):
        xs = [bytes([x]) for x in range(b, min(b + 25, 256)) if x not in (0, 47, 46)]
        add([(k, [x]) for x in xs for k in 'df'])
    for i in range(1000 if c.thorough else 150):
        t = trees.rand_tree(rng, n=rng.choice([10, 25, 40]), names=ORD, pd=0.5, depth=6, special=0)
        add(kinds_of(t)[:60], True)
    for i in range(1000 if c.thorough else 150):
        ks = []
        base = [rng.choice(ORD) for _ in range(rng.randint(0, 4))]
        for _ in range(30):
            p = base[:rng.randint(0, len(base))] + [rng.choice(ORD) if rng.random() < 0.8 else trees.rand_name(rng) for _ in range(rng.randint(0, 3))]
            p = [x for x in p if trees.ok_name(x)]
            k = rng.choice('df') if p else 'd'
            ks.append((k, p))
        add(ks)
    for r, q, a in zip(recs, qs, pool.map(qs)):
        r['m'] = a.get('m', []) if isinstance(a, dict) else []
        r['_raw'] = {'kinds': q['kinds'][:70], 'result': core.short(a, 600)}
    p_blocks.decide(c, 'TraceOrder', recs, ['crash', 'order', 'equality', 'consistency', 'index'], 'comparisons', 'order')
    # seeking relies on it
