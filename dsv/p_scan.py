"""P01-P05 and P23: what a scan writes. The scans are recorded and judged by spec/TraceScan.tla (against
spec/Tree.tla); spec/Scan.tla is the algorithm, checked exhaustively on small overlays."""
import copy
from . import core, trees, scans
from .trees import D, F, S, P, U, H, HTS

SYNC, POOL = {}, {'threads': 3}


def start(c):
    pool = core.Pool(core.build())
    core.log('built')
    return pool


def small_overlays(c):
    r = core.tlc('MCScan', 'GenTrees', workers=1)
    if not r.ok or len(r.prints) < 1000:
        raise core.ToolError('no overlays generated')
    c.states += r.distinct
    return [p['ov'] for p in r.prints]


def run_settings(rng, n, hooks=True):
    """n different ways of scanning"""
    out = []
    for _ in range(n):
        r = {}
        if rng.random() < 0.6:
            r['threads'] = rng.choice([0, 1, 2, 2, 3, 4, 8, 16])
            if rng.random() < 0.5:
                r['queue'] = rng.choice([0, 1, 2, 3, 10, 1000])
        if rng.random() < 0.25:
            r['progress'] = True
        if hooks:
            if rng.random() < 0.5:
                r['perm'] = rng.randrange(1 << 26)
            if rng.random() < 0.4:
                r['hide'] = True
            if rng.random() < 0.25:
                r['chunk'] = rng.choice([1, 7, 100, 4095, 8192, 8193, 32767, 32769])
            if rng.random() < 0.25 and r.get('threads', 0) > 1:
                r['delay'] = rng.randrange(1 << 26)
        out.append(r)
    return out


def rename(t, rng):
    """a small abstract tree under names of another kind, keeping nothing but the shape"""
    names = {}
    pool = [n for n in trees.NAMES if trees.ok_name(n) and len(n) < 40]
    rng.shuffle(pool)

    def go(ns):
        out = []
        for n in ns:
            m = dict(n)
            if n['n'] not in names:
                names[n['n']] = pool[len(names) % len(pool)]
            m['n'] = names[n['n']]
            if 'c' in n:
                m['c'] = go(n['c'])
            out.append(m)
        return out
    return go(t)


def exhaustive(c, ovs, rng, every=1, names=False):
    gs = []
    for i, ov in enumerate(ovs):
        if i % every or not ov:
            continue
        ts = [trees.from_spec(t, rng) for t in ov]
        if names and i % 3 == 0 and len(ts) == 1:
            ts = [rename(ts[0], rng)]
        gs.append(scans.group(HTS[i % 2], [ts], [SYNC, {'threads': 2 + i % 3, 'queue': i % 4, 'perm': i, 'hide': i % 2 == 0}]))
    return gs


def deep(n, leaf):
    t = leaf
    for i in range(n):
        t = [D(b'd%d' % (i % 7), *t)]
    return t


def wide(rng, n):
    return [rng.choice([lambda m: F(m, 1, i % 250), lambda m: D(m), lambda m: S(m, b't')])(b'%d' % i) for i in range(n)]


LINKY = [D(b'a', D(b'b', F(b'x', 10)), S(b'up', b'..'), S(b'self', b'.'), S(b'd', b'b'), S(b'f', b'b/x')),
         S(b'abs', b'/'), S(b'etc', b'/etc/passwd'), S(b'dangling', b'nothing/here'), S(b'loop1', b'loop2'), S(b'loop2', b'loop1'),
         S(b'todir', b'a'), S(b'long', b'x' * 1500), S(b'a2', b'a/'), D(b'empty'), D(b'empty2', D(b'empty3'))]
SPECIALS = [P(b'fifo'), U(b'sock'), F(b'file', 5), D(b'd', P(b'fifo'), U(b'sock')), D(b'only', P(b'p')), S(b'to-fifo', b'fifo'), S(b'to-sock', b'sock'),
            P(b'\xff'), U(b'a b')]

# siblings that are easily taken for one another
ALIKE = [b'\xff', b'\xfe', b'\xef\xbf\xbd', b'a\xff', b'a\xfe', b'a\xef\xbf\xbd', b'\xc3\xa9', b'e\xcc\x81', b'A', b'a', b'a ', b'a.', b'a\n', b'\\xff', b'\xc3', b'?']


def vast(rng, c):
    """more entries in one directory, and more directories, than anything is likely to be made for"""
    n = 20000 if c.thorough else 6000
    ns = [F(b'%d' % (i * 7919 % n), i % 3, i % 250, rng.choice([0o644, 0o755])) for i in range(n)]
    yield ns[:n - 40] + [D(b'z%d' % i) for i in range(20)] + [S(b'y%d' % i, b'%d' % i) for i in range(20)]
    yield wide(rng, n // 2)
    yield [D(b'd%d' % i, F(b'x%d' % (i % 9)), D(b's')) for i in range(n // 6)]


def spellings(two):
    """ways to say where a tree is"""
    out = [{'spell': x} for x in ('r%d/', 'r%d/.', './r%d', 'r%d//', './/r%d/./', 'l%d', 'l%d/', 'l%d/.')]
    out += [{'spell': x, 'cwd': '.'} for x in ('r%d', './r%d', 'l%d', 'r%d/')]
    out += [{'spell': '../r%d', 'cwd': 'r0'}]
    if not two:
        out += [{'spell': x, 'cwd': 'r0'} for x in ('.', './', '', '././/.')][:2] + [{'spell': '../r0', 'cwd': 'r0'}]
    return out


def elsewhere(rng, n):
    """trees reached in other ways, and far from where a path can lead"""
    gs = []
    for k in range(n):
        t = [F(b'f', 3), D(b'd', F(b'x', 5), S(b'l', b'..')), S(b'dl', b'd'), S(b'r0', b'/')] if not k else trees.rand_tree(rng, n=12)
        gs.append(scans.group(HTS[k % 2], [[t]], [{}] + spellings(False) + [dict(r, threads=3) for r in spellings(False)]))
        # names longer together than a path may be, and a chain deeper than the trees elsewhere
        w = [bytes([rng.choice(b'abc\xff\\ ')]) * rng.choice([200, 255]) for _ in range(45)]
        gs.append(scans.group(HTS[k % 2], [[t]], [{}, {'threads': 3}, {'hide': True}], wrap=w))
        gs.append(scans.group(HTS[k % 2], [[t]], [{}, {'threads': 3}, {'hide': True, 'progress': True}], wrap=[b'%d' % (i % 10) for i in range(260)]))
    return gs


def p01(c):
    pool = start(c)
    rng = c.rng
    c.design('MCScan')
    ovs = [o for o in small_overlays(c) if len(o) == 1]
    gs = exhaustive(c, ovs, rng, 1 if c.thorough else 2)
    modes = [{}, {'hide': True}, {'threads': 2}, {'threads': 4, 'hide': True, 'perm': 3}, {'progress': True}, {'progress': True, 'threads': 3, 'perm': 9}]
    for t in (LINKY, SPECIALS, [], [D(b'd')], [F(b'f')], [S(b's', b'x')], [P(b'p')], deep(90, [F(b'x', 3), S(b'l', b'..')]), wide(rng, 500),
              [D(b'w', *wide(rng, 300)), D(b'v', *wide(rng, 100))],
              [D(n, F(b'%d' % i, i), D(b'sub', F(n, 1))) for i, n in enumerate(ALIKE)], [F(n, i, i) for i, n in enumerate(ALIKE)],
              [D(b'to', *[S(n, n) for n in ALIKE])]):
        gs.append(scans.group('sha512/256', [[t]], modes))
    for t in vast(rng, c):
        gs.append(scans.group('sha512/256', [[t]], [{}, {'threads': 3}]))
    gs += elsewhere(rng, 12 if c.thorough else 3)
    for i in range(2500 if c.thorough else 350):
        t = trees.rand_tree(rng, n=rng.choice([3, 8, 20, 40]), depth=rng.choice([2, 4, 8]), special=0.15, pd=rng.choice([0.15, 0.3, 0.5]), ps=rng.choice([0.05, 0.2, 0.4]))
        gs.append(scans.group(rng.choice(HTS), [[t]], run_settings(rng, 3) + [{'hide': True}]))
    scans.decide(c, scans.perform(gs, pool, c), ['contents', 'result', 'other'])


# ---------------------------------------------------------------- P02

def variant(rng, ns):
    """the same tree with everything changed that must not matter"""
    out = []
    fs = [n for n in ns if n['t'] == 'f']
    for n in ns:
        m = dict(n)
        if n['t'] == 'd':
            m['c'] = variant(rng, n['c'])
            if rng.random() < 0.3:
                m['m'] = rng.choice([0o755, 0o700, 0o777, 0o1777, 0o2755])
        elif n['t'] == 'f':
            m['m'] = (n['m'] & 0o100) | rng.choice([0o600, 0o644, 0o666, 0o611, 0o601, 0o610, 0o000, 0o4644, 0o2611, 0o1677 & ~0o100])
            m['mt'] = rng.choice([0, 1, 1000000000, 2000000000, rng.randrange(1 << 31)])
        out.append(m)
    # equal files as hard links of one another
    byc = {}
    hl = []
    for m in out:
        if m['t'] == 'f':
            k = (tuple(m['z']), m['m'] & 0o100)
            if k in byc and rng.random() < 0.7:
                hl.append({'n': m['n'], 't': 'h', 'l': byc[k]})
            else:
                byc.setdefault(k, m['n'])
    hn = {h['n'] for h in hl}
    keep = [m for m in out if m['n'] not in hn]
    rng.shuffle(keep)
    return keep + hl


ORDERLY = [b'a', b'a!', b'a b', b'a-b', b'a.b', b'a0', b'ab', b'aB', b'A', b'B', b'b', b'_', b'~', b'a~', b'.a', b'-', b'0', b'10', b'2', b'\xff', b'\x80', b'\xc3\xa9',
           b'e', b'f', b'z', b'\x01', b'\x7f', b'\\', b'\\x', b'\\x41', b'a\xff', b'aa', b'a\x01']


def p02(c):
    pool = start(c)
    rng = c.rng
    c.design('MCScan', 'MCScanAll')
    ovs = [o for o in small_overlays(c) if len(o) == 1]
    gs = []
    for i, ov in enumerate(ovs):
        if i % (1 if c.thorough else 4):
            continue
        t = trees.from_spec(ov[0], rng)
        gs.append(scans.group(HTS[i % 2], [[t], [variant(rng, t)]], [{}, {'perm': i * 3 + 1}, {'threads': 3, 'perm': i + 7}]))
    for i in range(1500 if c.thorough else 220):
        t = trees.rand_tree(rng, n=rng.choice([10, 25, 45]), names=ORDERLY if i % 2 else None, pd=rng.choice([0.3, 0.6]), sizes=trees.SMALL if i % 8 else trees.SIZES)
        # some equal files
        fs = [n for n in t if n['t'] == 'f']
        for n in fs[1:]:
            if rng.random() < 0.5:
                n['z'], n['m'] = fs[0]['z'], (n['m'] & ~0o100) | (fs[0]['m'] & 0o100)
        gs.append(scans.group(HTS[i % 2] if i % 9 else 'blake3/256', [[t]] + [[variant(rng, t)] for _ in range(2)], [{}, {'progress': True, 'perm': 5}] + run_settings(rng, 3)))
    # the same configuration again; several scans at once; a slow system
    for i in range(60 if c.thorough else 12):
        t = trees.rand_tree(rng, n=rng.choice([10, 25]), names=ORDERLY if i % 2 else None)
        gs.append(scans.group(HTS[i % 2], [[t]], [{}, {'again': True}, {'again': True, 'threads': 3}, {'slow': 2000, 'progress': True}, {'slow': 1000, 'progress': True, 'threads': 2},
                                                {'spell': 'l%d'}, {'spell': 'r%d/.'}]))
        runs = [{}, {'threads': 2}, {'threads': 4, 'queue': 0}, {'progress': True}] * 3
        gs.append(scans.group(HTS[i % 2], [[t], [variant(rng, t)]], runs, parallel=True))
    for i, t in enumerate(vast(rng, c)):
        gs.append(scans.group('blake2b/256', [[t]], [{'perm': 11 + i}, {'threads': 4, 'perm': 5 + i, 'progress': True}]))
    # every order in which the system can deliver few entries, and many orders of many
    four = [D(b'a', F(b'b', 1)), D(b'a!', F(b'b', 2)), F(b'ab', 3), S(b'A', b'x'), D(b'ab!')]
    gs.append(scans.group('sha512/256', [[four]], [{'perm': i} for i in range(400)] + [{'perm': i, 'threads': 2} for i in range(100)]))
    scans.decide(c, scans.perform(gs, pool, c), ['order', 'repro', 'result', 'other', 'K1'])


# ---------------------------------------------------------------- P03

def p03(c):
    pool = start(c)
    rng = c.rng
    c.design('MCBlocks')
    gs = []
    sizes = sorted(set(trees.SIZES + [b + d for b in (8192, 16384, 32768, 65536, 98304, 131072, 262144) for d in (-2, -1, 0, 1, 2)]
                       + [32768 * k for k in range(2, 9)]))
    for k, ht in enumerate(HTS):
        for pl in (1, 17, 32768, 5000):
            t = [F(b'f%d' % i, s, (i + k) % 250, rng.choice(trees.MODES), pl) for i, s in enumerate(sizes)]
            gs.append(scans.group(ht, [[t]], [{}, {'threads': 2}, {'chunk': 8191, 'progress': True}, {'threads': 4, 'chunk': 32769}]))
        # every mode
        t = [F(b'%o' % m, 3, 1, m) for m in range(0, 0o1000)] + [F(b's%o' % m, 1, 1, m) for m in (0o4755, 0o4655, 0o2611, 0o1677, 0o7777, 0o7677)]
        gs.append(scans.group(ht, [[t]], [{}, {'threads': 3}]))
        for s in (1, 2, 50, 300):
            t = [F(b'f%d' % i, n, i, pl=97) for i, n in enumerate([0, 1, 3, 299, 300, 301, 1000])]
            gs.append(scans.group(ht, [[t]], [{'chunk': s}, {'chunk': s, 'threads': 2}]))
    for i in range(700 if c.thorough else 120):
        t = trees.rand_tree(rng, n=rng.choice([4, 10]), sizes=trees.SIZES + [rng.randrange(300000) for _ in range(8)], ps=0.05, special=0)
        gs.append(scans.group(HTS[i % 3], [[t]], [{}, {'threads': 2}] + run_settings(rng, 2)))
    # sizes beyond 32 bits; the contents are zeros (seed 0, pattern 1)
    big = [(1 << 32) + 5] if not c.thorough else [(1 << 32) + 5, 1 << 32, (1 << 32) - 1, (1 << 31) + 32768, 6 << 30]
    for s in big:
        t = [{'n': b'big', 't': 'f', 'z': [s, 0, 1], 'm': 0o644, 'sparse': True}, F(b'z', 7)]
        gs.append(scans.group('blake2b/256', [[t]], [{}] if not c.thorough else [{}, {'threads': 2}]))
        if not c.thorough:
            gs.append(scans.group('blake2b/256', [[[{'n': b'big', 't': 'f', 'z': [(1 << 31) + 40000, 0, 1], 'm': 0o755, 'sparse': True}]]], [{'threads': 2}]))
    scans.decide(c, scans.perform(gs, pool, c, timeout=240), ['records', 'result', 'other', 'K1'])


# ---------------------------------------------------------------- P04

def p04(c):
    pool = start(c)
    rng = c.rng
    c.design('MCSink')
    gs = []
    pre = [[], [F(b'f', 5)], [D(b'd', F(b'x', 40000), S(b's', b'y')), F(b'f', 1)], wide(rng, 300)]
    sinks = [None, {'acc': [1]}, {'acc': [3, -1, 5]}, {'acc': [-1, 1]}, {'acc': [64, 1, -1, 63]}, {'acc': [7, -1, -1, 1000]}]
    n = 900 if c.thorough else 300
    for i in range(n):
        t = pre[i] if i < len(pre) else trees.rand_tree(rng, n=rng.choice([4, 12, 30]), sizes=trees.SMALL if i % 5 else trees.SIZES)
        for ht in (HTS if i < 12 else [HTS[i % 3]]):
            runs = []
            for s in sinks:
                for th in (None, 2):
                    for pr in (False, True):
                        if i >= 8 and rng.random() < 0.7:
                            continue
                        r = {'threads': th} if th else {}
                        if pr:
                            r['progress'] = True
                        if s:
                            r['sink'] = s
                        if pr and rng.random() < 0.1:
                            # long enough for something to be printed
                            r['slow'] = 130000 // max(4, 3 * trees.count(t))
                        runs.append(r)
            gs.append(scans.group(ht, [[t]], runs or [{}]))
    for t in vast(rng, c):
        gs.append(scans.group('sha512/256', [[t]], [{}, {'threads': 3, 'progress': True}, {'sink': sinks[-1]}]))
    recs = scans.perform(gs, pool, c)
    scans.decide(c, recs, ['footer', 'header', 'result'])
    # what reading the hash returns for these indexes
    from . import p_blocks
    qs = []
    for r in recs:
        for x, m in zip(r['runs'], r['_meta']):
            if x['res'][0] == 'ok' and len(m['full']) < (1 << 22 if c.thorough else 1 << 17):
                rd = {'chunk': rng.choice([0, 0, 1, 5, 64])} if rng.random() < 0.5 else {}
                if rng.random() < 0.3:
                    rd['intr'] = 2
                qs.append({'op': 'gh', 'data': m['full'], 'reader': rd})
    p_blocks.decide_gethash(c, p_blocks.run_gethash(c, pool, qs))


# ---------------------------------------------------------------- P05

def p05(c):
    pool = start(c)
    rng = c.rng
    c.design('MCEscape', env={'DSV_LEN': 5 if c.thorough else 4})
    gs = []
    single = [bytes([b]) for b in range(1, 256) if b not in (0x2f, 0x2e)]
    ht = 'blake2b/256'
    runs = [{}, {'threads': 2}]
    gs.append(scans.group(ht, [[[F(n, 1) for n in single]]], runs))
    gs.append(scans.group(ht, [[[S(n, n) for n in single]]], runs))
    gs.append(scans.group(ht, [[[D(n, F(n, 0)) for n in single]]], runs))
    # every byte at the start, in the middle and at the end; every byte in targets ('/' and '.' included)
    gs.append(scans.group(ht, [[[F(p + bytes([b]) + q, 0) for b in range(1, 256) if b != 0x2f for p, q in ((b'k', b''), (b'', b'k'), (b'k', b'k'))]]], runs))
    gs.append(scans.group(ht, [[[S(b'%d%s' % (b, x), p + bytes([b]) + q) for b in range(1, 256) for x, p, q in ((b'a', b'k', b''), (b'b', b'', b'k'), (b'c', b'k', b'k'))]]], runs))
    # pairs around the backslash, escape-like text, invalid and cut UTF-8
    frag = [b'\\', b'x', b'4', b'1', b'\\x', b'\\x4', b'\\x41', b'\\x5c', b'\\x20', b'\\X41', b'\\xZZ', b'\\xg0', b'\\\\', b'\\n', b'\xff', b'\xc3', b'\xa9', b' ', b'\n', b'\x7f', b'\xe2\x82',
            b'\xf0\x9f\x98\x80', b'\x80', b'a', b'\\x2f', b'\\x2e', b'\\x00', b'\t', b'\r', b'~', b'!', b'0', b'f', b'A', b'\\xC3']
    pairs = sorted({a + b for a in frag for b in frag} | {a + b + d for a in (b'\\', b'\\x', b'\\x4') for b in frag for d in frag})
    pairs = [p for p in pairs if trees.ok_name(p)]
    rng.shuffle(pairs)
    step = 120
    for i in range(0, len(pairs) if c.thorough else min(len(pairs), 1500), step):
        ps = pairs[i:i + step]
        gs.append(scans.group(ht, [[[F(n, 0) for n in ps[:40]] + [S(n, n[::-1]) for n in ps[40:80]] + [D(n, S(b'l', n)) for n in ps[80:]]]], runs))
    gs.append(scans.group(ht, [[[F(b'n' * 255, 0), D(b'\xff' * 255, D(b'\n' * 255, F(b'\\' * 255, 0))), S(b'l', b'\x01' * 4000)]]], runs))
    # paths far longer than a path may be
    far = [F(b'\xff\\x41\n', 0), D(b'\xff\\')]
    for i in range(24):
        far = [D(bytes([rng.choice(b'abc\xff\\ \n\x7f')]) * rng.choice([199, 250, 255]), *far)] + ([S(b'l', b'\xff')] if i % 5 == 0 else [])
    gs.append(scans.group(ht, [[far]], runs))
    for i in range(1200 if c.thorough else 150):
        t = trees.rand_tree(rng, n=20, sizes=[0, 1], ps=0.35, special=0)
        gs.append(scans.group(HTS[i % 2], [[t]], runs + [{'progress': True, 'perm': i}]))
    recs = scans.perform(gs, pool, c)
    scans.decide(c, recs, ['escape', 'result', 'other'])
    # and back
    from . import p_index
    p_index.parse_back(c, pool, recs, ['value', 'accept', 'reject', 'line', 'end', 'after', 'open', 'crash'], rng, part='read back')


# ---------------------------------------------------------------- P23

def p23(c):
    pool = start(c)
    rng = c.rng
    c.design('MCScan')
    ovs = [o for o in small_overlays(c) if len(o) > 1]
    gs = []
    for i, ov in enumerate(ovs):
        if i % (1 if c.thorough else 2):
            continue
        ts = [trees.from_spec(t, rng) for t in ov]
        gs.append(scans.group(HTS[i % 2], [ts], [{}, {'threads': 2 + i % 2, 'queue': i % 3, 'hide': i % 2 == 1, 'perm': i}]))
    names = [b'a', b'b', b'a!', b'ab', b'\xff', b'd', b'A', b'a b']
    for i in range(1500 if c.thorough else 250):
        k = rng.choice([2, 2, 3, 4, 6])
        ts = [trees.rand_tree(rng, n=rng.choice([2, 6, 14, 25]), names=names, pd=0.5, depth=5) for _ in range(k)]
        if rng.random() < 0.2:
            ts.append(copy.deepcopy(ts[0]))
        if rng.random() < 0.2:
            ts.insert(rng.randrange(len(ts)), [])
        gs.append(scans.group(HTS[i % 2] if i % 7 else HTS[2], [ts], [{}] + run_settings(rng, 3)))
    # other ways to write the root as a prefix, and the trees
    for i in range(40 if c.thorough else 10):
        ts = [trees.rand_tree(rng, n=rng.choice([6, 14]), names=names, pd=0.5, depth=5) for _ in range(rng.choice([1, 2, 3]))]
        gs.append(scans.group(HTS[i % 2], [ts], [{}] + [{'prefix': x, 'threads': y} for x in ('//', '/.', '/./', '///', '/./.') for y in (1, 3)] + spellings(True)
                              + [{'again': True}, {'again': True, 'threads': 4}]))
        gs.append(scans.group(HTS[i % 2], [ts], [{}, {'threads': 2}] * 6, parallel=True))
        gs.append(scans.group(HTS[i % 2], [ts], [{}, {'threads': 2}, {'hide': True}], wrap=[b'w'] * rng.choice([1, 3, 30]) if i % 3 else [b'q' * 250] * 30))
    # a directory added again, and one that lies within another
    for i in range(60 if c.thorough else 16):
        ts = [trees.rand_tree(rng, n=rng.choice([6, 14]), names=names, pd=0.5, depth=5) for _ in range(rng.choice([1, 2]))]
        inner = [n['c'] for t in ts for n in t if n['t'] == 'd' and n['n'].isascii()]
        more = [rng.choice(ts + inner) for _ in range(rng.choice([1, 1, 2, 3]))]
        gs.append(scans.group(HTS[i % 2], [ts + more], [{}, {'threads': 2}, {'hide': True, 'progress': True}, {'again': True}]))
    # more trees than a few
    gs.append(scans.group('sha512/256', [[[D(b'd', F(b'f%d' % (i % 5), i, i)), F(b'f', i, i)] for i in range(40)]], [{}, {'threads': 4}]))
    scans.decide(c, scans.perform(gs, pool, c), ['contents', 'order', 'records', 'repro', 'result', 'other'])
    prefixes(c, pool)


def prefixes(c, pool):
    """Every added directory contributes below its prefix. K2: it does not, if the prefix is not the root."""
    known = core.known_findings()
    base = core.fresh('t')
    a, b = [F(b'x', 3)], [F(b'y', 4)]
    runs = [{'hash': 'sha512/256', 'dirs': [['r0', '/'], ['r1', p]]} for p in ('/sub', '/sub/dir', '/x', 'rel')]
    res = pool.ask({'op': 'scan', 'base': base, 'roots': [['r0', trees.wire(a)], ['r1', trees.wire(b)]], 'runs': runs})
    ref = pool.ask({'op': 'scan', 'base': core.fresh('t'), 'roots': [['r0', trees.wire(a)]], 'runs': [{'hash': 'sha512/256', 'dirs': [['r0', '/']]}]})
    recs = []
    for i, (p, o) in enumerate(zip(('sub', 'sub/dir', 'x', 'rel'), res)):
        if p == 'rel':
            continue
        t = b
        for comp in reversed(p.split('/')):
            t = [D(comp.encode(), *t)]
        ov = [a, t]
        tab = trees.table(ov, 'sha512/256', trees.BS, pool)
        lx = trees.lex(o['out'], 'sha512/256', pool)
        lx.update(res=[str(x) for x in o['res'][:2]], n=1, key='k%d' % i, mode='sync')
        recs.append({'id': i, 'ht': 'sha512/256', 'bs': str(trees.BS), 'wrap': [], 'ov': [trees.tla(x, tab) for x in ov], 'runs': [lx], '_p': p, '_o': o})
    for rep in c.judge('TraceScan', scans.strip(recs), part='prefixes'):
        r = [x for x in recs if x['id'] == rep['id']][0]
        if r['_o']['out'] == ref[0]['out'] and ('P23', 'K2') in known:
            # exactly the recorded deviation: the prefixed directory is ignored altogether
            c.known_finding('K2', known[('P23', 'K2')])
        elif r['_o']['res'][0] != 'ok':
            c.violation('prefix: scan fails', {'prefix': r['_p'], 'res': r['_o']['res']})
        else:
            c.violation('prefix: ' + ','.join(sorted(rep['labels'])), {'prefix': r['_p'], 'out': r['_o']['out']})
