"""Trees: generation, the harness' and the specification's form of them, digests of their contents."""
import hashlib

HTS = ['sha512/256', 'blake2b/256', 'blake3/256']
BS = 32768


def l1(b):
    return b.decode('latin-1')


_content = {}


def content(spec):
    """Same as the harness' `content`."""
    size, seed, pl = spec
    pl = max(1, pl)
    pat = bytes(((seed * 31 + i * 7 + (i * i >> 3)) & 255) for i in range(min(pl, max(size, 1))))
    return (pat * (size // len(pat) + 1))[:size]


def hasher(ht):
    return hashlib.new('sha512_256') if ht == 'sha512/256' else hashlib.blake2b(digest_size=32)


_dig = {}


def digest(ht, data, pool):
    if ht == 'blake3/256':
        return pool.ask({'op': 'b3', 'segs': [[l1(data)]]})['own'][0]
    h = hasher(ht)
    h.update(data)
    return h.hexdigest()


def blocks(size, bs):
    return [(o, min(bs, size - o)) for o in range(0, size, bs)]


def digests(ht, spec, bs=BS):
    """own digests of the blocks of a content (not for blake3)"""
    key = (ht, tuple(spec), bs)
    if key not in _dig:
        out = []
        if spec[2] == 1:
            # one byte repeated (also the contents of sparse files, of any size)
            memo = {}
            for o, n in blocks(spec[0], bs):
                if n not in memo:
                    h = hasher(ht)
                    h.update(content([n, spec[1], 1]))
                    memo[n] = h.hexdigest()
                out.append(memo[n])
        else:
            data = content(spec)
            for o, n in blocks(len(data), bs):
                h = hasher(ht)
                h.update(data[o:o + n])
                out.append(h.hexdigest())
        _dig[key] = out
    return _dig[key]


# ---------------------------------------------------------------- nodes
# {'n': bytes, 't': 'd'|'f'|'s'|'p'|'u'|'h', 'c': [...], 'z': [size, seed, patlen], 'm': mode, 'l': bytes, 'mt': mtime}

def D(name, *kids, **kw):
    return dict({'n': name, 't': 'd', 'c': list(kids)}, **kw)


def F(name, size=0, seed=1, m=0o644, pl=509, **kw):
    return dict({'n': name, 't': 'f', 'z': [size, seed, pl], 'm': m}, **kw)


def S(name, target):
    return {'n': name, 't': 's', 'l': target}


def P(name):
    return {'n': name, 't': 'p'}


def U(name):
    return {'n': name, 't': 'u'}


def H(name, other):
    """hard link to a sibling, given by name"""
    return {'n': name, 't': 'h', 'l': other}


def from_spec(nodes, rng=None):
    """a tree printed by TLC"""
    out = []
    for n in nodes:
        nm = bytes(n['n'])
        if n['t'] == 'd':
            out.append(D(nm, *from_spec(n['c'], rng)))
        elif n['t'] == 'f':
            out.append(F(nm, rng.choice(SMALL) if rng else 0, rng.randint(0, 250) if rng else 1, 0o755 if n['x'] else 0o644))
        elif n['t'] == 's':
            out.append(S(nm, bytes(n['l'])))
        else:
            out.append(P(nm))
    return out


def wire(nodes):
    """as the harness wants it"""
    out = []
    for n in nodes:
        w = {'n': l1(n['n']), 't': n['t']}
        if n['t'] == 'd':
            w['c'] = wire(n['c'])
        if 'z' in n:
            w['z'] = n['z']
        if 'm' in n:
            w['m'] = n['m']
        if 'mt' in n:
            w['mt'] = n['mt']
        if n.get('sparse'):
            w['sparse'] = True
        if 'l' in n:
            w['l'] = l1(n['l'])
        out.append(w)
    return out


def sorted_files(overlay):
    """regular files (with hard links resolved) in index order; only for the digest table of the
    accumulating deviation of blake3"""
    out = []

    def walk(lists):
        allf = []
        dirs = {}
        for nodes in lists:
            by = {n['n']: n for n in nodes}
            for n in nodes:
                if n['t'] == 'd':
                    dirs.setdefault(n['n'], []).append(n['c'])
                elif n['t'] == 'f':
                    allf.append((n['n'], n, n))
                elif n['t'] == 'h':
                    allf.append((n['n'], n, by[n['l']]))
        allf.sort(key=lambda x: x[0])
        out.extend((a, b) for _, a, b in allf)
        for d in sorted(dirs):
            walk(dirs[d])
    walk(overlay)
    return out


def table(overlay, ht, bs, pool):
    """digest tables by node identity: id(node) -> (own, cumulative over the scan, cumulative per file)"""
    files = sorted_files(overlay)
    t = {}
    if ht != 'blake3/256':
        for n, src in files:
            t[id(n)] = (digests(ht, src['z'], bs), None, None)
        return t
    segs = []
    per = []
    for n, src in files:
        s = [[src['z'], o, k] for o, k in blocks(src['z'][0], bs)]
        per.append(s)
        segs += s
    whole = pool.ask({'op': 'b3', 'segs': segs}, 120)
    i = 0
    for (n, src), s in zip(files, per):
        k = len(s)
        cum = pool.ask({'op': 'b3', 'segs': s}, 120)['cum'] if k > 1 else whole['own'][i:i + k]
        t[id(n)] = (whole['own'][i:i + k], whole['cum'][i:i + k], cum)
        i += k
    return t


def tla(nodes, tab):
    """as the specification wants it"""
    out = []
    by = {n['n']: n for n in nodes}
    for n in sorted(nodes, key=lambda n: n['n']):
        w = {'n': list(n['n'])}
        if n['t'] == 'd':
            w.update(t='d', c=tla(n['c'], tab))
        elif n['t'] in ('f', 'h'):
            src = n if n['t'] == 'f' else by[n['l']]
            own, ds, dp = tab[id(n)]
            w.update(t='f', x=bool(src.get('m', 0o644) & 0o100), sz=str(src['z'][0]), h=own)
            if ds is not None:
                w.update(ds=ds, dp=dp)
        elif n['t'] == 's':
            w.update(t='s', l=list(n['l']))
        else:
            w.update(t='o')
        out.append(w)
    return out


def count(nodes):
    return sum(1 + (count(n['c']) if n['t'] == 'd' else 0) for n in nodes)


# ---------------------------------------------------------------- observed indexes, lexed

def lex(out, ht, pool, rows=True):
    """splits an index (latin-1 text) into lines and tokens; computes the digest of the body"""
    term = out.endswith('\n')
    lines = out.split('\n')
    if term:
        lines.pop()
    hdr = lines[0].split(' ') if lines else []
    foot = lines[-1].split(' ') if len(lines) > 1 else []
    body = lines[1:-1]
    bd = digest(ht, '\n'.join(body + ['']).encode('latin-1') if body else b'', pool)
    return {'hdr': hdr, 'rows': [x.split(' ') for x in body], 'foot': foot, 'term': term, 'bd': bd}


# ---------------------------------------------------------------- generation

SIZES = [0, 0, 1, 2, 63, 64, 65, 100, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32766, 32767, 32768, 32769,
         32770, 40960, 65535, 65536, 65537, 98303, 98304, 98305, 131072, 163840, 200001]
SMALL = [0, 0, 0, 1, 2, 3, 10, 100, 1000, 5000]
MODES = [0o644, 0o755, 0o600, 0o700, 0o100, 0o001, 0o010, 0o011, 0o444, 0o111, 0o4755, 0o677, 0o000, 0o655, 0o500]

NAMES = [b'a', b'b', b'ab', b'a.b', b'a-b', b'a b', b'a!', b'a0', b'A', b'B', b'_', b'.a', b'..a', b'...', b'~', b'a~',
         b'-', b'--', b'-x', b'0', b'1', b'10', b'2', b'\xc3\xa9', b'\xff', b'\x80', b'\xfe\xff', b'\x7f', b'\x01',
         b'\t', b'\n', b'\r', b' ', b'  ', b' a', b'a ', b'\\', b'\\x41', b'\\x', b'\\x4', b'\\\\', b'\\x5c', b'a\\x20b',
         b'a\nb', b'a\tb', b"'", b'"', b'#', b'$', b'%', b'*', b'?', b'f', b'x', b's', b'\xe2\x82\xac', b'\xc3', b'a\xff',
         b'a\x00'[:1] + b'\x02', b'aa', b'aB', b'a\x1f', b'a/'[:1] + b'.', b'a0b', b'z' * 200, b'\xef\xbb\xbfa',
         b'\xf0\x9f\x98\x80', b'\x1b[0m', b'\x0b', b'\x0c', b'\xc2\xa0', b'\xc2\x85', b':', b'a:b', b'a=b', b'/'[:0] + b'{', b'|',
         b'|a', b'}', b'^', b'`', b'@', b'[', b']', b'!', b'+', b',', b';', b'<', b'=', b'>', b'&', b'(', b')',
         b'lost+found', b'.git', b'.gitignore', b'.DS_Store', b'.nfs0001', b'core', b'con', b'#a#', b'index', b'DIRSIGNATURE.v1', b'e' * 64, b'0123456789abcdef' * 4, b'y' * 255]
TARGETS = [b'a', b'b', b'..', b'.', b'../a', b'./b', b'nonexistent', b'a b', b'\xff\xfe', b'\\x20', b'a\nb', b'\x7f',
           b'../../x', b'a/b/c', b'a/', b' ', b'x' * 300, b'x' * 1200, b'loop', b'~', b'/nonexistent-dsv/abs', b'f', b's 1']


def rand_name(rng):
    r = rng.random()
    if r < 0.55:
        return rng.choice(NAMES)
    if r < 0.8:
        return bytes(rng.choice(b'aab.- \\x041/'.replace(b'/', b'')) for _ in range(rng.randint(1, 6))) or b'a'
    n = bytes(rng.randint(1, 255) for _ in range(rng.randint(1, 5))).replace(b'/', b'_')
    return n


def alike(rng, n):
    """a name that is easily taken for this one"""
    i = rng.randrange(len(n))
    return rng.choice([
        lambda: n.swapcase(), lambda: n + rng.choice([b' ', b'.', b'~', b'\n', b'\xff', b'\x01', b'a', b'\\']), lambda: rng.choice([b' ', b'.', b'\xff', b'./'[:1]]) + n,
        lambda: n[:i] + bytes([n[i] ^ rng.choice([1, 2, 32, 128])]) + n[i + 1:], lambda: n[:i] + b'\\x%02x' % n[i] + n[i + 1:],
        lambda: n[:i] + b'\xef\xbf\xbd' + n[i + 1:], lambda: n[:i] + bytes([rng.randint(128, 255)]) + n[i + 1:], lambda: n[:i + 1] + n[i:],
        lambda: n.replace(b'\xc3\xa9', b'e\xcc\x81').replace(b'e', b'\xc3\xa9'), lambda: n[:-1], lambda: n[::-1]])()


def ok_name(n):
    return n not in (b'', b'.', b'..') and len(n) <= 255 and b'/' not in n and b'\0' not in n


def rand_tree(rng, n=12, depth=4, sizes=SMALL, special=0.08, pd=0.3, ps=0.15, names=None):
    """about n nodes"""
    budget = [n]

    def level(d):
        out = []
        used = set()
        k = rng.randint(1 if d == 0 else 0, 7)
        for _ in range(k):
            if budget[0] <= 0:
                break
            nm = rng.choice(names) if names else rand_name(rng)
            if used and rng.random() < 0.2:
                nm = alike(rng, rng.choice(sorted(used)))
            if not ok_name(nm) or nm in used:
                continue
            used.add(nm)
            budget[0] -= 1
            r = rng.random()
            if r < pd and d < depth:
                out.append(D(nm, *level(d + 1)))
            elif r < pd + ps:
                out.append(S(nm, rng.choice(TARGETS)))
            elif r < pd + ps + special:
                if rng.random() < 0.6 or len(nm) > 90:
                    out.append(P(nm))
                else:
                    out.append(U(nm))
            else:
                out.append(F(nm, rng.choice(sizes), rng.randint(0, 250), rng.choice(MODES), rng.choice([1, 17, 509, 4096])))
        return out
    t = level(0)
    while budget[0] > 0 and rng.random() < 0.9:
        extra = [x for x in level(0) if x['n'] not in {y['n'] for y in t}]
        if not extra:
            break
        t += extra
    return t
