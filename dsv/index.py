"""Index inputs: lexing into lines and tokens, observations of the real reader in the form of the
specification, generators. Whether an observation is right is decided in spec/TraceReader.tla."""
import re
from . import core, trees

CLAMP = 2000000000


def lex(data, fail=None):
    """latin-1 text -> {lines, part, fail}; with a failing reader only what lies before the failure counts"""
    failing = fail is not None and fail <= len(data)
    if failing:
        data = data[:fail]
    parts = data.split('\n')
    part = parts.pop() != ''
    return {'lines': [x.split(' ') for x in parts], 'part': part, 'fail': failing}


def join(lines, part=False):
    """the inverse, for inputs made by the specification"""
    s = ''.join(' '.join(t) + '\n' for t in lines)
    return s + ('/a' if part else '')


def comps(path):
    """path as reported (latin-1) -> absolute?, components"""
    return path.startswith('/'), [list(c.encode('latin-1')) for c in path.split('/') if c not in ('', '.')]


def obs(v):
    """result of the harness -> observation"""
    k = v[0]
    if k == 'd':
        a, p = comps(v[1])
        return {'k': 'd', 'abs': a, 'p': p}
    if k == 'f':
        a, p = comps(v[1])
        return {'k': 'f', 'abs': a, 'p': p, 'x': v[2], 'sz': v[3], 'h': v[4], 'ok': v[5], 'bs': v[6], 'ht': v[7]}
    if k == 'l':
        a, p = comps(v[1])
        return {'k': 'l', 'abs': a, 'p': p, 'l': list(v[2].encode('latin-1'))}
    if k == 'e':
        m = re.search(r'line (\d+)', v[1])
        return {'k': 'e', 'line': min(int(m.group(1)), CLAMP) if m else 0}
    return {'k': k}


def open_obs(v):
    if v is None:
        return ['crash']
    if v[0] == 'e':
        m = re.search(r'line (\d+)', v[1])
        return ['e', m.group(1) if m else '0']
    return v


def path_l1(p):
    return '/' + '/'.join(bytes(c).decode('latin-1') for c in p)


def ops_wire(ops):
    return [['a', o['k'], path_l1(o['p'])] if o['o'] == 'a' else [o['o']] for o in ops]


class Session:
    """data (latin-1), reader script, ops: list of {'o': 'n'|'a'|'r', 'k', 'p'}, or 'all'"""

    def __init__(self, data, reader=None, ops='all', tag=None):
        self.data, self.reader, self.ops, self.tag = data, reader or {}, ops, tag
        self.lx = lex(data, self.reader['fail'] if self.reader.get('fail', -1) >= 0 else None)

    def request(self):
        w = [['all', 2 * len(self.lx['lines']) + 8], ['n'], ['n']] if self.ops == 'all' else ops_wire(self.ops)
        return {'op': 'parse', 'data': self.data, 'reader': self.reader, 'ops': w}

    def record(self, i, r):
        """None if the run says nothing"""
        if 'skipped' in r:
            return None
        if 'open' not in r:
            r = {'open': ['hang' if 'hang' in r else 'died'], 'res': [], 'peak': 0}
        res = [obs(v) for v in r['res']]
        if self.ops == 'all':
            ops = [{'o': 'n'}] * len(res)
        else:
            # a result for each op but "r"; a crash ends the session early
            ops = []
            k = 0
            for o in self.ops:
                if o['o'] == 'r':
                    ops.append(o)
                    res.insert(len(ops) - 1, {'k': 'none'})
                elif len(ops) < len(res):
                    ops.append(o)
            ops = ops[:len(res)]
        op = open_obs(r['open'])
        if op[0] != 'ok' and op[0] != 'e':
            op = ['crash']
        rec = {'id': i, 'open': op, 'ops': ops, 'res': res, 'peak': min(r['peak'], CLAMP), 'limit': CLAMP}
        if op[0] == 'e' and res and res[0]['k'] == 'panic':
            rec['open'] = ['crash']
        rec.update(self.lx)
        rec['_raw'] = {'data': self.data[:3000], 'len': len(self.data), 'reader': self.reader, 'open': r['open'], 'res': r['res'][:60], 'tag': self.tag,
                       'ops': self.ops if self.ops == 'all' else ops_wire(self.ops)}
        return rec


def run_sessions(pool, sessions, timeout=40):
    # the null result of opening after a panic
    rs = pool.map([s.request() for s in sessions], timeout)
    recs = []
    for i, (s, r) in enumerate(zip(sessions, rs)):
        if r.get('open') is None and 'res' in r and not r.get('hang'):
            r['open'] = ['crash']
        rec = s.record(i, r)
        if rec:
            recs.append(rec)
    return recs


def strip(recs):
    return [{k: v for k, v in r.items() if not k.startswith('_')} for r in recs]


def decide(check, recs, labels, part='reader', module='TraceReader', shards=None):
    by = {r['id']: r for r in recs}
    for r in recs[:2]:
        check.sample({'index': r['_raw']['data'][:300], 'ops': core.short(r['_raw']['ops'], 200), 'results': core.short(r['_raw']['res'], 300)})
    check.count(part, results=sum(len(r['res']) for r in recs))
    n = 0
    for rep in check.judge(module, strip(recs), part=part, shards=shards or max(1, min(core.NPROC, len(recs) // 100 + 1))):
        if rep['why'] in labels:
            n += 1
            check.violation('reader: %s at %s %s' % (rep['why'], rep['op'], rep['at']), {'report': rep, 'run': by[rep['id']]['_raw']})
    return n


# ---------------------------------------------------------------- generators

HEX = '0123456789abcdef'


def esc(b):
    return ''.join('\\x%02x' % c if c <= 32 or c >= 127 or c == 92 else chr(c) for c in b)


def digest_text(rng):
    return ''.join(rng.choice(HEX) for _ in range(64))


def header(ht, bs):
    return 'DIRSIGNATURE.v1 %s block_size=%s' % (ht, bs)


def body_of(nodes, rng, bs, digests=digest_text, sort=True):
    """lines of an index of a tree with arbitrary digests; [(kind, comps, line)]"""
    out = []

    def walk(path, ns):
        out.append(('d', path, '/' + '/'.join(esc(c) for c in path)))
        es = [n for n in ns if n['t'] in ('f', 's')]
        ds = [n for n in ns if n['t'] == 'd']
        if sort:
            es.sort(key=lambda n: n['n'])
            ds.sort(key=lambda n: n['n'])
        for n in es:
            if n['t'] == 's':
                line = '  %s s %s' % (esc(n['n']), esc(n['l']))
            else:
                sz = n['z'][0]
                k = (sz + bs - 1) // bs
                line = '  %s %s %d' % (esc(n['n']), 'x' if n['m'] & 0o100 else 'f', sz)
                line += ''.join(' ' + digests(rng) for _ in range(k))
            out.append(('f', path + [n['n']], line))
        for n in ds:
            walk(path + [n['n']], n['c'])
    walk([], nodes)
    return out


def large_size(rng, bs, ks=(1, 1, 2, 3, 4)):
    """a size near a limit of some kind of number that takes a few blocks"""
    k = rng.choice(ks)
    lo, hi = (k - 1) * bs + 1, min(k * bs, (1 << 64) - 1)
    if lo > hi:
        lo, hi = 1, min(bs, (1 << 64) - 1)
    xs = [x for e in (31, 32, 52, 53, 54, 62, 63, 64) for x in ((1 << e) - 1, 1 << e, (1 << e) + 1) if lo <= x <= hi]
    return rng.choice(xs + [lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)])


def index_of(nodes, rng, ht=None, bs=None):
    ht = ht or rng.choice(trees.HTS)
    bs = bs or rng.choice([1, 2, 7, 100, 4096, 32768, 1 << 40, rng.choice([1 << 31, 1 << 32, 1 << 53, (1 << 60) + 1, 1 << 63]), (1 << 64) - 1])
    sizes = [n for n in _files(nodes)]
    for n in sizes:
        if bs > 1 << 30 and rng.random() < 0.4:
            n['z'] = [large_size(rng, bs), 1, 1]
    if bs < 100:
        # keep the number of digests small
        for n in sizes:
            n['z'] = [min(n['z'][0], bs * 4), 1, 1]
    b = body_of(nodes, rng, bs)
    return '\n'.join([header(ht, bs)] + [x[2] for x in b] + [digest_text(rng)]) + '\n', b


def _files(nodes):
    for n in nodes:
        if n['t'] == 'f':
            yield n
        elif n['t'] == 'd':
            yield from _files(n['c'])


NASTY = ['/', '/a', '/..', '  .. f 0', '  . s x', '  a/b f 0', '  \\x2e\\x2e f 0', '  a s', '  a s ', '', ' ', '  ', '   ', '\t', '  a f',
         '  a f 1', '  a f 0 ', '  a f 99999999999999999999', '  a f 18446744073709551615', '/a b', '/a ', '/\\x2e\\x2e/x', '  a\\x2f..\\x2fb f 0',
         '  a q 0', '\x00', '\xff\xfe', '  \xff f 0', '/\xff', '  a f \xff', '  a s \xff', '  a f 0 0', 'x' * 64, '0' * 64, '0' * 63, '0' * 65, 'A' * 64,
         '0' * 64 + ' ', '  a f 1 ' + '0' * 64, '  a f 1 ' + '0' * 63 + 'g', '  a f 1  ' + '0' * 64, 'DIRSIGNATURE.v1 sha512/256 block_size=1',
         '  a x 2 ' + '0' * 64 + ' ' + '1' * 64, '//', '/./.', '/a//', '  a\\ f 0', '  \\xf f 0', '  a\\x f 0', '\r', '  a f 0\r']


def mutate(rng, data):
    """a few random changes of bytes, tokens and lines"""
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        lines = data.split('\n')
        if r < 0.12 and data:
            i = rng.randrange(len(data))
            data = data[:i] + chr(rng.choice([0, 9, 10, 13, 32, 32, 47, 46, 92, 120, 48, 57, 97, 102, 103, 65, 127, 128, 255, rng.randrange(256)])) + data[i + 1:]
        elif r < 0.22 and data:
            i = rng.randrange(len(data))
            data = data[:i] + data[i + rng.choice([1, 1, 2, 64, 65]):]
        elif r < 0.32:
            i = rng.randrange(len(data) + 1)
            data = data[:i] + rng.choice([' ', '\n', '/', '..', '\\x2e', '0', 'a', '  ', '\n\n', '\xff', '\0', digest_text(rng)]) + data[i:]
        elif r < 0.42:
            data = data[:rng.randrange(len(data) + 1)]
        elif r < 0.5:
            data += rng.choice(['\n', 'x', ' ', '/\n', '  a f 0\n', digest_text(rng) + '\n', '\0'])
        elif r < 0.75:
            i = rng.randrange(1, len(lines)) if len(lines) > 1 else 0
            k = rng.random()
            if k < 0.5:
                lines.insert(i, rng.choice(NASTY))
            elif k < 0.7:
                lines[i] = rng.choice(NASTY)
            elif k < 0.8:
                del lines[i]
            elif k < 0.9:
                lines.insert(i, rng.choice(lines))
            else:
                j = rng.randrange(len(lines))
                lines[i], lines[j] = lines[j], lines[i]
            data = '\n'.join(lines)
        else:
            i = rng.randrange(len(lines))
            t = lines[i].split(' ')
            j = rng.randrange(len(t))
            k = rng.random()
            if k < 0.3:
                t.insert(j, rng.choice(['', 'a', '0', digest_text(rng), 'f', '..']))
            elif k < 0.5:
                del t[j]
            elif k < 0.8:
                t[j] = rng.choice(['', '..', '.', '/', 'a/b', 'f', 'x', 's', '0', '1', '32769', '-1', '+1', '01', '18446744073709551616',
                                   '18446744073709551615', digest_text(rng), digest_text(rng)[:-1], digest_text(rng).upper(), '\\x2e\\x2e', 'a\\x2fb', 'a\\x00', '/..', '\xe9'])
            else:
                m = rng.randrange(len(t))
                t[j], t[m] = t[m], t[j]
            lines[i] = ' '.join(t)
            data = '\n'.join(lines)
    return data


def rand_reader(rng, n=0, fail=0.0):
    r = {}
    k = rng.random()
    if k < 0.5:
        r['chunk'] = rng.choice([1, 2, 3, 7, 16, 63, 64, 65, 100])
    if rng.random() < 0.35:
        r['intr'] = rng.choice([2, 3, 5])
    if rng.random() < fail:
        r['fail'] = rng.randint(0, n)
        r['once'] = rng.random() < 0.5
    return r
