"""P16-P18: several indexes read together; spec/TraceMerge.tla (against spec/Merge.tla and spec/Reader.tla)
judges recorded sessions."""
import itertools, os
from . import core, trees, index, p_index
from .trees import HTS, l1

ALL = ['open', 'crash', 'end', 'group', 'seek']


def start(c):
    pool = core.Pool(core.build())
    core.log('built')
    return pool


class Merge:
    """inputs: [(data, reader)], ops as in index.Session; by: 'parsers' or 'files'"""

    def __init__(self, inputs, ops, files=None, tag=None, loose=False, share=None):
        self.share = share
        self.inputs, self.ops, self.files, self.tag, self.loose = inputs, ops, files, tag, loose

    def request(self):
        if self.ops == 'all':
            n = sum(d.count('\n') for d, _ in self.inputs) + len(self.inputs) + 8
            w = [['all', 2 * n], ['n']]
        else:
            w = index.ops_wire(self.ops)
        # keys in an order of their own
        self.keys = ['k%d' % ((i * 7 + 3) % 97) for i in range(len(self.inputs))]
        if self.share:
            self.keys = [self.keys[self.share[i % len(self.share)] % len(self.keys)] for i in range(len(self.keys))]
        if self.files is None:
            return {'op': 'merge', 'inputs': [{'data': d, 'reader': r, 'key': k} for (d, r), k in zip(self.inputs, self.keys)], 'ops': w}
        d = core.fresh('m')
        os.mkdir(d)
        fs = []
        for i, ((data, _), kind) in enumerate(zip(self.inputs, self.files)):
            p = '%s/i%d' % (d, i)
            if kind == 'ok':
                with open(p, 'wb') as f:
                    f.write(data.encode('latin-1'))
            elif kind == 'dir':
                os.mkdir(p)
            fs.append([self.keys[i], p])
        return {'op': 'fmb', 'files': fs, 'ops': w}

    def record(self, i, r):
        if 'skipped' in r:
            return None
        if 'open' not in r:
            r = {'open': None, 'res': []}
        op = r['open']
        if op is None:
            opened = 'crash'
        elif op[0] == 'e':
            opened = 'parse'
        else:
            opened = op[0]
        num = {k: n + 1 for n, k in reversed(list(enumerate(self.keys)))}
        res = []
        for v in r['res']:
            if v[0] == 'g':
                res.append({'k': 'g', 'm': [{'i': num.get(k, 0), 'ob': index.obs(e)} for k, e in v[1]]})
            else:
                res.append({'k': v[0]})
        if opened == 'ok':
            ops = [{'o': 'n'}] * len(res) if self.ops == 'all' else self.ops[:len(res)]
        else:
            ops, res = [], []
        ins = []
        for n, (data, rd) in enumerate(self.inputs):
            lx = index.lex(data, rd['fail'] if rd.get('fail', -1) >= 0 else None)
            kind = self.files[n] if self.files else 'ok'
            lx['file'] = kind
            if self.loose:
                lx = {'file': kind}
            ins.append(lx)
        return {'id': i, 'inputs': ins, 'open': opened, 'ops': ops, 'res': res, 'loose': self.loose, 'key': [num[k] for k in self.keys] if len(num) < len(self.keys) else [],
                '_raw': {'inputs': [[d[:1500], rd] for d, rd in self.inputs], 'files': self.files, 'keys': self.keys, 'open': op, 'res': core.short(r['res'], 3000),
                         'ops': self.ops if self.ops == 'all' else index.ops_wire(self.ops), 'tag': self.tag}}


def run(pool, ms):
    recs = []
    for i, (m, r) in enumerate(zip(ms, pool.map([m.request() for m in ms]))):
        rec = m.record(i, r)
        if rec:
            recs.append(rec)
    return recs


def decide(c, recs, labels, part):
    by = {r['id']: r for r in recs}
    for r in recs[:2]:
        c.sample({'inputs': core.short(r['_raw']['inputs'], 400), 'ops': core.short(r['_raw']['ops'], 150), 'results': core.short(r['_raw']['res'], 400)})
    c.count(part, results=sum(len(r['res']) for r in recs))
    for rep in c.judge('TraceMerge', index.strip(recs), part=part, shards=max(1, min(core.NPROC, len(recs) // 100 + 1))):
        if rep['why'] in labels:
            c.violation('merge: %s at %s %s' % (rep['why'], rep['op'], rep['at']), {'report': rep, 'run': by[rep['id']]['_raw']})


BAD = ['bad', '  x', '  y f', '', '  z q 0', '  z f 1', ' ', '0123', '  z f 0 0']
# keys 0..4 of the specification
DIRS = [[('d', [b'a']), ('d', [b'a', b'b']), ('d', [b'a', b'c']), ('d', [b'a!']), ('d', [b'b'])],
        [('d', []), ('d', [b'\xff']), ('d', [b'\xff', b' ']), ('d', [b'\xff', b'\xff']), ('d', [b'\xff', b'\xff', b'a'])]]


def line_of(k, p, rng):
    if k == 'd':
        return '/' + '/'.join(index.esc(x) for x in p)
    r = rng.random()
    n = index.esc(p[-1])
    return '  %s s t%d' % (n, rng.randrange(3)) if r < 0.3 else '  %s %s 0' % (n, rng.choice('fx')) if r < 0.6 else '  %s f %d %s' % (n, rng.randrange(1, 9), index.digest_text(rng))


def from_spec(c, rng, prints, every):
    ms = []
    for p in prints:
        if every > 1 and rng.randrange(every):
            continue
        ht, bs = rng.choice(HTS), rng.choice([9, 32768])
        variant = rng.randrange(4)
        inputs = []
        if variant < 2:
            u, pre, first = DIRS[variant], [], []
        else:
            # the keys are files of one directory, whose line every index has
            d = [[], [b'd']][variant - 2]
            u = [('f', d + [x]) for x in (b'a', b'a!', b'ab', b'b', b'\xff')]
            pre = [line_of('d', d, rng)]
            first = [{'o': 'n'}]
        for its in p['its']:
            body = pre + [line_of(*u[x], rng) if x >= 0 else rng.choice(BAD) for x in its]
            inputs.append(('\n'.join([index.header(ht, bs)] + body + [index.digest_text(rng)]) + '\n', index.rand_reader(rng) if rng.random() < 0.1 else {}))
        ops = first + [{'o': 'n'} if o[0] == 'n' else {'o': 'a', 'k': u[o[1]][0], 'p': [list(x) for x in u[o[1]][1]]} for o in p['ops']] + [{'o': 'n'}] * (1 + max([len(x) for x in p['its']] + [0]))
        ms.append(Merge(inputs, ops, tag='spec'))
    return ms


def related(rng, k, n=10):
    """k trees that share entries"""
    base = trees.rand_tree(rng, n=n, special=0, names=rng.choice([None, p_index.ORD]), pd=0.4, ps=0.2)

    def change(ns, r):
        out = []
        for x in ns:
            if r.random() < 0.3:
                continue
            x = dict(x)
            if x['t'] == 'd':
                x['c'] = change(x['c'], r)
                if r.random() < 0.05:
                    x = trees.F(x['n'], 0)
            elif r.random() < 0.2:
                x = trees.S(x['n'], b'other') if r.random() < 0.4 else trees.D(x['n']) if r.random() < 0.4 else trees.F(x['n'], r.choice([0, 5, 100]))
            out.append(x)
        return out
    return [change(base, rng) for _ in range(k)]


def sessions(rng, n, seek=0.5, broken=0.0, ks=(0, 1, 2, 2, 3, 3, 4, 6), files=0.1):
    ms = []
    for _ in range(n):
        k = rng.choice(ks)
        ts = related(rng, k, rng.choice([3, 8, 15]))
        if k > 1 and rng.random() < 0.1:
            ts[rng.randrange(k)] = ts[0]
        ht, bs = rng.choice(HTS), rng.choice([50, 100, 32768, (1 << 64) - 1])
        inputs, keys = [], []
        for t in ts:
            data, body = index.index_of(t, rng, ht, bs)
            keys += [{'o': 'a', 'k': kk, 'p': [list(x) for x in p]} for kk, p, _l in body]
            rd = index.rand_reader(rng) if rng.random() < 0.15 else {}
            if rng.random() < broken:
                lines = data.split('\n')
                r = rng.random()
                if r < 0.5:
                    for _i in range(rng.randint(1, 3)):
                        lines.insert(rng.randrange(1, len(lines) - 1), rng.choice(BAD))
                    data = '\n'.join(lines)
                elif r < 0.7:
                    # cut short before the footer
                    data = '\n'.join(lines[:rng.randrange(1, len(lines) - 1)]) + '\n' + rng.choice(['', '  a f 0', '/x'])
                elif r < 0.85:
                    rd = dict(rd, fail=rng.randint(len(lines[0]) + 1, max(len(lines[0]) + 1, len(data) - 67)), once=rng.random() < 0.5)
                else:
                    data += rng.choice(['x', '\n', '/zz\n', '  a f 0\n'])
            inputs.append((data, rd))
        if rng.random() < seek:
            ops = []
            for _i in range(rng.randint(1, 14)):
                r = rng.random()
                ops.append({'o': 'n'} if r < 0.4 else rng.choice(keys) if r < 0.8 and keys else p_index.rand_key(rng, keys))
            ops += [{'o': 'n'}] * rng.randint(0, 6)
        else:
            ops = 'all'
        fs = None
        # some of the keys may be the same
        share = [rng.randrange(k) for _i in range(k)] if not broken and 1 < k < 8 and rng.random() < 0.3 else None
        if rng.random() < (0.5 if share else files) and all('fail' not in rd for _, rd in inputs):
            fs = ['ok'] * k
            inputs = [(d, {}) for d, _ in inputs]
        ms.append(Merge(inputs, ops, fs, tag='random', share=share))
    return ms


def long_sessions(rng, thorough, seeks):
    """indexes of many entries, which they share for the most part"""
    ms = []
    for n in ([2000, 5000] if thorough else [900]):
        for flat in (True, False):
            inputs, keys = [], []
            for _ in range(3):
                mine = [i for i in range(n) if rng.random() < 0.8]
                # one of them stops early
                mine = mine[:n // 3] if len(inputs) == 1 else mine
                t = [trees.F(b'f%d' % i, 0) for i in mine] if flat else [trees.D(b'd%d' % i, *[trees.F(b'a', 0)] * (i % 2)) for i in mine]
                data, body = index.index_of(t, rng, 'blake2b/256', 1 << 20)
                inputs.append((data, {}))
                keys += [{'o': 'a', 'k': k, 'p': [list(x) for x in p]} for k, p, _l in body]
            ops = 'all'
            if seeks:
                # in the order of the entries for the most part
                ops = []
                for i in sorted(rng.sample(range(n), 8), key=str):
                    k = {'o': 'a', 'k': 'f', 'p': [list(b'f%d' % i)]} if flat else {'o': 'a', 'k': 'd', 'p': [list(b'd%d' % i)]}
                    ops += [k, {'o': 'n'}]
                ops.append(rng.choice(keys))
            ms.append(Merge(inputs, ops, tag='long'))
    return ms


def anything(c, pool, rng, n):
    """P11: no input may crash a merge or keep it from ending"""
    ms = []
    for _ in range(n):
        inputs = []
        for _i in range(rng.choice([1, 2, 3])):
            data, _b = p_index.good_index(rng, ht='sha512/256', bs=32768)
            if rng.random() < 0.8:
                data = index.mutate(rng, data)
            inputs.append((data, index.rand_reader(rng, len(data), 0.2)))
        ops = 'all'
        if rng.random() < 0.5:
            ops = [{'o': 'n'} if rng.random() < 0.5 else p_index.rand_key(rng, [{'k': 'd', 'p': []}, {'k': 'f', 'p': [[97]]}]) for _i in range(12)]
        ms.append(Merge(inputs, ops, tag='anything', loose=True))
    decide(c, run(pool, ms), ['crash'], 'merging anything')


def design(c):
    c.design('MCMerge', env={'DSV_OPS': 4 if c.thorough else 3, 'DSV_INPUTS': 2})
    if c.thorough:
        c.design('MCMerge', env={'DSV_OPS': 3, 'DSV_INPUTS': 3}, workers=8)


def generated(ops, inputs):
    r = core.tlc('MCMerge', 'GenMerge', env={'DSV_OPS': ops, 'DSV_INPUTS': inputs}, workers=1, heap='8g')
    if len(r.prints) < 200:
        raise core.ToolError('nothing generated')
    return r.prints


def p16(c):
    pool = start(c)
    rng = c.rng
    design(c)
    ms = []
    for p in generated(1, 3):
        if p['ops'][0][0] == 'n' and all(-1 not in x for x in p['its']):
            ms += from_spec(c, rng, [p], 1)
    for m in ms:
        m.ops = 'all'
    k = 10 if c.thorough else 1
    ms += sessions(rng, 600 * k, seek=0.0) + sessions(rng, 150 * k, seek=0.0, broken=0.5) + sessions(rng, 20 * k, seek=0.0, ks=(8, 12, 20)) + sessions(rng, 6 * k, seek=0.0, ks=(33, 40, 65, 90))
    ms = long_sessions(rng, c.thorough, False) + ms
    decide(c, run(pool, ms), ['open', 'crash', 'end', 'group'], 'merging')


def p17(c):
    pool = start(c)
    rng = c.rng
    design(c)
    sound = [p for p in generated(2, 2) if all(-1 not in x for x in p['its'])]
    ms = from_spec(c, rng, sound, 1)
    if c.thorough:
        ms += from_spec(c, rng, [p for p in generated(3, 2)], 2) + from_spec(c, rng, [p for p in generated(2, 3)], 8)
    else:
        # indexes with bad lines as well: what is lost is not only what is wanted
        ms += from_spec(c, rng, [p for p in generated(3, 1) + generated(2, 2) if any(-1 in x for x in p['its'])], 2)
    ms += sessions(rng, 6000 if c.thorough else 700, seek=1.0)
    ms += sessions(rng, 50 if c.thorough else 5, seek=1.0, ks=(17, 33, 40, 65))
    ms += sessions(rng, 2000 if c.thorough else 300, seek=1.0, broken=0.7)
    ms = long_sessions(rng, c.thorough, True) + ms
    decide(c, run(pool, ms), ALL, 'seeking')


def p18(c):
    pool = start(c)
    rng = c.rng
    design(c)
    ms = []
    # every combination of headers of up to three indexes, and single strangers among many
    heads = [('sha512/256', 32768), ('sha512/256', 4096), ('blake2b/256', 32768), ('blake3/256', 4096)]
    combos = [x for k in range(0, 4) for x in itertools.product(heads, repeat=k)]
    for k in (4, 5, 7):
        for pos in range(k):
            for a, b in itertools.permutations(heads, 2):
                combos.append(tuple(b if i == pos else a for i in range(k)))
    for a, b in itertools.combinations(heads, 2):
        combos.append((a, b) * 3)
        k = rng.choice([33, 40, 65, 90])
        pos = rng.choice([0, 31, 32, k - 1, rng.randrange(k)])
        combos += [tuple(b if i == pos else a for i in range(k)), (a,) * k]
    # block sizes that differ in some bits only
    for x in (32768 + 1, 32768 + (1 << 32), 32768 - 1, 65536, (1 << 63) + 32768):
        combos += [(heads[0], ('sha512/256', x)), (('sha512/256', x), heads[0]), (heads[0], heads[0], ('sha512/256', x))]
    for cb in combos:
        inputs = []
        for i, (ht, bs) in enumerate(cb):
            t = rng.choice([[], [trees.F(b'a', 0)], [trees.D(b'd')]])
            inputs.append((index.index_of(t, rng, ht, bs)[0], {}))
        for fs in (None, ['ok'] * len(inputs)):
            if fs is None or rng.random() < 0.3:
                ms.append(Merge(inputs, 'all', fs, tag='headers'))
    # files that cannot be opened or are no index, at every position, together with other problems
    for k in (1, 2, 3, 4):
        for pos in range(k):
            for kind in ('none', 'dir', 'malformed', 'empty', 'binary', 'cut'):
                for clash in (False, True):
                    inputs, fs = [], []
                    for i in range(k):
                        ht = 'blake2b/256' if clash and i == k - 1 and k > 1 else 'sha512/256'
                        data = index.index_of([trees.F(b'a', 0)], rng, ht, 32768)[0]
                        f = 'ok'
                        if i == pos:
                            if kind in ('none', 'dir'):
                                f, data = kind, ''
                            else:
                                data = {'malformed': rng.choice(['x\n', 'DIRSIGNATURE.v2 sha512/256 block_size=1\n', 'DIRSIGNATURE.v1 md5 block_size=1\n', 'DIRSIGNATURE.v1 sha512/256 block_size=0\n',
                                                                 'DIRSIGNATURE.v1 sha512/256\n', '/\n']), 'empty': '', 'binary': '\xff\0\xfe\n', 'cut': 'DIRSIGNATURE.v1 sha512'}[kind]
                        inputs.append((data, {}))
                        fs.append(f)
                    ms.append(Merge(inputs, 'all', fs, tag='files'))
    k = 8 if c.thorough else 1
    broken = [p for p in generated(1, 2)]
    ms += from_spec(c, rng, broken, 1)
    ms += sessions(rng, 500 * k, seek=0.4, broken=0.6, files=0.3)
    decide(c, run(pool, ms), ALL, 'blaming')
