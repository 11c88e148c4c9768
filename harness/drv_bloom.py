"""Driver: bloom filters (C22).  Programs: lists of operations, see specs/BloomTrace.tla."""
from scriptlib import *
import hashlib
import bitcoin.bloom as BL

d = Driver()


def m_elem(x):
    if x['kind'] == 'outpoint':
        return (C.CMutableOutPoint if x['mut'] else C.COutPoint)(bytes.fromhex(x['hash']), int(x['n']))
    b = bytes.fromhex(x['data'])
    return bytearray(b) if x['kind'] == 'bytearray' else b


def view(f):
    if f.__class__ is not BL.CBloomFilter:
        raise BadValue('not a filter: %r' % (f,))
    return {'len': p_int(len(f.vData)), 'nhash': p_big(f.nHashFuncs), 'tweak': p_big(f.nTweak), 'flags': p_int(f.nFlags)}


def p_new(f):
    return dict(view(f), within=p_bool(f.IsWithinSizeConstraints()))


def ex(prog, ev):
    fs = []
    for o in prog:
        k = o['op']
        if k == 'make':         # from the design
            o = {'op': 'deser', 'h': '%02x' % o['n'] + '00' * o['n'] + '02000000' + le(o['t'] * 77777, 4).hex() + '01'}
            k = 'deser'
        elif 'e' in o:
            o = {'op': k, 'ref': o['ref'], 'elem': {'kind': 'bytes', 'data': hashlib.sha256(b'%d' % o['e']).hexdigest()}}
        if k in ('insert', 'contains', 'ser', 'same', 'within', 'copy') and not (1 <= o['ref'] <= len(fs) and 1 <= o.get('other', 1) <= len(fs)):
            ev.append({'op': 'skip'})
            continue
        e = dict(o)
        pr = p_any
        f = fs[o['ref'] - 1] if 'ref' in o else None
        if k == 'murmur':
            fn, pr = lambda: BL.MurmurHash3(int(o['seed']), bytes.fromhex(o['data'])), p_big
        elif k == 'new':
            p = int(o['num']) / int(o['den'])
            fn, pr = lambda: BL.CBloomFilter(int(o['n']), p, int(o['tweak']), o['flags']), p_new
        elif k == 'insert':
            x = m_elem(o['elem'])
            fn, pr = lambda: f.insert(x), p_none
        elif k == 'contains':
            x = m_elem(o['elem'])
            fn, pr = lambda: f.contains(x), p_bool
        elif k == 'ser':
            fn, pr = f.serialize, hexs
        elif k == 'same':
            g = fs[o['other'] - 1]
            fn, pr = lambda: f == g and not f != g, p_bool
        elif k == 'within':
            fn, pr = f.IsWithinSizeConstraints, p_bool
        elif k == 'copy':
            fn, pr = lambda: BL.CBloomFilter.deserialize(f.serialize()), view
        elif k == 'deser':
            fn, pr = lambda: BL.CBloomFilter.deserialize(bytes.fromhex(o['h'])), view
        res, e['out'] = call(fn, pr)
        if k in ('new', 'deser', 'copy'):
            e['id'] = 0
            if e['out']['k'] == 'ok':
                fs.append(res)
                e['id'] = len(fs)
        ev.append(e)


def r_elem(r):
    k = r.random()
    if k < .25:
        return {'kind': 'outpoint', 'hash': r_bytes(r, 32), 'n': str(r.choice([0, 1, 255, 2**31, 2**32 - 1, r.randrange(2**32)])), 'mut': r.random() < .5}
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 20, 32, 33, 65, r.randrange(80)] + [r.choice([255, 256, 257, 520, r.randrange(250, 700)])] * (r.random() < .3))
    return {'kind': 'bytearray' if k > .9 else 'bytes', 'data': r_bytes(r, n)}


def r_tweak(r):
    return str(r.choice([0, 1, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, r.randrange(2**32)]))


def r_new(r, big=False):
    n = r.choice([1, 1, 2, 3, 5, 10, 20, 50, 100, 1000]) if not big else r.choice([10000, 20000, 10**5, 10**6, 10**9])
    p = r.choice([.5, .1, .01, .001, .0001, 1e-6, 1e-10, r.random(), r.random() ** 4, .99, 1.0]) if n < 1000 else r.choice([.1, .01, .001, r.random(), 1e-7])
    if r.random() < .05:
        p = r.choice([1e-100, 5e-324, 1 - 2**-53, 1e-300])
    a, b = (p or .5).as_integer_ratio()
    return {'op': 'new', 'n': str(n), 'num': str(a), 'den': str(b), 'tweak': r_tweak(r), 'flags': r.choice([0, 1, 2, 3, 255])}


def r_wire(r):
    n = r.choice([0, 1, 1, 2, 3, 4, 8, 16, r.randrange(60)])
    data = r.choice([r_bytes(r, n), '00' * n, 'ff' * n, r_bytes(r, n)] + [''.join(r.choice(['00', 'ff', 'ff', r_bytes(r, 1)]) for _ in range(n)) for _ in range(4)])
    h = r.choice([0, 1, 2, 3, 5, 10, 20, 49, 50, 51, 60])
    c = '%02x' % n
    return c + data + le(h, 4).hex() + le(int(r_tweak(r)), 4).hex() + '%02x' % r.choice([0, 1, 2, 3, 255])


def progs():
    r = d.rng('bloom')
    for n in range(0, 40):
        yield [{'op': 'murmur', 'seed': str(r.choice([0, 1, 0xFBA4C795, 2**32 - 1, 2**31, r.randrange(2**32)])), 'data': x}
               for x in [r_bytes(r, n), '00' * n, 'ff' * n, r_bytes(r, n)] + [r_bytes(r, r.randrange(200)) for _ in range(2)]]
    ns = [127, 128, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 300, 511, 512, 513, 520, 521, 1000, 1023, 1024, 1025]
    for n in ns + d.scale([], [2047, 2048, 4095, 4096, 4099]):
        yield [{'op': 'murmur', 'seed': str(r.choice([0, 2**32 - 1, r.randrange(2**32)])), 'data': x} for x in (r_bytes(r, n), '00' * n)]
    yield [{'op': 'murmur', 'seed': str(r.randrange(2**32)), 'data': r_bytes(r, n)} for n in range(250, 262)]
    yield [r_new(r) for _ in range(40)] + [r_new(r, True) for _ in range(20)]
    yield [{'op': 'new', 'n': str(n), 'num': str(a), 'den': str(b), 'tweak': '0', 'flags': 0} for n in (0, 1, 2, 3) for a, b in ((1, 1), (0, 1), (2, 1), (1, 2), (-1, 2), (1, 2**60))]
    # limits
    p = []
    for n in (35999, 36000, 36001):
        for h in (49, 50, 51, 2**31 - 1):
            p.append({'op': 'deser', 'h': 'fd' + le(n, 2).hex() + '00' * n + le(h, 4).hex() + '00000000' + '00'})
            p.append({'op': 'within', 'ref': len([1 for o in p if o['op'] == 'deser'])})
    yield p
    for _ in range(d.scale(70, 1500)):
        p = [r_new(r)] if r.random() < .5 else [{'op': 'deser', 'h': r_wire(r)}]
        n = 1
        el = [r_elem(r) for _ in range(5)]
        for _ in range(r.choice([8, 16, 30])):
            k = r.random()
            if k < .08 and n < 4:
                p.append(r_new(r, r.random() < .03) if r.random() < .5 else {'op': 'deser', 'h': r_wire(r)})
                n += 1
            elif k < .18 and n < 5:
                p.append({'op': 'copy', 'ref': r.randrange(1, n + 1)})
                n += 1
            elif k < .5:
                x = r.choice(el) if r.random() < .7 else r_elem(r)
                i = r.randrange(1, n + 1)
                p += [{'op': 'insert', 'ref': i, 'elem': x}, {'op': 'contains', 'ref': i, 'elem': x}]
            elif k < .8:
                x = dict(r.choice(el)) if r.random() < .8 else r_elem(r)
                if x['kind'] == 'outpoint' and r.random() < .4:
                    x = r.choice([dict(x, n=str(int(x['n']) ^ 1)), {'kind': 'bytes', 'data': x['hash'] + le(int(x['n']), 4).hex()}])
                p.append({'op': 'contains', 'ref': r.randrange(1, n + 1), 'elem': x})
            elif k < .87:
                p.append({'op': 'same', 'ref': r.randrange(1, n + 1), 'other': r.randrange(1, n + 1)})
            elif k < .9:
                p.append({'op': 'within', 'ref': r.randrange(1, n + 1)})
            else:
                p.append({'op': 'ser', 'ref': r.randrange(1, n + 1)})
        yield p + [{'op': 'ser', 'ref': i + 1} for i in range(n)]
    # filters with some bytes full and others not
    for _ in range(d.scale(16, 300)):
        n = r.choice([1, 2, 2, 3, 4, 9])
        data = [r.choice(['00', 'ff', 'fe', '7f']) for _ in range(n)]
        if n > 1:
            data[0], data[-1] = r.choice([('ff', '00'), ('00', 'ff'), ('ff', 'ff'), ('ff', '01')])
        p = [{'op': 'deser', 'h': '%02x' % n + ''.join(data) + le(r.choice([1, 2, 3, 7]), 4).hex() + le(int(r_tweak(r)), 4).hex() + '00'}]
        for _ in range(8):
            x = r_elem(r)
            p += [{'op': 'contains', 'ref': 1, 'elem': x}] * (r.random() < .5) + [{'op': 'insert', 'ref': 1, 'elem': x}, {'op': 'contains', 'ref': 1, 'elem': x}, {'op': 'ser', 'ref': 1}]
        yield p + [{'op': 'copy', 'ref': 1}, {'op': 'contains', 'ref': 2, 'elem': x}]
    for _ in range(d.scale(3, 40)):         # filled until everything is full
        a, b = r.choice([(1, 4), (1, 50), (1, 3)])
        p = [{'op': 'new', 'n': str(r.choice([8, 12, 16])), 'num': str(a), 'den': str(b), 'tweak': r_tweak(r), 'flags': 1}]
        for _ in range(d.scale(40, 120)):
            x = r_elem(r)
            p += [{'op': 'insert', 'ref': 1, 'elem': x}, {'op': 'contains', 'ref': 1, 'elem': x}]
        yield p + [{'op': 'ser', 'ref': 1}]
    # a filter used to its capacity
    for _ in range(d.scale(2, 30)):
        n = r.choice([40, 100])
        el = [r_elem(r) for _ in range(n)]
        p = [{'op': 'new', 'n': str(n), 'num': '1', 'den': '64', 'tweak': r_tweak(r), 'flags': 0}] + [{'op': 'insert', 'ref': 1, 'elem': x} for x in el]
        yield p + [{'op': 'copy', 'ref': 1}] + [{'op': 'contains', 'ref': 2, 'elem': x} for x in el] + [{'op': 'contains', 'ref': 2, 'elem': r_elem(r)} for _ in range(20)] + [{'op': 'ser', 'ref': 2}]
    # damaged encodings
    for _ in range(d.scale(12, 200)):
        h = r_wire(r)
        p = [{'op': 'deser', 'h': h[:2 * i]} for i in r.sample(range(len(h) // 2), min(6, len(h) // 2))]
        p += [{'op': 'deser', 'h': h + r_bytes(r, r.choice([1, 4]))}, {'op': 'deser', 'h': h}]
        p += [{'op': 'deser', 'h': r.choice(['fd', 'fe', 'ff', 'fdffff', 'fe00000002', 'fe01000002', 'ff' + 'ff' * 8, '']) + r.choice(['', h])}]
        yield p


for name, p in d.programs(progs):
    d.run(name, p, ex)
d.done()
