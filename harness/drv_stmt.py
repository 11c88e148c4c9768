"""Driver: statements on ranges and maps, on pruned copies, on what is read back from them"""
import itertools
from mblib import *

d = Driver()
NEW = {'mmr', 'mb', 'prune', 'reload', 'append2', 'put2', 'remove2', 'slice2'}
GONE = {'mmr': [], 'mb': [], 'append2': False, 'put2': False}


def ex(prog, ev):
    t, kind = prog['t'], prog['kind']
    hs = []
    if t == 'mmr':
        cls, vk, u, info = CLS[kind], kind, None, cls_info(kind)
    else:
        cls, vk, u, info = BCLS[kind], KV[kind][1], Universe(kind, prog['keys']), bcls_info(kind)
    pv = p_val(vk)
    def V(v, gone=False):
        # a value that was pruned away altogether
        return PV.deserialize(val(vk, v).prune().serialize()) if gone else val(vk, v)

    def g(i):
        return hs[i - 1]

    def p_hash(x):
        if not isinstance(x, cls):
            raise BadValue('not of this class: %r' % (x.__class__,))
        return p_hex(x.hash)

    ident = lambda x: x

    def do(o):
        op = o['op']
        if any(k in o and g(o[k]) is None for k in 'ab'):
            if op in NEW:
                ev.append({'op': 'skip'})
                hs.append(None)
            return
        a = g(o['a']) if 'a' in o else None
        e, proj = dict(o), ident
        if op in GONE:
            e.setdefault('gone', GONE[op])
        if op == 'mmr':
            e['vals'] = [enc(vk, v) for v in o['vals']]
            fn, proj = (lambda: cls([V(v, i + 1 in e['gone']) for i, v in enumerate(o['vals'])])), p_hash
        elif op == 'mb':
            e['items'] = [[k, enc(vk, v)] for k, v in o['items']]
            fn, proj = (lambda: cls([(u.key(k), V(v, k in e['gone'])) for k, v in o['items']])), p_hash
        elif op == 'prune':
            fn, proj = (lambda: a.prune()), p_hash
        elif op == 'reload':
            fn, proj = (lambda: cls.deserialize(a.serialize())), p_hash
        elif op == 'append2':
            e['val'] = enc(vk, o['val'])
            fn, proj = (lambda: a.append(V(o['val'], e['gone']))), p_hash
        elif op == 'put2':
            e['v'] = enc(vk, o['v'])
            fn, proj = (lambda: a.put(u.key(o['k']), V(o['v'], e['gone']))), p_hash
        elif op == 'remove2':
            fn, proj = (lambda: a.remove(u.key(o['k']))), p_hash
        elif op == 'slice2':
            fn, proj = (lambda: a[o['i']:o['j']]), p_hash
        elif op == 'flag':
            fn = lambda: p_bool(a.is_pruned)
        elif op == 'hash':
            fn, proj = (lambda: a.hash), p_hex
        elif op == 'get':
            fn = lambda: pv(a[o['i']])
        elif op == 'len':
            fn = lambda: p_int(len(a))
        elif op == 'iter':
            fn = lambda: [pv(v) for v in a]
        elif op == 'rev':
            fn = lambda: [pv(v) for v in reversed(a)]
        elif op == 'append':
            e['val'] = enc(vk, o['val'])
            fn = lambda: p_hash(a.append(V(o['val'])))
        elif op == 'slice':
            fn = lambda: p_hash(a[o['i']:o['j']])
        elif op == 'lookup':
            fn = lambda: pv(a[u.key(o['k'])])
        elif op == 'items':
            fn = lambda: [[u.p_key(k), pv(v)] for k, v in a.items()]
        elif op == 'put':
            e['v'] = enc(vk, o['v'])
            fn = lambda: p_hash(a.put(u.key(o['k']), V(o['v'])))
        elif op == 'remove':
            fn = lambda: p_hash(a.remove(u.key(o['k'])))
        elif op == 'subset':
            fn = lambda: bool(a.issubset(g(o['b'])))
        else:
            raise Exception(op)
        r, e['out'] = call(fn, proj)
        ev.append(e)
        if op in NEW:
            hs.append(r)

    for o in prog['ops']:
        do(o)
    return {'cls': info, 'universe': u.table if u else []}


def stmts(r, t, n, nk, own):
    """one random statement; n: list length"""
    if t == 'mmr':
        x = r.random()
        if x < .55:
            return {'op': 'get', 'i': r.choice([r.randrange(-n, n) if n else 0] * 6 + [n, -n - 1])}
        if x < .7:
            return {'op': r.choice(['len', 'iter', 'rev'])}
        if x < .85 or not own:
            i, j = sorted([r.randrange(n + 1), r.randrange(n + 1)])
            return {'op': 'slice', 'i': i, 'j': j}
        return {'op': 'append', 'val': r.randrange(4)}
    x = r.random()
    if x < .7:
        return {'op': 'lookup', 'k': r.randrange(1, nk + 1)}
    if x < .76:
        return {'op': 'items'}
    if x < .86:
        return {'op': 'put', 'k': r.randrange(1, nk + 1), 'v': 3}
    return {'op': 'remove', 'k': r.randrange(1, nk + 1)}


EXACT = {'get', 'len', 'iter', 'rev', 'lookup', 'items'}


def ask_all(t, n, nk, h):
    if t == 'mmr':
        return [dict(o, a=h) for o in [{'op': 'hash'}, {'op': 'len'}] + [{'op': 'get', 'i': i} for i in range(-1, n + 1)] +
                [{'op': 'iter'}, {'op': 'rev'}]]
    return [dict(o, a=h) for o in [{'op': 'hash'}] + [{'op': 'lookup', 'k': k} for k in range(1, nk + 1)] + [{'op': 'items'}]]


def make(t, r, n, nk, kind):
    if t == 'mmr':
        return {'op': 'mmr', 'vals': [r.randrange(5) for _ in range(n)]}
    ks = sorted(r.sample(range(1, nk + 1), n))
    return {'op': 'mb', 'items': [[k, r.randrange(4)] for k in ks]}


def sets_of_statements(r):
    """every set of reads (up to a size) on small structures, then everything tried"""
    for n in range(0, d.scale(6, 8)):
        for kind in ('u8', 'proof'):
            for size in range(0, 3):
                for iset in itertools.combinations(range(n), size):
                    ops = [{'op': 'mmr', 'vals': list(range(n))}, {'op': 'prune', 'a': 1}]
                    ops += [{'op': 'get', 'a': 2, 'i': i} for i in iset]
                    ops += [{'op': 'reload', 'a': 2}] + ask_all('mmr', n, 0, 3)
                    yield {'t': 'mmr', 'kind': kind, 'ops': ops}
    keys = ['00' * 32, '00' * 31 + '01', '80' + '00' * 31, '40' + '00' * 31]
    for kind in ('d', 'dp'):
        for n in range(0, 5):
            for ks in itertools.combinations(range(1, 5), n):
                for size in range(0, 3):
                    for q in itertools.combinations(range(1, 5), size):
                        ops = [{'op': 'mb', 'items': [[k, k] for k in ks]}, {'op': 'prune', 'a': 1}]
                        ops += [{'op': 'lookup', 'a': 2, 'k': k} for k in q]
                        ops += [{'op': 'reload', 'a': 2}] + ask_all('mb', n, 4, 3)
                        yield {'t': 'mb', 'kind': kind, 'keys': keys, 'ops': ops}


def hollow(r):
    """ranges and maps of which some values were pruned away before, among equal ones that weren't"""
    from drv_keys import keys_for
    for _ in range(d.scale(120, 1500)):
        t = r.choice(['mmr', 'mb'])
        keys, nk = [], 0
        few = r.choice([1, 2, 3])
        v = lambda: r.randrange(few)
        p = r.choice([.2, .5])
        if t == 'mmr':
            n = r.choice([0, 1, 2, 3, 4, 5, 8, 11])
            ops = [{'op': 'mmr', 'vals': [v() for _ in range(n)], 'gone': [i + 1 for i in range(n) if r.random() < p]}]
        else:
            nk = r.choice([1, 2, 3, 5])
            keys = keys_for(r, 'dp', nk)
            ks = r.sample(range(1, nk + 1), r.randrange(nk + 1))
            ops = [{'op': 'mb', 'items': [[k, v()] for k in ks], 'gone': [k for k in ks if r.random() < p]}]
        ln = {1: len(ops[0].get('vals', []))}
        nh = 1
        for _ in range(r.randrange(2, 9)):
            a = r.randrange(1, nh + 1)
            x = r.random()
            if x < .15:
                ops.append({'op': 'reload', 'a': a})
                n = ln[a]
            elif t == 'mmr' and x < .7:
                ops.append({'op': 'append2', 'a': a, 'val': v(), 'gone': r.random() < p})
                n = ln[a] + 1
            elif t == 'mmr':
                i, j = sorted([r.randrange(ln[a] + 1), r.randrange(ln[a] + 1)])
                ops.append({'op': 'slice2', 'a': a, 'i': i, 'j': j})
                n = j - i
            elif x < .8:
                ops.append({'op': 'put2', 'a': a, 'k': r.randrange(1, nk + 1), 'v': v(), 'gone': r.random() < p})
                n = 0
            else:
                ops.append({'op': 'remove2', 'a': a, 'k': r.randrange(1, nk + 1)})
                n = 0
            nh += 1
            ln[nh] = n
        for h in range(1, nh + 1):
            ops += [{'op': 'flag', 'a': h}] + ask_all(t, ln[h], nk, h)
        views = []
        top = nh
        for h in r.sample(range(1, top + 1), min(2, top)):
            ops.append({'op': 'prune', 'a': h})
            nh += 1
            c = nh
            for _ in range(r.randrange(1, 4)):
                ops.append(dict({'op': 'get', 'i': r.randrange(ln[h])} if t == 'mmr' and ln[h] else {'op': 'lookup', 'k': r.randrange(1, nk + 1)} if t == 'mb' else {'op': 'len'}, a=c))
            ops.append({'op': 'reload', 'a': c})
            nh += 1
            ops += ask_all(t, ln[h], nk, nh)
        yield {'t': t, 'kind': 'proof' if t == 'mmr' else 'dp', 'keys': keys, 'ops': ops}


def own():
    from drv_keys import keys_for
    if 'only' in d.params:
        for p in hollow(d.rng('hollow')):
            if p['t'] == d.params['only']:
                yield p
        return
    r = d.rng('stmt')
    yield from sets_of_statements(r)
    yield from hollow(d.rng('hollow'))
    for _ in range(d.scale(300, 4000)):
        t = r.choice(['mmr', 'mb'])
        if t == 'mmr':
            kind, keys, nk = r.choice(list(CLS)), [], 0
            n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16])
        else:
            kind = r.choice(['d', 'b1', 'bits', 'dp'])
            nk = r.choice([2, 3, 5, 8])
            keys = keys_for(r, kind, nk)
            n = r.randrange(0, nk + 1)
        ops = [make(t, r, n, nk, kind)]
        nh = 1
        if t == 'mb':
            n2 = r.randrange(0, n + 1)
            ops.append({'op': 'mb', 'items': r.sample(ops[0]['items'], n2)})
            nh = 2
        own_ok = r.random() < .5
        views = []
        for _ in range(r.randrange(3, 14)):
            x = r.random()
            if x < .2 or not views:
                ops.append({'op': 'prune', 'a': r.choice([1] + views)})
                nh += 1
                views.append(nh)
            elif x < .35:
                ops.append({'op': 'reload', 'a': r.choice(views)})
                nh += 1
                views.append(nh)
            else:
                while True:
                    o = stmts(r, t, n, nk, True)
                    if own_ok or o['op'] in EXACT:
                        break
                if own_ok and t == 'mb' and r.random() < .1:
                    o = {'op': 'subset', 'b': r.choice([1, 2])}
                    ops.append(dict(o, a=r.choice([1, 2] + views)))
                else:
                    ops.append(dict(o, a=r.choice(views[-3:])))
        for v in list(views[-3:]):
            ops.append({'op': 'reload', 'a': v})
            nh += 1
            done = [o for o in ops if o.get('a') == v and o['op'] not in NEW]
            ops += [dict(o, a=nh) for o in done] + ask_all(t, n, nk, nh)
        yield {'t': t, 'kind': kind, 'keys': keys, 'ops': ops}


for name, prog in d.programs(own):
    d.run(name, prog, ex)
d.done()
