"""Driver for proofmarshal.merbinnertree"""
import operator
from mblib import *
from drv_keys import keys_for, prefix_free

d = Driver()
MAKE = {'new', 'put', 'remove', 'reload'}


def ex(prog, ev):
    if not isinstance(prog, dict):
        # enumerated: four keys, two under a common long prefix
        prog = {'kind': d.params['kind'], 'keys': d.params['keys'], 'ops': prog}
    kind = prog['kind']
    cls = BCLS[kind]
    u = Universe(kind, prog['keys'])
    vk = KV[kind][1]
    pv = p_val(vk)
    heap = []
    nk = len(u.raw)
    every = prog.get('every', True)

    def g(i):
        return heap[i - 1]

    def p_items(t):
        return [[u.p_key(k), pv(v)] for k, v in t]

    def p_tree(t):
        if not isinstance(t, cls):
            raise BadValue('not a tree: %r' % (t.__class__,))
        return p_items(t.items())

    def obs(op, h, fn, proj, **kw):
        ev.append(dict({'op': op, 'a': h, 'mk': False, 'out': call(fn, proj)[1]}, **kw))

    def audit(i, deep):
        t = g(i)
        obs('items', i, lambda: list(t.items()), p_items)
        if deep:
            obs('len', i, lambda: len(t), p_int)
            obs('keys', i, lambda: list(t.keys()), lambda x: [u.p_key(k) for k in x])
            obs('iter', i, lambda: list(t), lambda x: [u.p_key(k) for k in x])
            obs('values', i, lambda: list(t.values()), lambda x: [pv(v) for v in x])
            for k in range(1, nk + 1) if nk <= 12 else sorted(set(r0.randrange(1, nk + 1) for _ in range(12))):
                obs('lookup', i, lambda: t[u.key(k)], pv, k=k)
            obs('shape', i, lambda: bshape(t), lambda x: x)
            obs('ser', i, lambda: t.serialize(), p_hex)
        obs('hash', i, lambda: t.hash, p_hex)
        obs('datahash', i, lambda: t.data_hash, p_hex)

    ev.append({'op': 'universe'})
    r0 = d.rng('lookup')
    for o in prog['ops']:
        op = o['op']
        if any(k in o and g(o[k]) is None for k in 'ab'):
            ev.append({'op': 'skip'})
            heap.append(None)
            continue
        a = g(o['a']) if 'a' in o else None
        b = g(o['b']) if 'b' in o else None
        e = dict(o, mk=op in MAKE)
        proj = p_tree
        if op == 'new':
            e['items'] = [[k, enc(vk, v)] for k, v in o['items']]
            items = [(u.key(k), val(vk, v)) for k, v in o['items']]
            src = o.get('src', 'list')
            if src == 'tree':
                fn = lambda: cls(cls(items))
            elif src == 'othertree':
                fn = lambda: cls(OTHER[kind](items))
            elif src == 'dict' and u.kk in ('d', 'b1', 'b2'):
                fn = lambda: cls(dict(items))
            elif src == 'iter':
                fn = lambda: cls(iter(items))
            else:
                fn = lambda: cls(items)
        elif op == 'put':
            e['v'] = enc(vk, o['v'])
            fn = lambda: a.put(u.key(o['k']), val(vk, o['v']))
        elif op == 'remove':
            fn = lambda: a.remove(u.key(o['k']))
        elif op == 'reload':
            fn = lambda: cls.deserialize(a.serialize())
        elif op == 'lookup':
            fn, proj = (lambda: a[u.key(o['k'])]), pv
        elif op == 'subset':
            fn, proj = (lambda: a.issubset(b)), p_truth
        elif op == 'deephash':
            fn, proj = (lambda: a.hash), p_hex
        elif op == 'deepsubset':
            fn, proj = (lambda: a.issubset(b)), p_truth
        elif op == 'typeerror':
            other = BCLS['dp' if kind == 'd' else 'd']
            fn = {'subset': lambda: a.issubset(other()), 'set': lambda: operator.setitem(a, u.key(1), val(vk, 1)),
                  'del': lambda: operator.delitem(a, u.key(1)),
                  'setattr': lambda: setattr(a, o['attr'], 1), 'delattr': lambda: delattr(a, o['attr'])}[o['what']]
            proj = p_any
        else:
            raise Exception(op)
        raw = [None]

        def keep():
            raw[0] = fn()
            return raw[0]
        r, e['out'] = call(keep, proj)
        ev.append(e)
        if e['mk'] and r is None and isinstance(raw[0], B.MerbinnerTree):
            r = raw[0]              # not what it should be; what it commits to is looked at all the same
        if e['mk']:
            heap.append(r)
            if r is not None and every:
                audit(len(heap), True)
    live = [i + 1 for i, h in enumerate(heap) if h is not None]
    if prog.get('deep'):
        return {'cls': bcls_info(kind), 'universe': u.table}
    for i in live:
        audit(i, not every)
    for i in live[-5:]:
        for j in live[-5:]:
            ev.append({'op': 'eq', 'a': i, 'b': j, 'mk': False, 'out': call(lambda: g(i) == g(j), p_bool)[1]})
            ev.append({'op': 'subset', 'a': i, 'b': j, 'mk': False,
                       'out': call(lambda: g(i).issubset(g(j)), p_truth)[1]})
    return {'cls': bcls_info(kind), 'universe': u.table}


def clash(kind, a, b):
    if kind == 'b2':
        return a[:2] == b[:2]
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def own():
    r = d.rng('mb')
    # types, mutation attempts
    for kind in BCLS:
        ks = keys_for(r, kind, 4)
        for n in (0, 1, 3):
            ops = [{'op': 'new', 'items': [[k, k] for k in range(1, n + 1)]}]
            for w in ('subset', 'set', 'del'):
                ops.append({'op': 'typeerror', 'a': 1, 'what': w})
            for at in ('key', 'value', 'left', 'right', 'hash', 'nonesuch'):
                ops.append({'op': 'typeerror', 'a': 1, 'what': 'setattr', 'attr': at})
                ops.append({'op': 'typeerror', 'a': 1, 'what': 'delattr', 'attr': at})
            yield {'kind': kind, 'keys': ks, 'ops': ops}
    # keys that no map can hold together: one starts with the other, or they have the same bits
    for i in range(d.scale(30, 300)):
        if i % 3 == 0:
            firsts = r.sample(range(256), 3)
            kind, ks = 'b2', ['%02x%02x' % (a, b) for a in firsts for b in r.sample(range(256), 2)]
        else:
            kind, tree = 'bits', prefix_free(r, 4)
            ks = [list(x) for x in sorted(set(tuple(k[:n]) for k in tree for n in range(len(k) + 1)))]
            ks = r.sample(ks, 8) if len(ks) > 8 and r.random() < .5 else ks[:12]
        K = lambda: r.randrange(1, len(ks) + 1)
        free = lambda h, k: all(not clash(kind, u[k - 1], u[j - 1]) or j == k for j in h)
        u = sorted(ks, key=lambda k: bits_of(bytes.fromhex(k[:2]))) if kind == "b2" else sorted(ks)
        ops, has = [], []

        def make(a, k):
            ops.append({'op': 'put', 'a': a, 'k': k, 'v': r.randrange(4)})
            has.append(has[a - 1] | {k} if free(has[a - 1], k) else None)
        ops.append({'op': 'new', 'items': []})
        has.append(set())
        for _ in range(6):
            a = r.choice([i + 1 for i, h in enumerate(has) if h is not None][-3:])
            ok = [k for k in range(1, len(ks) + 1) if free(has[a - 1], k)]
            make(a, r.choice(ok) if r.random() < .7 else K())
        full = [i + 1 for i, h in enumerate(has) if h is not None]
        for a in full:
            for b in full:
                ops.append({'op': 'subset', 'a': a, 'b': b})
        for _ in range(4):
            ops.append({'op': 'remove', 'a': r.choice(full), 'k': K()})
        ops.append({'op': 'new', 'items': [[K(), 1] for _ in range(r.choice([1, 2, 3]))]})
        yield {'kind': kind, 'keys': ks, 'ops': ops}
    # as deep as it gets
    chain = ['%064x' % (1 << i) for i in range(256)]
    items = [[i + 1, i % 3] for i in range(256)]
    yield {'kind': 'd', 'keys': chain, 'deep': True, 'every': False,
           'ops': [{'op': 'new', 'items': items}, {'op': 'new', 'items': items[:-1]}, {'op': 'lookup', 'a': 1, 'k': 1},
                   {'op': 'lookup', 'a': 2, 'k': 256}, {'op': 'deephash', 'a': 1}, {'op': 'deepsubset', 'a': 2, 'b': 1}]}
    # all one-byte keys, in order and shuffled; then all but a few removed
    for kind, nk in (('b1', 256), ('d', 60), ('proof', 40)):
        ks = keys_for(r, kind, nk)
        for order in ('up', 'down', 'mix'):
            ix = list(range(1, nk + 1))
            if order == 'down':
                ix.reverse()
            elif order == 'mix':
                r.shuffle(ix)
            ops = [{'op': 'new', 'items': [[k, k % 5] for k in ix]}]
            rm = r.sample(ix, 6)
            for n, k in enumerate(rm):
                ops.append({'op': 'remove', 'a': n + 1, 'k': k})
            ops.append({'op': 'put', 'a': 1, 'k': rm[0], 'v': 77})
            yield {'kind': kind, 'keys': ks, 'ops': ops, 'every': False}
    # the same bindings by many histories: all equal in the end
    for _ in range(d.scale(60, 400)):
        kind = r.choice(list(BCLS))
        n = r.randrange(2, 8)
        ks = keys_for(r, kind, n)
        want = {k: r.randrange(4) for k in range(1, n + 1) if r.random() < .7}
        ops, ends, made = [], [], 0
        for _ in range(3):
            todo = [['put', k, v] for k, v in want.items()]
            for k in range(1, n + 1):
                if r.random() < .4:
                    todo.insert(0, ['put', k, r.randrange(4)])
                    if k not in want:
                        todo.insert(1, ['remove', k])
            r.shuffle(todo)
            ops.append({'op': 'new', 'items': [], 'src': r.choice(['list', 'iter'])})
            made += 1
            cur = {}
            def step(t):
                nonlocal made
                if t[0] == 'put':
                    ops.append({'op': 'put', 'a': made, 'k': t[1], 'v': t[2]})
                    cur[t[1]] = t[2]
                    made += 1
                elif t[1] in cur:
                    ops.append({'op': 'remove', 'a': made, 'k': t[1]})
                    del cur[t[1]]
                    made += 1
            for t in todo:
                step(t)
            for k in list(cur):
                if k not in want:
                    step(['remove', k])
            for k, v in want.items():
                if cur.get(k) != v:
                    step(['put', k, v])
            ends.append(made)
        for e in ends:
            ops.append({'op': 'reload', 'a': e})
        yield {'kind': kind, 'keys': ks, 'ops': ops, 'every': r.random() < .3}
    # random histories over several live trees
    for _ in range(d.scale(120, 1500)):
        kind = r.choice(list(BCLS))
        nk = r.choice([2, 3, 5, 8, 12])
        ks = keys_for(r, kind, nk)
        K = lambda: r.randrange(1, nk + 1)
        n = r.choice([0, 0, 1, 2, nk, nk])
        items = [[K(), r.randrange(4)] for _ in range(n)]
        ops = [{'op': 'new', 'items': items, 'src': r.choice(['list', 'iter', 'dict', 'tree', 'othertree', 'othertree'])}]
        made = 1
        has = [set(k for k, _ in items)]
        for _ in range(r.randrange(3, 14)):
            a = made if r.random() < .6 else r.randrange(1, made + 1)
            h = has[a - 1]
            x = r.random()
            if x < .5:
                k = K()
                ops.append({'op': 'put', 'a': a, 'k': k, 'v': r.randrange(4)})
                has.append(h | {k})
            elif x < .9 and h:
                k = r.choice(sorted(h)) if r.random() < .8 else K()
                ops.append({'op': 'remove', 'a': a, 'k': k})
                has.append(h - {k})
            else:
                ops.append({'op': 'reload', 'a': a})
                has.append(h)
            made += 1
            if r.random() < .4:
                ops.append({'op': 'subset', 'a': r.randrange(1, made + 1), 'b': r.randrange(1, made + 1)})
        yield {'kind': kind, 'keys': ks, 'ops': ops, 'every': r.random() < .5}


for name, prog in d.programs(own):
    d.run(name, prog, ex)
d.done()
