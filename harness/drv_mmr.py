"""Driver for proofmarshal.mmr"""
import operator
from mmrlib import *

d = Driver()
MAKE = {'new', 'append', 'extend', 'extendby', 'slice', 'reload'}


def opt(x):
    return x[0] if x else None


def ex(prog, ev):
    if 'huge' in prog:
        return huge(prog, ev)
    kind = prog['kind'] if isinstance(prog, dict) else d.params.get('kind', 'u8')
    full = prog.get('full', True) if isinstance(prog, dict) else True
    ops = prog['ops'] if isinstance(prog, dict) else prog
    cls = CLS[kind]
    heap = []
    pl, pv = p_list(kind), p_val(kind)
    proj_range = p_range(kind)

    def g(i):
        return heap[i - 1]

    def enc_(o):
        e = dict(o)
        if 'vals' in e:
            e['vals'] = [enc(kind, v) for v in e['vals']]
        if 'v' in e:
            e['v'] = enc(kind, e['v'])
        return e

    def vals(o):
        vs = [val(kind, v) for v in o['vals']]
        return {'list': lambda: vs, 'tuple': lambda: tuple(vs), 'iter': lambda: iter(vs),
                'gen': lambda: (v for v in vs)}[o.get('src', 'list')]()

    def obs(op, h, fn, proj, **kw):
        ev.append(dict({'op': op, 'a': h, 'mk': False, 'out': call(fn, proj)[1]}, **kw))

    def audit(i, deep):
        m = g(i)
        obs('len', i, lambda: len(m), p_int)
        obs('list', i, lambda: list(m), pl)
        if deep:
            obs('revlist', i, lambda: list(reversed(m)), pl)
            obs('indexall', i, lambda: [m[k] for k in range(len(m))] + [m[k] for k in range(-len(m), 0)], pl)
            n = len(m)
            for k in (n, -n - 1, n + 1, 2 * n + 1, -2 * n - 2, 10**6):
                obs('index', i, lambda: m[k], pv, i=k)
            obs('shape', i, lambda: shape(m), lambda x: x)
            obs('ser', i, lambda: m.serialize(), p_hex)
            obs('perfect', i, lambda: m.is_perfect_tree(), p_truth)
        obs('hash', i, lambda: m.hash, p_hex)
        obs('datahash', i, lambda: m.data_hash, p_hex)

    for o in ops:
        op = o['op']
        if any(k in o and g(o[k]) is None for k in 'ab'):
            ev.append({'op': 'skip'})
            heap.append(None)
            continue
        a = g(o['a']) if 'a' in o else None
        b = g(o['b']) if 'b' in o else None
        e = enc_(o)
        e['mk'] = op in MAKE
        proj = proj_range
        if op == 'new':
            fn = (lambda: cls(vals(o))) if o['vals'] or o.get('src') else (lambda: cls())
        elif op == 'append':
            fn = lambda: a.append(val(kind, o['v']))
        elif op == 'extend':
            fn = lambda: a.extend(vals(o))
        elif op == 'extendby':
            fn = lambda: a.extend(b)
        elif op == 'slice':
            s, t = opt(o['start']), opt(o['stop'])
            if o['step'] == 1 and o.get('plain', True):
                fn = lambda: a[s:t]
            else:
                fn = lambda: a[s:t:o['step']]
        elif op == 'reload':
            fn = lambda: cls.deserialize(a.serialize())
        elif op == 'index':
            fn, proj = (lambda: a[o['i']]), pv
        elif op == 'contains':
            fn, proj = (lambda: val(kind, o['v']) in a), p_bool
        elif op == 'typeerror':
            fn = {'idx': lambda: a['0'], 'none': lambda: a[None], 'float': lambda: a[0.0], 'tuple': lambda: a[(0,)],
                  'slicebad': lambda: a['a':'b'],
                  'set': lambda: operator.setitem(a, 0, val(kind, 1)),
                  'del': lambda: operator.delitem(a, 0),
                  'setattr': lambda: setattr(a, o.get('attr', 'value'), val(kind, 1)),
                  'delattr': lambda: delattr(a, o.get('attr', 'value'))}[o['what']]
            proj = p_any
        elif op == 'audit':
            audit(o['a'], True)
            continue
        else:
            raise Exception(op)
        r, e['out'] = call(fn, proj)
        ev.append(e)
        if e['mk']:
            heap.append(r)
            if r is not None and full:
                audit(len(heap), True)
    # nothing obtained earlier has changed
    live = [i + 1 for i, h in enumerate(heap) if h is not None]
    for i in live:
        audit(i, not full)
    for i in live[-6:]:
        for j in live[-6:]:
            ev.append({'op': 'eq', 'a': i, 'b': j, 'mk': False, 'out': call(lambda: g(i) == g(j), p_bool)[1]})
    for i in live[:2]:
        o = CLS['u8b' if kind == 'u8' else 'u8']
        if kind in ('u8', 'u8b'):
            m = g(i)
            ev.append({'op': 'foreign', 'a': i, 'mk': False, 'out': call(lambda: o(m) == m, p_bool)[1]})
    return {'cls': cls_info(kind)}


def huge(prog, ev):
    """a very long range of equal values, sharing its halves, and more at the end"""
    kind = prog['kind']
    cls, pv = CLS[kind], p_val(kind)
    for o in prog['huge']:
        k, v, tail = o['k'], val(kind, o['v']), [val(kind, x) for x in o['tail']]
        e = dict(o, v=enc(kind, o['v']), tail=[enc(kind, x) for x in o['tail']], mk=False)

        def make():
            m = cls([v])
            for _ in range(k):
                m = cls.InnerNodeClass(m, m)
            if o['how'] == 'extend':
                return m.extend(tail)
            for x in tail:
                m = m.append(x)
            return m

        def at(m):
            r = []
            for i in o['idx']:
                try:
                    r.append([pv(m[int(i)])])
                except IndexError:
                    r.append([])
            return r

        def look():
            m = make()
            p = m.prune()
            w = at(m), at(p)
            part = [pv(x) for x in m[2**k - o['lo']:2**k + o['hi']]] if o['lo'] or o['hi'] else []
            return {'len': str(len(m)), 'perfect': m.is_perfect_tree(), 'at': w[0], 'pruned': w[1], 'reloaded': at(cls.deserialize(p.serialize())), 'part': part}
        ev.append(dict(e, op='hugelist', out=call(look, lambda x: x)[1]))
        ev.append(dict(e, op='hugehash', out=call(make, lambda m: {'hash': p_hex(m.hash), 'data': p_hex(m.data_hash)})[1]))
    return {'cls': cls_info(kind)}


def own_huge():
    r = d.rng('huge')
    for kind in ('u8', 'var', 'proof', 'digest', 'u8b'):
        os_ = []
        for k in list(range(6, 63, d.scale(3, 1))) + [15, 16, 30, 31, 32, 33, 47, 61, 62]:
            tail = [r.randrange(256) for _ in range(r.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 13, 31]))]
            n = 2**k + len(tail)
            idx = [0, 1, -1, -2, 2**k - 1, 2**k, n - 1, n, -n, -n - 1, 2**k // 2, 2**k // 2 - 1, -2**k, r.randrange(n), r.randrange(n), -r.randrange(n), 2**31, 2**32, 2**63, -2**64]
            os_.append({'k': k, 'v': r.randrange(256), 'tail': tail, 'how': r.choice(['append', 'extend']), 'idx': [str(i) for i in r.sample(idx, 12)],
                        'lo': r.randrange(9), 'hi': r.randrange(len(tail) + 1)})
        yield {'kind': kind, 'huge': os_}


def own():
    r = d.rng('mmr')
    yield from own_huge()
    # growing one by one, every older range looked at again in the end
    for kind in ('u8', 'digest', 'var', 'proof'):
        n = d.scale(20, 40) if kind == 'u8' else 10
        ops = [{'op': 'new', 'vals': []}]
        for k in range(n):
            ops.append({'op': 'append', 'a': k + 1, 'v': (k * 5 + 3) % 256})
        yield {'kind': kind, 'ops': ops}
    # every length
    for n in range(0, d.scale(70, 140)):
        yield {'kind': 'u8', 'ops': [{'op': 'new', 'vals': [(i * 3) % 256 for i in range(n)],
                                      'src': r.choice(['list', 'iter', 'gen', 'tuple'])},
                                     {'op': 'reload', 'a': 1}, {'op': 'append', 'a': 1, 'v': 7}]}
    # every slice of every small length
    for n in range(0, d.scale(10, 18)):
        ops = [{'op': 'new', 'vals': [10 + i for i in range(n)]}]
        bs = [[]] + [[i] for i in range(-n - 2, n + 3)]
        for s in bs:
            for t in bs:
                if n < 5 or r.random() < 0.5:
                    ops.append({'op': 'slice', 'a': 1, 'start': s, 'stop': t, 'step': 1, 'plain': r.random() < .7})
        yield {'kind': 'u8', 'ops': ops, 'full': False}
    # steps, types
    for n in (0, 1, 2, 5, 8):
        ops = [{'op': 'new', 'vals': list(range(n))}]
        for st in (-1, 0, 2, 3):
            for s, t in (([], []), ([0], [n]), ([1], []), ([], [0]), ([n], [0])):
                ops.append({'op': 'slice', 'a': 1, 'start': s, 'stop': t, 'step': st})
        for w in ('idx', 'none', 'float', 'tuple', 'slicebad', 'set', 'del'):
            ops.append({'op': 'typeerror', 'a': 1, 'what': w})
        for at in ('value', 'left', 'right', 'length', 'hash', 'data_hash', 'nonesuch'):
            ops.append({'op': 'typeerror', 'a': 1, 'what': 'setattr', 'attr': at})
            ops.append({'op': 'typeerror', 'a': 1, 'what': 'delattr', 'attr': at})
        yield {'kind': 'u8', 'ops': ops}
    # large ones
    for n in (255, 256, 257, 1000) + ((4096, 5000) if d.thorough else ()):
        ops = [{'op': 'new', 'vals': [(i * i + 1) % 256 for i in range(n)]}]
        for _ in range(20):
            ops.append({'op': 'index', 'a': 1, 'i': r.randrange(-n - 2, n + 2)})
        for _ in range(3):
            a = r.randrange(n)
            ops.append({'op': 'slice', 'a': 1, 'start': [a], 'stop': [min(n, a + r.randrange(100))], 'step': 1})
        ops.append({'op': 'append', 'a': 1, 'v': 9})
        yield {'kind': 'u8', 'ops': ops, 'full': False}
    # random histories; few distinct values, so duplicates are common
    for _ in range(d.scale(150, 1500)):
        kind = r.choice(['u8', 'u8', 'u8b', 'digest', 'var', 'proof'])
        top = r.choice([2, 4, 256])
        v = lambda: r.randrange(top)
        ops = [{'op': 'new', 'vals': [v() for _ in range(r.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 31, 33]))]}]
        made = 1
        size = [len(ops[0]['vals'])]
        for _ in range(r.randrange(2, 9)):
            a = r.choice([made, r.randrange(1, made + 1)])
            n = size[a - 1]
            k = r.randrange(10)
            if k < 3:
                ops.append({'op': 'append', 'a': a, 'v': v()})
                size.append(n + 1)
            elif k < 5:
                vs = [v() for _ in range(r.randrange(0, 10))]
                ops.append({'op': 'extend', 'a': a, 'vals': vs, 'src': r.choice(['list', 'iter', 'gen', 'tuple'])})
                size.append(n + len(vs))
            elif k < 8:
                bs = [[]] + [[i] for i in range(-n - 2, n + 3)]
                s, t = r.choice(bs), r.choice(bs)
                ops.append({'op': 'slice', 'a': a, 'start': s, 'stop': t, 'step': 1})
                size.append(len(range(n)[slice(opt(s), opt(t))]))
            elif k == 8:
                b = r.randrange(1, made + 1)
                if n + size[b - 1] > 100:
                    continue
                ops.append({'op': 'extendby', 'a': a, 'b': b})
                size.append(n + size[b - 1])
            else:
                ops.append({'op': 'reload', 'a': a})
                size.append(n)
            made += 1
            if r.random() < .3:
                ops.append({'op': 'contains', 'a': made, 'v': v()})
        yield {'kind': kind, 'ops': ops}


for name, prog in d.programs(own):
    d.run(name, prog, ex)
d.done()
