"""Driver for proofmarshal.proof: objects, pruning, hashes"""
import uuid
from prooflib import *

d = Driver()


def ex(prog, ev):
    if not isinstance(prog, dict):
        prog = {'ops': [{'op': 'make', 'cls': 'GL', 'args': [{'k': 'p', 'v': 1}]},
                        {'op': 'make', 'cls': 'GM', 'args': [{'k': 'o', 'h': 1}, {'k': 'p', 'v': 2}]},
                        {'op': 'make', 'cls': 'GR', 'args': [{'k': 'o', 'h': 2}, {'k': 'o', 'h': 1}, {'k': 'p', 'v': 3}]}] + prog,
                'flags': True, 'every': False}
    hs = []

    def g(i):
        return hs[i - 1]

    def name(x):
        return x.__class__.__name__

    def emit(o, fn, proj, mk=False):
        e = dict(o, mk=mk)
        r, e['out'] = call(fn, proj)
        ev.append(e)
        if mk:
            hs.append(r if isinstance(r, P.Proof) else None)
        return r

    def flags(i):
        emit({'op': 'ispruned', 'a': i}, lambda: g(i).is_pruned, p_bool)
        emit({'op': 'isfully', 'a': i}, lambda: g(i).is_fully_pruned, p_bool)

    def audit(i):
        flags(i)
        emit({'op': 'hash', 'a': i}, lambda: g(i).hash, p_hex)
        emit({'op': 'datahash', 'a': i}, lambda: g(i).data_hash, p_hex)

    for o in prog['ops']:
        op = o['op']
        if op in ('tag', 'derive', 'digest', 'tagstr'):
            t = lambda h: S.HashTag(str(uuid.UUID(h)))
            sub = lambda h: t(h) if len(h) == 32 else bytes.fromhex(h)
            if op == 'tag':
                emit(o, lambda: t(o['hex']), p_hex)
            elif op == 'derive':
                emit(o, lambda: t(o['t']).derive(sub(o['s'])), lambda x: p_hex(x) if isinstance(x, S.HashTag) else 1 / 0)
            elif op == 'digest':
                emit(o, lambda: t(o['t'])(bytes.fromhex(o['m'])).digest(), p_hex)
            else:
                emit(dict(o, str=str(uuid.UUID(o['hex']))), lambda: str(t(o['hex'])), p_str)
            continue
        used = [o[k] for k in 'ab' if k in o] + [x['h'] for x in o.get('args', []) if x['k'] == 'o']
        if any(g(i) is None for i in used):
            if op in ('make', 'prune', 'reload', 'acc'):
                ev.append({'op': 'skip'})
                hs.append(None)
            continue
        a = g(o['a']) if 'a' in o else None
        if op == 'make':
            types = [t for _, t in TABLE[o['cls']][1]]
            kw = {n: (PLAIN[t][1](x['v']) if x['k'] == 'p' else g(x['h'])) for (n, t), x in zip(TABLE[o['cls']][1], o['args'])}
            args = [{'k': 'p', 's': enc(t, x['v']), 'h': 0} if x['k'] == 'p' else {'k': 'o', 's': '', 'h': x['h']}
                    for t, x in zip(types, o['args'])]
            emit({'op': 'make', 'cls': o['cls'], 'args': args}, lambda: CLASSES[o['cls']](**kw), p_obj, True)
        elif op == 'prune':
            emit(o, lambda: a.prune(), p_obj, True)
        elif op == 'acc':
            emit(o, lambda: getattr(a, o['n']), p_attr(name(a), o['n']), True)
        elif op == 'reload':
            # what a field holds is read back through the field's declared class
            c = V if isinstance(a, V) and o.get('base') else a.__class__
            emit(o, lambda: c.deserialize(a.serialize()), p_obj, True)
        elif op == 'eq':
            emit(o, lambda: a == g(o['b']), p_bool)
        elif op == 'ne':
            emit(o, lambda: a != g(o['b']), p_bool)
        elif op == 'inset':
            emit(o, lambda: a in {g(o['b'])}, p_bool)
        elif op == 'eqother':
            emit(o, lambda: a == a.hash or a == None or a == 0, p_bool)
        elif op == 'setattr':
            emit(o, lambda: setattr(a, o['n'], 1), p_any)
        elif op == 'delattr':
            emit(o, lambda: delattr(a, o['n']), p_any)
        elif op == 'ser':
            emit(o, lambda: a.serialize(), p_hex)
        elif op in ('hash', 'datahash', 'ispruned', 'isfully'):
            at = {'hash': 'hash', 'datahash': 'data_hash', 'ispruned': 'is_pruned', 'isfully': 'is_fully_pruned'}[op]
            emit(o, lambda: getattr(a, at), p_hex if 'hash' in op else p_bool)
        else:
            raise Exception(op)
        if prog.get('flags'):
            for i in range(1, len(hs) + 1):
                if g(i) is not None:
                    flags(i)
        if prog.get('every') and hs and hs[-1] is not None:
            audit(len(hs))
    if 'noaudit' in prog:
        return {'classes': INFO}
    n0 = len(hs)
    live = [i for i in range(1, n0 + 1) if g(i) is not None]
    for i in live:
        audit(i)
    for i in live:
        emit({'op': 'ser', 'a': i}, lambda: g(i).serialize(), p_hex)
    for i in live:
        flags(i)
    # read back, everything in it tried
    for i in live[-prog.get('last', 6):]:
        emit({'op': 'reload', 'a': i}, lambda: g(i).__class__.deserialize(g(i).serialize()), p_obj, True)
        todo = [len(hs)]
        while todo and len(hs) < n0 + 150:
            j = todo.pop()
            if g(j) is None:
                continue
            audit(j)
            cls = name(g(j))
            for n in INFO[cls]['attrs'] + ['nonesuch']:
                emit({'op': 'acc', 'a': j, 'n': n}, lambda: getattr(g(j), n), p_attr(cls, n), True)
                todo.append(len(hs))
        if g(n0 + 1) is not None:
            emit({'op': 'eq', 'a': i, 'b': n0 + 1}, lambda: g(i) == g(n0 + 1), p_bool)
    return {'classes': INFO}


def rand_make(r, have):
    """have: [class names by handle]; a class whose fields can be filled"""
    while True:
        cls = r.choice([c for c in TABLE if not c.startswith('G')])
        args = []
        for n, t in TABLE[cls][1]:
            if is_plain(t):
                args.append({'k': 'p', 'v': rand_value(r, t)})
            else:
                hs = [i + 1 for i, c in enumerate(have) if c and fits(t, c)]
                if not hs:
                    break
                args.append({'k': 'o', 'h': r.choice(hs[-3:]) if r.random() < .7 else r.choice(hs)})
        else:
            return {'op': 'make', 'cls': cls, 'args': args}


def sub_class(cls, n):
    """class of a field's value, if its type says so (unions and variants: unknown)"""
    t = dict(TABLE[cls][1])[n]
    return t if not isinstance(t, list) and t in TABLE else None


def own_prune():
    r = d.rng('proof')
    for _ in range(d.scale(250, 4000)):
        ops, have = [], []
        for _ in range(r.randrange(3, 9)):
            m = rand_make(r, have)
            ops.append(m)
            have.append(m['cls'])
        nbase = len(have)
        made = {i + 1: ops[i] for i in range(nbase)}         # to know what is behind union fields
        src = {i: i for i in range(1, nbase + 1)}             # handle -> the made object it is a view of
        heavy = sorted(made, key=lambda i: -sum(x['k'] == 'o' for x in made[i]['args']))[:3]
        for _ in range(r.randrange(3, 12)):
            live = [i + 1 for i, c in enumerate(have) if c]
            x = r.random()
            views = [i for i in live if i > nbase]
            if x < .25 or not views:
                a = r.choice(heavy if r.random() < .6 or not views else views)
                ops.append({'op': 'prune', 'a': a})
                have.append(have[a - 1])
                src[len(have)] = src[a]
            elif x < .75:
                a = r.choice(views[-4:])
                cls = have[a - 1]
                if not INFO[cls]['attrs']:
                    continue
                k = r.randrange(len(INFO[cls]['attrs']))
                ops.append({'op': 'acc', 'a': a, 'n': INFO[cls]['attrs'][k]})
                v = made[src[a]]['args'][k]
                have.append(have[src[v['h']] - 1] if v['k'] == 'o' else None)
                if v['k'] == 'o':
                    src[len(have)] = src[v['h']]
            elif x < .82:
                a = r.choice(views)
                ops.append({'op': 'reload', 'a': a, 'base': r.random() < .5})
                have.append(have[a - 1])
                src[len(have)] = src[a]
            elif x < .88:
                a = r.choice(live)
                # a new object around what there is, pruned or not
                m = rand_make(r, have)
                ops.append(m)
                have.append(m['cls'])
                made[len(have)] = m
                src[len(have)] = len(have)
            elif x < .91:
                ops.append({'op': 'acc', 'a': r.choice(views), 'n': 'nonesuch'})
                have.append(None)
            elif x < .94:
                a = r.choice(live)
                ops.append({'op': r.choice(['setattr', 'delattr']), 'a': a,
                            'n': r.choice(INFO[have[a - 1]]['attrs'] + ['hash', 'data_hash', 'is_pruned', 'nonesuch'])})
            else:
                ops.append({'op': r.choice(['hash', 'datahash', 'ser', 'isfully', 'ispruned']), 'a': r.choice(views)})
        yield {'ops': ops, 'flags': r.random() < .3, 'every': r.random() < .3, 'last': 4}


def own_commit():
    r = d.rng('commit')
    # one field differs, by the least possible: every pair compared
    for cls in TABLE:
        base = ['A', 'B', 'V0', 'V1', 'V2', 'C', 'D']
        for rep in range(d.scale(2, 12)):
            pre, have = [], []

            def need(t):
                """a handle for a field of type t"""
                names = t if isinstance(t, list) else [t]
                c = r.choice([x for n in names for x in (['V0', 'V1', 'V2'] if n == 'V' else [n])])
                if c == 'V2' and len(have) > 12:
                    c = 'V1'
                args = []
                for n, ft in TABLE[c][1]:
                    args.append({'k': 'p', 'v': rand_value(r, ft)} if is_plain(ft) else {'k': 'o', 'h': need(ft)})
                pre.append({'op': 'make', 'cls': c, 'args': args})
                have.append(c)
                return len(have)
            args = [{'k': 'p', 'v': r.choice(boundary(t))} if is_plain(t) else {'k': 'o', 'h': need(t)}
                    for n, t in TABLE[cls][1]]
            vary = []
            for k, (n, t) in enumerate(TABLE[cls][1]):
                alts = [{'k': 'p', 'v': b} for b in boundary(t)] if is_plain(t) else [{'k': 'o', 'h': need(t)} for _ in range(3)]
                for x in r.sample(alts, min(len(alts), 4)):
                    vary.append(args[:k] + [x] + args[k + 1:])
            ops = pre + [{'op': 'make', 'cls': cls, 'args': args}]
            first = len(ops)
            for v in vary:
                ops.append({'op': 'make', 'cls': cls, 'args': v})
            last = len(ops)
            ops.append({'op': 'make', 'cls': cls, 'args': args})       # equal to the first
            ops.append({'op': 'prune', 'a': first})
            ops.append({'op': 'reload', 'a': len(ops)})
            if cls == 'A':
                ops.append({'op': 'make', 'cls': 'A2', 'args': args})
                ops.append({'op': 'make', 'cls': 'A3', 'args': args})
            if cls == 'W':
                ops.append({'op': 'make', 'cls': 'W2', 'args': args})
            n = len(ops)
            if cls == 'A':
                ops += [{'op': o, 'a': a, 'b': b} for o in ('eq', 'ne', 'inset') for a in (first, n - 1, n) for b in (first, n - 1, n)]
            for i in range(first, n + 1):
                for o in ('hash', 'datahash', 'ser'):
                    ops.append({'op': o, 'a': i})
                for j in range(first, n + 1):
                    if i == first or j == i or r.random() < .25:
                        ops.append({'op': r.choice(['eq', 'ne', 'inset']), 'a': i, 'b': j})
                ops.append({'op': 'eqother', 'a': i})
                ops.append({'op': 'setattr', 'a': i, 'n': r.choice(INFO[cls]['attrs'] + ['hash'])})
            yield {'ops': ops, 'last': 2}
    # contents of adjacent fields moved across the boundary
    for cls, rows in (('P', [['', '0000'], ['00', '00'], ['0000', ''], ['01', '00'], ['0100', '']]),
                      ('Q', [[[0], '00'], [[], '0100'], [[0] * 8, '00'], [[0] * 9, ''], [[], '']]),
                      ('N', [[1, 128], [128, 1], [129, 1], [1, 129], [2**64 - 1, 0], [0, 2**64 - 1], [16384, 0], [0, 16384]])):
        ops = [{'op': 'make', 'cls': cls, 'args': [{'k': 'p', 'v': v} for v in row]} for row in rows]
        n = len(ops)
        ops += [{'op': 'eq', 'a': i, 'b': j} for i in range(1, n + 1) for j in range(1, n + 1)]
        yield {'ops': ops}
    # fields of different kinds holding equal values
    for cls in ('X', 'Y'):
        ops = []
        for dg, two, n, t, bits in (('00' * 32, '0000', 0, False, []), ('01' * 32, '0101', 1, True, [0]), ('ff' * 32, 'ffff', 1, False, [1]),
                                    ('00' * 31 + '01', '0001', 0, True, [1] * 9), (r.randbytes(32).hex(), r.randbytes(2).hex(), 127, True, [0] * 16)):
            v = {'dg': dg, 'vb3': dg, 'vb': two, 'f2': two, 'f0': '', 'u8': n, 'u32': n, 'u64': n, 'bool': t, 'bits': bits}
            ops.append({'op': 'make', 'cls': cls, 'args': [{'k': 'p', 'v': v[ft]} for _, ft in TABLE[cls][1]]})
            ops.append({'op': 'make', 'cls': cls, 'args': [{'k': 'p', 'v': '' if ft == 'vb' else v[ft]} for _, ft in TABLE[cls][1]]})
        n = len(ops)
        for i in range(1, n + 1):
            ops += [{'op': o, 'a': i} for o in ('hash', 'datahash', 'ser')]
            ops += [{'op': 'eq', 'a': i, 'b': j} for j in range(1, n + 1)]
        yield {'ops': ops, 'last': 10}
    # tags alike but for one byte, derived with the same, and the same with those
    h = bytearray(r.randbytes(16))
    near = []
    for i in range(16):
        m = bytearray(h)
        m[i] ^= 1 << r.randrange(8)
        near.append(bytes(m).hex())
    h = bytes(h).hex()
    yield {'ops': [{'op': 'tag', 'hex': x} for x in near] + [{'op': 'derive', 't': x, 's': h} for x in [h] + near] +
           [{'op': 'derive', 't': h, 's': x} for x in near] + [{'op': 'derive', 't': x, 's': y} for x in near[::3] for y in near[::5]] +
           [{'op': 'digest', 't': x, 'm': '00'} for x in near] + [{'op': 'derive', 't': x, 's': x} for x in near]}
    # hash tags
    for _ in range(d.scale(20, 200)):
        h = lambda: r.choice(['00' * 16, 'ff' * 16, '%032x' % r.getrandbits(128)])
        ts = [h() for _ in range(3)]
        ops = []
        for t in ts:
            ops += [{'op': 'tag', 'hex': t}, {'op': 'tagstr', 'hex': t},
                    {'op': 'digest', 't': t, 'm': bytes(r.randrange(256) for _ in range(r.choice([0, 1, 16, 31, 32, 33, 64, 200]))).hex()}]
            for s in ts:
                ops.append({'op': 'derive', 't': t, 's': s})
        # of a text of any length, alike but for one byte too
        long = bytearray(r.randrange(256) for _ in range(r.choice([1, 15, 17, 31, 32, 33, 48, 64, 100])))
        for cut in sorted({0, len(long), len(long) - 1, r.randrange(len(long))}):
            ops.append({'op': 'derive', 't': ts[0], 's': bytes(long[:cut]).hex()})
        for at in sorted({0, len(long) - 1, r.randrange(len(long))}):
            m = bytearray(long)
            m[at] ^= 1 << r.randrange(8)
            ops.append({'op': 'derive', 't': ts[0], 's': bytes(m).hex()})
        yield {'ops': ops}
    # messages of every length
    for lens in (range(0, 70), range(70, 140), (190, 191, 192, 193, 247, 248, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025)):
        t = '%032x' % r.getrandbits(128)
        yield {'ops': [{'op': k, 't': t, x: r.randbytes(n).hex()} for n in lens for k, x in (('digest', 'm'), ('derive', 's'))]}
    # many of one tag
    t = '%032x' % r.getrandbits(128)
    yield {'ops': [{'op': 'derive', 't': t, 's': (b'%d' % i).hex()} for i in range(d.scale(600, 6000))]}


for name_, prog_ in d.programs({'prune': own_prune, 'commit': own_commit}[d.params['suite']]):
    d.run(name_, prog_, ex)
d.done()
