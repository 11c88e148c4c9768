"""Driver: histories of immutable and mutable transactions and their parts.
Programs: lists of operations over handles, see specs/TxHeapTrace.tla."""
import itertools
from btclib import *

d = Driver()
CL = {'op': (C.COutPoint, C.CMutableOutPoint), 'in': (C.CTxIn, C.CMutableTxIn), 'out': (C.CTxOut, C.CMutableTxOut),
      'tx': (C.CTransaction, C.CMutableTransaction)}
KIND = {c: (k, bool(m)) for k in CL for m, c in enumerate(CL[k])}


def show(x):
    c = x.__class__
    if c is list or c is tuple:
        s = ','.join(show(i) for i in x)
        return '[' + s + ']' if c is list else '<' + s + '>'
    if c is C.CBlock:
        h = [le(x.nVersion, 4), x.hashPrevBlock, x.hashMerkleRoot, le(x.nTime, 4), le(x.nBits, 4), le(x.nNonce, 4)]
        # the merkle tree is a snapshot of the transactions as well
        if list(x.vMerkleTree) != merkle([t.GetHash() for t in x.vtx]):
            raise BadValue('merkle tree of other transactions')
        return 'block(%d:%s%s)' % (x.nVersion, b''.join(h[1:]).hex(), show(x.vtx))
    if c not in KIND:
        raise BadValue('what is a %s?' % c.__name__)
    k, m = KIND[c]
    t = 'M' if m else 'I'
    if k == 'op':
        return '%sop(%s:%s)' % (t, hexs(x.hash), ints(x.n))
    if k == 'in':
        return '%sin(%s:%s:%s)' % (t, show(x.prevout), hexs(x.scriptSig), ints(x.nSequence))
    if k == 'out':
        return '%sout(%s:%s)' % (t, ints(x.nValue), hexs(x.scriptPubKey))
    return '%stx(%s%s%s:%s)' % (t, show(x.vin), show(x.vout), ints(x.nLockTime), ints(x.nVersion))


def merkle(ids):
    r = list(ids)
    lv = list(ids)
    while len(lv) > 1:
        lv = [dsha(lv[i] + lv[min(i + 1, len(lv) - 1)]) for i in range(0, len(lv), 2)]
        r += lv
    return r


SCRIPTS = ('scriptSig', 'scriptPubKey')


def val(f, v):
    return CScript(bytes.fromhex(v)) if f in SCRIPTS else bytes.fromhex(v) if f == 'hash' else int(v)


ROLE = {}       # the kind of elements, by identity of the list (handles keep them alive)


def ex(prog, ev):
    ROLE.clear()
    hs = []
    kinds = []      # of handles: kind name, or 'list'
    H = lambda i: hs[i - 1]

    def kind(i):
        x = H(i)
        return 'list' if x.__class__ in (list, tuple) else 'block' if x.__class__ is C.CBlock else KIND[x.__class__][0]

    def step(o):
        e = dict(o)
        k = o['op']
        fn, pr = None, show
        if k == 'mk0':
            fn = lambda: CL[o['k']][o['m']]()
        elif k == 'mkop':
            fn = lambda: CL['op'][o['m']](bytes.fromhex(o['s']), int(o['n']))
        elif k == 'mkout':
            fn = lambda: CL['out'][o['m']](int(o['n']), CScript(bytes.fromhex(o['s'])))
        elif k == 'mkin':
            fn = lambda: CL['in'][o['m']](H(o['a']), CScript(bytes.fromhex(o['s'])), int(o['n']))
        elif k == 'mktx':
            it = iter if o['iter'] and not o['m'] else lambda x: x
            fn = lambda: CL['tx'][o['m']](it(H(o['a'])), it(H(o['b'])), int(o['n']), int(o['ver']))
        elif k == 'mkblock':
            b = bytes.fromhex(o['s'])
            fn = lambda: C.CBlock(int(o['ver']), b[:32], b[32:64], *[int.from_bytes(b[i:i + 4], 'little') for i in (64, 68, 72)], vtx=H(o['a']))
        elif k == 'list':
            fn = lambda: [H(i) for i in o['items']]
        elif k == 'from':
            c = CL[kind(o['a'])][o['m']]
            fn = lambda: getattr(c, {'op': 'from_outpoint', 'in': 'from_txin', 'out': 'from_txout', 'tx': 'from_tx'}[kind(o['a'])])(H(o['a']))
        elif k == 'get':
            fn = lambda: getattr(H(o['a']), o['f'])
        elif k == 'item':
            fn = lambda: H(o['a'])[o['i']]
        elif k == 'deser':
            fn = lambda: CL[kind(o['a'])][o['m']].deserialize(H(o['a']).serialize())
        if fn:
            r, e['out'] = call(fn, pr)
            ev.append(e)
            if e['out']['k'] != 'ok':
                return False
            hs.append(r)
            if k == 'list' and r:
                ROLE[id(r)] = KIND[r[0].__class__][0]
            if k == 'get' and o['f'] in ('vin', 'vout', 'vtx'):
                ROLE[id(r)] = {'vin': 'in', 'vout': 'out', 'vtx': 'tx'}[o['f']]
            return True
        pr = lambda x: ''
        if k == 'set':
            fn = lambda: setattr(H(o['a']), o['f'], val(o['f'], o['v']))
        elif k == 'setref':
            fn = lambda: setattr(H(o['a']), o['f'], H(o['b']))
        elif k == 'del':
            fn = lambda: delattr(H(o['a']), o['f'])
        elif k == 'append':
            fn = lambda: H(o['a']).append(H(o['b']))
        elif k == 'setitem':
            fn = lambda: H(o['a']).__setitem__(o['i'], H(o['b']))
        elif k == 'pop':
            fn = lambda: H(o['a']).pop()
        elif k == 'obs':
            fn, pr = lambda: [show(x) for x in hs], lambda x: x
        elif k == 'hash':
            fn, pr = lambda: H(o['a']).GetHash(), p_hex
        elif k == 'ser':
            fn, pr = lambda: H(o['a']).serialize(), p_hex
        elif k == 'eq':
            a, b = H(o['a']), H(o['b'])
            fn, pr = lambda: {'eq': bool(a == b), 'ne': bool(a != b), 'hash': hash(a) == hash(b)}, lambda x: x
        elif k == 'is':
            fn, pr = lambda: H(o['a']) is H(o['b']), lambda x: x
        e['out'] = call(fn, pr)[1]
        ev.append(e)
        return True

    # a program can be given as operations, or as a seed for a walk that looks at the objects there are
    ops = prog['ops']
    for o in ops:
        if not step(o):
            return
    if 'walk' in prog:
        r = random.Random(prog['walk'])
        for _ in range(prog['n']):
            o = nextop(r, hs, kind)
            if not step(o):
                return
            if o['op'] in ('set', 'setref', 'append', 'setitem', 'pop', 'del') or r.random() < .3:
                step({'op': 'obs'})
            if r.random() < .3:
                a = r.randrange(len(hs)) + 1
                if kind(a) != 'list':
                    step({'op': r.choice(['hash', 'hash', 'ser']), 'a': a})
        step({'op': 'obs'})
        for a in range(1, len(hs) + 1):
            if kind(a) != 'list':
                step({'op': 'hash', 'a': a})


FIELDS = {'op': ['hash', 'n'], 'in': ['scriptSig', 'nSequence'], 'out': ['nValue', 'scriptPubKey'], 'tx': ['nLockTime', 'nVersion'], 'block': []}
PARTS = {'op': [], 'in': ['prevout'], 'out': [], 'tx': ['vin', 'vout'], 'block': ['vtx']}


def rval(r, f):
    return {'hash': lambda: r_bytes(r, 32), 'n': lambda: r_u32(r), 'scriptSig': lambda: r_script(r, 10), 'scriptPubKey': lambda: r_script(r, 10),
            'nSequence': lambda: r_u32(r), 'nValue': lambda: r_value(r), 'nLockTime': lambda: r_u32(r), 'nVersion': lambda: r_i32(r)}[f]()


def nextop(r, hs, kind):
    m = lambda: r.random() < .6
    n = len(hs)
    by = {}
    for i in range(1, n + 1):
        k = kind(i)
        if k == 'list':
            k = 'list-' + (kind_of(hs[i - 1]) or 'any') + ('' if hs[i - 1].__class__ is list else '-t')
        by.setdefault(k, []).append(i)
    c = r.random()
    if n < 2 or c < .14:
        k = r.choice(['op', 'out', 'in', 'tx'])
        if k == 'op' and r.random() < .6:
            return {'op': 'mkop', 'm': m(), 's': r_bytes(r, 32), 'n': r_u32(r)}
        if k == 'out' and r.random() < .7:
            return {'op': 'mkout', 'm': m(), 's': r_script(r, 10), 'n': r_value(r)}
        return {'op': 'mk0', 'k': k, 'm': m()}
    if c < .2 and by.get('op'):
        return {'op': 'mkin', 'm': m(), 'a': r.choice(by['op']), 's': r_script(r, 10), 'n': r_u32(r)}
    if c < .28:
        k = r.choice(['in', 'out', 'tx'])
        if by.get(k):
            return {'op': 'list', 'items': [r.choice(by[k]) for _ in range(r.choice([1, 1, 2, 3]))]}
    if c < .36:
        li, lo = by.get('list-in', []) + by.get('list-in-t', []), by.get('list-out', []) + by.get('list-out-t', [])
        if li and lo:
            a, b = r.choice(li), r.choice(lo)
            # a mutable transaction of tuples isn't one: lists only
            mm = m() and hs[a - 1].__class__ is list and hs[b - 1].__class__ is list and a != b and hs[a - 1] is not hs[b - 1]
            return {'op': 'mktx', 'm': mm, 'a': a, 'b': b, 'n': r_u32(r), 'ver': r_i32(r), 'iter': r.random() < .3}
    if c < .39 and by.get('list-tx'):
        return {'op': 'mkblock', 'a': r.choice(by['list-tx']), 'ver': r_i32(r), 's': r_bytes(r, 76)}
    objs = [i for i in range(1, n + 1) if kind(i) in CL]
    if c < .55 and objs:
        return {'op': 'from', 'm': m(), 'a': r.choice(objs)}
    if c < .58 and objs:
        return {'op': 'deser', 'm': m(), 'a': r.choice(objs)}
    if c < .68:
        a = r.randrange(n) + 1
        k = kind(a)
        if k == 'list' and len(hs[a - 1]):
            return {'op': 'item', 'a': a, 'i': r.randrange(len(hs[a - 1]))}
        if k != 'list' and PARTS[k]:
            return {'op': 'get', 'a': a, 'f': r.choice(PARTS[k])}
    if c < .84:
        a = r.randrange(n) + 1
        k = kind(a)
        if k == 'list':
            x = hs[a - 1]
            ek = kind_of(x)
            if ek and by.get(ek):
                b = r.choice(by[ek])
                q = r.random()
                if q < .4 and len(x):
                    return {'op': 'setitem', 'a': a, 'i': r.randrange(len(x)), 'b': b}
                if q < .8 or len(x) < 2:
                    return {'op': 'append', 'a': a, 'b': b}
                return {'op': 'pop', 'a': a}
        else:
            q = r.random()
            f = FIELDS[k]
            if q < .3 and k == 'in' and by.get('op'):
                return {'op': 'setref', 'a': a, 'f': 'prevout', 'b': r.choice(by['op'])}
            if q < .3 and k == 'tx':
                f2 = r.choice(['vin', 'vout'])
                ls = by.get('list-' + {'vin': 'in', 'vout': 'out'}[f2])
                if ls:
                    return {'op': 'setref', 'a': a, 'f': f2, 'b': r.choice(ls)}
            if f and q > .95 and not hs[a - 1].__class__ in [CL[x][1] for x in CL]:
                return {'op': 'del', 'a': a, 'f': r.choice(f)}
            if f:
                g = r.choice(f)
                return {'op': 'set', 'a': a, 'f': g, 'v': rval(r, g)}
    a = r.randrange(n) + 1
    same = [i for i in range(1, n + 1) if kind(i) == kind(a) and kind(a) in CL]
    if same:
        return {'op': r.choice(['eq', 'eq', 'is']), 'a': a, 'b': r.choice(same)}
    return {'op': 'obs'}


def kind_of(x):
    """what a list is a list of"""
    return ROLE.get(id(x))


def mapped(p):
    """the same with the list operations a transaction takes: handles move"""
    ops, mp, n = [], {}, 0
    made = 0
    for o in p:
        o = dict(o)
        for f in 'ab':
            if o[f]:
                o[f] = mp[o[f]]
        if o['op'] == 'mktx':
            ops += [{'op': 'list', 'items': [o['a']]}, {'op': 'list', 'items': []},
                    {'op': 'mktx', 'm': o['m'], 'a': made + 1, 'b': made + 2, 'n': '0', 'ver': '1', 'iter': False}]
            made += 3
            n += 1
            mp[n] = made
        elif o['op'] in ('set', 'setref', 'append'):
            ops.append(o)
        else:
            if o['op'] == 'mkin':
                o = {'op': 'mkin', 'm': o['m'], 'a': o['a'], 's': '', 'n': '7'}
            ops.append(o)
            made += 1
            n += 1
            mp[n] = made
        ops.append({'op': 'obs'})
    return {'ops': ops, 'walk': 0, 'n': 0}


def own():
    r = d.rng('txheap')
    # several made of nothing, and what happens to one
    for k in ('tx', 'in', 'op', 'out'):
        for ms in ((1, 1), (0, 1), (1, 0), (0, 0)):
            ops = [{'op': 'mk0', 'k': k, 'm': bool(m)} for m in ms] + [{'op': 'mk0', 'k': 'in', 'm': True}, {'op': 'mk0', 'k': 'out', 'm': True}]
            n = 4
            if k == 'tx':
                for a in (1, 2):
                    ops += [{'op': 'get', 'a': a, 'f': 'vin'}, {'op': 'get', 'a': a, 'f': 'vout'}]
                if ms[0]:
                    ops += [{'op': 'append', 'a': 5, 'b': 3}, {'op': 'append', 'a': 6, 'b': 4}]
                n = 8
            elif k == 'in':
                ops += [{'op': 'get', 'a': a, 'f': 'prevout'} for a in (1, 2)]
                if ms[0]:
                    ops += [{'op': 'set', 'a': 5, 'f': 'n', 'v': '7'}, {'op': 'set', 'a': 1, 'f': 'scriptSig', 'v': '51'}]
                n = 6
            elif ms[0]:
                ops += [{'op': 'set', 'a': 1, 'f': FIELDS[k][1], 'v': '51'}]
            ops += [{'op': 'obs'}, {'op': 'is', 'a': 1, 'b': 2}]
            ops += [{'op': 'mk0', 'k': k, 'm': m} for m in (True, False)] + [{'op': 'obs'}]
            ops += [{'op': x, 'a': a} for a in (1, 2, n + 1, n + 2) for x in ('hash', 'ser')]
            yield {'ops': ops}
    # every pattern of mutable and immutable parts, each of them changed afterwards
    for n in range(1, d.scale(5, 6)):
        for ms in itertools.product((False, True), repeat=n):
            for k in ('in', 'out', 'tx'):
                ops, h = [], 0
                if k == 'in':
                    ps = []
                    for i, m in enumerate(ms):       # and of what the inputs refer to
                        ops.append({'op': 'mkop', 'm': ms[-1 - i], 's': r_bytes(r, 32), 'n': str(i)})
                        ops.append({'op': 'mkin', 'm': m, 'a': 2 * i + 1, 's': '51', 'n': str(i)})
                    items, h = [2 * i + 2 for i in range(n)], 2 * n
                elif k == 'out':
                    ops += [{'op': 'mkout', 'm': m, 's': '51', 'n': str(i)} for i, m in enumerate(ms)]
                    items, h = [i + 1 for i in range(n)], n
                else:
                    ops += [{'op': 'mk0', 'k': 'in', 'm': False}, {'op': 'mkout', 'm': True, 's': '51', 'n': '1'}, {'op': 'list', 'items': [1]}, {'op': 'list', 'items': [2]}]
                    ops += [{'op': 'mktx', 'm': m, 'a': 3, 'b': 4, 'n': str(i), 'ver': '1', 'iter': False} for i, m in enumerate(ms)]
                    items, h = [5 + i for i in range(n)], 4 + n
                ops.append({'op': 'list', 'items': items})
                h += 1
                if k == 'tx':
                    ops.append({'op': 'mkblock', 'a': h, 'ver': '2', 's': '00' * 76})
                    ops += [{'op': 'hash', 'a': h + 1}, {'op': 'obs'}]
                    tops = [h + 1]
                    h += 1
                else:
                    ops.append({'op': 'list', 'items': []})
                    a, b = (h, h + 1) if k == 'in' else (h + 1, h)
                    mk = lambda m, it: {'op': 'mktx', 'm': m, 'a': a, 'b': b, 'n': '5', 'ver': '1', 'iter': it}
                    ops += [mk(False, False), mk(False, True), mk(True, False), {'op': 'from', 'm': False, 'a': h + 4}, {'op': 'from', 'm': True, 'a': h + 4}]
                    tops = list(range(h + 2, h + 7))
                    h += 6
                    ops += [{'op': 'hash', 'a': x} for x in tops] + [{'op': 'obs'}]
                    ops += [{'op': 'from', 'm': m, 'a': i} for i in items for m in (False, True)] + [{'op': 'obs'}]
                for i, m in zip(items, ms):
                    if k == 'in' and ms[-1 - items.index(i)]:
                        ops += [{'op': 'set', 'a': i - 1, 'f': 'n', 'v': '77'}, {'op': 'obs'}]
                    if m:
                        f = {'in': 'nSequence', 'out': 'nValue', 'tx': 'nLockTime'}[k]
                        ops += [{'op': 'set', 'a': i, 'f': f, 'v': '99'}, {'op': 'obs'}]
                ops += [{'op': x, 'a': t} for t in tops for x in ('hash', 'ser')]
                yield {'ops': ops}
    for i in range(d.scale(700, 20000)):
        ops = []
        if r.random() < .7:
            # something to start with: handles 1-2 inputs, 3-4 outputs, 5-6 lists, 7 a transaction, then its parts
            m = lambda: r.random() < .7
            for j in range(2):
                ops += [{'op': 'mk0', 'k': 'in', 'm': m()}]
            for j in range(2):
                ops += [{'op': 'mkout', 'm': m(), 's': r_script(r, 10), 'n': r_value(r)}]
            ops += [{'op': 'list', 'items': [1] + [2] * r.randrange(2)}, {'op': 'list', 'items': [4] + [3] * r.randrange(2)}]
            ops += [{'op': 'mktx', 'm': m(), 'a': 5, 'b': 6, 'n': r_u32(r), 'ver': r_i32(r), 'iter': r.random() < .2}]
            ops += [{'op': 'from', 'm': m(), 'a': 7}] if r.random() < .7 else [{'op': 'hash', 'a': 7}, {'op': 'deser', 'a': 7, 'm': m()}]
            for f in ('vin', 'vout'):
                if r.random() < .6:
                    ops += [{'op': 'get', 'a': r.choice([7, 8]), 'f': f}]
                    if r.random() < .6:
                        k = 8 + sum(o['op'] in ('get', 'item') for o in ops)
                        ops += [{'op': 'item', 'a': k, 'i': 0}]
        yield {'ops': ops, 'walk': r.randrange(2**31), 'n': r.choice([6, 12, 20])}


for name, prog in d.programs(own):
    if isinstance(prog, list):
        prog = mapped(prog)
    d.run(name, prog, ex)
d.done()
