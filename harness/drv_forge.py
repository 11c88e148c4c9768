"""Driver: forged structures, all kinds of views of them, and what they answer

A term is a node [class, fields] or an opaque pruned node [class, hash]; a
plain field is its encoding.  Views of a term are made by pruning nodes; other
terms are made by altering one field, child or variant.  Whatever the code
gives the same hash has to give the same answers.
"""
from serlib import *
from serlib import _ty
from mblib import bits_of

d = Driver()


# -- terms: ['n', class, [fields]] | ['x', class, hash]; plain field: hex ------

def ptypes(cls):
    return CT[cls]['types']


def is_node(f):
    return isinstance(f, list)


def paths(t, p=()):
    if not is_node(t):
        return
    yield p
    if t[0] == 'n':
        for i, f in enumerate(t[2]):
            yield from paths(f, p + (i,))


def at(t, p):
    for i in p:
        t = t[2][i]
    return t


def put(t, p, new):
    if not p:
        return new
    fs = list(t[2])
    fs[p[0]] = put(fs[p[0]], p[1:], new)
    return ['n', t[1], fs]


def head(cls, ty, pruned):
    """union number, marker, variant"""
    c = CT[cls]
    b = b''
    if ty['u']:
        b += leb([c['base'] in (u, CT[u]['base'] if u in CT else u) or cls == u for u in ty['us']].index(True))
    b += b'\xff' if pruned else b'\x00'
    if c['var'] >= 0:
        b += leb(c['var'])
    return b


def encode(t, ty, hide=None, p=()):
    """hide: {path: data hash} of the nodes to prune"""
    if not is_node(t):
        return bytes.fromhex(t)
    if t[0] == 'x':
        return head(t[1], ty, True) + bytes.fromhex(t[2])
    if hide and p in hide:
        return head(t[1], ty, True) + hide[p]
    return head(t[1], ty, False) + b''.join(encode(f, ft, hide, p + (i,)) for i, (f, ft) in enumerate(zip(t[2], ptypes(t[1]))))


# -- what is asked ----------------------------------------------------------

def plain_text(t):
    def f(v):
        if isinstance(v, P.Proof):
            return v.__class__.__name__ + ':' + p_hex(v.hash)
        return text(t, v)
    return f


def ask(ev, x, keys, seen):
    """everything about x and what can be reached from it"""
    todo = [x]
    n = 0
    while todo and n < 12:
        o = todo.pop(0)
        n += 1
        name = NAME_OF.get(o.__class__)
        if name is None:
            raise Exception('unknown class %r' % o.__class__)
        _, h = call(lambda: o.hash, p_hex)
        if h['k'] != 'ok':
            ev.append({'op': 'hash', 'what': 'hash', 'h': '', 'stmt': '', 'absent': '', 'num': 0, 'len': -1, 'out': h})
            continue
        h = h['v']

        def stmt(s, what, fn, proj, absent='', num=0):
            r, out = call(fn, proj)
            if out['k'] == 'exc':
                out['v'] = ''
            ev.append({'op': 'ask', 'what': what, 'h': h, 'stmt': s, 'absent': absent, 'num': num,
                       'len': min(int(out['v']), 2**31 - 1) if what == 'len' and out['k'] == 'ok' else -1, 'out': out})
            return r if out['k'] == 'ok' else None

        base = CT[name]['base']
        stmt('class', 'class', lambda: name, p_str)
        for a, ft in zip(CT[name]['attrs'], ptypes(name)):
            r = stmt('field ' + a, 'field', lambda: getattr(o, a), plain_text(ft))
            if isinstance(r, P.Proof):
                todo.append(r)
        if base in VT and base[0] == 'M':
            vt = ptypes(base + 'L')[0]
            pv = plain_text(vt)
            stmt('len', 'len', lambda: len(o), p_big)
            for i in range(-3, 6):
                stmt('get %d' % i, 'get' if i >= 0 else 'getneg', lambda: o[i], pv, 'IndexError', i)
            for i, j in ((0, 1), (1, 2), (1, 4), (0, 3), (2, 6)):
                stmt('slice %d %d' % (i, j), 'slice', lambda: o[i:j].hash, p_hex)
            stmt('iter', 'iter', lambda: list(o), lambda v: ','.join(pv(y) for y in v))
            stmt('rev', 'iter', lambda: list(reversed(o)), lambda v: ','.join(pv(y) for y in v))
            stmt('append', 'append', lambda: o.append({'u8': 7, 'vb40': b'7', 'PV': PV(n=7)}[vt['t']]).hash, p_hex)
        elif base in VT and base[0] == 'T':
            vt = ptypes(base + 'L')[1]
            pv, pk = plain_text(vt), plain_text(ptypes(base + 'L')[0])
            stmt('len', 'maplen', lambda: len(o), p_big)
            for k in keys:
                key = SER[ptypes(base + 'L')[0]['t']].deserialize(bytes.fromhex(k))
                stmt('lookup ' + k, 'lookup', lambda: o[key], pv, 'KeyError')
                stmt('remove ' + k, 'remove', lambda: o.remove(key).hash, p_hex, 'KeyError')
                stmt('put ' + k, 'put', lambda: o.put(key, PV(n=7) if vt['t'] == 'PV' else 7).hash, p_hex)
            stmt('items', 'items', lambda: list(o.items()), lambda v: ','.join(pk(a) + ':' + pv(b) for a, b in v))
            stmt('keys', 'items', lambda: list(o.keys()), lambda v: ','.join(pk(a) for a in v))
        elif base == 'GU':
            stmt('seal', 'seal', lambda: o.seal.hash, p_hex)
            stmt('prefix', 'field', lambda: o.prefix, lambda v: text(_ty('bits'), v))
    return


# -- one base term ----------------------------------------------------------

def alterations(r, t, keys):
    """terms that differ in one place"""
    ps = list(paths(t))
    for p in ps:
        n = at(t, p)
        c = n[1]
        base = CT[c]['base']
        others = [v for v in VT.get(base, []) if v != c]
        if n[0] == 'x':
            for v in others:
                yield put(t, p, ['x', v, n[2]])
            b = bytearray.fromhex(n[2])
            b[r.randrange(32)] ^= 1 << r.randrange(8)
            yield put(t, p, ['x', c, b.hex()])
            continue
        for v in others:
            # another variant over the same fields
            if ptypes(v) == ptypes(c):
                yield put(t, p, ['n', v, n[2]])
        for i, (f, ft) in enumerate(zip(n[2], ptypes(c))):
            if is_node(f):
                for j in range(i + 1, len(n[2])):
                    if is_node(n[2][j]) and n[2][j] != f and ptypes(c)[j] == ft:
                        fs = list(n[2])
                        fs[i], fs[j] = fs[j], fs[i]
                        yield put(t, p, ['n', c, fs])
                if f[0] == 'n' and f[1] == c and ptypes(c) == ptypes(f[1]):
                    # rotate: (a (b c)) <-> ((a b) c)
                    ij = [j for j, g in enumerate(ptypes(c)) if g == ft]
                    if len(ij) == 2:
                        a, b = ij
                        fs, gs = list(n[2]), list(f[2])
                        if i == a:
                            fs[a], fs[b], gs = f[2][a], f, [*f[2]]
                            gs[a], gs[b] = f[2][b], n[2][b]
                            fs[b] = ['n', c, gs]
                        else:
                            gs[a], gs[b] = n[2][a], f[2][a]
                            fs[a], fs[b] = ['n', c, gs], f[2][b]
                        yield put(t, p, ['n', c, fs])
                continue
            if ft['t'] == 'bits':
                bl = [int(b) for b in Bits_of(f)]
                alts = [bl + [0], bl + [1], bl[:-1], bl[:-1] + [1 - bl[-1]] if bl else [1], bl + [0] * (-len(bl) % 8)]
                alts = [(leb(len(b)) + pack(b)).hex() for b in alts]
            elif PT[ft['t']][0] == 'int':
                v = int(S.UInt64.deserialize(bytes.fromhex(f)))
                hi = PT[ft['t']][2]
                alts = [leb(w).hex() for w in (v + 1, v - 1, 0, hi, v ^ 2) if 0 <= w <= hi]
            elif PT[ft['t']][0] == 'tx':
                alts = [T_other(r)]
            elif PT[ft['t']][0] == 'fixed':
                alts = [k for k in keys if len(k) == len(f)][:3]
                if f:
                    b = bytearray.fromhex(f)
                    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                    alts.append(b.hex())
            else:
                alts = [r_enc(r, ft).hex()]
            for a in alts:
                if a != f:
                    fs = list(n[2])
                    fs[i] = a
                    yield put(t, p, ['n', c, fs])


def Bits_of(h):
    return BitsSerializer.deserialize(bytes.fromhex(h))


def T_other(r):
    return r_enc(r, _ty('tx')).hex()


def obj_at(o, t, p):
    for i in p:
        o = getattr(o, CT[t[1]]['attrs'][i])
        t = t[2][i]
    return o


def ex(prog, ev):
    if not isinstance(prog, dict) or 'k' in prog:
        prog = from_tlc(prog)
    r = random.Random(prog['seed'])
    t, keys = prog['term'], prog['keys']
    ty = _ty(CT[t[1]]['base'])
    cls = ALL[ty['t']]

    def views(t, k):
        full, out = call(lambda: cls.deserialize(encode(t, ty)), p_any)
        if out['k'] != 'ok':
            ev.append({'op': 'ask', 'what': 'load', 'h': '', 'stmt': 'load', 'absent': '', 'num': 0, 'len': -1, 'out': dict(out, v='')})
            return
        ask(ev, full, keys, None)
        ps = [p for p in paths(t) if at(t, p)[0] == 'n']
        for _ in range(k):
            hide = {}
            for p in r.sample(ps, r.choice([1, 1, 2, min(3, len(ps))]) if len(ps) > 1 else min(1, len(ps))):
                hide[p] = obj_at(full, t, p).data_hash
            v = cls.deserialize(encode(t, ty, hide))
            ask(ev, v, keys, None)
        # and by the code's own pruning
        if k:
            v = full.prune()
            names = CT[t[1]]['attrs'] + ['hash']
            for a in r.sample(names, min(len(names), 2)):
                o = getattr(v, a)
                if isinstance(o, P.Proof) and r.random() < .6:
                    at2 = CT[NAME_OF[o.__class__]]['attrs']
                    if at2:
                        try:
                            getattr(o, r.choice(at2))
                        except P.PrunedError:
                            pass
            try:
                b = v.serialize()
            except P.PrunedError:
                return
            ask(ev, cls.deserialize(b), keys, None)

    views(t, 3)
    alts = list(alterations(r, t, keys))
    for a in r.sample(alts, min(len(alts), prog['alts'])):
        views(a, r.choice([0, 1]))


def from_tlc(p):
    def conv(x):
        if x['k'] == 'e':
            return ['n', 'Mu8E' if mmr else 'TbitsE', []]
        if x['k'] == 'l':
            if mmr:
                return ['n', 'Mu8L', [leb(x['v']).hex()]]
            return ['n', 'TbitsL', [(leb(len(x['key'])) + pack(x['key'])).hex(), leb(x['v']).hex()]]
        if mmr:
            return ['n', 'Mu8I', [conv(x['l']), conv(x['r']), leb(x['c']).hex()]]
        return ['n', 'TbitsI', [(leb(len(x['c'])) + pack(x['c'])).hex(), conv(x['l']), conv(x['r'])]]

    def has(x, f):
        return f(x) or (x['k'] == 'i' and (has(x['l'], f) or has(x['r'], f)))
    mmr = not has(p, lambda x: 'key' in x or isinstance(x.get('c'), list))
    return {'term': conv(p), 'seed': 1, 'alts': 4, 'keys': [(leb(2) + pack(k)).hex() for k in ([0, 0], [0, 1], [1, 0], [1, 1])]}


# -- random terms -----------------------------------------------------------

def rkey(r, k, pool):
    return r.choice(pool)


def rterm(r, base, depth, pool, opaque=.12):
    if r.random() < opaque:
        return ['x', r.choice(VT.get(base, [base])), bytes(r.randrange(256) for _ in range(32)).hex()]
    if base in VT:
        vs = VT[base]
        cls = r.choice(vs) if depth else r.choice(vs[:2])
        if depth > 1 and r.random() < .5:
            cls = vs[-1]
    else:
        cls = base
    fs = []
    for n, ft in zip(CT[cls]['attrs'], ptypes(cls)):
        if ft['u']:
            fs.append(rterm(r, r.choice(ft['us']), depth - 1, pool, opaque if depth > 0 else 1))
        elif ft['t'] in PT:
            if n == 'key':
                fs.append(r.choice(pool))
            elif n == 'prefix':
                k = list(Bits_of(r.choice(pool))) if base == 'Tbits' else bits_of(bytes.fromhex(r.choice(pool)))
                k = k[:r.choice([0, 0, 1, 1, 2, 3, 8, 9])]
                fs.append((leb(len(k)) + pack([int(b) for b in k])).hex())
            elif n == 'length':
                fs.append(leb(r.choice([0, 1, 2, 2, 3, 3, 4, 5, 7, 2**32, 2**64 - 1])).hex())
            else:
                fs.append(r_enc(r, ft).hex())
        else:
            fs.append(rterm(r, CT[ft['t']]['base'] if ft['t'] in CT else ft['t'], depth - 1, pool, opaque if depth > 0 else 1 if ft['t'] in VT else opaque))
    return ['n', cls, fs]


def honest_lengths(t):
    """the same with the lengths right, where known"""
    if not is_node(t) or t[0] == 'x':
        return t, (0 if is_node(t) and t[1].endswith('E') else 1 if is_node(t) and t[1].endswith('L') else 2)
    if t[1].startswith('M') and t[1].endswith('I'):
        l, a = honest_lengths(t[2][0])
        r, b = honest_lengths(t[2][1])
        return ['n', t[1], [l, r, leb(a + b).hex()]], a + b
    return t, (0 if t[1].endswith('E') else 1)


def own():
    r = d.rng('forge')
    pools = {'Td': ['00' * 32, '80' + '00' * 31, '40' + '00' * 31, 'ff' * 32], 'Tdp': ['00' * 32, '80' + '00' * 31, 'c0' + '00' * 31],
             'Tbits': [(leb(len(k)) + pack(k)).hex() for k in ([0, 0], [0, 1], [1, 0], [1, 1], [1], [1, 1, 1] * 3)],
             'GU': ['0000', 'ffff', '8001']}
    kinds = ['Mu8', 'Mvar', 'Mproof'] * 3 + ['Td', 'Tbits', 'Tdp'] * 3 + ['GU', 'A', 'B', 'V', 'BS', 'TXP', 'TIP', 'BW'] + [n for n in TABLE if TABLE[n][1]]
    for i in range(d.scale(170, 2500)):
        k = r.choice(kinds)
        base = CT[k]['base'] if k in CT else k
        t = rterm(r, base, r.choice([1, 2, 3, 3]), pools.get(base, ['00']))
        if base[0] == 'M' and r.random() < .4:
            t = honest_lengths(t)[0]
        if t[0] == 'x':
            continue
        yield {'term': t, 'seed': r.randrange(10**9), 'alts': d.scale(9, 14), 'keys': pools.get(base, []) if base[0] == 'T' else []}


for name, prog in d.programs(own):
    d.run(name, prog, ex)
d.done()
