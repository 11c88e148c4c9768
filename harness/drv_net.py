"""Driver: Bitcoin's network format.  Programs: lists of operations, see specs/NetTrace.tla."""
from btclib import *
from io import BytesIO
import bitcoin.core.serialize as BS
import bitcoin.core._bignum as BN

d = Driver()

CLS = {'outpoint': C.COutPoint, 'txin': C.CTxIn, 'txout': C.CTxOut, 'tx': C.CTransaction, 'header': C.CBlockHeader, 'block': C.CBlock}
MUT = {'outpoint': C.CMutableOutPoint, 'txin': C.CMutableTxIn, 'txout': C.CMutableTxOut, 'tx': C.CMutableTransaction}
MAKE = {'outpoint': m_outpoint, 'txin': m_txin, 'txout': m_txout, 'tx': m_tx, 'header': m_header, 'block': m_block}
PROJ = {'outpoint': j_outpoint, 'txin': j_txin, 'txout': j_txout, 'tx': j_tx, 'header': j_header, 'block': j_block}
INNER = {'points': 'outpoint', 'txins': 'txin', 'txouts': 'txout', 'txs': 'tx'}
SER = {'varint': BS.VarIntSerializer, 'bytes': BS.BytesSerializer, 'varstr': BS.VarStringSerializer,
       'u256v': BS.uint256VectorSerializer, 'intv': BS.intVectorSerialzer}


def lst(f):
    def g(x):
        if not isinstance(x, (list, tuple)):
            raise BadValue('not a list: %r' % (x,))
        return [f(i) for i in x]
    return g


SPROJ = {'varint': ints, 'bytes': hexs, 'varstr': hexs, 'u256v': lst(hexs), 'intv': lst(ints)}
SMAKE = {'varint': int, 'bytes': bytes.fromhex, 'varstr': bytes.fromhex, 'u256v': lambda v: [bytes.fromhex(h) for h in v],
         'intv': lambda v: [int(i) for i in v]}


def kind(t, mut, of):
    c = (MUT if mut else CLS)[t]

    def g(x):
        if x.__class__ is not c:
            raise BadValue('not a %s: %r' % (c.__name__, x))
        if t in ('tx', 'block') and not mut:
            for n in {'tx': ('vin', 'vout'), 'block': ('vtx',)}[t]:
                if getattr(x, n).__class__ is not tuple:
                    raise BadValue('%s is not a tuple' % n)
        return of(x)
    return g


NULL = {'hash': '00' * 32, 'n': '4294967295'}
HEAD = {'version': ('nVersion', '2', int), 'prev': ('hashPrevBlock', '00' * 32, bytes.fromhex), 'root': ('hashMerkleRoot', '00' * 32, bytes.fromhex),
        'time': ('nTime', '0', int), 'bits': ('nBits', '0', int), 'nonce': ('nNonce', '0', int)}
FIELDS = {'outpoint': {'hash': ('hash', NULL['hash'], bytes.fromhex), 'n': ('n', NULL['n'], int)},
          'txin': {'prevout': ('prevout', NULL, None), 'script': ('scriptSig', '', lambda h: CScript(bytes.fromhex(h))), 'seq': ('nSequence', '4294967295', int)},
          'txout': {'value': ('nValue', '-1', int), 'script': ('scriptPubKey', '', lambda h: CScript(bytes.fromhex(h)))},
          'tx': {'vin': ('vin', [], None), 'vout': ('vout', [], None), 'lock': ('nLockTime', '0', int), 'version': ('nVersion', '1', int)},
          'header': HEAD, 'block': dict(HEAD, vtx=('vtx', [], None))}
NONE = {t: {k: x[1] for k, x in f.items()} for t, f in FIELDS.items()}
NONE['header']['vtx'] = []


def part(t, v, mut=False):
    """made of nothing but the fields that are not what they would be anyway"""
    sub = {'prevout': lambda x: part('outpoint', x, mut), 'vin': lambda x: [part('txin', i, mut) for i in x],
           'vout': lambda x: [part('txout', i, mut) for i in x], 'vtx': lambda x: [part('tx', i) for i in x]}
    return (MUT if mut else CLS)[t](**{n: (of or sub[k])(v[k]) for k, (n, no, of) in FIELDS[t].items() if v[k] != no})


def make(t, v, mut=False):
    if t in MAKE:
        o = MAKE[t](v)
        if mut:
            o = {'outpoint': C.CMutableOutPoint.from_outpoint, 'txin': C.CMutableTxIn.from_txin, 'txout': C.CMutableTxOut.from_txout,
                 'tx': C.CMutableTransaction.from_tx}[t](o)
        return o
    if t in INNER:
        return [make(INNER[t], i, mut) for i in v]
    return SMAKE[t](v)


def enc(t, v, mut=False):
    o = make(t, v, mut)
    if t in MAKE:
        return o.serialize()
    f = BytesIO()
    if t in INNER:
        BS.VectorSerializer.stream_serialize((MUT if mut else CLS)[INNER[t]], o, f)
        return f.getvalue()
    return SER[t].serialize(o)


def read(t, f, mut=False):
    if t in MAKE:
        return (MUT if mut else CLS)[t].stream_deserialize(f)
    if t in INNER:
        return BS.VectorSerializer.stream_deserialize((MUT if mut else CLS)[INNER[t]], f)
    return SER[t].stream_deserialize(f)


def proj(t, mut=False):
    if t in MAKE:
        return kind(t, mut, PROJ[t])
    if t in INNER:
        return lst(kind(INNER[t], mut, PROJ[INNER[t]]))
    return SPROJ[t]


def extra(t, h, how, mut):
    c = (MUT if mut else CLS)[t]
    if how == 'allow':
        r = c.deserialize(h, allow_padding=True)
        return {'v': r, 'pad': None}
    try:
        return {'v': c.deserialize(h), 'pad': b''}
    except BS.DeserializationExtraDataError as e:
        return {'v': e.obj, 'pad': e.padding}


def ex(prog, ev):
    f = None
    held = {}
    for o in prog['ops']:
        e = dict(o)
        k, t, mut = o['op'], o.get('t'), bool(o.get('mut'))
        h = bytes.fromhex(o.get('h', ''))
        if k == 'enc' and 'kept' in o:
            # one object, changed and written again
            def go():
                x = make(t, o['v'], True)
                y = held.setdefault(t, x)
                if y is not x:
                    for n in [q[0] for q in FIELDS[t].values()]:
                        a = getattr(x, n)
                        if o['kept'] and a.__class__ is list:
                            getattr(y, n)[:] = a
                        else:
                            setattr(y, n, a)
                return y.serialize()
            e['out'] = call(go, p_hex)[1]
        elif k == 'enc':
            e['out'] = call(lambda: part(t, o['v'], mut).serialize() if o.get('part') else enc(t, o['v'], mut), p_hex)[1]
        elif k == 'dec':
            if t in CLS:
                e['out'] = call(lambda: (MUT if mut else CLS)[t].deserialize(h), proj(t, mut))[1]
            elif t in SER:
                e['out'] = call(lambda: SER[t].deserialize(h), proj(t))[1]
            else:
                e['out'] = call(lambda: read(t, BytesIO(h), mut), proj(t, mut))[1]
        elif k == 'extra':
            r, _ = call(lambda: (MUT if mut else CLS)[t].stream_deserialize(BytesIO(h)))

            def p(x):
                v = proj(t, mut)(x['v'])
                # with padding allowed the padding is not shown: what is left after the object's own bytes
                pad = x['pad'] if x['pad'] is not None else h[len(x['v'].serialize()) if o['how'] != 'allow' else pos:]
                return {'v': v, 'pad': p_hex(pad)}
            g = BytesIO(h)
            call(lambda: read(t, g, mut))
            pos = g.tell()
            e['out'] = call(lambda: extra(t, h, o['how'], mut), p)[1]
        elif k == 'open':
            f = BytesIO(h)
        elif k == 'next':
            e['out'] = call(lambda: read(t, f, mut), lambda x: {'v': proj(t, mut)(x), 'pos': f.tell()})[1]
            ev.append(e)
            if e['out']['k'] != 'ok':
                return
            continue
        elif k == 'again':
            def go():
                a = make(t, o['v'], mut)
                if o.get('early'):
                    a.GetHash()
                    hash(a)
                b = (MUT if mut else CLS)[t].deserialize(a.serialize())
                return {'eq': bool(a == b) and not (a != b), 'same': hash(a) == hash(b), 'h1': a.GetHash().hex(), 'h2': b.GetHash().hex(),
                        'v': proj(t, mut)(b)}
            e['out'] = call(go, lambda x: x)[1]
        elif k == 'eq':
            def go():
                a, b = make(t, o['v'], mut), make(t, o['w'], bool(o.get('mutw')))
                return {'eq': bool(a == b), 'ne': bool(a != b)}
            e['out'] = call(go, lambda x: x)[1]
        elif k == 'gethdr':
            e['out'] = call(lambda: make('block', o['v']).get_header(), kind('header', False, j_header))[1]
        elif k == 'big':
            n = int(o['n'])
            # the data is there, so only the limit can be the reason to refuse
            g = BytesIO(cs(n) + bytes(n))

            def p(x):
                if x.__class__ is not bytes or any(x[i:i + 65536].strip(b'\0') for i in range(0, len(x), 65536)):
                    raise BadValue('other bytes')
                return str(len(x))
            e['out'] = call(lambda: SER[o.get('s', 'bytes')].stream_deserialize(g), p)[1]
        elif k in ('manyw', 'manyr'):
            # n times the same element: only the prefix, the element and the number are shown
            n = int(o['n'])
            one = bts(t, [o['v']])[1:]
            if k == 'manyw':
                def p(x):
                    if x.__class__ is not bytes:
                        raise BadValue('not bytes: %r' % (x,))
                    at = len(x) - n * len(one)
                    if at < 0 or x[at:] != x[at:at + len(one)] * n:
                        raise BadValue('%d bytes' % len(x))
                    return {'head': x[:at].hex(), 'elem': x[at:at + len(one)].hex()}
                w = [make(t, [o['v']], mut)[0]] * n

                def go():
                    f = BytesIO()
                    if t in INNER:
                        BS.VectorSerializer.stream_serialize((MUT if mut else CLS)[INNER[t]], w, f)
                        return f.getvalue()
                    return SER[t].serialize(w)
                e['out'] = call(go, p)[1]
            else:
                def p(x):
                    j = proj(t, mut)(x)
                    if any(i != j[0] for i in j):
                        raise BadValue('different elements')
                    return {'n': len(j), 'v': j[:1]}
                g = BytesIO(cs(n) + one * (n - int(o['short'])))
                e['out'] = call(lambda: read(t, g, mut), p)[1]
        elif k == 'bn2vch':
            e['out'] = call(lambda: BN.bn2vch(int(o['v'])), p_hex)[1]
        elif k == 'bn2mpi':
            e['out'] = call(lambda: BN.bn2mpi(int(o['v'])), p_hex)[1]
        elif k in ('vch2bn', 'mpi2bn'):
            e['out'] = call(lambda: getattr(BN, k)(h), lambda x: str(x) if x is None else ints(x))[1]
        ev.append(e)


# -- values -----------------------------------------------------------------

def r_of(r, t):
    if t in INNER:
        return [r_of(r, INNER[t]) for _ in range(r.choice([0, 1, 2, 3]))]
    return {'outpoint': r_outpoint, 'txin': r_txin, 'txout': r_txout, 'tx': r_tx, 'header': r_header, 'block': r_block,
            'varint': lambda r: str(r.choice([0, 1, 252, 253, 254, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**64 - 1, r.randrange(2**r.randrange(1, 65))])),
            'bytes': lambda r: r_bytes(r, r.choice([0, 1, 2, 40, 252, 253, 254, 300])),
            'varstr': lambda r: r_bytes(r, r.choice([0, 1, 2, 40, 252, 253])),
            'u256v': lambda r: [r_bytes(r, 32) for _ in range(r.choice([0, 1, 2, 5]))],
            'intv': lambda r: [r_i32(r) for _ in range(r.choice([0, 1, 2, 5]))]}[t](r)


def bts(t, v):
    """the bytes, computed independently"""
    vec = lambda f, x: cs(len(x)) + b''.join(f(i) for i in x)
    return {'outpoint': b_outpoint, 'txin': lambda i: b_outpoint(i['prevout']) + b_var(i['script']) + le(int(i['seq']), 4),
            'txout': lambda o: le(int(o['value']), 8) + b_var(o['script']), 'tx': b_tx, 'header': b_header, 'block': b_block,
            'varint': lambda v: cs(int(v)), 'bytes': b_var, 'varstr': b_var, 'u256v': lambda v: vec(bytes.fromhex, v),
            'intv': lambda v: vec(lambda i: le(int(i), 4), v)}[t](v) if t not in INNER else vec(lambda i: bts(INNER[t], i), v)


TYPES = sorted(CLS) + sorted(SER) + sorted(INNER)


def spoil(r, b):
    """bytes near b"""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(6)
        if k == 0:
            b = b[:r.randrange(len(b) + 1)]
        elif k == 1:
            b += bytes(r.randrange(256) for _ in range(r.choice([1, 1, 2, 9])))
        elif k == 2 and b:
            b[r.randrange(len(b))] = r.choice([0, 1, 252, 253, 254, 255, r.randrange(256)])
        elif k == 3 and b:
            del b[r.randrange(len(b))]
        elif k == 4 and b:
            b.insert(r.randrange(len(b)), r.randrange(256))
        elif b:
            # a length in a wider form, or a huge one
            i = r.randrange(len(b))
            b[i:i + 1] = r.choice([b'\xfd' + bytes([b[i], 0]), b'\xfe' + bytes([b[i], 0, 0, 0]), b'\xff' + bytes([b[i]]) + bytes(7),
                                   b'\xfe\x00\x00\x00\x02', b'\xfe\x01\x00\x00\x02', b'\xff' + b'\xff' * 8, b'\xfd\xff\xff'])
    return bytes(b)


def wrong(r, t, v):
    """v with one field that has no representation"""
    v = json.loads(json.dumps(v))
    u32 = [str(2**32), '-1', str(2**40)]
    i32 = [str(2**31), str(-2**31 - 1), str(2**32)]
    i64 = [str(2**63), str(-2**63 - 1), str(2**64)]
    hashes = ['', '00' * 31, '00' * 33]
    if t == 'outpoint':
        v[r.choice(['n', 'hash'])] = None
        v = {'hash': r.choice(hashes) if v['hash'] is None else v['hash'], 'n': r.choice(u32) if v['n'] is None else v['n']}
    elif t == 'txin':
        if r.random() < .5:
            v['seq'] = r.choice(u32)
        else:
            v['prevout'] = wrong(r, 'outpoint', v['prevout'])
    elif t == 'txout':
        v['value'] = r.choice(i64)
    elif t == 'tx':
        k = r.choice(['version', 'lock', 'vin', 'vout'])
        if k == 'version':
            v[k] = r.choice(i32)
        elif k == 'lock' or not v[k]:
            v['lock'] = r.choice(u32)
        else:
            i = r.randrange(len(v[k]))
            v[k][i] = wrong(r, {'vin': 'txin', 'vout': 'txout'}[k], v[k][i])
    elif t in ('header', 'block'):
        k = r.choice(['version', 'prev', 'root', 'time', 'bits', 'nonce'])
        v[k] = r.choice(i32) if k == 'version' else r.choice(hashes) if k in ('prev', 'root') else r.choice(u32)
    elif t == 'varint':
        v = r.choice(['-1', str(2**64), str(-2**64)])
    elif t == 'u256v':
        v = v + [r.choice(hashes)]
    elif t == 'intv':
        v = v + [r.choice(i32)]
    elif t in INNER and v:
        i = r.randrange(len(v))
        v[i] = wrong(r, INNER[t], v[i])
    return v


def given(p):
    """written and read as TLC says"""
    ops = [{'op': 'enc', 't': i['t'], 'v': i['v']} for i in p['items']]
    w = b''.join(bts(i['t'], i['v']) for i in p['items'])
    if p['cut'] >= 0:
        w = w[:p['cut']]
    return {'ops': ops + [{'op': 'open', 'h': w.hex()}] + [{'op': 'next', 't': i['t']} for i in p['items']]}


def own():
    r = d.rng('net')
    # sizes
    ops = []
    for n in (0, 252, 253, 65535, 65536):
        ops += [{'op': 'enc', 't': 'bytes', 'v': '5a' * n}, {'op': 'dec', 't': 'varstr', 'h': (cs(n) + b'\x5a' * n).hex()}]
    for n in (2**25 - 1, 2**25, 2**25 + 1, 2**26):
        ops += [{'op': 'big', 'n': str(n)}, {'op': 'big', 'n': str(n), 's': 'varstr'}]
    yield {'ops': ops}
    for n in (252, 253, 254, 600):
        o = {'hash': '11' * 32, 'n': '7'}
        yield {'ops': [{'op': k, **x} for x in ({'t': 'points', 'v': [o] * n}, {'t': 'u256v', 'v': ['22' * 32] * n}, {'t': 'intv', 'v': ['-2'] * n})
                       for k in ('enc',)] + [{'op': 'dec', 't': 'points', 'h': bts('points', [o] * n).hex()}]}
    # made of only some of their fields
    for t in FIELDS:
        ops = []
        ks = sorted(FIELDS[t])
        for m in range(2 ** len(ks)):
            v = json.loads(json.dumps(NONE[t]))
            w = r_of(r, t)
            v.update({k: w[k] for i, k in enumerate(ks) if m >> i & 1})
            ops += [{'op': 'enc', 't': t, 'v': v, 'part': True, 'mut': mut} for mut in ((False, True) if t in MUT else (False,))]
        for i in range(0, len(ops), 16):
            yield {'ops': ops[i:i + 16]}
    # the same but for one of the fields
    for t in CLS:
        v = r_of(r, t)
        ops = []
        for f in sorted(v):
            for _ in range(20):
                w = dict(v, **{f: r_of(r, t)[f]})
                if w != v:
                    break
            ops += [{'op': 'eq', 't': t, 'mut': False, 'v': a, 'w': b} for a, b in ((v, w), (w, v), (w, json.loads(json.dumps(w))))]
        yield {'ops': ops}
    # one object, changed and written again
    for t in MUT:
        for _ in range(d.scale(6, 40)):
            ops, v = [], r_of(r, t)
            for _ in range(8):
                w = r_of(r, t)
                v = dict(v, **{k: w[k] for k in r.sample(sorted(w), r.choice([0, 1, 1, 1, len(w)]))})
                ops.append({'op': 'enc', 't': t, 'v': v, 'mut': True, 'kept': r.random() < .5})
            yield {'ops': ops}
    # long vectors
    ns = [252, 253, 255, 256, 65535, 65536, 65537, 100000, r.randrange(1000, 65000)]
    for t in ('u256v', 'intv', 'points', 'txins', 'txouts', 'txs'):
        ops = []
        for n in d.scale(r.sample(ns, 3) + [r.randrange(65536, 200000)], ns + [r.randrange(10**5, 10**6) for _ in range(3)]):
            if t == 'txs':
                n = min(n, 66000)
            v = {'u256v': lambda: r_bytes(r, 32), 'intv': lambda: r_i32(r), 'points': lambda: r_outpoint(r),
                 'txins': lambda: dict(r_txin(r), script=r_bytes(r, 1)), 'txouts': lambda: dict(r_txout(r), script=r_bytes(r, 1)),
                 'txs': lambda: {'version': '1', 'vin': [], 'vout': [], 'lock': r_u32(r)}}[t]()
            mut = t in INNER and INNER[t] in MUT and r.random() < .3
            ops += [{'op': 'manyw', 't': t, 'v': v, 'n': n, 'mut': mut}, {'op': 'manyr', 't': t, 'v': v, 'n': n, 'mut': mut, 'short': 0},
                    {'op': 'manyr', 't': t, 'v': v, 'n': n, 'mut': mut, 'short': 1}]
        yield {'ops': ops}
    for n in (255, 256, 257, 1000, 1024, 1025, 4096, 4097, 8193, 65537):       # long padding
        for t in ('outpoint', 'txout', 'tx', 'header'):
            v = r_of(r, t)
            h = bts(t, v).hex() + r_bytes(r, n)
            yield {'ops': [dict({'t': t, 'mut': t in MUT and n % 2 == 0}, op='extra', h=h, how=w) for w in ('catch', 'allow')] + [{'op': 'dec', 't': t, 'h': h}]}
    # a transaction and a script at length widths
    for n in (252, 253, 65535, 65536):
        i = {'prevout': {'hash': '00' * 32, 'n': '0'}, 'script': '6a' * n, 'seq': '0'}
        t = {'version': '1', 'vin': [i], 'vout': [{'value': '1', 'script': '51' * n}], 'lock': '0'}
        yield {'ops': [{'op': 'enc', 't': 'tx', 'v': t}, {'op': 'again', 't': 'tx', 'v': t}, {'op': 'dec', 't': 'tx', 'h': b_tx(t).hex()}]}
    t = {'version': '1', 'vin': [r_txin(r) for _ in range(254)], 'vout': [r_txout(r) for _ in range(253)], 'lock': '5'}
    yield {'ops': [{'op': 'enc', 't': 'tx', 'v': t}, {'op': 'again', 't': 'tx', 'v': t}]}
    # every truncation
    for t in TYPES:
        for _ in range(d.scale(2, 12)):
            v = r_of(r, t)
            b = bts(t, v)
            if len(b) > 420:
                continue
            yield {'ops': [{'op': 'dec', 't': t, 'h': b[:k].hex()} for k in range(len(b) + 1)] + [{'op': 'dec', 't': t, 'h': (b + b'\0').hex()}]}
    # short strings
    for t in ('varint', 'bytes', 'intv', 'u256v', 'txs'):
        yield {'ops': [{'op': 'dec', 't': t, 'h': ('%02x' % a) + x} for a in range(256) for x in ('', '00', 'ff00', '01000000000000', '0000000000000000')]}
    for _ in range(d.scale(420, 12000)):
        t = r.choice(TYPES)
        mut = t in MUT and r.random() < .3
        v = r_of(r, t)
        b = bts(t, v)
        x = {'t': t, 'mut': mut}
        ops = [dict(x, op='enc', v=v), dict(x, op='dec', h=b.hex())]
        ops += [dict(x, op='dec', h=spoil(r, b).hex()) for _ in range(5)]
        ops += [dict(x, op='enc', v=wrong(r, t, v), mut=False)]
        if t in CLS:
            w = r.choice([v, r_of(r, t), r_of(r, t)])
            ops += [dict(x, op='again', v=v, early=r.random() < .5), dict(x, op='eq', v=v, w=w)]
            if t in MUT:
                ops += [dict(x, op='eq', v=v, w=w, mutw=not mut)]
            pad = r_bytes(r, r.choice([0, 1, 1, 5, 80]))
            ops += [dict(x, op='extra', h=b.hex() + pad, how=h) for h in ('catch', 'allow')]
            # a one-field change
            f = r.choice(sorted(v))
            w = json.loads(json.dumps(v))
            w[f] = r_of(r, t)[f]
            ops.append(dict(x, op='eq', v=v, w=w))
        if t == 'block':
            ops += [{'op': 'gethdr', 'v': v}]
        yield {'ops': ops}
    for _ in range(d.scale(60, 1500)):
        items = [(t, r_of(r, t)) for t in (r.choice(TYPES) for _ in range(r.choice([2, 3, 6])))]
        b = b''.join(bts(t, v) for t, v in items)
        if r.random() < .3:
            b = spoil(r, b)
        yield {'ops': [{'op': 'open', 'h': b.hex()}] + [{'op': 'next', 't': t, 'mut': t in MUT and r.random() < .3} for t, v in items]}
    # numbers
    ns = [0, 1, -1]
    for k in (7, 8, 15, 16, 23, 24, 31, 32, 39, 63, 64, 255, 256, 2040):
        ns += [s * (2**k + i) for s in (1, -1) for i in (-1, 0, 1)]
    ns += [r.choice([1, -1]) * r.randrange(2**r.randrange(1, 300)) for _ in range(d.scale(100, 4000))]
    yield {'ops': [{'op': k, 'v': str(n)} for n in ns for k in ('bn2vch', 'bn2mpi')]}
    hs = ['', '00', '80', '0080', '8000', '7f', 'ff', '0000', 'ff00', 'ff80', '0100', '01000080']
    hs += [r_bytes(r, r.choice([1, 2, 3, 4, 5, 9, 33])) for _ in range(d.scale(100, 4000))]
    hs += [h + x for h in list(hs) for x in ('00', '80')]
    mp = [('%08x' % (len(h) // 2)) + h for h in hs] + ['', '00', '000000', '00000001', '0000000100ff', '0000000201', 'ffffffff']
    yield {'ops': [{'op': 'vch2bn', 'h': h} for h in hs] + [{'op': 'mpi2bn', 'h': h} for h in mp]}


for name, prog in d.programs(own):
    if 'items' in prog:
        prog = given(prog)
    d.run(name, prog, ex)
d.done()
