"""Driver for serialization: every type, valid, boundary, mutated and arbitrary bytes"""
import itertools
from serlib import *
from serlib import _ty

d = Driver()


def value_of(v):
    k = v['k']
    if k == 'int':
        return int(v['n'])
    if k == 'bytes':
        return b'\x07' * int(v['n'])
    return {'bool': True, 'false': False, 'str': 'x', 'none': None, 'float': 1.0, 'list': [1], 'bytearray': bytearray(2),
            'bits': Bits([1, 0]), 'tx': C.CTransaction(), 'outpoint': C.COutPoint(), 'txin': C.CTxIn(), 'obj': SS.FakeSingleUseSeal(committed_hash=b'\x00' * 32)}[k]


CTOR = {}


def ctor(t):
    if t not in CTOR:
        CTOR[t] = type('X_' + t, (P.Proof,), {'__slots__': ['x'], 'SERIALIZED_ATTRS': [('x', SER[t])],
                                              'HASHTAG': S.HashTag(tag_of('A'))})
    return CTOR[t]


SAMPLE = {}


def sample(name):
    """some object of a class"""
    if name not in SAMPLE:
        b = b'\xff' + (leb(CT[name]['var']) if CT[name]['base'] in VT else b'') + b'\x07' * 32
        SAMPLE[name] = ALL[CT[name]['base']].deserialize(b)
    return SAMPLE[name]


def ex(prog, ev):
    def emit(o, fn, proj):
        e = dict(o)
        r, e['out'] = call(fn, proj)
        ev.append(e)
        return r, e['out']['k'] == 'ok'

    ctx = None
    for o in prog:
        op = o['op']
        if op == 'dec':
            s = serializer(o['t'])
            raw = bytes.fromhex(o['h'])
            r, ok = emit(o, lambda: s.deserialize(raw), lambda x: text(o['t'], x))
            if ok:
                isobj = isinstance(r, P.Proof)
                emit(dict(o, op='reenc'), lambda: s.serialize(r) if not isobj or o['t']['u'] else r.serialize(), p_hex)
                if isobj:
                    emit(dict(o, op='dechash'), lambda: r.hash, p_hex)
                emit(dict(o, op='deceq'), lambda: s.deserialize(raw) == r, p_bool)
        elif op in ('encint', 'encbool', 'encfixed', 'encvar', 'encbits'):
            v = {'encint': lambda: int(o['v']), 'encbool': lambda: o['v'], 'encfixed': lambda: bytes.fromhex(o['v']),
                 'encvar': lambda: bytes.fromhex(o['v']), 'encbits': lambda: Bits(o['v'])}[op]()
            emit(o, lambda: serializer(o['t']).serialize(v), p_hex)
        elif op == 'rd':
            if ctx is None:
                ctx = S.BytesDeserializationContext(bytes.fromhex(o['h']))
            w = o['what']
            fn = {'varuint': lambda: ctx.read_varuint(), 'bool': lambda: ctx.read_bool(),
                  'bytes': lambda: ctx.read_bytes(int(o['n'])), 'varbytes': lambda: ctx.read_bytes()}[w]
            r, ok = emit(o, fn, {'varuint': p_big, 'bool': p_bool}.get(w, p_hex))
            if not ok:
                break
        elif op == 'eof':
            emit(o, lambda: ctx.assert_eof(), p_none)
        elif op == 'check':
            emit(o, lambda: SER[o['t']['t']].check_instance(value_of(o['v'])), p_none)
        elif op == 'ctor':
            emit(o, lambda: ctor(o['t']['t'])(x=value_of(o['v'])), p_any)
        elif op == 'checku':
            emit(o, lambda: serializer(_ty(o['us'] if len(o['us']) > 1 else o['us'][0])).check_instance(sample(o['cls'])), p_none)
        else:
            raise Exception(op)
    return INFO_JSON


def alltypes():
    for t in PT:
        yield _ty(t)
    for t in list(CT) + list(VT):
        if t not in CT or CT[t]['base'] == t:
            yield _ty(t)
    for u in (['A', 'B'], ['C', 'V', 'D'], ['FS', 'BS'], ['Mu8', 'Td']):
        yield _ty(u)


def dec(t, b):
    return {'op': 'dec', 't': t, 'h': b.hex()}


def own():
    r = d.rng('ser')
    # every short string over telling bytes
    A = [0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff]
    for t in alltypes():
        plain = not t['u'] and t['t'] in PT
        n = d.scale(3 if plain else 2, 4 if plain else 3)
        strs = [bytes(x) for k in range(n + 1) for x in itertools.product(A, repeat=k)]
        for i in range(0, len(strs), 100):
            yield [dec(t, b) for b in strs[i:i + 100]]
    # what every value is encoded as
    for t, (kind, lo, hi) in PT.items():
        if kind == 'int':
            vs = sorted({0, 1, 127, 128, 129, 255, 256, 16383, 16384, 2**21 - 1, 2**21, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1} | {r.randrange(hi + 1) for _ in range(30)})
            yield [{'op': 'encint', 't': _ty(t), 'v': str(v)} for v in vs if v <= hi]
        elif kind == 'bool':
            yield [{'op': 'encbool', 't': _ty(t), 'v': v} for v in (False, True)]
        elif kind in ('fixed', 'var'):
            yield [{'op': 'enc' + kind, 't': _ty(t), 'v': T.r_bytes(r, n)} for n in sorted({lo, hi, min(hi, lo + 1), min(hi, 127), min(hi, 128)})]
        elif kind == 'bits':
            yield [{'op': 'encbits', 't': _ty(t), 'v': [r.randrange(2) for _ in range(n)]} for n in [0, 1, 7, 8, 9, 15, 16, 17, 127, 128, 200]]
    # what a type admits
    for t, (kind, lo, hi) in PT.items():
        vs = [{'k': k, 'n': '0'} for k in ('bool', 'str', 'none', 'float', 'list', 'bytearray', 'bits', 'tx', 'outpoint', 'txin', 'obj')]
        vs += [{'k': 'int', 'n': str(n)} for n in (-1, 0, 1, hi - 1, hi, hi + 1, 2**64, -2**64)]
        vs += [{'k': 'bytes', 'n': str(n)} for n in sorted({0, 1, 2, 3, max(0, lo - 1), lo, lo + 1, 20, 21, 31, 32, 33, 200, 201})]
        for op in ('check', 'ctor'):
            yield [{'op': op, 't': _ty(t), 'v': v} for v in vs]
    for us in (['V'], ['A', 'B'], ['C', 'V', 'D'], ['FS', 'BS'], ['Mu8'], ['Td'], ['GU'], ['FW', 'BW']):
        yield [{'op': 'checku', 'us': us, 'cls': c} for c in CT if c != 'A3']
    # reading from one buffer
    for _ in range(d.scale(150, 2000)):
        b = b''
        plan = []
        for _ in range(r.randrange(1, 8)):
            w = r.choice(['varuint', 'bool', 'bytes', 'varbytes'])
            n = r.choice([0, 1, 2, 31, 127, 128])
            plan.append({'op': 'rd', 'what': w, 'n': str(n)})
            b += {'varuint': lambda: leb(r.choice([0, 127, 128, r.getrandbits(r.choice([8, 32, 63, 64, 70, 200]))])),
                  'bool': lambda: r.choice([b'\x00', b'\xff']), 'bytes': lambda: bytes(r.randrange(256) for _ in range(n)),
                  'varbytes': lambda: leb(n) + bytes(r.randrange(256) for _ in range(n))}[w]()
        if r.random() < .6:
            b = mutations(r, b, 1)[0]
        h = b.hex()
        yield [dict(o, h=h) for o in plan] + [{'op': 'eof', 'h': h}]
    # very much read from one buffer
    for w in (['varuint'], ['varbytes'], ['bool', 'varuint', 'bytes']):
        b, plan = b'', []
        for i in range(d.scale(700, 3000)):
            k = w[i % len(w)]
            plan.append({'op': 'rd', 'what': k, 'n': str(i % 4)})
            b += {'varuint': lambda: leb(r.choice([127, 128, 1000, 70000, r.getrandbits(64)])), 'bool': lambda: r.choice([b'\x00', b'\xff']),
                  'bytes': lambda: r.randbytes(i % 4), 'varbytes': lambda: leb(i % 150) + r.randbytes(i % 150) if i % 40 == 9 else leb(i % 3) + r.randbytes(i % 3)}[k]()
        h = b.hex()
        yield [dict(o, h=h) for o in plan] + [{'op': 'eof', 'h': h}]
    # valid encodings, and variations on them
    for t in alltypes():
        for _ in range(d.scale(8, 150)):
            b = r_enc(r, t, pruned=r.choice([0, .1, .4]))
            ops = [dec(t, b), dec(t, b[:-1]), dec(t, b + b'\x00'), dec(t, b + b)]
            ops += [dec(t, m) for m in mutations(r, b, d.scale(8, 20))]
            if len(b) < 60:
                ops += [dec(t, b[:i]) for i in range(len(b))]
            yield ops
    # a length that agrees with the bytes, which do not agree with what they mean
    for t in alltypes():
        SKEW[0] = .5
        ops = [dec(t, r_enc(r, t, pruned=.05)) for _ in range(d.scale(25, 300) if t['t'] in ('tx', 'outpoint') else d.scale(6, 60))]
        SKEW[0] = 0
        yield ops
    # bytes that make a value, said to be more or fewer than they are; so many bytes, with or without one
    for t in ('outpoint', 'BS', 'BW', 'tx', 'TXP', 'OPP'):
        good = {'outpoint': T.b_outpoint(T.r_outpoint(r)), 'BS': T.b_outpoint(T.r_outpoint(r))}.get(t) or T.b_tx(T.r_tx(r, 1))
        pre = b'' if t in ('outpoint', 'tx') else b'\0'
        if t == 'BW':
            pre, good = b'\0\0', T.b_outpoint(T.r_outpoint(r))
        if t == 'OPP':
            pre = b'\0\0'
        post = {'outpoint': b'', 'BS': bytes(16), 'tx': b'', 'TXP': b'', 'OPP': b'\0', 'BW': r_enc(r, _ty('BW'), pruned=0)[54:]}[t]
        ops = []
        for k in sorted({0, 1, 32, 35, 36, 37, 38, 40, 72, 127, 128, 255, 256, 2**32, 2**64} | {max(0, len(good) + x) for x in (-2, -1, 0, 1, 2, 16, 128)}):
            ops += [dec(_ty(t), pre + leb(k) + good + post), dec(_ty(t), pre + leb(k) + good)]
            if k < 300:
                ops += [dec(_ty(t), pre + leb(k) + (good + bytes(300))[:k] + post), dec(_ty(t), pre + leb(k) + (good + bytes(300))[:k])]
        yield ops
    # numbers out of all proportion
    for t in alltypes():
        ops = []
        for n in (2**7, 2**14, 2**25, 2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**65, 2**128, 2**4000):
            for pre in (b'', b'\x00', b'\xff', b'\x00\x01', b'\x00\x00'):
                for post in (b'', b'\x00' * 40):
                    ops.append(dec(t, pre + leb(n) + post))
        yield ops
    # the other order of things: nested deeply
    for depth in (10, 50):
        yield [dec(_ty('V'), b'\x00\x02' * depth + b'\x00\x00' + (b'\x00\x00' + b'\x00\x01ab') * depth),
               dec(_ty('Mu8'), b'\x00\x02' * depth + b'\x00\x00' + (b'\x00\x00' + b'\x07') * depth)]
    # junk
    for t in alltypes():
        yield [dec(t, bytes(r.choice([0, 0, 1, 2, 255, r.randrange(256)]) for _ in range(r.randrange(1, 90)))) for _ in range(d.scale(12, 200))]


for name_, prog_ in d.programs(own):
    d.run(name_, prog_, ex)
d.done()
