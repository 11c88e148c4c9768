"""Driver: building, reading and classifying scripts (C19).  Programs: lists of
operations, see specs/ScriptTrace.tla; {"op": "script"} stands for all readings."""
from scriptlib import *

d = Driver()


def item(x):
    if x.__class__ is bytes:
        return {'t': 'bytes', 'v': x.hex()}
    if x.__class__ is S.CScriptOp:
        return {'t': 'op', 'v': str(int(x))}
    if x.__class__ is int:
        return {'t': 'int', 'v': str(x)}
    raise BadValue('item %r of class %s' % (x, x.__class__))


class Data(bytes):
    pass


def mitem(j, r):
    if j['t'] == 'op':
        return S.CScriptOp(int(j['v']))
    if j['t'] == 'int':
        return int(j['v'])
    b = bytes.fromhex(j['v'])
    return {'script': CScript, 'ba': bytearray, 'sub': Data}[j['as']](b) if 'as' in j else bytearray(b) if r else b


def ended(it, f):
    items = []
    try:
        for x in it:
            items.append(f(x))
        return {'items': items, 'end': {'end': 'ok', 'data': ''}}
    except S.CScriptTruncatedPushDataError as e:
        return {'items': items, 'end': {'end': 'trunc', 'data': hexs(e.data)}}
    except S.CScriptInvalidError:
        return {'items': items, 'end': {'end': 'nolen', 'data': ''}}


def rawitem(x):
    op, data, at = x
    return {'op': p_int(int(op)), 'data': 'None' if data is None else hexs(data), 'at': p_int(at)}


def script(x):
    if x.__class__ is not CScript:
        raise BadValue('not a CScript: %r' % (x,))
    return bytes(x).hex()


def classes(s):
    return {'p2sh': p_bool(s.is_p2sh()), 'push': p_bool(s.is_push_only()), 'canon': p_bool(s.has_canonical_pushes()),
            'unspendable': p_bool(s.is_unspendable()), 'valid': p_bool(s.is_valid()), 'acc': p_int(s.GetSigOpCount(True)), 'leg': p_int(s.GetSigOpCount(False))}


NOTITEMS = [None, 'text', 1.5, [1], (b'a',), object()]


def ex(prog, ev):
    for o in prog:
        k = o['op']
        if k == 'script':
            s = CScript(bytes.fromhex(o['script']))
            for e, f in (('iter', lambda: ended(s, item)), ('raw', lambda: ended(s.raw_iter(), rawitem)), ('class', lambda: classes(s))):
                e = {'op': e, 'script': o['script']}
                _, e['out'] = call(f, lambda x: x)
                ev.append(e)
            continue
        e = dict(o)
        if k in ('build', 'back'):
            its = [mitem(j, o.get('ba')) for j in o['items']]
            e['items'] = [{'t': j['t'], 'v': j['v']} for j in o['items']]
            how = o.get('how', 0)

            def mk():
                if how == 0:
                    return CScript(its)
                if how == 1:
                    return CScript(iter(tuple(its)))
                s = CScript()
                for i in its:
                    s = s + i
                return s
            if k == 'build':
                _, e['out'] = call(mk, script)
            else:
                _, e['out'] = call(lambda: ended(mk(), item), lambda x: x)
        elif k == 'grow':
            b = bytes.fromhex(o['script'])

            def fn():
                s = CScript(b)
                for j in o['items']:
                    s += mitem(j, False)
                return s
            _, e['out'] = call(fn, script)
        elif k == 'buildbad':
            x = NOTITEMS[o['n']]
            _, e['out'] = call(lambda: CScript([x]) if o['how'] == 0 else CScript(b'\x51') + x, script)
        elif k == 'p2sh':
            s = CScript(bytes.fromhex(o['script']))
            _, e['out'] = call(lambda: s.to_p2sh_scriptPubKey(o['check']) if o['check'] is False or o.get('explicit') else s.to_p2sh_scriptPubKey(), script)
        elif k == 'opn':
            _, e['out'] = call(lambda: S.CScriptOp.encode_op_n(o['n']), lambda x: p_int(int(x)))
        elif k == 'nop':
            _, e['out'] = call(lambda: {'small': p_truth(S.CScriptOp(o['n']).is_small_int())}, lambda x: x)
        elif k == 'deopn':
            _, e['out'] = call(lambda: S.CScriptOp(o['n']).decode_op_n(), p_int)
        elif k == 'pushdata':
            _, e['out'] = call(lambda: S.CScriptOp.encode_op_pushdata(bytes.fromhex(o['v'])), hexs)
        elif k == 'name':
            def fn():
                op = S.CScriptOp(o['n'])
                n = S.OPCODE_NAMES.get(op, '')
                if n and repr(op) != n:
                    raise BadValue('repr is %r' % op)
                return {'name': n, 'same': n == '' or S.OPCODES_BY_NAME.get(n, op) == op, 'mod': n == '' or getattr(S, n) == op}
            _, e['out'] = call(fn, lambda x: x)
        ev.append(e)


LENS = [0, 1, 2, 20, 32, 33, 74, 75, 76, 77, 78, 79, 80, 255, 256, 257, 519, 520, 521, 65535, 65536]
INTS = [-1, 0, 1, 2, 15, 16, 17, 18, -2, -16, 127, 128, -127, -128, 129, 255, 256, -255, -256, 32767, 32768, -32767, -32768, 65535, 65536, 8388607, 8388608, -8388608, 2**31 - 1, 2**31, -2**31, 2**32, 2**39, 2**63, 2**64, -2**63, 2**255]


def ritem(r, back=False):
    k = r.random()
    if k < 0.4:
        n = r.choice(LENS[:-2] + list(range(20))) if r.random() < 0.95 else r.choice(LENS)
        return {'t': 'bytes', 'v': r_bytes(r, n) if r.random() < 0.7 else '%02x' % r.choice([0, 1, 5, 16, 17, 0x81, 0x4c, 0xab]) * n}
    if k < 0.7:
        return {'t': 'int', 'v': str(r.choice(INTS) if r.random() < 0.7 else r.randrange(-2**40, 2**40))}
    return {'t': 'op', 'v': str(r.choice([79, 80] + list(range(97, 256))) if back else r.choice([0, 79, 80] + list(range(81, 256))))}


def rscript(r):
    k = r.random()
    if k < 0.15:
        return r_bytes(r, r.choice([0, 1, 2, 3, 5, 10, 22, 23, 24, 30]))
    s = ''
    for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
        s += r.choice(['%02x' % r.randrange(79, 256), '%02x' % r.choice([172, 173, 174, 175]), '%02x' % r.randrange(81, 97) + '%02x' % r.choice([174, 175]),
                       push(r_bytes(r, r.choice([0, 1, 2, 20, 33, 75, 76]))), push('%02x' % r.randrange(20)),
                       '4c%02x' % 2 + 'acae', '4d0200acae', '4e02000000aeae', '4c%02x' % 75 + 'ac' * 75, '4c%02x' % 76 + 'ac' * 76, '4dff00' + 'ae' * 255, '4d0001' + 'ae' * 256, '0151ae', '60ae', '5000ae', '61ae', '4fae', '4c0151ae'])
    if r.random() < 0.01:
        s += r.choice(['4effff0000' + '51' * 65535, '4e00000100' + '51' * 65536])
    if r.random() < 0.3:       # cut or cannot be parsed
        s += r.choice(['4c', '4d', '4d05', '4e', '4e05', '4e0500', '4e050000', '05', '0501', '4c05ac', '4d0500acac', '4e05000000ac', '4cff' + 'ae' * 30, '4effffffff', '4effffff7fac', '4e00000080', '4d', '4dffff'])
    return s


def progs():
    r = d.rng('script')
    yield [{'op': 'name', 'n': i} for i in range(256)]
    yield [{'op': 'nop', 'n': i} for i in range(256)] + [{'op': 'deopn', 'n': i} for i in range(256)]
    yield [{'op': 'opn', 'n': i} for i in (-100, -2, -1) + tuple(range(20)) + (100, 255, 256)]
    yield [{'op': 'pushdata', 'v': r_bytes(r, n)} for n in LENS]
    yield [{'op': 'buildbad', 'n': i, 'how': h} for i in range(len(NOTITEMS)) for h in (0, 1)]
    yield [{'op': x, 'items': [{'t': 'int', 'v': str(i)}], 'how': i % 3} for i in INTS + list(range(-20, 40)) for x in ('build', 'back')]
    yield [{'op': x, 'items': [{'t': 'bytes', 'v': r_bytes(r, n)}], 'how': n % 3, 'ba': n % 2 == 1} for n in LENS + list(range(70, 82)) for x in ('build', 'back')]
    for y in ('script', 'ba', 'sub'):      # data of any class of bytes is pushed
        for b in range(0, 256, 16):
            yield [{'op': 'build', 'items': [{'t': 'bytes', 'v': h, 'as': y}], 'how': i % 3} for i in range(b, b + 16) for h in ('%02x' % i, '%02x' % i * 2, '01%02x' % i)]
        yield [{'op': x, 'items': [{'t': 'bytes', 'v': r_bytes(r, n), 'as': y}, {'t': 'op', 'v': '172'}], 'how': n % 3} for n in LENS[:-2] for x in ('build', 'back')]
    # long data, and what falls short of the length given
    for n in (255, 256, 65534, 65535, 65536, 65537, 65792, 131072):
        for k in sorted({n, n - 1, min(n, 65535), min(n, 65536), min(n, 255), n + 1}):
            yield [{'op': 'script', 'script': '4e' + n.to_bytes(4, 'little').hex() + '51' * k}]
    for n in (254, 255, 256, 257, 511, 512, 32768, 65535):
        for k in sorted({n, n - 1, n + 1, n & 255}):
            yield [{'op': 'script', 'script': '4d' + n.to_bytes(2, 'little').hex() + '51' * k}]
    yield [{'op': 'build', 'items': [{'t': 'op', 'v': str(n)}], 'how': n % 3} for n in range(256)]
    for _ in range(d.scale(60, 2000)):
        b = [ritem(r, True) for _ in range(r.randrange(6))]
        a = [ritem(r) for _ in range(r.randrange(6))]
        yield [{'op': 'build', 'items': a, 'how': r.randrange(3), 'ba': r.random() < .3}, {'op': 'build', 'items': b, 'how': r.randrange(3)}, {'op': 'back', 'items': b, 'how': r.randrange(3)},
               {'op': 'grow', 'script': rscript(r), 'items': a}]
    yield [{'op': 'p2sh', 'script': 'ac' * n, 'check': c, 'explicit': n % 2 == 0} for n in (0, 1, 23, 75, 519, 520, 521, 522, 10001) for c in (True, False)]
    p2 = 'a914' + '22' * 20 + '87'
    near = [p2, p2 + '00', p2[2:], 'a9' + '15' + '22' * 20 + '87', 'a914' + '22' * 20 + '88', 'aa14' + '22' * 20 + '87', 'a94c14' + '22' * 20 + '87', 'a914' + '22' * 19 + '87', 'a94c13' + '22' * 19 + '87', '6a', '6a00', '006a', '616a', '', p2[:-2] + '9c', 'a8' + p2[2:]]
    yield [{'op': 'script', 'script': s} for s in near]
    for b in range(256):      # every byte in every position that matters
        yield [{'op': 'script', 'script': s} for s in ('%02x' % b, '%02x' % b + 'ae', '51%02x' % b, '%02x' % b + '51ae', '01%02x' % b, '4c01%02x' % b)]
    for _ in range(d.scale(300, 8000)):
        yield [{'op': 'script', 'script': rscript(r)} for _ in range(6)]


for name, p in d.programs(progs):
    d.run(name, p, ex)
d.done()
