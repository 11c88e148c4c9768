"""Driver: script evaluation (C13).  Programs: lists of {op: eval/verify/vsig, ...},
see specs/ScriptTrace.tla; tx may be missing (TX0)."""
from scriptlib import *

d = Driver()
FLAGS = {'p2sh': S.SCRIPT_VERIFY_P2SH, 'strict': S.SCRIPT_VERIFY_STRICTENC, 'even': S.SCRIPT_VERIFY_EVEN_S, 'nocache': S.SCRIPT_VERIFY_NOCACHE}


def stack(x):
    return [hexs(i) for i in x]


def ex(prog, ev):
    for o in prog:
        e = dict(o)
        k = e.setdefault('op', 'eval')
        e.setdefault('tx', TX0)
        e.setdefault('idx', 0)
        tx = m_any(e['tx'], o.get('mut', False))
        fl = [FLAGS[f] for f in o.get('flags', ())]
        fl = [(), tuple(fl), set(fl), frozenset(fl)][o.get('fk', 1) if fl else o.get('fk', 1) % 4]
        if k == 'eval':
            st = [bytes.fromhex(h) for h in o['stack']]

            def fn():
                SE.EvalScript(st, CScript(bytes.fromhex(o['script'])), tx, e['idx'], flags=fl)
                return st
            _, e['out'] = call(fn, stack)
        elif k == 'verify':
            e['p2sh'] = S.SCRIPT_VERIFY_P2SH in fl
            _, e['out'] = call(lambda: SE.VerifyScript(CScript(bytes.fromhex(o['sig'])), CScript(bytes.fromhex(o['pub'])), tx, e['idx'], flags=fl), p_none)
        elif k == 'vsig':
            f = m_any(o['from'], o.get('fmut', False))
            _, e['out'] = call(lambda: SE.VerifySignature(f, tx, e['idx']), p_none)
        e.pop('flags', 0)
        ev.append(e)


ELEMS = ['', '01', '00', '80', '81', '02', '03', '04', '05', '10', '11', '7f', 'ff', '8000', '0080', 'ff7f', 'ffff', '0100', '0180', '00000000', '00000080', 'ffffff7f', 'ffffffff', '01000080', 'ffff7f', '0000000000', 'ffffffff00', '0000000080', '0100000000', 'ffffffff7f', 'aa' * 20, 'bb' * 75]


def relem(r):
    k = r.random()
    if k < 0.6:
        return r.choice(ELEMS)
    if k < 0.8:
        return num(r.choice([r.randrange(-20, 20), r.randrange(-2**31 + 1, 2**31), r.choice([2**31 - 1, -2**31 + 1, 127, 128, -128, 255, 32767, 32768])]))
    return r_bytes(r, r.choice([1, 2, 3, 4, 5, 20, 65, 520]))


def each_op(r):
    """every operation on every depth, executed and not"""
    for b in range(256):
        if 1 <= b <= 78:
            continue
        p = []
        for n in range(8):
            for _ in range(d.scale(1, 12)):
                p.append({'script': '%02x' % b, 'stack': [relem(r) for _ in range(n)]})
        p.append({'script': '0063%02x' % b + '68', 'stack': ['aa', 'bb']})
        p.append({'script': '0063%02x' % b + '6751%02x' % b + '68', 'stack': ['01', '02']})
        p.append({'script': '%02x' % b + '5a%02x' % b + '59', 'stack': ['03', '01', '01', '02', '01']})
        p.append({'script': '5163%02x' % b + '68', 'stack': ['01', '01', '01']})
        p.append({'script': '006376%02x' % b + '6868', 'stack': ['aa', '01']})
        yield p


NUM1 = [139, 140, 143, 144, 145, 146]
NUM2 = [147, 148] + list(range(154, 165))


def numeric(r):
    vals = [0, 1, -1, 2, -2, 16, 17, 127, 128, -127, -128, 255, 256, 32767, 32768, 8388607, 8388608, 2**31 - 1, -2**31 + 1, 2**31 - 2]
    for op in NUM1:
        yield [{'script': '%02x' % op, 'stack': [num(v)]} for v in vals] + [{'script': '%02x' % op, 'stack': [e]} for e in ELEMS]
    for op in NUM2:
        yield [{'script': '%02x' % op, 'stack': [num(a), num(b)]} for a in vals for b in r.sample(vals, d.scale(4, 20))] + \
              [{'script': '%02x' % op, 'stack': [a, b]} for a in r.sample(ELEMS, d.scale(8, 30)) for b in r.sample(ELEMS, 4)] + \
              [{'script': '%02x' % op, 'stack': [num(a), num(a + k)]} for a in vals[:12] for k in (-1, 0, 1)]
    yield [{'script': 'a5', 'stack': [num(a), num(b), num(c)]} for a in (-2, -1, 0, 1, 2, 127, 128) for b in (-2, -1, 0, 1, 128) for c in (-1, 0, 1, 2, 129)]
    yield [{'script': 'a5', 'stack': r.sample(ELEMS, 3)} for _ in range(60)]
    # picks
    for op in ('79', '7a'):
        yield [{'script': pnum(n) + op, 'stack': ['%02x' % i for i in range(k)]} for k in range(5) for n in (-1, 0, 1, 2, 3, 4, 5, 17, 2**31 - 1)] + \
              [{'script': op, 'stack': ['aa', 'bb', e]} for e in ELEMS]
    yield [{'script': op, 'stack': [e]} for e in ELEMS for op in ('69', '63515267535468', '64515267535468', '73', '82', '91', 'a6', 'a7', 'a8', 'a9', 'aa')]
    yield [{'script': op, 'stack': [a, b]} for a in r.sample(ELEMS, 12) for b in r.sample(ELEMS, 4) + [a] for op in ('87', '88')]


def limits(r):
    nop = '61'
    p = [{'script': nop * n, 'stack': ['01']} for n in (200, 201, 202)]
    p += [{'script': '0063' + nop * n + '68', 'stack': ['01']} for n in (198, 199, 200)]
    p += [{'script': '51' * 300 + nop * 201, 'stack': []}, {'script': '50' + nop * 201, 'stack': []}, {'script': '006350' + '51' * 5 + nop * 199 + '68', 'stack': []}]
    for nk in (0, 1, 2, 19, 20, 21):
        for n in (178, 179, 180, 181, 198, 199, 200, 201):
            if n + 1 + nk in range(199, 204):
                p.append({'script': '00' * (nk + 2) + pnum(nk) + 'ae' + nop * n, 'stack': []})
                p.append({'script': nop * n + '00' * (nk + 2) + pnum(nk) + 'ae', 'stack': []})
    p += [{'script': ('00' * (k + 2) + pnum(k) + 'af') * 0 + ('0000' + '00' * k + pnum(k) + 'ae75') * m, 'stack': []} for k, m in ((20, 9), (20, 10), (18, 10), (19, 10))]
    yield p
    p = [{'script': '51' * n, 'stack': ['aa'] * m} for n, m in ((999, 0), (1000, 0), (1001, 0), (1, 999), (1, 1000), (0, 1001), (0, 1000), (2, 999))]
    p += [{'script': '6b' * a + '51' * b, 'stack': ['aa'] * a} for a, b in ((100, 900), (100, 901), (200, 1))]
    p += [{'script': s, 'stack': ['aa'] * n} for s in ('6f', '6e', '76', '7d', '70', '74', '7b', '6b', '6b6c', '6f6d', '7675', '7651', '5175', '0075', '02aaaa75') for n in (997, 998, 999, 1000, 1001)]
    p += [{'script': '0063' + '51' * 1100 + '68', 'stack': ['aa'] * 1000}, {'script': '00635168', 'stack': ['aa'] * 1001}, {'script': '00635168', 'stack': ['aa'] * 1000}, {'script': '61', 'stack': ['aa'] * 1001}]
    yield p
    # the limits hold at every step, wherever it is, also when things shrink afterwards
    inside = [('', ''), ('5163', '68'), ('0064', '68'), ('006367', '68'), ('51635163', '6868'), ('00635167', '68'), ('51630063', '6868')]
    for a, z in inside:
        p = [{'script': a + '6b' * k + '51' * (n - m) + '75' * min(n - m, 2) + z, 'stack': ['aa'] * (m + k)} for k, m, n in ((0, 990, 1000), (0, 990, 1001), (100, 890, 900), (100, 890, 901), (190, 0, 810), (190, 0, 811))]
        p += [{'script': a + s + z, 'stack': ['aa'] * n} for s in ('6f6d75', '7d75', '7675', '7475', '7075', '6e6d', '82757575', '736d', '7b75') for n in (997, 998, 999, 1000)]
        yield p
        ops = len(a.replace('51', '').replace('00', '')) // 2
        yield [{'script': a + x * (n - ops) + z, 'stack': ['02']} for n in (200, 201, 202) for x in ('61', '8b', 'b0')] + \
              [{'script': x * (n - ops - 1) + a + '61' + z, 'stack': ['02']} for n in (200, 201, 202) for x in ('61', '76', 'b9')] + \
              [{'script': a + '00' * 22 + '0114' + 'ae' + '61' * (n - 21 - ops) + z, 'stack': ['02']} for n in (200, 201, 202)] + \
              [{'script': a + push('cd' * n) + '75' + z, 'stack': []} for n in (519, 520, 521)]
    p = []
    for n in (519, 520, 521, 1000):
        e = 'cd' * n
        p += [{'script': '4d' + n.to_bytes(2, 'little').hex() + e, 'stack': []}, {'script': '4e' + n.to_bytes(4, 'little').hex() + e, 'stack': []},
              {'script': '0063' + push(e) + '68', 'stack': []}, {'script': 'a8', 'stack': [e]}, {'script': '82', 'stack': [e]}, {'script': '76', 'stack': [e]}, {'script': '87', 'stack': [e, e]}]
    for n in (9999, 10000, 10001):
        p += [{'script': ('4d0802' + 'aa' * 520 + '75') * 19 + '51' * (n - 19 * 524), 'stack': []}]
        p += [{'script': '4d0802' + 'aa' * 520 + ('4d0802' + 'aa' * 520) * 18 + '00' * (n - 19 * 523), 'stack': []}]
    yield p
    # pushes cut short, also where not executed
    cut = ['4c', '4d', '4d00', '4e', '4e000000', '01', '02aa', '4c01', '4c02aa', '4d0100', '4e01000000', '4b' + 'aa' * 74, '4effffffff', '4dffff', '4e00000080']
    yield [{'script': a + c, 'stack': ['01']} for c in cut for a in ('', '51', '0063', '006368', '6a', '5163')]
    # every way of pushing
    yield [{'script': c + z, 'stack': []} for c in ('4c00', '4d0000', '4e00000000', '0101', '4c0101', '4d010001', '4e0100000001', '0105', '00', '4f', '4c4b' + 'aa' * 75) for z in ('', '91', '69', '8b', '6351676868', '635168')]


def conditionals(r):
    for _ in range(d.scale(60, 1500)):
        p = []
        for _ in range(12):
            s = ''
            depth = 0
            for _ in range(r.randrange(2, 14)):
                k = r.random()
                if k < 0.25:
                    s += r.choice(['00', '51', '0180', '020000', '4f'] if r.random() < .8 else ['']) + r.choice(['63', '64'])
                    depth += 1
                elif k < 0.4:
                    s += '67'
                elif k < 0.6 and (depth or r.random() < .1):
                    s += '68'
                    depth -= 1
                else:
                    s += r.choice(['51', '52', '75', '76', '7c', '93', '6b', '6c', '74', '69', '7b', '8b', '6d', '6e', '82', '02aabb', '87'] + (['6a', '7e', '65', '50', '62', '89', 'ff', '4c'] if r.random() < 0.25 else []))
            s += '68' * (depth if r.random() < .9 else max(0, depth + r.choice([-1, 1])))
            p.append({'script': s, 'stack': [relem(r) for _ in range(r.randrange(5))]})
        yield p


def rscript(r):
    if r.random() < 0.3:
        return r_bytes(r, r.randrange(1, 25))
    ok = [79] + list(range(81, 98)) + [105] + list(range(107, 126)) + [130, 135, 136, 139, 140] + list(range(143, 149)) + list(range(154, 172)) + [176, 185]
    s = ''
    for _ in range(r.randrange(1, 18)):
        k = r.random()
        s += '%02x' % r.choice(ok) if k < 0.65 else push(relem(r)) if k < 0.85 else pnum(r.randrange(-3, 20)) if k < .97 else '%02x' % r.randrange(79, 256)
    return s


def sig(i, code, tx, idx, t, low=None, salt=0):
    return (ec.sign(KEYS[i], sighash(code, tx, idx, t), salt, low) + bytes([t & 255])).hex()


def pk(i, how='c'):
    return ec.pub(KEYS[i], how == 'c', how == 'h').hex()


def mangle(r, s):
    """variants of a signature with its type byte, hex"""
    b = bytearray(bytes.fromhex(s))
    k = r.randrange(9)
    if k == 0:
        return ''
    if k == 1:
        b[-1] ^= r.choice([1, 2, 3, 0x80, 0x20])
    elif k == 2:
        b[r.randrange(len(b) - 1)] ^= 1 << r.randrange(8)
    elif k == 3:
        b = b[:-2] + b[-1:]
    elif k == 4:
        b = b[:-1] + b'\x00' + b[-1:]
    elif k == 5:
        b = b[:r.randrange(len(b))]
    elif k == 6:       # r in one byte more than needed
        n = b[3]
        b = bytearray([0x30, b[1] + 1, 2, n + 1, 0]) + b[4:]
    elif k == 7:
        b[1] += 1
    else:
        return '%02x' % r.choice([0, 1, 0x30])
    return bytes(b).hex()


def forged(tx, idx, code, t):
    """a signature for the point at infinity"""
    z = int.from_bytes(sighash(code, tx, idx, t), 'big')
    k = 77
    R = ec.mulg(k)[0] % ec.N
    return (ec.der(R, z * pow(k, -1, ec.N) % ec.N) + bytes([t])).hex()


def badkey(r, good):
    b = bytearray(bytes.fromhex(good))
    k = r.randrange(7)
    if k == 0:
        return ''
    if k == 1:
        return '00'
    if k == 2:
        b[0] = r.choice([0, 1, 5, 8, 0xff])
    elif k == 3:
        b = b[:-1]
    elif k == 4:
        b = b + b'\x00'
    elif k == 5:
        b[1:] = bytes(len(b) - 1)
    else:
        b[0] ^= 1
    return bytes(b).hex()


TYPES = [1, 2, 3, 0x81, 0x82, 0x83, 0, 4, 0x43, 0xff, 0x23]


def sigs(r):
    tx = good_tx(r, 2, 2)
    # one signature
    for _ in range(d.scale(12, 200)):
        p = []
        tx = good_tx(r, r.choice([1, 2, 3]))
        idx = r.randrange(len(tx['vin']))
        for _ in range(10):
            i, how, t = r.randrange(3), r.choice('ccuh'), r.choice(TYPES)
            tail = r.choice(['ac', 'ad51', 'ac91', 'ac69', 'ac7577'])
            pub = push(pk(i, how)) + tail
            s = sig(i, pub, tx, idx, t, r.choice([None, True, False]), r.randrange(5))
            k = r.random()
            if k < 0.25:
                s = mangle(r, s)
            elif k < 0.35:
                pub = push(badkey(r, pk(i, how))) + tail
                s = sig(i, pub, tx, idx, t)
            elif k < 0.42:
                pub = push(badkey(r, pk(i, how))) + tail
                s = forged(tx, idx, pub, t)
            elif k < 0.48:
                s = sig((i + 1) % 3, pub, tx, idx, t)
            stk = [s] if r.random() < .95 else []
            p.append({'script': pub, 'stack': stk, 'tx': tx, 'idx': idx, 'mut': r.random() < .3})
            p.append({'op': 'verify', 'sig': push(s), 'pub': pub, 'tx': tx, 'idx': idx, 'flags': r.sample(sorted(FLAGS), r.randrange(3)), 'fk': r.randrange(4)})
        yield p
    # separators, and signatures inside the script that is signed
    p = []
    tx = good_tx(r, 1, 1)
    for a, b, c in (('', 'ab', ''), ('ab', '', ''), ('61ab', '61', 'ab'), ('ab61ab', 'ab', '61ab'), ('0063ab68', '', ''), ('5163ab68', '', ''), ('02abab75', '', '')):
        key = push(pk(0))
        for inner in (True, False):
            script = a + key + b + 'ac' + c
            sep = 0
            full = [x for x in (a, key, b, 'ac', c)]
            # candidates for what is signed: from each separator on
            for cut in range(0, len(script) // 2 + 1):
                if cut and script[2 * cut - 2:2 * cut] != 'ab':
                    continue
                code = ''
                q = script[2 * cut:]
                ops, at = [], 0
                while at < len(q) // 2:
                    n = int(q[2 * at:2 * at + 2], 16)
                    nx = at + 1 + (n if n < 76 else 0)
                    ops.append(q[2 * at:2 * nx])
                    at = nx
                code = ''.join(o for o in ops if inner or o != 'ab')
                p.append({'script': script, 'stack': [sig(0, code, tx, 0, 1)], 'tx': tx})
    yield p
    p = []
    for s0 in ('', '3006020101020101' + '01', '30'):      # a signature that occurs in the script
        for extra in ('', push(s0), push(s0) * 2, '4c%02x' % (len(s0) // 2) + s0):
            p.append({'script': extra + push(s0) + push(pk(0)) + 'ac', 'stack': [], 'tx': tx})
            p.append({'script': extra + push(s0) + push(pk(0)) + 'ac' + push(s0) + '75', 'stack': [], 'tx': tx})
    for sg in range(3):         # a valid signature over the script without itself
        tail = '75' + push(pk(0)) + 'ac'
        for pre in ('', '51'):
            code = pre + tail
            s = sig(0, code, tx, 0, 1)
            for sc in (pre + push(s) + tail, pre + push(s) * 2 + '75' + tail, pre + '4c%02x' % (len(s) // 2) + s + tail):
                p.append({'script': sc, 'stack': ['01', s], 'tx': tx})
                p.append({'script': sc, 'stack': [s, '01'], 'tx': tx})
            p.append({'script': pre + push(s) + push(pk(0)) + 'ac', 'stack': [], 'tx': tx})
            s2 = sig(0, pre + push(pk(0)) + 'ac', tx, 0, 1)
            p.append({'script': pre + push(s2) + push(pk(0)) + 'ac', 'stack': [], 'tx': tx})
            p.append({'script': pre + '4c%02x' % (len(s2) // 2) + s2 + push(pk(0)) + 'ac', 'stack': [], 'tx': tx})
    # an index without input or without output
    t1 = dict(tx, vin=tx['vin'][:1] * 3, vout=tx['vout'][:1])
    for idx in (0, 1, 2, 3, 7):
        for t in (1, 3, 0x83, 0x23):
            pub = push(pk(1)) + 'ac'
            p.append({'script': pub, 'stack': [sig(1, pub, t1, idx, t)], 'tx': t1, 'idx': idx})
            p.append({'script': pub, 'stack': [(ec.sign(KEYS[1], b'\x01' + bytes(31)) + bytes([t])).hex()], 'tx': t1, 'idx': idx})
    yield p
    # several signatures
    for _ in range(d.scale(14, 200)):
        p = []
        for _ in range(5):
            nk = r.choice([1, 2, 2, 3, 3, 4])
            ns = r.randrange(nk + 1)
            ks = [r.randrange(5) for _ in range(nk)]
            tail = r.choice(['ae', 'af51', 'ae91'])
            pre = r.choice(['', '', 'ab', '6161'])
            pub = pre + pnum(ns) + ''.join(push(pk(i, r.choice('ccu'))) for i in ks) + pnum(nk) + tail
            code = pub.replace('ab', '', 1) if pre == 'ab' else pub
            who = sorted(r.sample(range(nk), ns))
            k = r.random()
            if k < 0.2:
                r.shuffle(who)
            elif k < 0.3:
                who = [r.randrange(nk) for _ in range(ns)]
            ss = [sig(ks[w], code, tx, 0, r.choice(TYPES)) for w in who]
            if r.random() < 0.25 and ss:
                w = r.randrange(len(ss))
                ss[w] = mangle(r, ss[w])
            if r.random() < 0.1:
                ss = ss[1:] if r.random() < .5 else ss + ['']
            if r.random() < 0.15:
                ks[0] = 0
                pub = pub.replace(push(pk(ks[0])), push(badkey(r, pk(ks[0]))))
            dummy = [] if r.random() < .08 else [r.choice(['', '01', 'aa'])]
            p.append({'script': pub, 'stack': ['77'] * r.randrange(2) + dummy + ss, 'tx': tx})
            p.append({'op': 'verify', 'sig': ''.join(push(x) for x in dummy + ss), 'pub': pub, 'tx': tx, 'flags': []})
        yield p
    yield [{'script': a + b + 'ae', 'stack': ['', '', '']} for a in [pnum(n) for n in (-1, 0, 1, 2, 20, 21)] + ['0400000080', '050000000000', '0101', '020100'] for b in [pnum(n) for n in (-1, 0, 1, 2, 3, 20, 21)] + ['050000000000', '0100', '0180']]
    ws = [{'script': pnum(s) + push('02' * 33) * k + pnum(k) + x, 'stack': [''] * (s + 1 + e)} for s in range(4) for k in range(4) for e in (-1, 0, 1) for x in ('ae', 'af') if s + 1 + e >= 0]
    yield ws


def verifies(r):
    # P2SH and the order of evaluation
    tx = good_tx(r, 1, 1)
    reds = ['51', '00', '5175', '', '6a', '93', '5287', '76', '52935787', '7c', push(pk(0)) + 'ac', '63516700' + '68', '51' * 30, '4c', '02aa', '61' * 202, '76a9', '7551']
    ins = ['', '51', '5152', '00', '54', '5451', '6151', '51766a', '515193', '50', '61', '4c', '4f', '60', '0151', '6351', '51635168']
    for red in reds:
        p = []
        b = bytes.fromhex(red)
        h = hashlib.new('ripemd160', hashlib.sha256(b).digest()).hexdigest()
        for i in ins:
            good = 'a914' + h + '87'
            for pub in (good, 'a914' + h + '88', 'a94c14' + h + '87', 'a914' + '00' * 20 + '87', '76a914' + h + '87', 'a914' + h + '8761')[:d.scale(3, 6)]:
                for fl in ([], ['p2sh']):
                    p.append({'op': 'verify', 'sig': i + push(red), 'pub': pub, 'flags': fl, 'fk': r.choice([1, 2, 3])})
        p.append({'op': 'verify', 'sig': push(red) + '61', 'pub': good, 'flags': ['p2sh']})
        p.append({'op': 'verify', 'sig': push(red) + '50', 'pub': good, 'flags': ['p2sh']})
        p.append({'op': 'verify', 'sig': '4c%02x' % min(255, len(b)) + red[:510], 'pub': good, 'flags': ['p2sh', 'strict']})
        p.append({'op': 'verify', 'sig': '', 'pub': good, 'flags': ['p2sh']})
        for i in range(3):
            s = sig(0, red, tx, 0, 1) if i else ''
            p.append({'op': 'verify', 'sig': push(s) + push(red), 'pub': good, 'tx': tx, 'flags': ['p2sh'] if i != 1 else []})
        yield p
    for _ in range(d.scale(20, 500)):
        yield [{'op': 'verify', 'sig': r.choice(ins + [rscript(r)] * 5), 'pub': r.choice(['', '51', '00', '87', '93', '76', '75', '9c', '6351670068', '68', '67', '6351', rscript(r)]), 'flags': r.choice([[], ['p2sh'], ['p2sh', 'nocache']])} for _ in range(12)]
    # conditionals do not span the two scripts, nor does the other stack
    yield [{'op': 'verify', 'sig': s, 'pub': p, 'flags': f} for s, p in (('5163', '5168'), ('516b', '6c'), ('51635168', '51'), ('51ab', '51'), ('51', '6c'), ('5152', '936b'), ('6151' , '61' * 201), ('51' + '61' * 201, '61' * 201), ('51' + '61' * 202, '51'))
           for f in ([], ['p2sh'])]
    # whole transactions
    for _ in range(d.scale(20, 400)):
        f = good_tx(r, 1, 3)
        p = []
        i = r.randrange(3)
        pub = [push(pk(i)) + 'ac', '76a914' + hashlib.new('ripemd160', hashlib.sha256(bytes.fromhex(pk(i))).digest()).hexdigest() + '88ac', 'a914' + '11' * 20 + '87', '51', '00'][r.randrange(5)]
        n = r.randrange(len(f['vout']))
        f['vout'][n]['script'] = pub
        t = good_tx(r, r.choice([1, 2]), 1)
        idx = r.randrange(len(t['vin']))
        t['vin'][idx]['prevout'] = {'hash': dsha(b_tx(f)).hex(), 'n': str(n)}
        s = sig(i, pub, t, idx, r.choice(TYPES))
        t['vin'][idx]['script'] = (push(s) + (push(pk(i)) if pub.startswith('76') else '')) if pub not in ('51', '00') else r.choice(['', '51', '61'])
        bad = json.loads(json.dumps(t))
        bad['vin'][idx]['prevout']['n'] = r.choice([str((n + 1) % len(f['vout'])), str(len(f['vout'])), '4294967295', '0'])
        bad2 = json.loads(json.dumps(t))
        bad2['vin'][idx]['prevout']['hash'] = r_bytes(r, 32)
        bad3 = dict(t, lock=r_u32(r))
        f2 = dict(f, lock=str((int(f['lock']) + 1) % 2**32))
        for x in (t, bad, bad2, bad3):
            p.append({'op': 'vsig', 'from': f, 'tx': x, 'idx': idx, 'mut': r.random() < .3, 'fmut': r.random() < .3})
        p.append({'op': 'vsig', 'from': f2, 'tx': t, 'idx': idx})
        for x in (-1, len(t['vin']), len(t['vin']) - 1, 0, 100):
            p.append({'op': 'vsig', 'from': f, 'tx': t, 'idx': x})
        yield p


def h160(h):
    return hashlib.new('ripemd160', hashlib.sha256(bytes.fromhex(h)).digest()).hexdigest()


def embedded(r):
    """signatures of a multisig that occur in the script they sign"""
    for _ in range(d.scale(6, 120)):
        p = []
        tx = good_tx(r, r.choice([1, 2]), r.choice([1, 2]))
        idx = r.randrange(len(tx['vin']))
        for _ in range(3):
            nk = r.choice([2, 3])
            ns = r.randrange(1, nk + 1)
            tail = r.choice(['', '61', 'ab']) + pnum(ns) + ''.join(push(pk(i)) for i in range(nk)) + pnum(nk) + r.choice(['ae', 'af51', 'ae69' + '51'])
            who = sorted(r.sample(range(nk), ns))
            t = r.choice(TYPES[:6])
            ss = [sig(w, tail.replace('ab', '', 1) if tail.startswith('ab') else tail, tx, idx, t) for w in who]
            for own in list(range(ns)) + [-1]:
                x = ss[own] if own >= 0 else ''.join(ss[:1]) + '00'
                for pre in (push(x) + '75', push(x) * 2 + '6d', '0063' + push(x) + '68', '4c%02x' % (len(x) // 2) + x + '75'):
                    # what's signed has everything but the push
                    code = {0: '75', 1: '6d', 2: '006368', 3: None}[(push(x) + '75', push(x) * 2 + '6d', '0063' + push(x) + '68', '4c%02x' % (len(x) // 2) + x + '75').index(pre)]
                    stk = [''] + (ss if own >= 0 and code is None else ss)
                    p.append({'script': pre + tail, 'stack': stk, 'tx': tx, 'idx': idx})
                    if code is not None and own >= 0 and 'ab' not in tail:
                        # a signature of the script with the push cut out, which itself isn't the one pushed
                        s2 = [sig(w, code + tail, tx, idx, t) for w in who]
                        pre2 = pre.replace(push(x), push(s2[own]))
                        p.append({'script': pre2 + tail, 'stack': [''] + s2, 'tx': tx, 'idx': idx})
                        p.append({'op': 'verify', 'sig': '00' + ''.join(push(y) for y in s2), 'pub': pre2 + tail, 'tx': tx, 'idx': idx, 'flags': []})
                        red = pre2 + tail
                        p.append({'op': 'verify', 'sig': '00' + ''.join(push(y) for y in s2) + push(red), 'pub': 'a914' + h160(red) + '87', 'tx': tx, 'idx': idx, 'flags': ['p2sh']})
        yield p


def deep(r):
    """many items between the scripts, and multisigs of many keys"""
    for n in r.sample(range(5, 400), d.scale(4, 20)) + [1, 2, 3, 997, 998, 999, 1000]:
        p = []
        for red in ('74' + num_push(n) + '9c', num_push(n - 1) + '7901' + '2a' + '87', num_push(n - 1) + '7a01' + '2a' + '87', '74' + '51', '75' * min(n, 180) + '51'):
            for pub in ('a914' + h160(red) + '87',):
                for i in (('012a' if n else '') + '51' * (n - 1),):
                    p.append({'op': 'verify', 'sig': i + push(red), 'pub': pub, 'flags': ['p2sh']})
        p.append({'op': 'verify', 'sig': '012a' + '51' * (n - 1), 'pub': '74' + num_push(n) + '9c', 'flags': []})
        p.append({'op': 'verify', 'sig': '012a' + '51' * (n - 1), 'pub': num_push(n - 1) + '7901' + '2a' + '87', 'flags': ['p2sh']})
        yield p
    for nk, ns in [(15, 15), (20, 3), (16, 1), (20, 20)][:d.scale(2, 4)]:
        tx = good_tx(r, 1, 1)
        pub = num_push(ns) + ''.join(push(pk(i % 5, 'cu'[i // 5 % 2])) for i in range(nk)) + num_push(nk) + 'ae'
        who = sorted(r.sample(range(nk), ns))
        ss = [sig(w % 5, pub, tx, 0, 1) for w in who]
        yield [{'script': pub, 'stack': [''] + x, 'tx': tx} for x in (ss, ss[1:] + ss[:1], ss[:-1] + [''], [''] + ss[1:])] + \
              [{'op': 'verify', 'sig': '00' + ''.join(push(x) for x in ss) + push(pub), 'pub': 'a914' + h160(pub) + '87', 'tx': tx, 'flags': f} for f in ([], ['p2sh'])]
    for n in (519, 520, 521):
        red = '61' + push('aa' * 200) + '75' + push('bb' * 200) + '75'
        red += '51' * (n - len(red) // 2)
        for pub in ('a914' + h160(red) + '87', 'a914' + h160(red + '51') + '87'):
            yield [{'op': 'verify', 'sig': push(red), 'pub': pub, 'flags': f} for f in ([], ['p2sh'])]


def num_push(n):
    return pnum(n)


def progs():
    r = d.rng('eval')
    for g in (each_op, numeric, limits, conditionals, sigs, verifies, embedded, deep):
        for p in g(d.rng(g.__name__)):
            yield p
    for _ in range(d.scale(60, 2500)):
        yield [{'script': rscript(r), 'stack': [relem(r) for _ in range(r.randrange(8))]} for _ in range(12)]


for name, p in d.programs(progs):
    d.run(name, p, ex)
d.done()
