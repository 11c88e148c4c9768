"""Driver: keys (C21).  Programs: lists of operations, see specs/KeyTrace.tla."""
from scriptlib import *
import gc
import hashlib
import threading
import bitcoin
import bitcoin.base58 as B58
import bitcoin.wallet as W
from bitcoin.core.key import CECKey, CPubKey
from b58lib import check

d = Driver()
SV = {'mainnet': 128, 'testnet': 239, 'regtest': 239}


def about(k):
    p = k.pub
    if p.__class__ is not CPubKey:
        raise BadValue('%r' % (p,))
    return {'pub': hexs(p), 'comp': p_bool(k.is_compressed), 'valid': p_bool(p.is_valid), 'full': p_bool(p.is_fullyvalid)}


def cec(secret, comp=True):
    k = CECKey()
    k.set_secretbytes(secret)
    k.set_compressed(comp)
    return k


def dg(n):
    return hashlib.sha256(b'digest%d' % n).digest().hex()


def sc(n):
    return hashlib.sha256(b'secret%d' % n).digest().hex()


def forge(digest):
    """a signature that verifies under the point at infinity"""
    z = int.from_bytes(bytes.fromhex(digest), 'big')
    k = 4711
    return ec.der(ec.mulg(k)[0] % ec.N, z * pow(k, -1, ec.N) % ec.N).hex()


class S:
    pass


def one(o, s, ev):
    """one operation; s: the state of the program"""
    e = dict(o)
    k = o['op']
    # from the design
    if k in ('new', 'junk', 'signs', 'forge', 'verifies', 'writes', 'reads'):
        if k == 'new':
            s.keys.append((sc(o['s']), o['comp'], None))
            o = {'op': 'key', 'secret': sc(o['s']), 'comp': o['comp'], 'how': o['s'] % 2}
        elif k == 'junk':
            s.n += 1
            p = ['00', '01', '', '05' + '11' * 32, '02' + 'ff' * 32, '02' + '00' * 32][s.n % 6]
            s.keys.append((None, None, p))
            o = {'op': 'pub', 'pub': p}
        elif k == 'signs':
            o = {'op': 'sign', 'secret': s.keys[o['i'] - 1][0], 'digest': dg(o['d']), 'how': 2, 'comp': s.keys[o['i'] - 1][1], 'keep': True}
        elif k == 'forge':
            s.sigs.append(forge(dg(o['d'])))
            return
        elif k == 'verifies':
            sec, comp, p = s.keys[o['i'] - 1]
            if o['j'] > len(s.sigs):
                return
            o = {'op': 'verify', 'pub': p if sec is None else ec.pub(int(sec, 16), comp).hex(), 'digest': dg(o['d']), 'sig': s.sigs[o['j'] - 1], 'how': o['j'] % 2}
        elif k == 'writes':
            sec, comp, p = s.keys[o['i'] - 1]
            o = {'op': 'wif', 'secret': sec, 'comp': comp, 'keep': True}
        elif k == 'reads':
            if o['j'] > len(s.texts):
                return
            o = {'op': 'unwif', 's': s.texts[o['j'] - 1]}
        e = dict(o)
        k = o['op']
    pr = hexs
    if k == 'select':
        fn, pr = lambda: bitcoin.SelectParams(o['chain']), p_none
    elif k == 'key':
        def fn():
            b = bytes.fromhex(o['secret'])
            x = W.CKey(b, o['comp']) if not (o['comp'] and o['how'] % 2) else W.CKey(b)
            if len(s.live) < 50:
                s.live.append((x, o['secret'], o['comp']))
            return x
        pr = about
    elif k == 'form':
        def fn():
            x = cec(bytes.fromhex(o['secret']), not o['comp'])
            x.get_pubkey()
            x.set_compressed(o['comp'])
            return x.get_pubkey()
    elif k == 'sign':
        b, h = bytes.fromhex(o['secret']), bytes.fromhex(o['digest'])
        fn = lambda: (cec(b, o['comp']).sign(h), W.CKey(b, o['comp']).sign(h), W.CBitcoinSecret.from_secret_bytes(b, o['comp']).sign(h))[o['how'] % 3]
        if 'same' in o:
            # one key signs one after another
            x = s.signers.setdefault((o['secret'], o['comp'], o['how'] % 3), (cec, W.CKey, W.CBitcoinSecret.from_secret_bytes)[o['how'] % 3](b, o['comp']) if (o['secret'], o['comp'], o['how'] % 3) not in s.signers else None)
            fn = lambda: x.sign(h)
        if 'upto' in o:
            # signatures are as long as their numbers happen to be
            x = (cec(b, o['comp']), W.CKey(b, o['comp']), W.CBitcoinSecret.from_secret_bytes(b, o['comp']))[o['how'] % 3]

            def fn():
                for _ in range(20000):
                    g = x.sign(h)
                    if g[1] + 2 <= o['upto']:
                        break
                return g
    elif k == 'verify':
        old = None
        if 'old' in o:
            # a public key made before, with others made since
            if not s.pubs:
                return
            e['pub'], old = s.pubs[o['old'] % len(s.pubs)]
        p, h, g = bytes.fromhex(e['pub']), bytes.fromhex(o['digest']), bytes.fromhex(o['sig'])

        def fn():
            if o['how'] % 2:
                x = CECKey()
                x.set_pubkey(p)
                return x.verify(h, g)
            x = old or CPubKey(p)
            r = x.verify(h, g)
            if x.verify(h, g) is not r:
                raise BadValue('not the same again')
            return r
        pr = p_bool
    elif k == 'pub':
        def fn():
            x = CPubKey(bytes.fromhex(o['pub']))
            if len(s.pubs) < 50:
                s.pubs.append((o['pub'], x))
            return x
        pr = lambda x: {'valid': p_bool(x.is_valid), 'full': p_bool(x.is_fullyvalid), 'comp': p_bool(x.is_compressed), 'bytes': hexs(x)}
    elif k == 'ecdh':
        def fn():
            a, b = cec(bytes.fromhex(o['secret'])), cec(bytes.fromhex(o['other']))
            if o['pubonly']:
                c = CECKey()
                c.set_pubkey(b.get_pubkey())
                b = c
            return a.get_raw_ecdh_key(b) if o['kdf'] == 'raw' else a.get_ecdh_key(b) if o['kdf'] == 'sha' else a.get_ecdh_key(b, kdf=dsha)
    elif k == 'der':
        def fn():
            a = cec(bytes.fromhex(o['secret']), o['comp'])
            b = CECKey()
            if not b.set_privkey(a.get_privkey()):
                raise BadValue('not accepted')
            b.set_compressed(o['comp'])
            h = bytes(32)
            if not a.verify(h, b.sign(h)):
                raise BadValue('not the same key')
            return b.get_pubkey()
    elif k == 'wif':
        def fn():
            x = W.CBitcoinSecret.from_secret_bytes(bytes.fromhex(o['secret']), o['comp'])
            if x.__class__ is not W.CBitcoinSecret:
                raise BadValue('%r' % (x,))
            if len(s.live) < 50:
                s.live.append((x, o['secret'], o['comp']))
            return x
        pr = lambda x: {'str': p_str(str(x)), 'about': about(x)}
    elif k == 'unwif':
        fn = lambda: W.CBitcoinSecret(o['s'])
        pr = lambda x: {'secret': hexs(x.to_bytes()[:32]), 'about': about(x), 'str': p_str(str(x))}
    elif k == 'again':
        if not s.live:
            return
        x, e['secret'], e['comp'] = s.live[o['i'] % len(s.live)]
        fn, pr = lambda: x, about
    elif k == 'drop':
        del s.live[o['i']::2]
        gc.collect()
        return
    res, e['out'] = call(fn, pr, timeout=60) if threading.current_thread() is threading.main_thread() else tcall(fn, pr)
    if o.get('keep') and e['out']['k'] == 'ok':
        (s.sigs if k == 'sign' else s.texts).append(e['out']['v'] if k == 'sign' else e['out']['v']['str'])
    ev.append(e)


def tcall(fn, pr):
    try:
        r = fn()
    except BaseException as x:
        return None, out('exc', str(x)[:200], [c.__name__ for c in type(x).__mro__])
    try:
        return r, out('ok', pr(r))
    except BaseException as x:
        return None, out('bad', str(x)[:200])


def ex(prog, ev):
    bitcoin.SelectParams('mainnet')
    s = S()
    s.keys, s.sigs, s.texts, s.live, s.pubs, s.n, s.signers = [], [], [], [], [], 0, {}
    for o in prog:
        if o['op'] == 'threads':
            evs = [[] for _ in o['progs']]
            go = threading.Barrier(len(evs))

            def work(p, v):
                t = S()
                t.keys, t.sigs, t.texts, t.live, t.pubs, t.n, t.signers = [], [], [], [], [], 0, {}
                go.wait()
                for x in p:
                    one(x, t, v)
            ts = [threading.Thread(target=work, args=a) for a in zip(o['progs'], evs)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            for v in evs:
                ev.extend(v)
            continue
        one(o, s, ev)
    bitcoin.SelectParams('mainnet')


def r_secret(r):
    n = r.choice([1, 2, 3, ec.N - 1, ec.N - 2, 2**255, r.randrange(1, ec.N), r.randrange(1, ec.N), r.randrange(1, 2**r.randrange(1, 250))])
    return n.to_bytes(32, 'big').hex()


def r_pub(r, sec):
    b = bytearray(ec.pub(int(sec, 16), r.random() < .6, hybrid=r.random() < .1))
    k = r.random()
    if k < .15:
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    elif k < .2:
        b[0] ^= 1
    elif k < .25:
        b = b[:r.randrange(len(b))]
    elif k < .3:
        b += b'\0'
    elif k < .35:
        b = bytearray.fromhex(r.choice(['', '00', '01', '02', '03', '04', '0000', '02' + 'ff' * 32, '02' + '00' * 32, '04' + '00' * 64, '02' + '%064x' % (ec.P + 1)]))
    return bytes(b).hex()


def ops(r, n, chain='mainnet', threads=False):
    p = []
    secs = [r_secret(r) for _ in range(3)]
    for _ in range(n):
        sec, comp = r.choice(secs), r.random() < .5
        q = r.random()
        D = r.choice([r_bytes(r, 32), '00' * 32, 'ff' * 32, '%064x' % ec.N, '%064x' % 1])
        if q < .08 and not threads:
            chain = r.choice(list(SV))
            p.append({'op': 'select', 'chain': chain})
        elif q < .2:
            p.append({'op': 'key', 'secret': sec if r.random() < .9 else r.choice(['', sec[2:], sec + '00', '00' + sec, '00' * 32, '%064x' % ec.N, 'ff' * 32]), 'comp': comp, 'how': r.randrange(2)})
        elif q < .26:
            p.append({'op': 'form', 'secret': sec, 'comp': comp})
        elif q < .4:
            p.append({'op': 'sign', 'secret': sec, 'comp': comp, 'digest': D if r.random() < .9 else r.choice(['', D[2:], D + '00']), 'how': r.randrange(3)})
        elif q < .6:
            g = ec.sign(int(sec, 16), bytes.fromhex(D), r.randrange(3)).hex()
            D2, pub, k = D, ec.pub(int(sec, 16), comp).hex(), r.random()
            if k < .12:
                b = bytearray.fromhex(D)
                b[r.randrange(32)] ^= 1 << r.randrange(8)
                D2 = bytes(b).hex()
            elif k < .24:
                pub = ec.pub(int(r.choice(secs), 16), comp).hex()
            elif k < .5:
                pub = r_pub(r, sec)
            elif k < .6:
                b = bytearray.fromhex(g)
                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                g = bytes(b).hex()
            elif k < .66:
                g = r.choice(['', '00', g[:-2], g + '00', '3006020100020100', '3006020101020101', '30'])
            elif k < .8:
                g, pub = forge(D), r.choice(['00', '01', '', '02' + 'ff' * 32, '04' + '00' * 64, '03', r_pub(r, sec)])
            o = {'op': 'verify', 'pub': pub, 'digest': D2, 'sig': g, 'how': r.randrange(2)}
            if r.random() < .2:
                o.update(old=r.randrange(50), how=0)
            p.append(o)
        elif q < .68:
            p.append({'op': 'pub', 'pub': r_pub(r, sec)})
        elif q < .74:
            p.append({'op': 'ecdh', 'secret': sec, 'other': r.choice(secs), 'kdf': r.choice(['raw', 'sha', 'dsha']), 'pubonly': r.random() < .6})
        elif q < .78:
            p.append({'op': 'der', 'secret': sec, 'comp': comp})
        elif q < .86:
            p.append({'op': 'wif', 'secret': sec if r.random() < .85 else r.choice([sec[2:], sec + '01', sec + '00', '', '01' * 31, '01' * 33]), 'comp': comp})
        elif q < .94:
            k = r.random()
            data = sec + ('01' if comp else '')
            if k < .2:
                data = r.choice([sec[2:], sec + '00', sec + '02', sec + '0101', sec + '0100', sec + 'ff', '', '01', sec[2:] + '01'[:2], sec + '01' * 4])
            v = SV[chain] if r.random() < .7 else r.choice([0, 5, 128, 239, 111, r.randrange(256)])
            s = check(v, bytes.fromhex(data))
            if r.random() < .2:
                i = r.randrange(len(s))
                s = s[:i] + r.choice('12zZ0l') + s[i + 1:]
            p.append({'op': 'unwif', 's': s})
        elif q < .98:
            p.append({'op': 'again', 'i': r.randrange(50)})
        else:
            p.append({'op': 'drop', 'i': r.randrange(2)})
    return p


def progs():
    r = d.rng('key')
    for _ in range(d.scale(40, 800)):
        yield ops(r, 30)
    # signatures of every usual length
    for how in range(3):
        yield [{'op': 'sign', 'secret': r_secret(r), 'comp': how == 1, 'digest': r_bytes(r, 32), 'how': how, 'upto': n} for n in (72, 71, 70, 69, 68)]
    # public keys of the same and of opposite points, in every form, kept while the others are used
    for _ in range(d.scale(2, 20)):
        a = int(r_secret(r), 16)
        D = r_bytes(r, 32)
        pubs = [ec.pub(x, comp, hybrid=h).hex() for x in (a, ec.N - a, a % 1000 + 1) for comp, h in ((True, False), (False, False), (False, True))]
        pubs += ['04' + pubs[1][2:66] + pubs[4][66:][::-1], '05' + pubs[0][2:]]
        r.shuffle(pubs)
        gs = [ec.sign(x, bytes.fromhex(D), i % 3).hex() for i, x in enumerate((a, ec.N - a))]
        q = [(i, g) for i in range(len(pubs)) for g in gs]
        for order in (q, r.sample(q, len(q))):
            yield [{'op': 'pub', 'pub': x} for x in pubs] + [{'op': 'verify', 'pub': '', 'old': i, 'digest': D, 'sig': g, 'how': 0} for i, g in order]
    # one key signs many things, and one public key checks many signatures of many things
    for how in range(3):
        for _ in range(d.scale(1, 10)):
            sec, comp = r_secret(r), r.random() < .5
            D = [r_bytes(r, 32)]
            for i in (0, 1, 8, 16, 24, 31):
                b = bytearray.fromhex(D[0])
                b[i] ^= 1 << r.randrange(8)
                D.append(bytes(b).hex())
            D += [D[0][:32] + r_bytes(r, 16), r_bytes(r, 16) + D[0][32:], D[0]]
            yield [{'op': 'sign', 'secret': sec, 'comp': comp, 'digest': x, 'how': how, 'same': True} for x in D]
            pub = ec.pub(int(sec, 16), comp).hex()
            gs = [ec.sign(int(sec, 16), bytes.fromhex(x), how).hex() for x in D[:4]]
            gs.append(gs[0][:-2] + '%02x' % (int(gs[0][-2:], 16) ^ 1))
            q = [(x, g) for x in D for g in gs]
            for order in (q, sorted(q, key=lambda y: y[1]), r.sample(q, len(q))):
                yield [{'op': 'pub', 'pub': pub}] + [{'op': 'verify', 'pub': '', 'old': 0, 'digest': x, 'sig': g, 'how': 0} for x, g in order]
    # signatures followed by something, cut, or written otherwise than they should be
    for _ in range(d.scale(2, 20)):
        sec, D = r_secret(r), r_bytes(r, 32)
        g = ec.sign(int(sec, 16), bytes.fromhex(D), r.randrange(3))
        n = g[3]
        R, S_ = g[4:4 + n], g[6 + n:]
        der = lambda R, S_, t=b'': (b'\x30' + bytes([len(R) + len(S_) + len(t) + 4]) + b'\x02' + bytes([len(R)]) + R + b'\x02' + bytes([len(S_)]) + S_ + t)
        gs = [g + r.choice([b'\0', b'\1', b'\x30', b'\xff']) * k for k in list(range(12)) + [32, 64, 200]]
        gs += [g[:k] for k in (1, 2, 3, 4, 5, 8, 36, 37, len(g) - 3, len(g) - 2, len(g) - 1)]
        gs += [der(b'\0' * i + R, b'\0' * j + S_) for i in (0, 1, 2, 5) for j in (0, 1, 2, 5)]
        gs += [der(R, S_, b'\0' * i) for i in (1, 2, 3)] + [der(S_, R), b'\0' + g, g[1:], R.rjust(32, b'\0')[-32:] + S_.rjust(32, b'\0')[-32:]]
        gs += [b'\x30\x81' + g[1:], b'\x30\x80' + g[2:] + b'\0\0', g[:2] + b'\x02\x81' + g[3:], bytes([0x31]) + g[1:], g[:2] + b'\x03' + g[3:], g + g]
        v = int.from_bytes(S_, 'big')
        h = (ec.N - v).to_bytes(33, 'big').lstrip(b'\0')
        gs += [der(R, (b'\0' if h[0] > 127 else b'') + h), der(R, (v + ec.N).to_bytes(34, 'big').lstrip(b'\0')), der(R, (v + ec.N).to_bytes(33, 'big'))]
        for how in range(2):
            yield [{'op': 'verify', 'pub': ec.pub(int(sec, 16), how == 0).hex(), 'digest': D, 'sig': x.hex(), 'how': how} for x in gs]
    # many keys at once, some dropped
    for _ in range(d.scale(2, 20)):
        p = [{'op': 'key', 'secret': r_secret(r), 'comp': r.random() < .5, 'how': 0} for _ in range(30)] + [{'op': 'drop', 'i': 0}]
        yield p + [{'op': 'wif', 'secret': r_secret(r), 'comp': r.random() < .5} for _ in range(10)] + [{'op': 'again', 'i': i} for i in range(20)]
    for _ in range(d.scale(4, 40)):
        yield [{'op': 'threads', 'progs': [ops(r, 20, threads=True) for _ in range(6)]}]


for name, p in d.programs(progs):
    d.run(name, p, ex)
d.done()
