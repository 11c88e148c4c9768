"""Driver: base58 and addresses (C20).  Programs: lists of operations, see specs/AddrTrace.tla."""
from scriptlib import *
import hashlib
import bitcoin
import bitcoin.base58 as B58
import bitcoin.wallet as W
from bitcoin.core.key import CPubKey
from b58lib import DIG, enc58, check

d = Driver()
VER = {('mainnet', 'p2pkh'): 0, ('mainnet', 'p2sh'): 5, ('testnet', 'p2pkh'): 111, ('testnet', 'p2sh'): 196, ('regtest', 'p2pkh'): 111, ('regtest', 'p2sh'): 196}
CLS = {'any': W.CBitcoinAddress, 'p2pkh': W.P2PKHBitcoinAddress, 'p2sh': W.P2SHBitcoinAddress}


def kind(a):
    k = [k for k in ('p2pkh', 'p2sh') if a.__class__ is CLS[k]]
    if not k:
        raise BadValue('not an address: %r' % (a,))
    return k[0]


def about(a):
    if str(a).__class__ is not str or ('%s' % a) != str(a):
        raise BadValue('str')
    return {'kind': kind(a), 'hash': hexs(a.to_bytes()), 'ver': p_int(a.nVersion), 'str': str(a)}


def full(a):
    s = a.to_scriptPubKey()
    if s.__class__ is not CScript:
        raise BadValue('not a script')
    if hexs(a) != hexs(a.to_bytes()):
        raise BadValue('bytes')
    return dict(about(a), script=hexs(s))


def p_data(x):
    if x.__class__ is not B58.CBase58Data:
        raise BadValue('%r' % (x,))
    return {'ver': p_int(x.nVersion), 'data': hexs(x.to_bytes()), 'str': str(x)}


def ex(prog, ev):
    bitcoin.SelectParams('mainnet')
    made = []
    strs = []
    for o in prog:
        e = dict(o)
        k = o['op']
        pr = p_str
        # from the design
        if k == 'make':
            e = o = {'op': 'addrbytes', 'want': o['kind'], 'ver': -1, 'data': hashlib.sha256(b'%d' % o['h']).digest()[:20].hex()}
            e = dict(o)
            k = 'addrbytes'
        elif k == 'again':
            e = o = {'op': 'addr', 'want': o['want'], 's': strs[o['i'] - 1]}
            e = dict(o)
            k = 'addr'
        if k in ('old', 'oldscript') and (o['ref'] < 1 or o['ref'] > len(made)):
            ev.append({'op': 'skip'})
            continue
        if k == 'select':
            fn, pr = lambda: bitcoin.SelectParams(o['chain']), p_none
        elif k == 'b58enc':
            fn = lambda: B58.encode(bytes.fromhex(o['h']))
        elif k == 'b58dec':
            fn, pr = lambda: B58.decode(o['s']), hexs
        elif k == 'data':
            fn, pr = lambda: B58.CBase58Data(o['s']), p_data
        elif k == 'frombytes':
            fn, pr = lambda: B58.CBase58Data.from_bytes(bytes.fromhex(o['data']), o['ver']), p_data
        elif k == 'addr':
            fn, pr = lambda: CLS[o['want']](o['s']), full
        elif k == 'addrbytes':
            b = bytes.fromhex(o['data'])
            fn, pr = lambda: CLS[o['want']].from_bytes(b) if o['ver'] == -1 else CLS[o['want']].from_bytes(b, o['ver']), full
        elif k == 'fromscript':
            s = CScript(bytes.fromhex(o['script']))
            kw = {}
            if o['want'] == 'p2pkh':
                if not o['noncanon']:
                    kw['accept_non_canonical_pushdata'] = False
                if not o['bare']:
                    kw['accept_bare_checksig'] = False
            fn, pr = lambda: CLS[o['want']].from_scriptPubKey(s, **kw), full
        elif k == 'frompubkey':
            b = bytes.fromhex(o['pub'])
            if o['key']:
                b = CPubKey(b)
            fn, pr = lambda: W.P2PKHBitcoinAddress.from_pubkey(b, accept_invalid=True) if o['invalid'] else W.P2PKHBitcoinAddress.from_pubkey(b), full
        elif k == 'redeem':
            s = CScript(bytes.fromhex(o['script']))
            fn, pr = lambda: W.P2SHBitcoinAddress.from_redeemScript(s), full
        elif k == 'old':
            fn, pr = lambda: made[o['ref'] - 1], about
        elif k == 'oldscript':
            fn, pr = lambda: made[o['ref'] - 1].to_scriptPubKey(), hexs
        res, e['out'] = call(fn, pr)
        if k in ('addr', 'addrbytes', 'fromscript', 'frompubkey', 'redeem'):
            e['id'] = 0
            if e['out']['k'] == 'ok':
                made.append(res)
                e['id'] = len(made)
            if o['op'] == 'addrbytes' and e['out']['k'] == 'ok':
                strs.append(str(res))
        ev.append(e)
    bitcoin.SelectParams('mainnet')


def r_pub(r):
    b = bytearray(ec.pub(KEYS[r.randrange(6)], r.random() < .5))
    k = r.random()
    if k < .2:
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    elif k < .3:
        b = b[:r.randrange(len(b))]
    elif k < .35:
        b[0] = r.randrange(8)
    elif k < .4:
        b = bytearray.fromhex(r.choice(['', '00', '01', '02', '04', '0000']))
    return bytes(b).hex()


def anypush(r, h):
    n = len(h) // 2
    k = r.random()
    if k < .6:
        return push(h)
    return r.choice(['4c%02x' % (n % 256), '4d' + le(n, 2).hex(), '4e' + le(n, 4).hex()]) + h


def r_out(r):
    """output scripts, near the recognized forms"""
    h = r_bytes(r, 20)
    k = r.randrange(9)
    if k < 2:
        s = '76a9' + anypush(r, h) + '88ac'
    elif k < 4:
        s = 'a9' + (push(h) if r.random() < .8 else anypush(r, h)) + '87'
    elif k < 6:
        s = anypush(r, r.choice([r_bytes(r, 33), r_bytes(r, 65), ec.pub(KEYS[0]).hex(), ec.pub(KEYS[1], False).hex(), r_bytes(r, r.choice([32, 34, 64, 66])), '00' * 33])) + 'ac'
    elif k == 6:
        s = r_script(r, 40)
    else:
        s = r.choice(['', 'ac', '76a988ac', '76a90088ac', '51' + push(r_bytes(r, 33)) + '51ae', '6a' + push(h), '0014' + h, 'a914' + h + '88', '76a914' + h + '88ad', '76a914' + h + '87ac', 'a914' + h, '76a914' + h + '88',
                      'aa14' + h + '87', 'a915' + h + '0087', '76a913' + h[2:] + '88ac', '21' + r_bytes(r, 32) + 'ac', '76a914' + h + '88ac00', '76a914' + h + '88acac', '61a914' + h + '87', 'a914' + h + '8761'])
    if r.random() < .12 and s:
        b = bytearray.fromhex(s)
        b[r.choice([0, 1, 2, len(b) - 1, len(b) - 2, r.randrange(len(b))]) % len(b)] = r.randrange(256)
        s = bytes(b).hex()
    return s


def r_bytes0(r, mx):
    n = r.randrange(mx)
    z = r.choice([0, 0, 1, 2, n])
    return ('00' * z + r_bytes(r, n))


def r_text(r, s):
    """alterations of a text"""
    k = r.randrange(9)
    if k == 0 or not s:
        return s
    i = r.randrange(len(s))
    c = r.choice(DIG)
    return {1: s[:i] + c + s[i + 1:], 2: s[:i] + s[i + 1:], 3: s[:i] + c + s[i:], 4: '1' + s, 5: s[1:], 6: s[:i] + r.choice('0OIl+/ _-\n\0éü１') + s[i + 1:], 7: s + r.choice(DIG), 8: s[:-1] + r.choice(DIG)}[k]


def r_addrtext(r, chain):
    k = r.random()
    ver = VER[(chain, r.choice(['p2pkh', 'p2sh']))] if k < .5 else r.choice([0, 5, 111, 196, 128, 239, 1, 4, 6, 110, 112, 195, 197, 255, r.randrange(256)])
    n = 20 if r.random() < .85 else r.choice([0, 1, 2, 18, 19, 21, 22, 32, 33])
    return check(ver, bytes.fromhex(r.choice([r_bytes(r, n), '00' * n, 'ff' * n])))


def progs():
    r = d.rng('addr')
    fix = [v for v in range(256) if dsha(bytes([v]))[0] == v]
    p = [{'op': 'data', 's': enc58(dsha(bytes([v]))[:4])} for v in fix]     # four bytes that are their own checksum
    p += [{'op': 'data', 's': enc58(dsha(b'')[:4])}, {'op': 'data', 's': ''}] + [{'op': 'data', 's': '1' * i} for i in range(1, 8)]
    p += [{'op': 'frombytes', 'ver': v, 'data': 'ab'} for v in (-1, 0, 1, 255, 256, 1000)]
    yield p
    # checksums that start and end with special bytes
    p, want = [], {(at, b) for at in range(4) for b in (0, 1, 0x39, 0x3a, 0x7f, 0x80, 0xff)} | {'00', 'last'}
    for i in range(200000):
        v, x = (0, 5, 111, 196)[i % 4], hashlib.sha256(b'%d %d' % (i, d.seed)).digest()[:20]
        c = dsha(bytes([v]) + x)[:4]
        got = want & ({(at, c[at]) for at in range(4)} | ({'00'} if c[:2] == b'\0\0' else set()) | ({'last'} if c[2:] == b'\0\0' else set()))
        if got:
            want -= got
            p += [{'op': 'data', 's': check(v, x)}, {'op': 'frombytes', 'ver': v, 'data': x.hex()},
                  {'op': 'select', 'chain': 'mainnet' if v < 6 else 'testnet'}, {'op': 'addr', 'want': 'any', 's': check(v, x)}]
            for y in (check(v, x, c[1:]), check(v, x, c.lstrip(b'\0') if c[0] == 0 else c + b'\0'), check(v, x, c.rstrip(b'\0') if c[-1] == 0 else c[::-1])):
                p.append({'op': 'data', 's': y})
        if not want:
            break
    yield p
    for _ in range(d.scale(30, 600)):
        p = []
        for _ in range(12):
            h = r_bytes0(r, 40)
            p.append({'op': 'b58enc', 'h': h})
            p.append({'op': 'b58dec', 's': r_text(r, enc58(bytes.fromhex(h)))})
            v, x = r.randrange(256), r_bytes0(r, 30)
            p.append({'op': 'frombytes', 'ver': v, 'data': x})
            s = check(v, bytes.fromhex(x))
            p.append({'op': 'data', 's': s if r.random() < .3 else r_text(r, s)})
        yield p
    # public keys, valid or not, of every length
    p = []
    for n in list(range(70)) + [75, 76, 97, 98, 128, 255, 256, 300]:
        for h in (ec.pub(KEYS[n % 6], n % 2 == 0).hex() + '00' * 300)[:2 * n], r_bytes(r, n):
            p.append({'op': 'frompubkey', 'pub': h, 'invalid': n % 3 > 0, 'key': n % 2 > 0})
            if n in (32, 33, 34, 64, 65, 66):
                p += [dict(p[-1], invalid=i, key=j) for i in (True, False) for j in (True, False)]
    for i in range(0, len(p), 30):
        yield p[i:i + 30]
    for _ in range(d.scale(60, 1500)):
        chain = 'mainnet'
        p = []
        for _ in range(20):
            q = r.random()
            if q < .12:
                chain = r.choice(['mainnet', 'testnet', 'regtest'])
                p.append({'op': 'select', 'chain': chain})
            elif q < .14:
                p.append({'op': 'select', 'chain': r.choice(['main', '', 'MAINNET', 'simnet'])})
            elif q < .34:
                s = r_addrtext(r, chain)
                p.append({'op': 'addr', 'want': r.choice(['any', 'any', 'p2pkh', 'p2sh']), 's': s if r.random() < .7 else r_text(r, s)})
            elif q < .48:
                w = r.choice(['any', 'p2pkh', 'p2sh'])
                ver = VER[(chain, r.choice(['p2pkh', 'p2sh']))] if r.random() < .6 else r.choice([0, 5, 111, 196, 128, 239, 77])
                p.append({'op': 'addrbytes', 'want': w, 'ver': ver if w == 'any' or r.random() < .5 else -1, 'data': r_bytes(r, 20 if r.random() < .85 else r.choice([0, 19, 21, 32]))})
            elif q < .72:
                w = r.choice(['any', 'any', 'p2pkh', 'p2sh'])
                p.append({'op': 'fromscript', 'want': w, 'script': r_out(r), 'noncanon': w != 'p2pkh' or r.random() < .6, 'bare': w != 'p2pkh' or r.random() < .6})
            elif q < .8:
                p.append({'op': 'frompubkey', 'pub': r_pub(r), 'invalid': r.random() < .4, 'key': r.random() < .4})
            elif q < .85:
                p.append({'op': 'redeem', 'script': r_bytes(r, r.choice([0, 1, 25, 75, 76, 519, 520, 521, 600]))})
            elif q < .95:
                p.append({'op': 'old', 'ref': r.randrange(1, 8)})
            else:
                p.append({'op': 'oldscript', 'ref': r.randrange(1, 8)})
        yield p + [{'op': 'old', 'ref': i} for i in range(1, 4)]


for name, p in d.programs(progs):
    d.run(name, p, ex)
d.done()
