"""Peer-to-peer messages: made, looked at, in bytes, and at random"""
from btclib import *
import copy
import random
from io import BytesIO
import bitcoin
import bitcoin.messages as MS
import bitcoin.net as NE

MAGIC = {'mainnet': 'f9beb4d9', 'testnet': '0b110907', 'regtest': 'fabfb5da'}
PARAMS = {'mainnet': bitcoin.MainParams, 'testnet': bitcoin.TestNetParams, 'regtest': bitcoin.RegTestParams}
CLS = {n: getattr(MS, 'msg_' + n) for n in ('version', 'verack', 'addr', 'alert', 'inv', 'getdata', 'getblocks', 'getheaders', 'headers', 'tx', 'block', 'getaddr', 'ping', 'pong', 'mempool')}
HEADERS = C.CBlock


# -- building and projecting ----------------------------------------------
def m_addr(v):
    a = NE.CAddress()
    if len(v) == 5:
        a.nTime = int(v[0])
    a.nServices, a.pchReserved, a.ip, a.port = int(v[-4]), bytes.fromhex(v[-3]), '.'.join(str(x) for x in bytes.fromhex(v[-2])), int(v[-1])
    return a


def j_addr(a, time):
    if a.__class__ is not NE.CAddress or a.ip.__class__ is not str:
        raise BadValue('not an address: %r' % (a,))
    q = a.ip.split('.')
    if len(q) != 4 or any(str(int(x)) != x or not 0 <= int(x) <= 255 for x in q):
        raise BadValue('ip %r' % (a.ip,))
    return ([ints(a.nTime)] if time else []) + [ints(a.nServices), hexs(a.pchReserved), bytes(int(x) for x in q).hex(), ints(a.port)]


def m_inv(v):
    i = NE.CInv()
    i.type, i.hash = int(v[0]), bytes.fromhex(v[1])
    return i


def j_inv(i):
    if i.__class__ is not NE.CInv:
        raise BadValue('not an inv: %r' % (i,))
    return [ints(i.type), hexs(i.hash)]


def items(x, f):
    if not isinstance(x, (list, tuple)):
        raise BadValue('not a list: %r' % (x,))
    return [f(i) for i in x]


def kind(x, c):
    if x.__class__ is not c:
        raise BadValue('a %s, not a %s' % (x.__class__.__name__, c.__name__))
    return x


def fill(m, attr, lst, assign):
    if assign:
        setattr(m, attr, lst)
    else:               # as users of a fresh message do
        getattr(m, attr).extend(lst)


UA = ('nVersion', 'nRelayUntil', 'nExpiration', 'nID', 'nCancel', 'setCancel', 'nMinVer', 'nMaxVer', 'setSubVer', 'nPriority', 'strComment', 'strStatusBar', 'strReserved')


def make(cmd, v, assign=True):
    m = CLS[cmd]()
    if cmd == 'version':
        opt = lambda f, x: None if x == 'none' else f(x)
        m.nVersion, m.nServices, m.nTime, m.addrTo = int(v[0]), int(v[1]), int(v[2]), m_addr(v[3])
        m.addrFrom, m.nNonce, m.strSubVer, m.nStartingHeight = opt(m_addr, v[4]), opt(int, v[5]), opt(bytes.fromhex, v[6]), opt(int, v[7])
    elif cmd == 'addr':
        fill(m, 'addrs', [m_addr(a) for a in v[0]], assign)
    elif cmd == 'alert':
        m.alert.vchMsg, m.alert.vchSig = bytes.fromhex(v[0]), bytes.fromhex(v[1])
    elif cmd in ('inv', 'getdata'):
        fill(m, 'inv', [m_inv(i) for i in v[0]], assign)
    elif cmd in ('getblocks', 'getheaders'):
        m.locator.nVersion = int(v[0])
        fill(m.locator, 'vHave', [bytes.fromhex(h) for h in v[1]], assign)
        m.hashstop = bytes.fromhex(v[2])
    elif cmd == 'headers':
        fill(m, 'headers', [m_block(b) for b in v[0]], assign)
    elif cmd == 'tx':
        m.tx = m_tx(v[0])
    elif cmd == 'block':
        m.block = m_block(v[0])
    elif cmd in ('ping', 'pong'):
        if not assign:
            m = CLS[cmd](nonce=int(v[0]))
        m.nonce = int(v[0])
    return m


def proj(m):
    cmd = [c for c in CLS if CLS[c] is m.__class__]
    if not cmd:
        raise BadValue('not a message: %r' % (m,))
    cmd = cmd[0]
    v = []
    if cmd == 'version':
        opt = lambda f, x: 'none' if x is None else f(x)
        v = [ints(m.nVersion), ints(m.nServices), ints(m.nTime), j_addr(m.addrTo, False), opt(lambda a: j_addr(a, False), m.addrFrom), opt(ints, m.nNonce), opt(hexs, m.strSubVer), opt(ints, m.nStartingHeight)]
    elif cmd == 'addr':
        v = [items(m.addrs, lambda a: j_addr(a, True))]
    elif cmd == 'alert':
        v = [hexs(kind(m.alert, NE.CAlert).vchMsg), hexs(m.alert.vchSig)]
    elif cmd in ('inv', 'getdata'):
        v = [items(m.inv, j_inv)]
    elif cmd in ('getblocks', 'getheaders'):
        v = [ints(kind(m.locator, NE.CBlockLocator).nVersion), items(m.locator.vHave, hexs), hexs(m.hashstop)]
    elif cmd == 'headers':
        v = [items(m.headers, lambda b: j_block(kind(b, C.CBlock)))]
    elif cmd == 'tx':
        v = [j_tx(kind(m.tx, C.CTransaction))]
    elif cmd == 'block':
        v = [j_block(kind(m.block, C.CBlock))]
    elif cmd in ('ping', 'pong'):
        v = [ints(m.nonce)]
    return {'k': 'msg', 'cmd': cmd, 'v': v}


# -- the bytes, independently ---------------------------------------------
def vec(l, f):
    return cs(len(l)) + b''.join(f(i) for i in l)


def b_addr(v):
    return (le(int(v[0]), 4) if len(v) == 5 else b'') + le(int(v[-4]), 8) + bytes.fromhex(v[-3]) + bytes.fromhex(v[-2]) + le(int(v[-1]), 2)[::-1]


def payload(cmd, v):
    if cmd == 'version':
        b = le(int(v[0]), 4) + le(int(v[1]), 8) + le(int(v[2]), 8) + b_addr(v[3])
        if int(v[0]) >= 106:
            b += b_addr(v[4]) + le(int(v[5]), 8) + b_var(v[6])
        if int(v[0]) >= 209:
            b += le(int(v[7]), 4)
        return b
    if cmd == 'addr':
        return vec(v[0], b_addr)
    if cmd == 'alert':
        return b_var(v[0]) + b_var(v[1])
    if cmd in ('inv', 'getdata'):
        return vec(v[0], lambda i: le(int(i[0]), 4) + bytes.fromhex(i[1]))
    if cmd in ('getblocks', 'getheaders'):
        return le(int(v[0]), 4) + vec(v[1], bytes.fromhex) + bytes.fromhex(v[2])
    if cmd == 'headers':
        return vec(v[0], b_block)
    if cmd == 'tx':
        return b_tx(v[0])
    if cmd == 'block':
        return b_block(v[0])
    if cmd in ('ping', 'pong'):
        return le(int(v[0]), 8)
    return b''


def frame(chain, cmd, p, field=None):
    f = field if field is not None else cmd.encode() + bytes(12 - len(cmd))
    return bytes.fromhex(MAGIC[chain]) + f + le(len(p), 4) + dsha(p)[:4] + p


# -- random messages ------------------------------------------------------
def r_u64(r):
    return str(r.choice([0, 1, 2**32, 2**63, 2**64 - 1, r.randrange(2**64)]))


def r_i64(r):
    return str(r.choice([0, 1, -1, 2**63 - 1, -2**63, 2**31, 1400000000, r.randrange(-2**63, 2**63)]))


def r_addr(r, time):
    return ([r_u32(r)] if time else []) + [r_u64(r), r.choice(['00' * 10 + 'ffff', r_bytes(r, 12), '00' * 12]), r_bytes(r, 4), str(r.choice([0, 8333, 18333, 1, 255, 256, 65535, r.randrange(65536)]))]


def count(r):
    return r.choice([0, 1, 1, 2, 3, 5])


VERSIONS = [-1, 0, 1, 105, 106, 107, 208, 209, 210, 299, 300, 301, 10299, 10300, 10301, 31402, 60002, 70001, 2**31 - 1, -2**31]
# one bit away from the versions that change what follows
NEARLY = sorted({(n ^ (1 << b)) - (2**32 if (n ^ (1 << b)) >= 2**31 else 0) for n in (106, 209, 10300) for b in range(32)})


def r_msg(r, cmd):
    if cmd == 'version':
        n = r.choice(VERSIONS)
        v = [str(n), r_u64(r), r_i64(r), r_addr(r, False)] + ([r_addr(r, False), r_u64(r), r_script(r)] if n >= 106 else ['none'] * 3) + [r_i32(r) if n >= 209 else 'none']
        return v
    if cmd == 'addr':
        return [[r_addr(r, True) for _ in range(count(r))]]
    if cmd == 'alert':
        return [r_script(r, 300), r_script(r, 72)]
    if cmd in ('inv', 'getdata'):
        return [[[str(r.choice([0, 1, 2, 3, 4, -1, 2**31 - 1, -2**31])), r_bytes(r, 32)] for _ in range(r.choice([count(r), 252, 253, 254]) if r.random() < .1 else count(r))]]
    if cmd in ('getblocks', 'getheaders'):
        return [r_i32(r), [r_bytes(r, 32) for _ in range(count(r))], r_bytes(r, 32)]
    if cmd == 'headers':
        return [[r_header(r) if r.random() < .8 else r_block(r, 2) for _ in range(count(r))]]
    if cmd == 'tx':
        return [r_tx(r)]
    if cmd == 'block':
        return [r_block(r)]
    if cmd in ('ping', 'pong'):
        return [r_u64(r)]
    return []


FRESH = {'verack': [], 'getaddr': [], 'mempool': [], 'addr': [[]], 'alert': ['', ''], 'inv': [[]], 'getdata': [[]], 'getblocks': ['60002', [], '00' * 32], 'getheaders': ['60002', [], '00' * 32],
         'headers': [[]], 'ping': ['0'], 'pong': ['0'], 'tx': [{'version': '1', 'vin': [], 'vout': [], 'lock': '0'}]}
