"""Bitcoin structures in traces: built from, and projected to, plain data.
Nothing here uses the serialization code under verification."""
from drv import *
import hashlib
import struct
import bitcoin.core as C
from bitcoin.core.script import CScript


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def cs(n):
    if n < 253:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def le(n, k):
    return (n % (1 << (8 * k))).to_bytes(k, 'little')


def hexs(x):
    if not isinstance(x, bytes):
        raise BadValue('not bytes: %r' % (x,))
    return bytes(x).hex()


def ints(x):
    if x.__class__ is not int:
        raise BadValue('not an int: %r' % (x,))
    return str(x)


# -- projection -----------------------------------------------------------

def j_outpoint(o):
    return {'hash': hexs(o.hash), 'n': ints(o.n)}


def j_txin(i):
    return {'prevout': j_outpoint(i.prevout), 'script': hexs(i.scriptSig), 'seq': ints(i.nSequence)}


def j_txout(o):
    return {'value': ints(o.nValue), 'script': hexs(o.scriptPubKey)}


def j_tx(t):
    return {'version': ints(t.nVersion), 'vin': [j_txin(i) for i in t.vin], 'vout': [j_txout(o) for o in t.vout],
            'lock': ints(t.nLockTime)}


def j_header(b, vtx=()):
    return {'version': ints(b.nVersion), 'prev': hexs(b.hashPrevBlock), 'root': hexs(b.hashMerkleRoot),
            'time': ints(b.nTime), 'bits': ints(b.nBits), 'nonce': ints(b.nNonce), 'vtx': [j_tx(t) for t in vtx]}


def j_block(b):
    return j_header(b, b.vtx)


# -- building -------------------------------------------------------------

def m_outpoint(j):
    return C.COutPoint(bytes.fromhex(j['hash']), int(j['n']))


def m_txin(j):
    return C.CTxIn(m_outpoint(j['prevout']), CScript(bytes.fromhex(j['script'])), int(j['seq']))


def m_txout(j):
    return C.CTxOut(int(j['value']), CScript(bytes.fromhex(j['script'])))


def m_tx(j):
    return C.CTransaction([m_txin(i) for i in j['vin']], [m_txout(o) for o in j['vout']], int(j['lock']), int(j['version']))


def m_header(j):
    return C.CBlockHeader(int(j['version']), bytes.fromhex(j['prev']), bytes.fromhex(j['root']), int(j['time']),
                          int(j['bits']), int(j['nonce']))


def m_block(j):
    return C.CBlock(int(j['version']), bytes.fromhex(j['prev']), bytes.fromhex(j['root']), int(j['time']),
                    int(j['bits']), int(j['nonce']), (iter if int(j['nonce']) % 2 else list)([m_tx(t) for t in j['vtx']]))


# -- the bytes ------------------------------------------------------------

def b_outpoint(j):
    return bytes.fromhex(j['hash']) + le(int(j['n']), 4)


def b_var(h):
    return cs(len(h) // 2) + bytes.fromhex(h)


def b_tx(j):
    r = le(int(j['version']), 4) + cs(len(j['vin']))
    for i in j['vin']:
        r += b_outpoint(i['prevout']) + b_var(i['script']) + le(int(i['seq']), 4)
    r += cs(len(j['vout']))
    for o in j['vout']:
        r += le(int(o['value']), 8) + b_var(o['script'])
    return r + le(int(j['lock']), 4)


def b_header(j):
    return le(int(j['version']), 4) + bytes.fromhex(j['prev']) + bytes.fromhex(j['root']) + le(int(j['time']), 4) + \
        le(int(j['bits']), 4) + le(int(j['nonce']), 4)


def b_block(j):
    return b_header(j) + cs(len(j['vtx'])) + b''.join(b_tx(t) for t in j['vtx'])


# -- random structures ----------------------------------------------------

def r_bytes(r, n):
    return bytes(r.randrange(256) for _ in range(n)).hex()


def r_u32(r):
    return str(r.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 2, r.randrange(2**32)]))


def r_i32(r):
    return str(r.choice([1, 2, 0, -1, 2**31 - 1, -2**31, r.randrange(-2**31, 2**31)]))


def r_value(r):
    return str(r.choice([0, 1, -1, 50 * 10**8, 21 * 10**14, 21 * 10**14 + 1, 2**63 - 1, -2**63, r.randrange(21 * 10**14)]))


def r_script(r, mx=40):
    return r_bytes(r, r.choice([0, 0, 1, 2, 25, mx, r.randrange(mx + 1)]))


def r_outpoint(r):
    return {'hash': r.choice(['00' * 32, r_bytes(r, 32), '01' + '00' * 31]), 'n': r_u32(r)}


def r_txin(r):
    return {'prevout': r_outpoint(r), 'script': r_script(r), 'seq': r_u32(r)}


def r_txout(r):
    return {'value': r_value(r), 'script': r_script(r)}


def r_tx(r, n=4):
    return {'version': r_i32(r), 'vin': [r_txin(r) for _ in range(r.choice([0, 1, 1, 2, n]))],
            'vout': [r_txout(r) for _ in range(r.choice([0, 1, 1, 2, n]))], 'lock': r_u32(r)}


def r_header(r):
    return {'version': r_i32(r), 'prev': r_bytes(r, 32), 'root': r_bytes(r, 32), 'time': r_u32(r), 'bits': r_u32(r),
            'nonce': r_u32(r), 'vtx': []}


def r_block(r, n=4):
    return dict(r_header(r), vtx=[r_tx(r, 2) for _ in range(r.randrange(n + 1))])
