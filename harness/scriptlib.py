"""Scripts for the drivers: hex in and out"""
from btclib import *
import bitcoin.core.script as S
import bitcoin.core.scripteval as SE
import ec

KEYS = [int.from_bytes(hashlib.sha256(b'key%d' % i).digest(), 'big') for i in range(6)]
TX0 = {'version': '1', 'vin': [{'prevout': {'hash': '00' * 32, 'n': '0'}, 'script': '', 'seq': '4294967295'}], 'vout': [{'value': '1', 'script': '51'}], 'lock': '0'}


def push(h):
    n = len(h) // 2
    if n < 76:
        return '%02x' % n + h
    if n < 256:
        return '4c%02x' % n + h
    if n < 65536:
        return '4d' + n.to_bytes(2, 'little').hex() + h
    return '4e' + n.to_bytes(4, 'little').hex() + h


def num(v):
    """minimal script number, hex"""
    if v == 0:
        return ''
    a = abs(v)
    b = bytearray(a.to_bytes((a.bit_length() + 7) // 8, 'little'))
    if b[-1] & 0x80:
        b.append(0)
    if v < 0:
        b[-1] |= 0x80
    return bytes(b).hex()


def pnum(v):
    return '00' if v == 0 else '4f' if v == -1 else '%02x' % (80 + v) if 1 <= v <= 16 else push(num(v))


def sighash(code, tx, idx, t):
    """the harness's own signature hash, to make signatures with; code: without separators"""
    base = t & 31
    if idx >= len(tx['vin']) or (base == 3 and idx >= len(tx['vout'])):
        return b'\x01' + bytes(31)
    vin = [dict(i, script=code if k == idx else '', seq='0' if base in (2, 3) and k != idx else i['seq']) for k, i in enumerate(tx['vin'])]
    if t & 128:
        vin = [vin[idx]]
    vout = [] if base == 2 else tx['vout'] if base != 3 else [{'value': '-1', 'script': ''}] * idx + [tx['vout'][idx]]
    return dsha(b_tx(dict(tx, vin=vin, vout=vout)) + le(t, 4))


def m_any(tx, mut):
    t = m_tx(tx)
    return C.CMutableTransaction.from_tx(t) if mut else t


def good_tx(r, nin=None, nout=None):
    """a transaction that can be serialized"""
    t = r_tx(r)
    while not t['vin'] or (nin and len(t['vin']) < nin):
        t['vin'].append(r_txin(r))
    while nout and len(t['vout']) < nout:
        t['vout'].append(r_txout(r))
    return t
