"""Merbinner tree classes over several kinds of keys and values"""
import hashlib
from mmrlib import *
import proofmarshal.merbinnertree as B
from proofmarshal.bits import Bits, BitsSerializer

BTAG = {'d': '2bb60984-0486-41ab-aad6-bd5b1586bd14', 'b1': '2bb60984-0486-41ab-aad6-bd5b1586bd15',
        'bits': '2bb60984-0486-41ab-aad6-bd5b1586bd16', 'proof': '2bb60984-0486-41ab-aad6-bd5b1586bd17',
        'dp': '2bb60984-0486-41ab-aad6-bd5b1586bd18', 'b2': '2bb60984-0486-41ab-aad6-bd5b1586bd19'}
# key kind, value kind of each class
KV = {'d': ('d', 'u8'), 'b1': ('b1', 'var'), 'bits': ('bits', 'u8'), 'proof': ('proof', 'u8'), 'dp': ('d', 'proof'), 'b2': ('b2', 'u8')}
KPTAG = '55555555-0000-4000-8000-000000000001'


class KP(P.Proof):
    HASHTAG = S.HashTag(KPTAG)
    __slots__ = ['n']
    SERIALIZED_ATTRS = [('n', S.UInt8)]


def kp_hash(n):
    h = lambda b: hashlib.sha256(b).digest()
    return h(bytes.fromhex(hx(KPTAG)) + h(leb(n)))


def bits_of(b):
    return [(byte >> (7 - i)) & 1 for byte in b for i in range(8)]


def mkb(kind, tag=None):
    kk, vk = KV[kind]
    kser = {'d': S.Digest, 'b1': S.FixedBytes(1), 'b2': S.FixedBytes(2), 'bits': BitsSerializer, 'proof': KP}[kk]
    vser = {'u8': S.UInt8, 'var': S.VarBytes(40), 'proof': PV}[vk]
    k2p = {'d': lambda k: Bits.from_bytes(k), 'b1': lambda k: Bits.from_bytes(k), 'b2': lambda k: Bits.from_bytes(k[:1]), 'bits': lambda k: k,
           'proof': lambda k: Bits.from_bytes(k.hash)}[kk]

    class T(B.MerbinnerTree):
        __slots__ = []
        HASHTAG = S.HashTag(tag or BTAG[kind])
        KEY_SERIALIZER = kser
        VALUE_SERIALIZER = vser
        key2prefix = staticmethod(k2p)
    T.__qualname__ = T.__name__ = 'T_' + kind
    return B.make_MerbinnerTree_subclass(T)


BCLS = {k: mkb(k) for k in BTAG}
# others of the same keys and values, under another tag
OTHER = {k: mkb(k, '3cc70a95-0486-41ab-aad6-bd5b1586bd14') for k in BTAG}


def bcls_info(kind):
    return {'tag': hx(BTAG[kind]), 'leaf': hx(PVTAG) if KV[kind][1] == 'proof' else 'ser'}


def pack(bits):
    v = list(bits) + [0] * (-len(bits) % 8)
    return bytes(int(''.join(map(str, v[i:i + 8])), 2) for i in range(0, len(v), 8))


class Universe:
    """keys given as: hex (d, b1), list of bits (bits), number (proof); sorted by bits"""
    def __init__(self, kind, keys):
        self.kind, self.kk = kind, KV[kind][0]
        ent = []
        for k in keys:
            if self.kk in ('d', 'b1', 'b2'):
                b = bytes.fromhex(k)
                # only the first of the two bytes of a b2 is in its prefix
                ent.append((bits_of(b[:1] if self.kk == 'b2' else b), b.hex(), b.hex(), k))
            elif self.kk == 'bits':
                s = (leb(len(k)) + pack(k)).hex()
                ent.append((list(k), s, s, k))
            else:
                h = kp_hash(k)
                ent.append((bits_of(h), h.hex(), '00' + leb(k).hex(), k))
        ent.sort(key=lambda e: e[0])
        self.raw = [e[3] for e in ent]
        self.table = [{'bits': e[0], 'contrib': e[1], 'ser': e[2]} for e in ent]

    def key(self, i):
        k = self.raw[i - 1]
        if self.kk in ('d', 'b1', 'b2'):
            return bytes.fromhex(k)
        if self.kk == 'bits':
            return Bits(k)
        return KP(n=k)

    def p_key(self, k):
        if self.kk in ('d', 'b1', 'b2'):
            if k.__class__ is not bytes:
                raise BadValue('not a key: %r' % (k,))
            return self.raw.index(k.hex()) + 1
        if self.kk == 'bits':
            if k.__class__ is not Bits:
                raise BadValue('not a key: %r' % (k,))
            return self.raw.index(list(k)) + 1
        if k.__class__ is not KP:
            raise BadValue('not a key: %r' % (k,))
        return self.raw.index(k.n) + 1


def bshape(t):
    if isinstance(t, t.InnerNodeClass):
        return [[p_int(i) for i in t.prefix]] + bshape(t.left) + bshape(t.right)
    return [[p_int(i) for i in t.prefix]]
