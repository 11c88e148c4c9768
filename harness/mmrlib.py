"""Mountain range classes over several kinds of values, and how values appear in traces"""
from drv import *
import proofmarshal.proof as P
import proofmarshal.serialize as S
import proofmarshal.mmr as M

TAG = {'u8': '738b5a85-d6f1-4873-9c21-300a01166f1d', 'digest': '11111111-d6f1-4873-9c21-300a01166f1e',
       'var': '22222222-d6f1-4873-9c21-300a01166f1f', 'proof': '33333333-d6f1-4873-9c21-300a01166f20',
       'u8b': '738b5a85-d6f1-4873-9c21-300a01166f1e'}
PVTAG = '44444444-0000-4000-8000-000000000001'


def leb(n):
    r = b''
    while True:
        b = n & 127
        n >>= 7
        if n:
            r += bytes([b | 128])
        else:
            return r + bytes([b])


class PV(P.Proof):
    HASHTAG = S.HashTag(PVTAG)
    __slots__ = ['n']
    SERIALIZED_ATTRS = [('n', S.UInt8)]


def mk(kind):
    ser = {'u8': S.UInt8, 'u8b': S.UInt8, 'digest': S.Digest, 'var': S.VarBytes(40), 'proof': PV}[kind]

    class R(M.MerkleMountainRange):
        __slots__ = []
        HASHTAG = S.HashTag(TAG[kind])
        VALUE_SERIALIZER = ser
    R.__qualname__ = R.__name__ = 'R_' + kind
    return M.make_mmr_subclass(R)


CLS = {k: mk(k) for k in TAG}


def hx(tag):
    return tag.replace('-', '')


def cls_info(kind):
    return {'tag': hx(TAG[kind]), 'leaf': hx(PVTAG) if kind == 'proof' else 'ser'}


def val(kind, v):
    """the value number v (0..255)"""
    if kind in ('u8', 'u8b'):
        return v
    if kind == 'digest':
        return bytes([v]) * 31 + bytes([v ^ 255])
    if kind == 'var':
        return bytes([v]) * (v % 40)
    return PV(n=v)


def enc(kind, v):
    """its serialization, as the specification has it"""
    if kind in ('u8', 'u8b', 'proof'):
        return leb(v).hex()
    if kind == 'digest':
        return (bytes([v]) * 31 + bytes([v ^ 255])).hex()
    b = bytes([v]) * (v % 40)
    return (leb(len(b)) + b).hex()


def p_val(kind):
    def f(x):
        if kind in ('u8', 'u8b'):
            if x.__class__ is not int or x < 0:
                raise BadValue('not a value: %r' % (x,))
            return leb(x).hex()
        if kind == 'proof':
            if x.__class__ is not PV:
                raise BadValue('not a value: %r' % (x,))
            return leb(x.n).hex()
        if x.__class__ is not bytes:
            raise BadValue('not a value: %r' % (x,))
        return x.hex() if kind == 'digest' else (leb(len(x)) + x).hex()
    return f


def p_list(kind):
    f = p_val(kind)
    return lambda x: [f(i) for i in x]


def p_range(kind):
    f = p_val(kind)

    def g(m):
        if not isinstance(m, CLS[kind]):
            raise BadValue('not a range: %r' % (m.__class__,))
        return [f(i) for i in m]
    return g


def shape(m):
    """preorder lengths"""
    n = len(m)
    if isinstance(m, m.InnerNodeClass):
        if p_int(m.length) != n:
            raise BadValue('length %r of a range of %d' % (m.length, n))
        return [n] + shape(m.left) + shape(m.right)
    if (n == 0) != isinstance(m, m.EmptyNodeClass) or (n == 1) != isinstance(m, m.LeafNodeClass):
        raise BadValue('node class %r of length %d' % (m.__class__, n))
    return [n]
