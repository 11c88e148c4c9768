"""Proof classes with fields of every kind, and how their values appear in traces"""
from drv import *
import proofmarshal.proof as P
import proofmarshal.serialize as S
from proofmarshal.bits import Bits, BitsSerializer


def leb(n):
    r = b''
    while True:
        b = n & 127
        n >>= 7
        if n:
            r += bytes([b | 128])
        else:
            return r + bytes([b])


def pack(bits):
    v = list(bits) + [0] * (-len(bits) % 8)
    return bytes(int(''.join(map(str, v[i:i + 8])), 2) for i in range(0, len(v), 8))


# plain field types: class, value from its JSON form, encoding of a value, check of a value
def _int(mx):
    return (lambda j: int(j), lambda v: leb(v).hex(), lambda v: v.__class__ is int and 0 <= v <= mx)


def _bytes(pre):
    return (bytes.fromhex, lambda v: ((leb(len(v)) if pre else b'') + v).hex(), lambda v: v.__class__ is bytes)


PLAIN = {
    'u8': (S.UInt8,) + _int(2**8 - 1), 'u16': (S.UInt16,) + _int(2**16 - 1), 'u32': (S.UInt32,) + _int(2**32 - 1),
    'u64': (S.UInt64,) + _int(2**64 - 1),
    'f0': (S.FixedBytes(0),) + _bytes(False), 'f2': (S.FixedBytes(2),) + _bytes(False),
    'dg': (S.Digest,) + _bytes(False), 'vb': (S.VarBytes(20),) + _bytes(True), 'vb3': (S.VarBytes(3, 200),) + _bytes(True),
    'bool': (S.SerBool, lambda j: j, lambda v: 'ff' if v else '00', lambda v: v is True or v is False),
    'bits': (BitsSerializer, lambda j: Bits(j), lambda v: (leb(len(v)) + pack([int(b) for b in v])).hex(),
             lambda v: v.__class__ is Bits),
}
# class: base, fields (name, type); a type is plain, a class, or a list of classes (a union)
TABLE = {
    'A': ('', [('n', 'u8'), ('b', 'f2')]),
    'B': ('', [('a', 'A'), ('m', 'u16')]),
    'C': ('', [('d', 'dg'), ('v', 'vb'), ('t', 'bool'), ('z', 'f0')]),
    'V0': ('V', []), 'V1': ('V', [('x', 'u8')]), 'V2': ('V', [('l', 'V'), ('r', 'V'), ('a', 'A')]),
    'D': ('', [('u', ['A', 'B']), ('w', 'u64'), ('v', 'V')]),
    'E': ('', [('bits', 'bits'), ('u', ['C', 'V', 'D']), ('q', 'vb3'), ('k', 'u32')]),
    # same fields as A under another tag; the same fields cut differently
    'A2': ('', [('n', 'u8'), ('b', 'f2')]),
    'A3': ('', [('n', 'u8'), ('b', 'f2')]),                # a subclass of A in Python
    'P': ('', [('p', 'vb'), ('q', 'vb')]), 'Q': ('', [('b', 'bits'), ('v', 'vb')]), 'N': ('', [('p', 'u64'), ('q', 'u64')]),
    'W': ('', []), 'W2': ('', []),
    # fields of different kinds that can hold equal values
    'X': ('', [('d', 'dg'), ('v', 'vb3'), ('w', 'vb'), ('f', 'f2'), ('n', 'u8'), ('t', 'bool'), ('m', 'u64'), ('z', 'f0'), ('bits', 'bits')]),
    'Y': ('', [('v', 'vb3'), ('d', 'dg'), ('f', 'f2'), ('w', 'vb'), ('t', 'bool'), ('n', 'u8'), ('k', 'u32'), ('bits', 'bits'), ('bits2', 'bits')]),
    'GL': ('', [('z', 'u8')]), 'GM': ('', [('c', 'GL'), ('y', 'u8')]), 'GR': ('', [('l', ['GL', 'GM']), ('r', 'GL'), ('x', 'u8')]),
}
VBASE = '99990000-0000-4000-8000-0000000000ff'


def tag_of(name):
    return '99990000-0000-4000-8000-0000000000%02x' % (sorted(TABLE).index(name) + 1)


V = type('V', (P.VarProof,), {'__slots__': [], 'HASHTAG': S.HashTag(VBASE)})
CLASSES = {'V': V}
INFO = {}
for _name in ['A', 'B', 'C', 'V0', 'V1', 'V2', 'D', 'E', 'A2', 'A3', 'P', 'Q', 'N', 'W', 'W2', 'X', 'Y', 'GL', 'GM', 'GR']:
    _base, _fields = TABLE[_name]
    _attrs = []
    for _n, _t in _fields:
        _attrs.append((_n, P.ProofUnion(*[CLASSES[x] for x in _t]) if isinstance(_t, list) else
                       PLAIN[_t][0] if _t in PLAIN else CLASSES[_t]))
    _d = {'SERIALIZED_ATTRS': _attrs}
    # slots for all, some or none of the fields
    if _name not in ('B', 'D', 'V1', 'N', 'GM'):
        _d['__slots__'] = [] if _name == 'A3' else [n for n, _ in _fields][:1 if _name in ('A2', 'E', 'GR') else None]
    if _base:
        _c = V.declare_variant(type(_name, (V,), dict(_d, SUB_HASHTAG=S.HashTag(tag_of(_name)))))
    else:
        _c = type(_name, (CLASSES['A'] if _name == 'A3' else P.Proof,), dict(_d, HASHTAG=S.HashTag(tag_of(_name))))
    CLASSES[_name] = _c
    INFO[_name] = {'attrs': [n for n, _ in _fields], 'base': _base or _name,
                   'var': {'V0': 0, 'V1': 1, 'V2': 2}.get(_name, -1),
                   'us': [t if isinstance(t, list) else [] for _, t in _fields],
                   'tag': (VBASE if _base else tag_of(_name)).replace('-', ''),
                   'sub': tag_of(_name).replace('-', '') if _base else ''}


def fits(t, cls):
    """may an object of class cls be the value of a field of type t?"""
    names = t if isinstance(t, list) else [t]
    return cls in names or TABLE[cls][0] in names


def is_plain(t):
    return not isinstance(t, list) and t in PLAIN


def enc(t, j):
    return PLAIN[t][2](PLAIN[t][1](j))


def p_attr(cls, name):
    t = dict(TABLE[cls][1]).get(name)

    def f(x):
        if t is None:
            raise BadValue('no such field')
        if is_plain(t):
            if not PLAIN[t][3](x):
                raise BadValue('not a %s: %r' % (t, x))
            return PLAIN[t][2](x)
        return p_obj(x)
    return f


def p_obj(x):
    for n, c in CLASSES.items():
        if x.__class__ is c:
            return 'obj:' + n
    raise BadValue('no proof object: %r' % (x.__class__,))


def rand_value(r, t):
    if t in ('u8', 'u16', 'u32', 'u64'):
        b = int(t[1:])
        return r.choice([0, 1, 127, 128, 2**b - 1, r.randrange(2**b), r.randrange(2**r.randrange(1, b + 1))])
    if t in ('f0', 'f2', 'dg'):
        n = {'f0': 0, 'f2': 2, 'dg': 32}[t]
        return bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(n)).hex()
    if t in ('vb', 'vb3'):
        lo, hi = {'vb': (0, 20), 'vb3': (3, 200)}[t]
        return bytes(r.randrange(256) for _ in range(r.choice([lo, hi, r.randrange(lo, hi + 1)]))).hex()
    if t == 'bool':
        return r.random() < .5
    return [r.randrange(2) for _ in range(r.choice([0, 1, 7, 8, 9, 17]))]


def boundary(t):
    """values, near one another"""
    if t in ('u8', 'u16', 'u32', 'u64'):
        b = int(t[1:])
        return sorted({0, 1, 127, 128, 129, 2**b - 1, 2**b - 2, 2**(b - 1), 2**(b - 1) - 1} | ({16383, 16384} if b > 8 else set()))
    if t == 'f0':
        return ['']
    if t in ('f2', 'dg'):
        n = 2 if t == 'f2' else 32
        return ['00' * n, 'ff' * n, '00' * (n - 1) + '01', '01' + '00' * (n - 1), '80' + '00' * (n - 1)]
    if t == 'vb':
        return ['', '00', '0000', '01', '0100', 'ff' * 20, 'ff' * 19]
    if t == 'vb3':
        return ['000000', '00000000', 'ff' * 200, 'ff' * 127, 'ff' * 128]
    if t == 'bool':
        return [False, True]
    return [[], [0], [1], [0, 0], [1, 0], [0] * 8, [0] * 9, [1] * 8, [1] * 7 + [0], [0] * 127, [0] * 128]
