"""Every serialization class of the repository, described for the specification"""
import itertools
from prooflib import *
from mblib import CLS as MCLS, TAG as MTAG, BCLS, BTAG, PV, PVTAG
import btclib as T
import bitcoin.core as C
import proofchains.core.bitcoin as PB
import proofchains.core.uniquebits.singleuseseal as SS
import proofchains.core.uniquebits.gumap as G

hx = lambda s: s.replace('-', '')
PT = {'u8': ('int', 0, 2**8 - 1), 'u16': ('int', 0, 2**16 - 1), 'u32': ('int', 0, 2**32 - 1), 'u64': ('int', 0, 2**64 - 1),
      'f0': ('fixed', 0, 0), 'f2': ('fixed', 2, 2), 'f16': ('fixed', 16, 16), 'dg': ('fixed', 32, 32), 'vb': ('var', 0, 20),
      'vb3': ('var', 3, 200), 'vb40': ('var', 0, 40), 'bool': ('bool', 0, 0), 'bits': ('bits', 0, 0), 'tx': ('tx', 0, 0), 'outpoint': ('outpoint', 0, 0)}
SER = {k: v[0] for k, v in PLAIN.items()}
SER.update({'f16': S.FixedBytes(16), 'vb40': S.VarBytes(40), 'tx': PB.CTransactionSerializer, 'outpoint': PB.COutPointSerializer})


class Seal1(SS.BitcoinSingleUseSeal):
    pass


GUTAG = '77777777-0000-4000-8000-000000000001'


class GU(G.GuMap):
    __slots__ = []
    HASHTAG = S.HashTag(GUTAG)
    KEY_SERIALIZER = S.FixedBytes(2)
    VALUE_SERIALIZER = PV
    SEAL_CLASS = SS.BitcoinSingleUseSeal
    WITNESS_CLASS = SS.BitcoinSealWitness

    @staticmethod
    def key2prefix(key):
        return Bits.from_bytes(key)


G.make_GuMap_subclass(GU)

ALL = dict(CLASSES)
CT, VT = {}, {'V': ['V0', 'V1', 'V2']}


def _ty(t):
    return {'u': isinstance(t, list), 't': '' if isinstance(t, list) else t, 'us': t if isinstance(t, list) else []}


def _add(name, cls, base, var, tag, sub, fields, hashing='std'):
    ALL[name] = cls
    CT[name] = {'base': base or name, 'var': var, 'tag': hx(tag), 'sub': hx(sub), 'hashing': hashing,
                'attrs': [n for n, _ in fields], 'types': [_ty(t) for _, t in fields]}


for _n in TABLE:
    _i = INFO[_n]
    _add(_n, CLASSES[_n], TABLE[_n][0], _i['var'], _i['tag'], _i['sub'], TABLE[_n][1])
_add('PV', PV, '', -1, PVTAG, '', [('n', 'u8')])
for _k, _vt in (('u8', 'u8'), ('var', 'vb40'), ('proof', 'PV')):
    _m = MCLS[_k]
    _b = 'M' + _k
    ALL[_b] = _m
    VT[_b] = [_b + 'E', _b + 'L', _b + 'I']
    _add(_b + 'E', _m.EmptyNodeClass, _b, 0, MTAG[_k], '390de307-8787-47b7-b25d-250aba02b1e5', [])
    _add(_b + 'L', _m.LeafNodeClass, _b, 1, MTAG[_k], '4ea09c8e-87f5-4978-a829-78d42ab8638a', [('value', _vt)])
    _add(_b + 'I', _m.InnerNodeClass, _b, 2, MTAG[_k], 'a7ca25ce-8fee-4063-b022-96b2dbcb392e',
         [('left', _b), ('right', _b), ('length', 'u64')])
for _k, _kt, _vt in (('d', 'dg', 'u8'), ('bits', 'bits', 'u8'), ('dp', 'dg', 'PV')):
    _m = BCLS[_k]
    _b = 'T' + _k
    ALL[_b] = _m
    VT[_b] = [_b + 'E', _b + 'L', _b + 'I']
    _add(_b + 'E', _m.EmptyNodeClass, _b, 0, BTAG[_k], 'ca380e10-c7d5-44df-aef0-55bce2125329', [])
    _add(_b + 'L', _m.LeafNodeClass, _b, 1, BTAG[_k], 'f5cc855e-9d21-4f8d-ab42-7883c765c323', [('key', _kt), ('value', _vt)])
    _add(_b + 'I', _m.InnerNodeClass, _b, 2, BTAG[_k], '66d74741-0ffd-4178-9a79-641a45e23dda',
         [('prefix', 'bits'), ('left', _b), ('right', _b)])
_add('FS', SS.FakeSingleUseSeal, '', -1, 'e5690d73-16e3-4f8f-bd4f-148c32d37baf', '', [('committed_hash', 'dg')])
_add('FW', SS.FakeSealWitness, '', -1, 'a5092f56-3a31-476a-ac81-1b00211140eb', '', [('seal', 'FS')])
_add('BS', SS.BitcoinSingleUseSeal, '', -1, 'b59093bf-527f-4d2a-9a51-3c2e3d2f0c25', '', [('outpoint', 'outpoint'), ('nonce', 'f16')])
_add('TXP', PB.TxProof, '', -1, '', '', [('tx', 'tx')], 'tx')
_add('OPP', PB.OutPointProof, '', -1, '557eb533-63be-497d-b163-7d1875de9681', '', [('txproof', 'TXP'), ('n', 'u32')])
_add('TIP', PB.TxInProof, '', -1, '65d34d83-3291-4813-9119-bd7e29b9dea3', '', [('i', 'u32'), ('txproof', 'TXP')])
_add('TOP', PB.TxOutProof, '', -1, 'ed624663-7a20-4dd6-8980-9870003dfbe7', '', [('i', 'u32'), ('txproof', 'TXP')])
_add('BW', SS.BitcoinSealWitness, '', -1, '2ca464a0-1b8c-4aa5-8e72-5d3aaa804cbd', '',
     [('seal', 'BS'), ('txinproof', 'TIP'), ('txoutproof', 'TOP')])
ALL['GU'] = GU
VT['GU'] = ['GUU', 'GUL', 'GUI']
_add('GUU', GU.UnusedPrefix, 'GU', 0, GUTAG, 'dae47bef-d9a3-4971-a6a4-1c67c5f02c11', [('prefix', 'bits'), ('seal', ['FS', 'BS'])])
_add('GUL', GU.LeafPrefix, 'GU', 1, GUTAG, '0c60f344-9109-4930-aec1-432c5750fcba', [('witness', ['FW', 'BW']), ('key', 'f2'), ('value', 'PV')])
_add('GUI', GU.InnerPrefix, 'GU', 2, GUTAG, '6893cac7-e834-49cd-8e95-77707b0499b5',
     [('prefix', 'bits'), ('witness', ['FW', 'BW']), ('left', 'GU'), ('right', 'GU')])

UNIONS = {}
INFO_JSON = {'pt': {k: {'kind': a, 'lo': str(b), 'hi': str(c)} for k, (a, b, c) in PT.items()}, 'ct': CT, 'vt': VT}
NAME_OF = {c: n for n, c in ALL.items() if n in CT}


def serializer(t):
    if t['u']:
        k = tuple(t['us'])
        if k not in UNIONS:
            UNIONS[k] = P.ProofUnion(*[ALL[x] for x in k])
        return UNIONS[k]
    return SER[t['t']] if t['t'] in PT else ALL[t['t']]


def text(t, v):
    """the text of a decoded value"""
    if not t['u'] and t['t'] in PT:
        kind, lo, hi = PT[t['t']]
        if kind == 'int':
            if v.__class__ is not int or not 0 <= v <= hi:
                raise BadValue('not a %s: %r' % (t['t'], v))
            return leb(v).hex()
        if kind == 'bool':
            return 'ff' if p_bool(v) else '00'
        if kind == 'bits':
            if v.__class__ is not Bits:
                raise BadValue('not Bits: %r' % (v,))
            return (leb(len(v)) + pack([int(b) for b in v])).hex()
        if kind == 'tx':
            if v.__class__ is not C.CTransaction:
                raise BadValue('not a transaction: %r' % (v.__class__,))
            b = T.b_tx(T.j_tx(v))
            return (leb(len(b)) + b).hex()
        if kind == 'outpoint':
            if v.__class__ is not C.COutPoint:
                raise BadValue('not an outpoint: %r' % (v.__class__,))
            b = T.b_outpoint(T.j_outpoint(v))
            return (leb(len(b)) + b).hex()
        if v.__class__ is not bytes or not lo <= len(v) <= hi:
            raise BadValue('not a %s: %r' % (t['t'], v))
        return (leb(len(v)) if kind == 'var' else b'').hex() + v.hex()
    n = NAME_OF.get(v.__class__)
    names = t['us'] if t['u'] else [t['t']]
    if n is None or not (n in names or CT[n]['base'] in names):
        raise BadValue('not of type %r: %r' % (names, v.__class__))
    if p_bool(v.is_fully_pruned):
        for a in CT[n]['attrs']:
            try:
                getattr(v, a)
            except P.PrunedError:
                continue
            raise BadValue('%s of a pruned %s' % (a, n))
        return n + '<' + p_hex(v.data_hash) + '>'
    return n + '(' + ','.join(text(ft, getattr(v, a)) for a, ft in zip(CT[n]['attrs'], CT[n]['types'])) + ')'


def skewed(r, b):
    """a length before bytes, then them: now and then too many or too few for what they mean, at their length"""
    if r.random() < SKEW[0]:
        k = r.choice([1, 1, 2, 32, -1, -2])
        if r.random() < .2:                                 # a longer way to write the first number
            i = r.choice([0, 4, 4]) if len(b) > 4 else 0
            b = b[:i] + b'\xfd' + b[i:i + 1] + b'\x00' + b[i + 1:]
        elif k > 0:
            x = bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(k))
            b = r.choice([b + x, b + x, x + b])
        else:
            b = b[:k]
    return leb(len(b)) + b


SKEW = [0]


def r_enc(r, t, depth=0, pruned=.15):
    """a random valid encoding"""
    if not t['u'] and t['t'] in PT:
        kind, lo, hi = PT[t['t']]
        if kind == 'int':
            return leb(r.choice([0, 1, 127, 128, hi, hi - 1, r.randrange(hi + 1), r.randrange(2**r.randrange(1, 9))]))
        if kind == 'bool':
            return r.choice([b'\x00', b'\xff'])
        if kind == 'bits':
            b = [r.randrange(2) for _ in range(r.choice([0, 1, 7, 8, 9, 16, r.randrange(40)]))]
            return leb(len(b)) + pack(b)
        if kind == 'tx':
            return skewed(r, T.b_tx(T.r_tx(r, 2)))
        if kind == 'outpoint':
            return skewed(r, T.b_outpoint(T.r_outpoint(r)))
        n = r.choice([lo, hi, r.randrange(lo, hi + 1)])
        b = bytes(r.randrange(256) for _ in range(n))
        return (leb(n) if kind == 'var' else b'') + b
    if t['u']:
        i = r.randrange(len(t['us']))
        return leb(i) + r_enc(r, _ty(t['us'][i]), depth, pruned)
    name = t['t']
    base = name if name in VT else CT[name]['base']
    variant = b''
    if base in VT:
        i = r.randrange(len(VT[base]) if depth < 4 else 2)
        name, variant = VT[base][i], leb(i)
    if r.random() < pruned or depth > 7:
        return b'\xff' + variant + bytes(r.randrange(256) for _ in range(32))
    return b'\x00' + variant + b''.join(r_enc(r, ft, depth + 1, pruned) for ft in CT[name]['types'])


def mutations(r, b, n):
    """malformed, or differently formed, versions"""
    out = []
    for _ in range(n):
        x = r.randrange(9)
        i = r.randrange(len(b)) if b else 0
        if x == 0:
            out.append(b[:i])
        elif x == 1:
            out.append(b + bytes([r.choice([0, 255, r.randrange(256)])]))
        elif x == 2 and b:
            out.append(b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:])
        elif x == 3 and b:
            out.append(b[:i] + bytes([r.choice([0, 1, 2, 3, 127, 128, 254, 255])]) + b[i + 1:])
        elif x == 4:
            out.append(b[:i] + bytes([r.randrange(256)]) + b[i:])
        elif x == 5 and b:
            out.append(b[:i] + b[i + 1:])
        elif x == 6 and b:          # not minimal, or a huge number
            out.append(b[:i] + r.choice([bytes([b[i] | 128, 0]), b'\xff' * 9 + b'\x01', b'\xff' * 9 + b'\x7f',
                                         b'\x80' * 10 + b'\x01', b'\xff\xff\xff\xff\x0f', b'\x80\x80\x80\x80\x10', b'\xff' * 20 + b'\x01']) + b[i + 1:])
        elif x == 7 and b:          # bitcoin's own varints, not minimal
            out.append(b[:i] + r.choice([b'\xfd' + bytes([b[i], 0]), b'\xfe' + bytes([b[i], 0, 0, 0])]) + b[i + 1:])
        else:
            j = r.randrange(len(b) + 1)
            out.append(b[:min(i, j)] + b[max(i, j):])
    return out
