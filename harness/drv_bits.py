"""Driver for proofmarshal.bits"""
import operator
from drv import *
from proofmarshal.bits import Bits, BitsSerializer

d = Driver()


def p_bits(b):
    if b.__class__ is not Bits:
        raise BadValue('not Bits: %r' % (b.__class__,))
    return [p_int(i) for i in b]


def opt(x):
    return x[0] if x else None


MAKE = {'lit', 'same', 'frombytes', 'slice', 'add', 'inv', 'cp', 'deser', 'roundtrip'}
CMP = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'gt': operator.gt, 'le': operator.le, 'ge': operator.ge}
OTHER = [0, None, b'', 'a', (), [0, 1], 1.5, object]


def ex(prog, ev):
    heap = []

    def g(i):
        return heap[i - 1]

    def audit():
        for i, h in enumerate(heap):
            if h is not None:
                ev.append({'op': 'audit', 'a': i + 1, 'mk': False, 'out': call(lambda: h, p_bits)[1]})
                ev.append({'op': 'ser', 'a': i + 1, 'mk': False,
                           'out': call(lambda: BitsSerializer.serialize(h), p_hex)[1]})

    for o in prog:
        op = o['op']
        if any(k in o and g(o[k]) is None for k in 'ab'):
            ev.append({'op': 'skip'})
            heap.append(None)
            continue
        a = g(o['a']) if 'a' in o else None
        b = g(o['b']) if 'b' in o else None
        e = dict(o, mk=op in MAKE)
        proj = p_bits
        if op == 'lit':
            kind = o.get('kind', 'list')
            bits = o['bits']
            src = {'list': lambda: list(bits), 'tuple': lambda: tuple(bits), 'iter': lambda: iter(list(bits)),
                   'bools': lambda: [bool(i) for i in bits], 'truthy': lambda: [('x' if i else '') for i in bits],
                   'numbers': lambda: [((2, -2, 256, 1 << 64, 6, -1)[n % 6] if i else 0) for n, i in enumerate(bits)]}[kind]
            fn = lambda: Bits(src())
        elif op == 'same':
            fn = lambda: Bits(a)
        elif op == 'frombytes':
            buf = bytes.fromhex(o['buf'])
            fn = (lambda: Bits.from_bytes(buf, o['len'][0])) if o['len'] else (lambda: Bits.from_bytes(buf))
        elif op == 'slice':
            fn = lambda: a[slice(opt(o['start']), opt(o['stop']), o['step'])]
        elif op == 'add':
            fn = lambda: a + b
        elif op == 'inv':
            fn = lambda: ~a
        elif op == 'cp':
            fn = lambda: a.common_prefix(b)
        elif op == 'deser':
            fn = lambda: BitsSerializer.deserialize(bytes.fromhex(o['buf']))
        elif op == 'roundtrip':
            fn = lambda: BitsSerializer.deserialize(BitsSerializer.serialize(a))
        elif op == 'index':
            fn, proj = (lambda: a[o['i']]), p_int
        elif op == 'len':
            fn, proj = (lambda: len(a)), p_int
        elif op == 'bool':
            fn, proj = (lambda: bool(a)), p_bool
        elif op == 'list':
            fn, proj = (lambda: list(a)), lambda x: [p_int(i) for i in x]
        elif op == 'revlist':
            fn, proj = (lambda: list(reversed(a))), lambda x: [p_int(i) for i in x]
        elif op == 'contains':
            fn, proj = (lambda: o['i'] in a), p_bool
        elif op == 'startswith':
            fn, proj = (lambda: a.startswith(b)), p_truth
        elif op == 'ser':
            fn, proj = (lambda: BitsSerializer.serialize(a)), p_hex
        elif op in CMP:
            fn, proj = (lambda: CMP[op](a, b)), p_bool
        elif op == 'cmpother':
            fn, proj = (lambda: a == OTHER[o['i']]), p_bool
        elif op == 'typeerror':
            x = OTHER[o['i']]
            fn = {'add': lambda: a + x, 'cp': lambda: a.common_prefix(x), 'sw': lambda: a.startswith(x),
                  'lt': lambda: a < x, 'from': lambda: Bits.from_bytes(x), 'idx': lambda: a['0'],
                  'set': lambda: operator.setitem(a, 0, 1), 'del': lambda: operator.delitem(a, 0),
                  'len': lambda: Bits.from_bytes(b'abc', 1.5),
                  'check': lambda: BitsSerializer.check_instance(x)}[o['what']]
            proj = p_any
        r, e['out'] = call(fn, proj)
        ev.append(e)
        if e['mk']:
            heap.append(r)
    # Nothing that was made has changed; and pairwise comparisons agree
    audit()
    live = [i + 1 for i, h in enumerate(heap) if h is not None][-3:]
    for i in live:
        for j in live:
            for c in ('eq', 'lt', 'startswith'):
                a, b = g(i), g(j)
                f = CMP.get(c) or (lambda a, b: a.startswith(b))
                ev.append({'op': c, 'a': i, 'b': j, 'mk': False, 'out': call(lambda: f(a, b), p_truth)[1]})


def rand_bits(r, n):
    k = r.randrange(4)
    if k == 0:
        return [0] * n
    if k == 1:
        return [1] * n
    return [r.randrange(2) for _ in range(n)]


LENS = [0, 1, 2, 5, 6, 7, 8, 9, 10, 14, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 136]


def own():
    r = d.rng('bits')
    # every encoding of every short length: decoding, dirty tails, junk
    for n in list(range(0, 20)) + [127, 128, 129, 130, 255, 256]:
        prog = []
        ser = bytes(BitsSerializer.serialize(Bits([1] * n)))
        prog.append({'op': 'deser', 'buf': ser.hex()})
        prog.append({'op': 'deser', 'buf': (ser + b'\0').hex()})
        prog.append({'op': 'deser', 'buf': ser[:-1].hex()})
        prog.append({'op': 'deser', 'buf': b''.hex()})
        for k in range(1, 9):
            m = bytearray(ser)
            m[-1] ^= (1 << k) - 1
            prog.append({'op': 'deser', 'buf': bytes(m).hex()})
        for bit in range(8):
            m = bytearray(ser)
            m[-1] ^= 1 << bit
            prog.append({'op': 'deser', 'buf': bytes(m).hex()})
        yield prog
    for h in ['80', '8000', '8100', '818000', 'ff00', '8800ff', '88ff', '8880', 'ffffffffffffffffff7f', 'ff' * 12 + '01',
              '808080808080808080808080', '80808080808080808080808001', '08', '0800', '08ff', '08ff00', '09ff', '09ff80',
              '09ffc0', '09ff7f', '01', '0100', '0180', '0140', '0101', '00', '0000']:
        yield [{'op': 'deser', 'buf': h}]
    # from_bytes with every length around the size of the buffer
    for nb in range(0, 4):
        prog = []
        buf = bytes(r.randrange(256) for _ in range(nb)).hex()
        prog.append({'op': 'frombytes', 'buf': buf, 'len': []})
        for n in range(-2, 8 * nb + 3):
            prog.append({'op': 'frombytes', 'buf': buf, 'len': [n]})
        yield prog
    # exhaustive slicing and indexing of small values
    for n in (0, 1, 3, 8, 9, 17):
        bits = rand_bits(r, n)
        for src in ({'op': 'lit', 'bits': bits},
                    {'op': 'frombytes', 'buf': Bits_buf(bits, r), 'len': [n]}):
            prog = [src]
            for i in range(-n - 2, n + 3):
                prog.append({'op': 'index', 'a': 1, 'i': i})
            bounds = [[], [-n - 1], [-n], [-1], [0], [1], [7], [8], [n - 1], [n], [n + 1]]
            for s in bounds:
                for t in bounds:
                    prog.append({'op': 'slice', 'a': 1, 'start': s, 'stop': t, 'step': 1})
                    if r.randrange(3) == 0:
                        prog.append({'op': 'slice', 'a': 1, 'start': s, 'stop': t,
                                     'step': r.choice([2, 3, 5, -1, -2, 7, 8, 0])})
            yield prog
    # alike but for one bit, or for the last ones, all of them kept
    for n in sorted({1, 7, 8, 9, 31, 32, 33, 41, 48, 57, 64, 65, r.randrange(66, 140)}):
        bits = rand_bits(r, n)
        prog = [{'op': 'lit', 'bits': bits, 'kind': r.choice(['list', 'iter'])}]
        for i in range(n):
            x = list(bits)
            x[i] ^= 1
            prog.append({'op': 'lit', 'bits': x, 'kind': r.choice(['list', 'tuple', 'iter', 'bools'])} if i % 2 or i > n - 4 else
                        {'op': 'frombytes', 'buf': Bits_buf(x, r), 'len': [n]})
        for m in {n - 1, n // 2}:
            prog.append({'op': 'lit', 'bits': bits[:m]})
            prog.append({'op': 'slice', 'a': 1, 'start': [], 'stop': [m], 'step': 1})
        prog += [{'op': 'lit', 'bits': bits + [z]} for z in (0, 1)]
        k = len(prog)
        prog += [{'op': c, 'a': 1, 'b': j} for j in range(1, k + 1) for c in ('eq', 'lt', 'cp')]
        prog += [{'op': c, 'a': k, 'b': k - 1} for c in ('eq', 'lt', 'gt')]
        yield prog
    # type errors
    prog = [{'op': 'lit', 'bits': [1, 0, 1]}, {'op': 'lit', 'bits': []}]
    for a in (1, 2):
        for i in range(len(OTHER)):
            prog.append({'op': 'cmpother', 'a': a, 'i': i})
            for w in ('add', 'cp', 'sw', 'lt', 'from', 'idx', 'set', 'del', 'len', 'check'):
                if w == 'from' and i == 2:
                    continue
                prog.append({'op': 'typeerror', 'a': a, 'i': i, 'what': w})
    yield prog
    # random chains of operations
    for _ in range(d.scale(400, 6000)):
        prog, lens = [], []

        def mk(o, n):
            prog.append(o)
            lens.append(n)
        for _ in range(r.randrange(2, 4)):
            n = r.choice(LENS)
            bits = rand_bits(r, n)
            k = r.randrange(3)
            if k == 0:
                mk({'op': 'lit', 'bits': bits, 'kind': r.choice(['list', 'tuple', 'iter', 'bools', 'truthy', 'numbers'])}, n)
            else:
                mk({'op': 'frombytes', 'buf': Bits_buf(bits, r), 'len': [n]}, n)
        for _ in range(r.randrange(3, 12)):
            a = r.randrange(1, len(lens) + 1)
            b = r.randrange(1, len(lens) + 1)
            na, nb = lens[a - 1], lens[b - 1]
            k = r.randrange(14)
            if k < 3 and na + nb < 400:
                mk({'op': 'add', 'a': a, 'b': b}, na + nb)
            elif k == 3:
                mk({'op': 'inv', 'a': a}, na)
            elif k in (4, 5):
                n = r.randrange(0, na + 1)
                mk({'op': 'slice', 'a': a, 'start': [], 'stop': [n], 'step': 1}, n)
            elif k == 6:
                s, t = r.randrange(0, na + 1), r.randrange(0, na + 1)
                mk({'op': 'slice', 'a': a, 'start': [s], 'stop': [t], 'step': 1}, max(0, t - s))
            elif k == 7:
                mk({'op': 'cp', 'a': a, 'b': b}, 0)
                lens[-1] = 0 if a != b else na   # only used to pick operands
            elif k == 8:
                mk({'op': 'roundtrip', 'a': a}, na)
            elif k == 9:
                mk({'op': 'same', 'a': a}, na)
            elif k == 10 and na:
                # same start, differs somewhere: for common_prefix
                mk({'op': 'slice', 'a': a, 'start': [], 'stop': [r.randrange(na)], 'step': 1}, 0)
                mk({'op': 'add', 'a': len(lens), 'b': b}, nb)
                mk({'op': 'cp', 'a': a, 'b': len(lens)}, 0)
                mk({'op': 'cp', 'a': len(lens) - 1, 'b': a}, 0)
            else:
                o = r.choice(['eq', 'ne', 'lt', 'gt', 'le', 'ge', 'startswith', 'len', 'bool', 'list', 'revlist', 'ser',
                              'contains', 'index'])
                q = {'op': o, 'a': a}
                if o in CMP or o == 'startswith':
                    q['b'] = b
                if o == 'contains':
                    q['i'] = r.randrange(2)
                if o == 'index':
                    q['i'] = r.randrange(-na - 1, na + 1)
                prog.append(q)
        yield prog


def Bits_buf(bits, r):
    """bytes holding the bits, then random ones, and possibly more bytes"""
    n = len(bits)
    nb = (n + 7) // 8 + r.choice([0, 0, 1, 2])
    v = list(bits) + [r.randrange(2) for _ in range(nb * 8 - n)]
    return bytes(int(''.join(map(str, v[8 * i:8 * i + 8])), 2) for i in range(nb)).hex()


for name, prog in d.programs(own):
    d.run(name, prog, ex)
d.done()
