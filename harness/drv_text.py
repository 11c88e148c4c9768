"""Driver: what the library prints (C25).  Programs: lists of operations, see specs/TextTrace.tla."""
from msglib import *
from scriptlib import *
from mmrlib import CLS as MMRS
import ast
import re
import bitcoin.base58 as B5
import bitcoin.core.serialize as BS
import bitcoin.wallet as W
from proofmarshal.bits import Bits
import proofmarshal.serialize as PS
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof, OutPointProof
from proofchains.core.uniquebits.singleuseseal import FakeSingleUseSeal, BitcoinSingleUseSeal

d = Driver()
ERR = re.compile(r"(x\('[0-9a-f]*'\))?\.\.\.<ERROR: [^<>]*>|<ERROR: [^<>]*>")


# -- expressions, as Python reads them ------------------------------------
def node(t, v='', a=(), e=0):
    return {'t': t, 'v': v, 'a': list(a), 'e': e}


def parse(text):
    def err(m):
        return 'ERROR(%s)' % (m.group(1) or '')
    if text.__class__ is not str:
        raise BadValue('not a str: %r' % (text,))
    src = ERR.sub(err, text)
    try:
        tree = ast.parse(src, mode='eval').body
    except SyntaxError as e:
        raise BadValue('%s in %.150s' % (e, text))

    def conv(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not n.keywords:
            return node('call', n.func.id, [conv(a) for a in n.args])
        if isinstance(n, ast.Name):
            return node('name', n.id)
        if isinstance(n, (ast.List, ast.Tuple)):
            return node('list', '', [conv(x) for x in n.elts])
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            return node('mul', '', [conv(n.left), conv(n.right)])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return node('neg', '', [conv(n.operand)])
        if isinstance(n, ast.Constant):
            v = n.value
            if v.__class__ is int:
                return node('int', str(v))
            if v.__class__ is float:        # as written
                m = re.fullmatch(r'([0-9]*)\.([0-9]*)', ast.get_source_segment(src, n))
                if not m:
                    raise BadValue('number in %.150s' % text)
                return node('dec', str(int(m.group(1) + m.group(2) or '0')), (), len(m.group(2)))
            if v.__class__ is str:
                return node('str', v)
            if v.__class__ is bytes:
                return node('bytes', v.hex())
        raise BadValue('cannot be read back: %.200s' % text)
    return conv(tree)


def build(kind, v, how):
    if kind == 'outpoint':
        o = m_outpoint(v)
        return C.CMutableOutPoint.from_outpoint(o) if how % 2 else o
    if kind == 'txin':
        o = m_txin(v)
        return C.CMutableTxIn.from_txin(o) if how % 2 else o
    if kind == 'txout':
        o = m_txout(v)
        return C.CMutableTxOut.from_txout(o) if how % 2 else o
    if kind == 'tx':
        return m_any(v, how % 2 == 1)
    if kind == 'header':
        return m_header(v)
    if kind == 'block':
        return m_block(v)
    if kind == 'script':
        return CScript(bytes.fromhex(v))
    if kind == 'op':
        return S.CScriptOp(int(v))


def proof(t, v):
    if t == 'seal':
        return FakeSingleUseSeal(committed_hash=bytes.fromhex(v['ch'])) if v['t'] == 'f' else \
            BitcoinSingleUseSeal(outpoint=m_outpoint(v['outpoint']), nonce=bytes.fromhex(v['nonce']))
    p = TxProof(tx=m_tx(v if t == 'txproof' else v['tx']))
    return {'txproof': lambda: p, 'txin': lambda: TxInProof(i=int(v['i']), txproof=p), 'txout': lambda: TxOutProof(i=int(v['i']), txproof=p),
            'outpoint': lambda: OutPointProof(n=int(v['i']), txproof=p)}[t]()


def ex(prog, ev):
    bitcoin.SelectParams('mainnet')
    for o in prog if isinstance(prog, list) else [prog]:
        e = dict(o)
        k = o['op']
        raw = ['']

        def keep(f):
            raw[0] = f()
            return raw[0]
        if k == 'show':
            e.setdefault('how', 0)
            kind = o['kind']
            if kind == 'ints' and o['what'] == 'Bits':
                x = Bits([int(b) for b in o['v']['v']])
                x = x if e['how'] % 2 == 0 else (x + Bits([1]))[:-1]
            elif kind == 'ints':
                x = MMRS['u8']([int(b) for b in o['v']['v']])
            elif kind == 'hexes':
                x = MMRS['digest' if o['what'] == 'digest' else 'var']([bytes.fromhex(b) for b in o['v']['v']])
            elif kind == 'tag':
                x = PS.HashTag(o['v'])
                if 'sub' in o:
                    x = x.derive(PS.HashTag(o['sub']))
                    e['v'] = hashlib.sha256(bytes.fromhex('8125d227981c4ca0afa7ab9911352c85' + o['v'] + o['sub'])).hexdigest()[:32]
            elif kind == 'text':
                bitcoin.SelectParams(o['chain'])
                x = {'addr': W.CBitcoinAddress, 'data': B5.CBase58Data, 'secret': W.CBitcoinSecret}[o['what']]
                x = x(o['v']['v']) if o['what'] != 'secret' or e['how'] % 2 == 0 else W.CBitcoinSecret.from_bytes(B5.CBase58Data(o['v']['v']).to_bytes(), B5.CBase58Data(o['v']['v']).nVersion)
            else:
                x = build(kind, o['v'], e['how'])
            pr = str if kind in ('op',) and e['how'] % 2 else repr
            _, e['out'] = call(lambda: keep(lambda: pr(x)), parse)
            e['text'] = str(raw[0])[:300]
            bitcoin.SelectParams('mainnet')
        elif k == 'total':
            m = make(o['cmd'], o['v'])
            if o.get('wire'):
                m = MS.MsgSerializable.from_bytes(m.to_bytes())

            def fn():
                for f in (repr, str):
                    if f(m).__class__ is not str:
                        raise BadValue('not a str')
                for x in {'alert': lambda: [m.alert], 'inv': lambda: m.inv, 'getdata': lambda: m.inv, 'addr': lambda: m.addrs}.get(o['cmd'], list)():
                    repr(x)
            e = {'op': 'total', 'cmd': o['cmd']}
            _, e['out'] = call(fn)
        elif k == 'proof':
            def fn():
                x = proof(o['t'], o['v'])
                if o['how'] % 2:
                    x = x.prune()
                if o['how'] >= 2:
                    x = x.__class__.deserialize(x.serialize())
                return (str if o['how'] == 1 else repr)(x).split('.')[-1]
            _, e['out'] = call(fn, p_str)
        elif k == 'difficulty':
            b = int(o['bits'])

            def fn():
                h = C.CBlockHeader(nBits=b) if b % 2 else C.CBlock(nBits=b)
                x, y = h.difficulty, C.CBlockHeader.calc_difficulty(b)
                if x != y or x.__class__ is not float:
                    raise BadValue('%r, %r' % (x, y))
                return x.as_integer_ratio()
            _, e['out'] = call(fn, lambda x: {'num': str(x[0]), 'den': str(x[1])})
        elif k == 'short':
            _, e['out'] = call(lambda: BS.uint256_to_shortstr(int(o['v'])), p_str)
        elif k == 'opname':
            _, e['out'] = call(lambda: S.OPCODES_BY_NAME[o['name']], lambda x: str(int(x)))
        elif k == 'smallop':
            def fn():
                op = S.CScriptOp.encode_op_n(int(o['n']))
                if op.__class__ is not S.CScriptOp:
                    raise BadValue('%r' % op)
                return {'op': str(int(op)), 'n': ints(op.decode_op_n()), 'small': p_bool(op.is_small_int())}
            _, e['out'] = call(fn, lambda x: x)
        elif k == 'opsmall':
            def fn():
                op = S.CScriptOp(int(o['v']))
                try:
                    n = ints(op.decode_op_n())
                except ValueError:
                    n = 'error'
                return {'n': n, 'small': p_bool(op.is_small_int())}
            _, e['out'] = call(fn, lambda x: x)
        ev.append(e)


def progs():
    r = d.rng('text')
    yield [{'op': 'show', 'kind': 'op', 'v': str(i), 'how': h} for i in range(256) for h in (0, 1)]
    yield [{'op': 'opsmall', 'v': str(i)} for i in range(256)] + [{'op': 'smallop', 'n': str(i)} for i in list(range(-3, 20)) + [255, 256, 81]]
    yield [{'op': 'opname', 'name': n} for n in sorted(set(S.OPCODE_NAMES.values()) | set(S.OPCODES_BY_NAME)) + ['OP_NONE', '', 'DUP']]
    for _ in range(d.scale(120, 900)):
        p = []
        for _ in range(12):
            k = r.choice(['outpoint', 'txin', 'txout', 'tx', 'header', 'block', 'script', 'script'])
            v = {'outpoint': r_outpoint, 'txin': r_txin, 'txout': r_txout, 'tx': r_tx, 'header': r_header, 'block': lambda r: r_block(r, 1), 'script': lambda r: r_script(r, r.choice([3, 10, 80, 300, 600]))}[k](r)
            p.append({'op': 'show', 'kind': k, 'v': v, 'how': r.randrange(2)})
        yield p
    for _ in range(d.scale(30, 200)):
        p = []
        for _ in range(10):
            v = str(r.choice([r.randrange(10**9), r.randrange(21 * 10**14), r.randrange(2**63), 10**r.randrange(18), 10**r.randrange(17) * r.randrange(1, 100), -r.randrange(1, 2**63)]))
            p.append({'op': 'show', 'kind': 'txout', 'v': {'value': v, 'script': r_script(r, 5)}, 'how': r.randrange(2)})
            n = r.choice([0, 1, 7, 8, 9, 63, 64, 65, 255, 256, 257, 300, r.randrange(40)])
            p.append({'op': 'show', 'kind': 'ints', 'what': 'Bits', 'v': {'name': 'Bits', 'v': [str(r.randrange(2)) for _ in range(n)]}, 'how': r.randrange(2)})
            n = r.choice([0, 1, 2, 3, 5, 8, 13])
            p.append({'op': 'show', 'kind': 'ints', 'what': 'mmr', 'v': {'name': 'R_u8', 'v': [str(r.randrange(256)) for _ in range(n)]}})
            p.append({'op': 'show', 'kind': 'tag', 'v': r_bytes(r, 16)} if r.random() < .5 else {'op': 'show', 'kind': 'tag', 'v': r_bytes(r, 16), 'sub': r_bytes(r, 16)})
            k = r.choice(['digest', 'var'])
            p.append({'op': 'show', 'kind': 'hexes', 'what': k, 'v': {'name': 'R_' + k, 'v': [r_bytes(r, 32 if k == 'digest' else r.randrange(41)) for _ in range(n)]}})
        for _ in range(6):
            n, m = r.choice([r.randrange(1, 34), 29, 30, 28, 3, 4]), r.choice([0, 1, 0xffff, 0x7fffff, 0x800000, 0xffffff, 0x10000, r.randrange(2**24)])
            p.append({'op': 'difficulty', 'bits': str(n << 24 | m)})
            p.append({'op': 'short', 'v': str(r.choice([0, 1, 2**256 - 1, 1 << r.randrange(256), r.randrange(2**256)]))})
        for how in range(4):
            t, tx = r.choice(['txproof', 'txin', 'txout', 'outpoint', 'seal', 'seal']), r_tx(r)
            v = {'txproof': tx, 'seal': {'t': 'f', 'ch': r_bytes(r, 32)} if r.random() < .3 else {'t': 'b', 'outpoint': r_outpoint(r), 'nonce': r_bytes(r, 16)}}.get(t, {'i': str(r.randrange(3)), 'tx': tx})
            p.append({'op': 'proof', 't': t, 'v': v, 'how': how})
        for _ in range(4):
            chain = r.choice(['mainnet', 'testnet', 'regtest'])
            w, ver, n = r.choice([('addr', {'mainnet': 0}.get(chain, 111), 20), ('addr', {'mainnet': 5}.get(chain, 196), 20), ('data', r.randrange(256), r.randrange(40)), ('secret', {'mainnet': 128}.get(chain, 239), r.choice([32, 33]))])
            b = bytes.fromhex(r_bytes(r, n))
            if n == 33:
                b = b[:32] + b'\x01'
            k = bytes([ver]) + b
            name = {'addr': 'P2PKHBitcoinAddress' if ver in (0, 111) else 'P2SHBitcoinAddress', 'data': 'CBase58Data', 'secret': 'CBitcoinSecret'}[w]
            p.append({'op': 'show', 'kind': 'text', 'what': w, 'chain': chain, 'v': {'name': name, 'v': b58(k + dsha(k)[:4])}, 'how': r.randrange(2)})
        yield p
    # long ones
    p = []
    for n in (252, 253, 255, 256, 257, 520, 521, 1000, 65535, 65536):
        p.append({'op': 'show', 'kind': 'script', 'v': push(r_bytes(r, n)) + '51'})
        p.append({'op': 'show', 'kind': 'script', 'v': (push(r_bytes(r, n)) + '51')[:2 * n]})
        if n <= 1000:
            p.append({'op': 'show', 'kind': 'script', 'v': ''.join(r.choice(['51', 'ac', '0101', 'ba', '00']) for _ in range(n))})
    yield p
    tx = dict(r_tx(r), vin=[r_txin(r) for _ in range(300)], vout=[r_txout(r) for _ in range(260)])
    yield [{'op': 'show', 'kind': 'tx', 'v': tx, 'how': h} for h in (0, 1)]
    yield [{'op': 'show', 'kind': 'ints', 'what': 'mmr', 'v': {'name': 'R_u8', 'v': [str(r.randrange(256)) for _ in range(n)]}} for n in (100, 255, 256, 257, 300)]
    for cmd in CLS:
        yield [{'op': 'total', 'cmd': cmd, 'v': r_msg(r, cmd), 'wire': i % 2 == 1} for i in range(d.scale(25, 200))]


def b58(k):
    n = int.from_bytes(k, 'big')
    s = ''
    while n:
        n, m = divmod(n, 58)
        s = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'[m] + s
    return '1' * (len(k) - len(k.lstrip(b'\0'))) + s


for name, prog in d.programs(progs):
    d.run(name, prog, ex)
d.done()
