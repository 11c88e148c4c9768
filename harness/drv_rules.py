"""Driver: context-free checks (C15).  Programs: lists of operations, see specs/RulesTrace.tla."""
from scriptlib import *
import copy
import bitcoin
import bitcoin.core.serialize as BS

import time

d = Driver()
M = 21 * 10**14
LIMIT = {'mainnet': 2**224 - 1, 'testnet': 2**224 - 1, 'regtest': 2**255 - 1}
VALUES = {-1: -1, 0: 0, 1: 1, 2: M // 2, 3: M // 2 + 1, 4: M, 5: M + 1}


def facts(t):
    return {'coinbase': p_bool(t.is_coinbase()), 'null': [p_bool(i.prevout.is_null()) for i in t.vin], 'final': [p_bool(i.is_final()) for i in t.vin],
            'sigops': p_int(C.GetLegacySigOpCount(t))}


def ex(prog, ev):
    bitcoin.SelectParams('mainnet')
    held, blocks = C.CMutableTransaction(), {}

    def which(o):
        if 'kept' not in o:
            return m_any(o['tx'], o.get('mut', False))
        # one transaction, changed
        t = m_any(o['tx'], True)
        if o['kept']:
            held.vin[:], held.vout[:] = t.vin, t.vout
        else:
            held.vin, held.vout = t.vin, t.vout
        held.nVersion, held.nLockTime = t.nVersion, t.nLockTime
        return held

    def blk(o):
        if not o.get('kept'):
            return m_block(o['b'])
        # one block, looked at again
        return blocks.setdefault(json.dumps(o['b'], sort_keys=True), m_block(o['b']))
    for o in prog:
        e = dict(o)
        k = o['op']
        pr = p_none
        if k == 'shape':
            P = {'null': NULLP, 'a': {'hash': 'aa' * 32, 'n': '0'}, 'b': {'hash': 'aa' * 32, 'n': '1'}, 'zero': {'hash': '00' * 32, 'n': '0'}}
            tx = {'version': '1', 'vin': [{'prevout': P[i], 'script': 'cc' * o['len'], 'seq': '0'} for i in o['ins']], 'vout': [{'value': str(VALUES[v]), 'script': '51'} for v in o['outs']], 'lock': '0'}
            o = e = {'op': 'tx', 'tx': tx, 'mut': o['len'] % 2 == 1}
            k = 'tx'
        if k == 'select':
            fn = lambda: bitcoin.SelectParams(o['chain'])
        elif k == 'tx':
            t = which(o)
            fn = lambda: C.CheckTransaction(t)
        elif k == 'txfacts':
            t = which(o)
            fn, pr = lambda: facts(t), lambda x: x
        elif k == 'pow':
            fn = lambda: C.CheckProofOfWork(bytes.fromhex(o['hash']), int(o['bits']))
        elif k == 'compact':
            fn, pr = lambda: BS.uint256_from_compact(int(o['bits'])), p_big
        elif k == 'u256':
            fn, pr = lambda: BS.uint256_from_str(bytes.fromhex(o['h'])), p_big
        elif k == 'money':
            fn, pr = lambda: C.MoneyRange(int(o['v'])), p_bool
        elif k in ('header', 'block') and o.get('clock'):
            # by the clock
            now = int(time.time())
            e['now'], e['b'] = str(now), dict(o['b'], time=str(now + o['off']))
            if k == 'header':
                h = m_header(e['b'])
                fn = lambda: C.CheckBlockHeader(h, o['pow'])
            else:
                b = m_block(e['b'])
                fn = lambda: C.CheckBlock(b, o['pow'], o['root'])
        elif k == 'header':
            h = m_header(o['b']) if not o.get('full') else blk(o)
            fn = lambda: C.CheckBlockHeader(h, fCheckPoW=o['pow'], cur_time=int(o['now']))
            if o['pow'] and o.get('full'):
                fn = lambda: C.CheckBlockHeader(h, cur_time=int(o['now']))
        elif k == 'block':
            b = blk(o)
            fn = lambda: C.CheckBlock(b, fCheckPoW=o['pow'], fCheckMerkleRoot=o['root'], cur_time=int(o['now']))
            if o['pow'] and o['root']:
                fn = lambda: C.CheckBlock(b, cur_time=int(o['now']))
        elif k == 'tree':
            fn, pr = lambda: C.CBlock.build_merkle_tree_from_txids((list, iter, tuple)[len(o['ids']) % 3](bytes.fromhex(i) for i in o['ids'])), lambda x: [hexs(i) for i in x]
        elif k == 'root':
            b = blk(o)
            if o.get('wire'):
                b = C.CBlock.deserialize(b.serialize())
            fn, pr = lambda: (b.calc_merkle_root(), b.vMerkleTree, b.GetHash()), lambda x: {'root': hexs(x[0]), 'tree': [hexs(i) for i in x[1]], 'hash': hexs(x[2])}
        elif k == 'genesis':
            p = bitcoin.core.coreparams

            def fn():
                if bitcoin.params is not p:
                    raise BadValue('two sets of parameters')
                C.CheckBlock(p.GENESIS_BLOCK, cur_time=1300000000)
                return {'name': p.NAME, 'limit': p_big(p.PROOF_OF_WORK_LIMIT), 'half': p_big(p.SUBSIDY_HALVING_INTERVAL), 'hash': hexs(p.GENESIS_BLOCK.GetHash()),
                        'magic': hexs(p.MESSAGE_START), 'ports': [p_int(p.DEFAULT_PORT), p_int(p.RPC_PORT)], 'b58': [p_int(p.BASE58_PREFIXES[i]) for i in ('PUBKEY_ADDR', 'SCRIPT_ADDR', 'SECRET_KEY')]}
            pr = lambda x: x
        _, e['out'] = call(fn, pr)
        ev.append(e)


NULLP = {'hash': '00' * 32, 'n': '4294967295'}


def small_tx(r, nout=1):
    return {'version': '1', 'vin': [{'prevout': {'hash': r_bytes(r, 32), 'n': str(r.randrange(4))}, 'script': r_script(r, 20), 'seq': r_u32(r)}],
            'vout': [{'value': str(r.randrange(1000)), 'script': r_script(r, 30)} for _ in range(nout)], 'lock': '0'}


def coinbase(r, n=None):
    return {'version': '1', 'vin': [{'prevout': NULLP, 'script': r_bytes(r, r.randrange(2, 30) if n is None else n), 'seq': '4294967295'}],
            'vout': [{'value': '5000000000', 'script': '51'}], 'lock': '0'}


def root_of(b):
    lv = [dsha(b_tx(t)) for t in b['vtx']]
    while len(lv) > 1:
        lv = [dsha(lv[i] + lv[min(i + 1, len(lv) - 1)]) for i in range(0, len(lv), 2)]
    return lv[0].hex() if lv else '00' * 32


def mine(r, b, want=True, limit=2**255 - 1):
    b = dict(b)
    while True:
        b['nonce'] = str(r.randrange(2**32))
        if (int.from_bytes(dsha(b_header(b)), 'little') <= 0x7fffff << 232) == want:
            return b


def block(r, n=3, bits=0x207fffff):
    b = {'version': '2', 'prev': r_bytes(r, 32), 'root': '00' * 32, 'time': '1400000000', 'bits': str(bits), 'nonce': '0', 'vtx': [coinbase(r)] + [small_tx(r, r.choice([1, 2])) for _ in range(n)]}
    b['root'] = root_of(b)
    return b


def tx_defect(r, t):
    t = copy.deepcopy(t)
    k = r.randrange(16)
    if k == 0:
        t['vin'] = []
    elif k == 1:
        t['vout'] = []
    elif k == 2:
        r.choice(t['vout'] or [{}])['value'] = r.choice(['-1', str(M + 1), str(-2**63), str(2**63 - 1)])
    elif k == 3:
        t['vout'] = [{'value': str(v), 'script': ''} for v in r.choice([(M, 0), (M, 1), (1, M), (M // 2, M // 2), (M // 2, M // 2, 1), (M, M), (M - 1, 1), (M - 1, 1, 1), (2**62, 2**62), (0, 0), (M // 2 + 1, M // 2), (1, M, -1), (M, -1, 1)])]
    elif k == 4 and t['vin']:
        t['vin'].append(dict(r.choice(t['vin']), script='00', seq='5'))
    elif k == 5 and t['vin']:
        i = r.randrange(len(t['vin']))
        t['vin'][i] = dict(t['vin'][i], prevout=NULLP)
    elif k == 6:
        t['vin'] = [{'prevout': NULLP, 'script': 'aa' * r.choice([0, 1, 2, 3, 99, 100, 101, 200]), 'seq': '0'}]
    elif k == 7:
        t['vin'] += [{'prevout': NULLP, 'script': 'aaaa', 'seq': '0'}] * r.choice([1, 2])
    elif k == 8 and t['vin']:
        t['vin'].append({'prevout': {'hash': '00' * 32, 'n': '4294967294'}, 'script': '', 'seq': '0'})
    elif k == 9 and t['vin']:
        t['vin'].append({'prevout': {'hash': r.choice(t['vin'])['prevout']['hash'], 'n': '4294967295'}, 'script': '', 'seq': '0'})
    elif k == 10 and t['vin']:      # far apart duplicates
        t['vin'] = [dict(t['vin'][0], prevout={'hash': 'ab' * 32, 'n': str(i % 50)}) for i in range(r.choice([50, 51]))]
    elif k == 11:
        t['vout'] = [{'value': str(M // 100 + (1 if i == 99 and r.random() < .5 else 0)), 'script': ''} for i in range(100)]
    elif k == 12 and t['vin']:
        t['vin'][0]['prevout'] = {'hash': '00' * 31 + '01', 'n': '4294967295'}
    return t


def block_defect(r, b):
    b = copy.deepcopy(b)
    v = b['vtx']
    k = r.randrange(18)
    fix = True
    if k == 0:
        b['vtx'] = []
    elif k == 1:
        v.append(coinbase(r))
    elif k == 2 and v:
        v.pop(0)
    elif k == 3 and v:
        v.reverse()
    elif k == 4 and v:
        v.append(r.choice(v))
    elif k == 5 and v:       # the duplicated tail with the same root
        n = len(v)
        s = n & -n
        v += v[n - s:]
    elif k == 6 and len(v) > 1:
        i = r.randrange(len(v))
        v[i] = tx_defect(r, v[i])
    elif k == 7:
        b['root'] = r_bytes(r, 32)
        fix = False
    elif k == 8 and len(v) > 2:
        v[1], v[2] = v[2], v[1]
        fix = r.random() < .5
    elif k == 9 and v:
        v[0] = coinbase(r, r.choice([0, 1, 2, 100, 101]))
    elif k == 10:
        b['bits'] = str(r.choice([0, 0x207fffff, 0x20800000, 0x21000001, 0x2100ffff, 0x217fffff, 0x01800001, 0x20ffffff, 0x1d00ffff, 0x00ffffff, 0xff7fffff]))
    elif k == 11 and v:
        v[-1]['vout'][0:1] = [{'value': '0', 'script': 'ac' * 1000}] * r.choice([19, 20, 21])
    elif k == 12 and len(v) > 1:
        v[0]['vin'][0]['script'] = r.choice(['aeae', 'ae' * 50, '4cae', 'acac02'])
        v[1]['vout'] = [{'value': '0', 'script': 'ae' * 250}] * r.choice([3, 4]) + [{'value': '0', 'script': 'ae' * r.choice([0, 248, 249, 250]) + 'ac' * r.choice([0, 1, 19, 20, 21])}]
    elif k == 13:
        b['time'] = r.choice(['0', '4294967295', str(1400007200), str(1400007201), str(1400007199)])
    elif k == 14 and len(v) > 1:
        v[-1]['vin'] = [{'prevout': NULLP, 'script': 'aaaa', 'seq': '0'}]
    if fix:
        b['root'] = root_of(b)
    return b


def compact(n):
    size = (n.bit_length() + 7) // 8
    w = n >> 8 * (size - 3) if size > 3 else n << 8 * (3 - size)
    if w & 0x800000:
        w >>= 8
        size += 1
    return size << 24 | w


def progs():
    r = d.rng('rules')
    sel = lambda: [{'op': 'select', 'chain': r.choice(['mainnet', 'testnet', 'regtest'])}]
    yield [x for c in ('mainnet', 'testnet', 'nonsense', 'regtest', 'mainnet', '', 'Mainnet', 'regtest', 'testnet') for x in ({'op': 'select', 'chain': c}, {'op': 'genesis'})]
    yield [{'op': 'money', 'v': str(v)} for v in (-2**63, -1, 0, 1, M - 1, M, M + 1, 2**63)]
    # transactions
    for _ in range(d.scale(60, 2000)):
        p = []
        for _ in range(8):
            t = small_tx(r, r.randrange(1, 4))
            if r.random() < .2:
                t = coinbase(r)
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                t = tx_defect(r, t)
            p += [{'op': 'tx', 'tx': t, 'mut': r.random() < .4}]
            if r.random() < .3:
                p += [{'op': 'txfacts', 'tx': t, 'mut': r.random() < .4}]
        yield p
    # sizes
    big = small_tx(r)
    n0 = len(b_tx(big)) + 4
    p = []
    for n in (999999, 1000000, 1000001):
        t = copy.deepcopy(big)
        base = len(b_tx(dict(t, vout=[{'value': '1', 'script': ''}]))) + 4
        t['vout'] = [{'value': '1', 'script': '4e' + le(n - base - 5, 4).hex() + '6a' * (n - base - 5)}]
        assert len(b_tx(t)) == n
        p.append({'op': 'tx', 'tx': t})
        if n < 10**6:
            continue
        b = block(r, 1)
        base = len(b_block(b)) + 4 - len(b['vtx'][1]['vout'][0]['script']) // 2
        b['vtx'][1]['vout'][0]['script'] = '4e' + le(n - base - 5, 4).hex() + 'ac' * (n - base - 5)
        assert len(b_block(b)) == n, len(b_block(b))
        b['root'] = root_of(b)
        p.append({'op': 'block', 'b': b, 'pow': False, 'root': True, 'now': '1400000000'})
    # a transaction of the size of a block
    yield p
    # work
    for _ in range(d.scale(15, 300)):
        p = sel()
        for _ in range(20):
            ch = p[-1]['chain'] if p[-1]['op'] == 'select' else ch
            k = r.random()
            n = LIMIT[ch]
            bits = r.choice([compact(n), compact(n) + 1, compact(n) - 1, compact(n + 1), compact(n >> r.randrange(250)), compact(r.randrange(1, n)), r.randrange(2**32), 0, 1, 0x01000000, 0x01010000, 0x0100ffff, 0x02000100, 0x02008000, 0x0200ff00, 0x03000001, 0x037fffff, 0x03800001, 0x04000000,
                             0x1d00ffff, 0x1d010000, 0x1e0000ff, 0x1c7fffff, 0x1cffffff, 0x207fffff, 0x20800000, 0x21007fff, 0x21008000, 0x22000001, 0x23000001, 0xff000001, 0xff7fffff, 0x20000000])
            size = bits >> 24
            tgt = (bits & 0xffffff) >> 8 * (3 - size) if size <= 3 else (bits & 0xffffff) << 8 * (size - 3)
            h = r.choice([0, 1, tgt, tgt, max(0, tgt - 1), tgt + 1, tgt + 1, n, n + 1, 2**256 - 1, r.randrange(2**256), tgt >> 8, tgt << 8])
            p += [{'op': 'pow', 'hash': le(min(h, 2**256 - 1), 32).hex(), 'bits': str(bits)}, {'op': 'compact', 'bits': str(bits)}, {'op': 'u256', 'h': le(h, 32).hex()}]
            if r.random() < .2:
                p += sel()
        yield p
    # headers and blocks
    for _ in range(d.scale(40, 1200)):
        p = sel() if r.random() < .5 else [{'op': 'select', 'chain': 'regtest'}]
        for _ in range(4):
            b = block(r, r.randrange(5))
            for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
                b = block_defect(r, b)
            b = mine(r, b, r.random() < .85)
            now = r.choice([1400000000, int(b['time']) - 7200, int(b['time']) - 7201, int(b['time']) - 7199, int(b['time'])] if r.random() < .4 else [1400000000])
            for pw, rt in r.sample([(True, True), (True, True), (False, True), (True, False), (False, False)], 2):
                p.append({'op': 'block', 'b': b, 'pow': pw, 'root': rt, 'now': str(now)})
            full = r.random() < .5
            p.append({'op': 'header', 'b': b if full else dict(b, vtx=[]), 'pow': r.random() < .7, 'now': str(now), 'full': full})
            p.append({'op': 'root', 'b': b, 'wire': r.random() < .3})
        yield p
    # exactly the permitted number of signature operations
    p = [{'op': 'select', 'chain': 'regtest'}]
    for extra in ('', 'ac', 'ae'):
        for where in range(3):
            b = block(r, 2)
            for t in b['vtx']:
                for x in t['vin'][:1] if t is not b['vtx'][0] else []:
                    x['script'] = '51'
                t['vout'] = [{'value': '1', 'script': '51'}]
            b['vtx'][0]['vin'][0]['script'] = '5151'
            b['vtx'][1]['vout'][0]['script'] = 'ae' * 499
            b['vtx'][2]['vout'][0]['script'] = '51ae' * 400 + 'af' * 100 + 'ad' * 10 + '4c02acae'
            b['vtx'][2]['vin'][0]['script'] = 'ac' * 10 + '4d05ac'
            if where == 0:
                b['vtx'][0]['vin'][0]['script'] += extra
            elif where == 1:
                b['vtx'][2]['vin'][0]['script'] = extra + b['vtx'][2]['vin'][0]['script']
            else:
                b['vtx'][1]['vout'].append({'value': '0', 'script': extra})
            b['root'] = root_of(b)
            p.append({'op': 'block', 'b': mine(r, b), 'pow': True, 'root': True, 'now': '1400000000'})
    yield p
    # the same transaction, or a defective one, in every place of a block; the same input in every place of a transaction
    for n in (4, 5):
        p = [{'op': 'select', 'chain': 'regtest'}]
        many = lambda: dict(small_tx(r, 2), vin=[small_tx(r)['vin'][0] for _ in range(n)])
        for i in range(n):
            for j in range(i + 1, n):
                b = block(r, n - 1)
                b['vtx'][j] = b['vtx'][i]
                p.append({'op': 'block', 'b': dict(b, root=root_of(b)), 'pow': False, 'root': True, 'now': '1400000000'})
                t = many()
                t['vin'][j] = dict(t['vin'][j], prevout=t['vin'][i]['prevout'])
                p.append({'op': 'tx', 'tx': t})
        for i in range(n):
            for t in (dict(small_tx(r, 2), vout=[]), coinbase(r), dict(small_tx(r, 2), vin=[])):
                b = block(r, n - 1)
                b['vtx'][i] = t
                p.append({'op': 'block', 'b': dict(b, root=root_of(b)), 'pow': False, 'root': True, 'now': '1400000000'})
            for o in (NULLP, {'hash': '00' * 32, 'n': '0'}, {'hash': '11' * 32, 'n': '4294967295'}):
                t = many()
                t['vin'][i] = dict(t['vin'][i], prevout=o)
                p.append({'op': 'tx', 'tx': t})
            for v in ('-1', str(M), str(M + 1)):
                t = small_tx(r, n)
                t['vout'] = [{'value': v if j == i else '1' if v == '-1' else '0', 'script': ''} for j in range(n)]
                p.append({'op': 'tx', 'tx': t})
        yield p
    # trees of every size
    yield [{'op': 'tree', 'ids': [r_bytes(r, 32) for _ in range(n)]} for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 100, 127, 129, 255, 257]]
    yield [{'op': 'tree', 'ids': ['%02x' % r.randrange(3) * 32 for _ in range(n)]} for n in range(12)]
    yield [{'op': 'root', 'b': block(r, n), 'wire': n % 2 == 1} for n in range(d.scale(8, 30))]
    # with the time of the clock
    b = block(r, 2)
    yield [{'op': k, 'b': b, 'pow': False, 'root': True, 'now': '0', 'clock': True, 'off': off} for off in (-10**8, -86400, 0, 3600, 7000, 7500, 86400, 10**8) for k in ('header', 'block')]
    # one block after another with as many transactions, first and last ones included the same
    for n in [1, 2, 3, 5, 9, 12, 17] + ([33, 64, 100] if d.thorough else []):
        b = block(r, n)
        p = []
        for i in range(3):
            c = dict(b, vtx=list(b['vtx']))
            if i:
                for j in r.sample(range(1, n), min(i, n - 1)):
                    c['vtx'][j] = small_tx(r, 2)
            p.append({'op': 'root', 'b': c, 'wire': False})
            for x in (b['root'], root_of(c)):
                p.append({'op': 'block', 'b': dict(c, root=x), 'pow': False, 'root': True, 'now': '1400000000'})
        yield p
    # a good block after each one that is refused, and one block looked at in several ways
    for _ in range(d.scale(6, 60)):
        g = mine(r, block(r, 4))
        p = [{'op': 'select', 'chain': 'regtest'}]
        look = lambda b, pw=True, rt=True, now='1400000000': p.append({'op': 'block', 'b': b, 'pow': pw, 'root': rt, 'now': now, 'kept': True})
        look(g)
        for i in range(6):
            b = block_defect(r, g)
            if i % 2:
                b = mine(r, b)
            look(b, r.random() < .5)
            look(b, False, False)
            look(b, False)
            h = dict(g, vtx=[g['vtx'][0]] + r.sample(g['vtx'][1:], r.randrange(1, 4)) + [small_tx(r)])
            look(mine(r, dict(h, root=root_of(h))))
            look(g)
            if i == 3:
                for c in ('mainnet', 'regtest'):
                    p.append({'op': 'select', 'chain': c})
                    look(g)
                    look(g, False)
                look(g, now=str(1400000000 - 7201))
                look(g)
                p.append({'op': 'root', 'b': g, 'wire': False, 'kept': True})
        yield p
    # one transaction, changed and looked at again
    for _ in range(d.scale(8, 80)):
        p = []
        g = small_tx(r, r.randrange(1, 4))
        for _ in range(8):
            t = r.choice([g, tx_defect(r, g), tx_defect(r, g), coinbase(r), coinbase(r, r.choice([0, 1, 100, 101]))])
            p.append({'op': r.choice(['tx', 'tx', 'txfacts']), 'tx': t, 'kept': r.random() < .5})
        yield p


for name, p in d.programs(progs):
    d.run(name, p, ex)
d.done()
