"""Driver: transaction proofs, seals, their witnesses, and globally unique maps

A program is a list of operations over handles; see specs/SealTrace.tla.
"""
import os
from btclib import *
from sealgen import *
import proofmarshal.proof as P
import proofmarshal.serialize as S
from proofmarshal.bits import Bits, BitsSerializer
from bitcoin.core import Hash160
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof, OutPointProof
from proofchains.core.uniquebits.singleuseseal import (FakeSingleUseSeal, FakeSealWitness, BitcoinSingleUseSeal,
                                                      BitcoinSealWitness)
from proofchains.core.uniquebits.gumap import GuMap, make_GuMap_subclass
from proofchains.uniquebits.singleuseseal import make_close_seal_tx_template

d = Driver()
SUITE = d.params['suite']


def leb(n):
    r = b''
    while n > 127:
        r += bytes([n & 127 | 128])
        n >>= 7
    return r + bytes([n])


# -- maps over different kinds of keys and values ---------------------------

class KP(P.Proof):
    __slots__ = ['n']
    HASHTAG = S.HashTag('88880000-0000-4000-8000-000000000001')
    SERIALIZED_ATTRS = [('n', S.UInt64)]


class VP(P.Proof):
    __slots__ = ['b']
    HASHTAG = S.HashTag('88880000-0000-4000-8000-000000000002')
    SERIALIZED_ATTRS = [('b', S.FixedBytes(3))]


def kp_bits(n):
    h = lambda b: hashlib.sha256(b).digest()
    b = h(bytes.fromhex('88880000000040008000000000000001') + h(leb(n)))
    return [(x >> (7 - i)) & 1 for x in b for i in range(8)]


def byte_bits(b):
    return [(x >> (7 - i)) & 1 for x in b for i in range(8)]


# kind: tag, key, value; a value: (class, from hex, key bits)
GK = {
    'int': ('88880000-0000-4000-8000-0000000000a0', 'u64', 'u64'),
    'dig': ('88880000-0000-4000-8000-0000000000a1', 'dg', 'f3'),
    'pp': ('88880000-0000-4000-8000-0000000000a2', 'kp', 'vp'),
    'pv': ('88880000-0000-4000-8000-0000000000a3', 'dg', 'vp'),
    'vv': ('88880000-0000-4000-8000-0000000000a4', 'vb', 'vb'),
}
SERS = {'u64': S.UInt64, 'dg': S.Digest, 'f3': S.FixedBytes(3), 'kp': KP, 'vp': VP, 'vb': S.VarBytes(40)}


def unleb(h):
    n = s = 0
    for b in bytes.fromhex(h):
        n |= (b & 127) << s
        s += 7
    return n


FROM = {'u64': unleb, 'dg': bytes.fromhex, 'f3': bytes.fromhex, 'kp': lambda h: KP(n=unleb(h)), 'vp': lambda h: VP(b=bytes.fromhex(h)),
        'vb': lambda h: bytes.fromhex(h)[1:]}
KBITS = {'u64': lambda h: byte_bits((unleb(h) % 2**32).to_bytes(4, 'big')), 'dg': lambda h: byte_bits(bytes.fromhex(h)),
         'kp': lambda h: kp_bits(unleb(h)), 'vb': lambda h: byte_bits(bytes.fromhex(h)[1:])}
TO_BITS = {'u64': lambda k: Bits.from_bytes((k % 2**32).to_bytes(4, 'big')), 'dg': lambda k: Bits.from_bytes(k),
           'kp': lambda k: Bits.from_bytes(k.hash), 'vb': lambda k: Bits.from_bytes(k)}


def mkg(kind):
    tag, kk, vk = GK[kind]

    class G(GuMap):
        __slots__ = []
        HASHTAG = S.HashTag(tag)
        KEY_SERIALIZER = SERS[kk]
        VALUE_SERIALIZER = SERS[vk]
        SEAL_CLASS = BitcoinSingleUseSeal
        WITNESS_CLASS = BitcoinSealWitness
        key2prefix = staticmethod(TO_BITS[kk])
    return make_GuMap_subclass(G)


G = {k: mkg(k) for k in GK}


def gc_of(kind):
    t = lambda k: {'kp': '88880000000040008000000000000001', 'vp': '88880000000040008000000000000002'}.get(k, 'ser')
    return {'tag': GK[kind][0].replace('-', ''), 'key': t(GK[kind][1]), 'value': t(GK[kind][2])}


# -- building ---------------------------------------------------------------

def make(t, v, kind, pool=None):
    """pool: proofs of the same transaction to share"""
    def txp(tx):
        if pool is not None:
            k = json.dumps(tx, sort_keys=True)
            if k not in pool:
                pool[k] = TxProof(tx=m_tx(tx))
            return pool[k]
        return TxProof(tx=m_tx(tx))
    if t == 'txproof':
        return txp(v)
    if t == 'txin':
        return TxInProof(i=int(v['i']), txproof=txp(v['tx']))
    if t == 'txout':
        return TxOutProof(i=int(v['i']), txproof=txp(v['tx']))
    if t == 'outpoint':
        return OutPointProof(n=int(v['i']), txproof=txp(v['tx']))
    if t == 'seal':
        if v['t'] == 'f':
            return FakeSingleUseSeal(committed_hash=bytes.fromhex(v['ch']))
        return BitcoinSingleUseSeal(outpoint=m_outpoint(v['outpoint']), nonce=bytes.fromhex(v['nonce']))
    if t == 'witness':
        seal = make('seal', v['seal'], kind)
        if v['t'] == 'f':
            return FakeSealWitness(seal=seal)
        return BitcoinSealWitness(seal=seal, txinproof=make('txin', {'i': v['i'], 'tx': v['itx']}, kind, pool),
                                  txoutproof=make('txout', {'i': v['o'], 'tx': v['otx']}, kind, pool))
    if t == 'node':
        g = G[kind]
        if v['k'] == 'U':
            return g.UnusedPrefix(prefix=Bits(v['prefix']), seal=make('seal', v['seal'], kind))
        w = make('witness', v['witness'], kind, pool)
        if v['k'] == 'L':
            return g.LeafPrefix(witness=w, key=FROM[GK[kind][1]](v['key']), value=FROM[GK[kind][2]](v['value']))
        return g.InnerPrefix(prefix=Bits(v['prefix']), witness=w, left=make('node', v['left'], kind, pool),
                             right=make('node', v['right'], kind, pool))
    raise Exception(t)


def cls_of(t, v, kind):
    return {'txproof': TxProof, 'txin': TxInProof, 'txout': TxOutProof, 'outpoint': OutPointProof, 'node': G[kind],
            'seal': FakeSingleUseSeal if v.get('t') == 'f' else BitcoinSingleUseSeal,
            'witness': FakeSealWitness if v.get('t') == 'f' else BitcoinSealWitness}[t]


def p_bits(b):
    if not isinstance(b, Bits):
        raise BadValue('not bits')
    return [int(x) for x in b]


def p_phash(x):
    return hexs(x.hash)


def said(o, t, e):
    s = e['s']
    dig = bytes.fromhex(e['d'])
    if s == 'verify':
        return (lambda: o.verify({}) if t == 'txproof' else o.verify()), p_any
    if s == 'vhash':
        return (lambda: o.verify_hash(dig)), p_any
    if s == 'txin':
        return (lambda: o.txin), j_txin
    if s == 'txout':
        return (lambda: o.txout), j_txout
    if s == 'tx':
        return (lambda: o.tx if t == 'txproof' else o.txproof.tx), j_tx
    if s == 'i':
        return (lambda: o.n if t == 'outpoint' else o.i), ints
    if s == 'seal':
        return (lambda: o.seal), p_phash
    if s == 'prefix':
        return (lambda: o.prefix), p_bits
    raise Exception(s)


class Elsewhere:
    """somebody who has nothing but the bytes: every question is answered by a
    process of its own, forked from one in which nothing was done before"""

    def __init__(self):
        ar, aw = os.pipe()
        br, bw = os.pipe()
        if os.fork() == 0:
            try:
                os.close(aw)
                os.close(br)
                q, a = os.fdopen(ar, 'rb'), os.fdopen(bw, 'wb')
                for line in q:
                    pid = os.fork()
                    if pid == 0:
                        try:
                            e, t, v, kind, b = json.loads(line)
                            r, x = call(lambda: cls_of(t, v, kind).deserialize(bytes.fromhex(b)))
                            if r is not None:
                                x = call(*said(r, t, e))[1]
                            a.write(json.dumps(x).encode() + b'\n')
                            a.flush()
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
            finally:
                os._exit(0)
        os.close(ar)
        os.close(bw)
        self.q, self.a = os.fdopen(aw, 'wb'), os.fdopen(br, 'rb')

    def say(self, e, t, v, kind, b):
        self.q.write(json.dumps([e, t, v, kind, b.hex()]).encode() + b'\n')
        self.q.flush()
        return json.loads(self.a.readline())


ELSEWHERE = Elsewhere()


def ex(prog, ev):
    if 'ops' not in prog:
        prog = from_tlc(prog)
    kind = prog.get('kind', 'int')
    hs = []       # (object, t, v)

    cut = set()   # handles of pruned objects

    def add(o, t, v):
        hs.append((o, t, v))

    def skip():
        ev.append({'op': 'skip', 'out': out('ok')})
        hs.append(None)
    for e in prog['ops']:
        op = e['op']
        if 'a' in e and (e['a'] > len(hs) or hs[e['a'] - 1] is None) or 'b' in e and (e['b'] > len(hs) or hs[e['b'] - 1] is None):
            if op in ('prune', 'reload'):
                skip()
            continue
        o, t, v = hs[e['a'] - 1] if 'a' in e else (None, '', '')
        if op == 'make':
            r, x = call(lambda: make(e['t'], e['v'], kind, {} if prog.get('share') else None))
            if r is not None:
                x = call(lambda: r.hash, p_hex)[1]
            ev.append({'op': 'make', 't': e['t'], 'v': e['v'], 'out': x})
            add(r, e['t'], e['v']) if r is not None else None
            if r is None:
                return
        elif op == 'close':
            node = e['node']
            got = []

            def maker(seal, dig):
                got.append({'seal': hexs(seal.hash), 'digest': hexs(dig)})
                w = json.loads(json.dumps(node['witness']).replace('@', dig.hex()))
                w['seal'] = v['seal']
                node['witness'] = w
                return make('witness', w, kind)
            g = G[kind]

            def go():
                if node['k'] == 'L':
                    return g.LeafPrefix.from_unused_prefix(o, FROM[GK[kind][1]](node['key']), FROM[GK[kind][2]](node['value']), maker)
                l, rr = hs[e['l'] - 1], hs[e['r'] - 1]
                node['left'], node['right'] = l[2], rr[2]
                return g.InnerPrefix.from_unused_prefix(o, l[0], rr[0], maker)
            r, x = call(go)
            if x['k'] == 'ok':
                x = out('ok', got[0]) if len(got) == 1 else out('bad', str(got))
            ev.append({'op': 'close', 'a': e['a'], 'node': node, 'out': x})
            if r is None:
                return
            ev.append({'op': 'make', 't': 'node', 'v': node, 'out': call(lambda: r.hash, p_hex)[1]})
            add(r, 'node', node)
        elif op == 'children':
            l, rr = hs[e['a'] - 1], hs[e['b'] - 1]
            lp, rp = prefix_of(l[2], kind), prefix_of(rr[2], kind)
            n = 0
            while n < min(len(lp), len(rp)) and lp[n] == rp[n]:
                n += 1
            r, x = call(lambda: G[kind].InnerPrefix.from_children(l[0], rr[0]))
            if r is None:
                ev.append({'op': 'make', 't': 'node', 'v': {'k': 'U', 'prefix': [], 'seal': {'t': 'f', 'ch': '00' * 32}}, 'out': x})
                return
            ch = hexs(r.witness.seal.committed_hash)
            node = {'k': 'I', 'prefix': lp[:n], 'witness': {'t': 'f', 'seal': {'t': 'f', 'ch': ch}}, 'left': l[2], 'right': rr[2]}
            ev.append({'op': 'make', 't': 'node', 'v': node, 'out': call(lambda: r.hash, p_hex)[1]})
            add(r, 'node', node)
            ev.append({'op': 'say', 'a': len(hs), 's': 'verify', 'd': '', 'kp': [], 'out': call(lambda: r.verify())[1]})
        elif op == 'prune':
            r, x = call(lambda: o.prune())
            if r is not None:
                x = call(lambda: r.hash, p_hex)[1]
            ev.append({'op': 'prune', 'a': e['a'], 'out': x})
            add(r, t, v)
            cut.add(len(hs))
        elif op == 'reload':
            # an object may hold parts that can't be written any more; then there's nothing to read
            b, x = call(lambda: o.serialize(), p_hex)
            if b is None and 'PrunedError' in x['mro']:
                skip()
                continue
            r, x = call(lambda: cls_of(t, v, kind).deserialize(o.serialize()))
            if r is not None:
                x = call(lambda: r.hash, p_hex)[1]
            ev.append({'op': 'reload', 'a': e['a'], 'out': x})
            if r is None:
                return
            add(r, t, v)
            if e['a'] in cut:
                cut.add(len(hs))
        elif op == 'hash':
            ev.append({'op': 'hash', 'a': e['a'], 'out': call(lambda: o.hash, p_hex)[1]})
        elif op == 'write':
            if e['a'] not in cut:
                ev.append({'op': 'write', 'a': e['a'], 'out': call(lambda: o.serialize(), p_hex)[1]})
        elif op == 'txhash':
            ev.append({'op': 'txhash', 'a': e['a'], 'out': call(lambda: o.txhash, p_hex)[1]})
        elif op == 'eq':
            o2 = hs[e['b'] - 1][0]
            ev.append({'op': 'eq', 'a': e['a'], 'b': e['b'], 'out': call(lambda: o == o2, p_bool)[1]})
        elif op == 'template':
            seals = [make('seal', s, kind) for s in e['seals']]
            kw = {} if e['meth'] == 'default' else {'meth': e['meth']}
            if e['dust'] != '600':
                kw['dust'] = int(e['dust'])

            def go():
                tx = make_close_seal_tx_template(bytes.fromhex(e['d']), *seals, **kw)
                if tx.__class__ is not C.CMutableTransaction:
                    raise BadValue('not a mutable transaction')
                j = j_tx(tx)
                # a template is there to be filled in; the seals stay as they are
                for i in tx.vin:
                    i.prevout.n = 77
                    i.scriptSig = CScript(b'\x51')
                tx.vout.append(C.CMutableTxOut(5, CScript(b'\x51')))
                for s, sj in zip(seals, e['seals']):
                    if j_outpoint(s.outpoint) != sj['outpoint']:
                        raise BadValue('seal changed')
                return j
            ev.append(dict(e, meth='op_return' if e['meth'] == 'default' else e['meth'], out=call(go, lambda j: j)[1]))
        elif op == 'carry':
            b, x = call(lambda: o.serialize(), p_hex)
            if b is None and 'PrunedError' in x['mro']:
                continue
            x = dict(e)
            x.setdefault('d', '')
            x['kp'] = KBITS[GK[kind][1]](v['key']) if e['s'] == 'prefix' and v['k'] == 'L' else []
            x['out'] = call(lambda: ELSEWHERE.say(x, t, v, kind, o.serialize()), lambda y: y)[1]
            if x['out']['k'] == 'ok':
                x['out'] = x['out']['v']
            if x['out']['k'] == 'exc':
                x['out']['v'] = ''
            ev.append(x)
        elif op == 'say':
            x = dict(e)
            x.setdefault('d', '')
            x['kp'] = KBITS[GK[kind][1]](v['key']) if e['s'] == 'prefix' and v['k'] == 'L' else []
            fn, pj = said(o, t, x)
            x['out'] = call(fn, pj)[1]
            if x['out']['k'] == 'exc':
                x['out']['v'] = ''
            ev.append(x)
        else:
            raise Exception(op)
    return {'gc': gc_of(kind)}


def prefix_of(v, kind):
    return KBITS[GK[kind][1]](v['key']) if v['k'] == 'L' else v['prefix']


# -- histories: prunes, reloads and questions about one or several objects ---

def history(r, ops, n, questions):
    """questions(r, t, v): a say; appended to ops"""
    hs = [e for e in ops if e['op'] in ('make',)]
    hs = [(e['t'], e['v']) for e in hs]
    for _ in range(n):
        k = r.random()
        a = r.randrange(len(hs)) + 1
        t, v = hs[a - 1]
        if k < .2:
            ops.append({'op': 'prune', 'a': a})
            hs.append((t, v))
        elif k < .4:
            ops.append({'op': 'reload', 'a': a})
            hs.append((t, v))
        elif k < .43:
            ops.append({'op': 'write', 'a': a})
        elif k < .47:
            ops.append({'op': 'eq', 'a': a, 'b': r.randrange(len(hs)) + 1})
        elif k < .5:
            ops.append({'op': 'hash', 'a': a})
        elif k < .55 and t == 'txproof':
            ops.append({'op': 'txhash', 'a': a})
        else:
            q = questions(r, t, v)
            if q:
                ops.append(dict(q, op='say', a=a))
    # what was said, asked of somebody who is sent the proof
    said = [e for e in ops if e['op'] == 'say']
    for e in r.sample(said, min(len(said), 3)):
        ops.append(dict(e, op='carry'))
    return ops


def q_tx(r, t, v):
    if t == 'txproof':
        return {'s': r.choice(['tx', 'verify'])}
    if t == 'outpoint':
        return {'s': r.choice(['tx', 'i'])}
    return {'s': r.choice(['verify', 'i', 'tx', t, t])}


def own_tx():
    r = d.rng('tx')
    # inputs, outputs and transactions with special values, each of them a part that is there
    for _ in range(d.scale(1, 6)):
        for h in ('00' * 32, '01' + '00' * 31, '00' * 31 + '01', 'ff' * 32):
            for n in (0, 1, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1):
                tx = r_tx(r)
                tx['vin'] = [dict(r_txin(r), prevout={'hash': h, 'n': str(n)}) for _ in range(r.choice([1, 2]))]
                tx['vin'][-1].update(r.choice([{'seq': '0'}, {'seq': str(2**32 - 1)}, {'script': ''}, {}]))
                tx['vout'] = [r.choice([{'value': '-1', 'script': ''}, {'value': '0', 'script': ''}, {'value': str(21 * 10**14 + 1), 'script': '6a'}, r_txout(r)])
                              for _ in range(r.choice([1, 2]))]
                i, o = str(len(tx['vin']) - 1), str(len(tx['vout']) - 1)
                ops = [{'op': 'make', 't': 'txproof', 'v': tx}] + [{'op': 'make', 't': t, 'v': {'i': i if t == 'txin' else o, 'tx': tx}} for t in ('txin', 'txout', 'outpoint')]
                ops += [{'op': 'say', 'a': a, 's': s} for a, s in ((1, 'verify'), (2, 'verify'), (3, 'verify'), (2, 'txin'), (3, 'txout'))]
                yield {'ops': ops, 'share': r.random() < .4}
    for _ in range(d.scale(260, 5000)):
        ops = []
        txs = [r_tx(r) for _ in range(2)]
        t2 = json.loads(json.dumps(txs[0]))
        t2[r.choice(['version', 'lock'])] = '77'
        txs.append(t2)
        if txs[0]['vin']:
            t3 = json.loads(json.dumps(txs[0]))
            r.choice(t3['vin'])[r.choice(['script', 'seq'])] = '51'
            txs.append(t3)
        for _ in range(r.choice([1, 2, 4])):
            tx = r.choice(txs)
            t = r.choice(['txproof', 'txin', 'txout', 'txin', 'txout', 'outpoint'])
            n = len(tx['vin' if t == 'txin' else 'vout'])
            i = str(r.choice([0, 0, max(n - 1, 0), n, n, n + 1, 2**31, 2**32 - 1]))
            ops.append({'op': 'make', 't': t, 'v': tx if t == 'txproof' else {'i': i, 'tx': tx}})
        yield {'ops': history(r, ops, r.choice([4, 8, 14]), q_tx), 'share': r.random() < .4}


def from_tlc(p):
    """one witness: seal on outpoint 1"""
    r = random.Random(json.dumps(p, sort_keys=True))
    d1, d2 = '11' * 32, '22' * 32
    o = {n: {'hash': '%02x' % n * 32, 'n': '0'} for n in (1, 2)}
    o[3] = {'hash': '01' * 32, 'n': '1'}
    s = {'r1': good_scripts(d1)[0], 's1': good_scripts(d1)[1], 'p1': good_scripts(d1)[2], 'r2': good_scripts(d2)[0], 'x': '51'}
    tx = tx_with(r, [o[i] for i in p['ins']], [s[x] for x in p['outs']])
    other = json.loads(json.dumps(tx))
    other['lock'] = '1'
    w = {'t': 'b', 'seal': {'t': 'b', 'outpoint': o[1], 'nonce': '33' * 16}, 'i': str(p['i']), 'itx': tx, 'o': str(p['o']), 'otx': tx if p['same'] else other}
    ops = [{'op': 'make', 't': 'witness', 'v': w}]
    ops += [{'op': 'say', 'a': 1, 's': 'verify'}, {'op': 'say', 'a': 1, 's': 'vhash', 'd': d1}, {'op': 'prune', 'a': 1}]
    ops += [{'op': 'say', 'a': 2, 's': 'vhash', 'd': d1}, {'op': 'reload', 'a': 2}, {'op': 'say', 'a': 3, 's': 'vhash', 'd': d2},
            {'op': 'say', 'a': 3, 's': 'vhash', 'd': d1}]
    return {'ops': ops, 'share': p['i'] == 0}


def own_seal():
    r = d.rng('seal')
    # each near miss of a script once, at least
    for dig, other in ((r_bytes(r, 32), r_bytes(r, 32)), ('00' * 32, '01' * 32), ('20' * 32, 'a9' * 32)):
        for sc in good_scripts(dig) + near_scripts(dig, other):
            o = op0(r)
            w = {'t': 'b', 'seal': mkseal(r, o), 'i': '0', 'itx': tx_with(r, [o], [sc, '6a20' + dig]), 'o': '0'}
            w['otx'] = w['itx']
            yield {'ops': [{'op': 'make', 't': 'witness', 'v': w}] + [{'op': 'say', 'a': 1, 's': 'vhash', 'd': x} for x in
                                                                   (dig, other, dig[:-2], dig + '00', '', h160(dig), hashlib.sha256(bytes.fromhex(dig)).hexdigest())]}
        w = {'t': 'f', 'seal': {'t': 'f', 'ch': dig}}
        yield {'ops': [{'op': 'make', 't': 'witness', 'v': w}] + [{'op': 'say', 'a': 1, 's': 'vhash', 'd': x} for x in
                                                               (dig, other, dig[:-2], dig[2:], dig[:32], dig + '00', '00' + dig, dig + dig, '', dig[:62] + 'f7', 'f7' + dig[2:])]}
    for _ in range(d.scale(280, 6000)):
        dig, other = digest(r), r_bytes(r, 32)
        seal = mkseal(r, op0(r))
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < .1:
                s = {'t': 'f', 'ch': r.choice([dig, other])}
                ops.append({'op': 'make', 't': 'witness', 'v': {'t': 'f', 'seal': s}})
            elif k < .2:
                ops.append({'op': 'make', 't': 'seal', 'v': r.choice([seal, dict(seal, nonce=r_bytes(r, 16)), {'t': 'f', 'ch': dig}])})
            else:
                ops.append({'op': 'make', 't': 'witness', 'v': r_witness(r, seal, dig, other)})

        def q(r, t, v):
            if t == 'witness':
                k = r.random()
                if k < .15 and v['t'] == 'b':
                    return {'s': 'verify'}
                if k < .25:
                    return {'s': 'seal'}
                bad = bytearray.fromhex(dig)
                bad[r.randrange(32)] ^= 1 << r.randrange(8)
                return {'s': 'vhash', 'd': r.choice([dig] * 5 + [other, bad.hex(), dig[2:], dig + '00', '', h160(dig)])}
        yield {'ops': history(r, ops, r.choice([3, 6, 12]), q), 'share': r.random() < .4}
    for _ in range(d.scale(60, 1000)):
        os_ = [op0(r) for _ in range(3)]
        os_.append(dict(os_[0], n=str(int(os_[0]['n']) ^ 1)))
        seals = [mkseal(r, r.choice(os_)) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
        yield {'ops': [{'op': 'template', 'seals': seals, 'd': digest(r), 'dust': r.choice(['600', '546', '0', '1000000']),
                        'meth': r.choice(['op_return', 'p2sh', 'p2pkh', 'default', 'p2pk', '', 'OP_RETURN'])} for _ in range(3)]}


def r_key(r, kk, pool):
    if r.random() < .5 and pool:
        return r.choice(pool)
    v = {'u64': lambda: leb(r.choice([0, 1, 127, 128, 2**32 - 1, r.randrange(2**64)])).hex(), 'dg': lambda: digest(r),
         'f3': lambda: r_bytes(r, 3), 'kp': lambda: leb(r.randrange(300)).hex(), 'vp': lambda: r_bytes(r, 3),
         'vb': lambda: (lambda b: ('%02x' % (len(b) // 2)) + b)(r_bytes(r, r.choice([0, 1, 2, 5])))}[kk]()
    pool.append(v)
    return v


def contents(kind, n):
    """what the witness of a node has to commit to, computed independently"""
    tag, kk, vk = GK[kind]
    h = lambda b: hashlib.sha256(b).digest()
    tag = bytes.fromhex(tag.replace('-', ''))
    root = bytes.fromhex('8125d227981c4ca0afa7ab9911352c85')
    derive = lambda base, sub: h(root + base + sub)[:16]

    def con(k, v):
        v = bytes.fromhex(v)
        t = {'kp': '88880000000040008000000000000001', 'vp': '88880000000040008000000000000002'}.get(k)
        return v if t is None else h(bytes.fromhex(t) + h(v))

    def seal_hash(s):
        if s['t'] == 'f':
            return h(bytes.fromhex('e5690d7316e34f8fbd4f148c32d37baf') + h(bytes.fromhex(s['ch'])))
        return h(bytes.fromhex('b59093bf527f4d2a9a513c2e3d2f0c25') + h(b'\x24' + b_outpoint(s['outpoint']) + bytes.fromhex(s['nonce'])))

    def seal_of(x):
        return x['seal'] if x['k'] == 'U' else x['witness']['seal']
    if n['k'] == 'L':
        t = derive(bytes.fromhex('59c17f377e264aea8a5b7c0db66af35b'), derive(bytes.fromhex('0c60f34491094930aec1432c5750fcba'), tag))
        return h(t + con(kk, n['key']) + con(vk, n['value'])).hex()
    t = derive(bytes.fromhex('b925044d320e4c1f9ef820614d260676'), derive(bytes.fromhex('6893cac7e83449cd8e9577707b0499b5'), tag))
    return h(t + seal_hash(seal_of(n['left'])) + seal_hash(seal_of(n['right']))).hex()


def r_node(r, kind, depth, pools, nodes):
    """assembled from right and wrong parts"""
    tag, kk, vk = GK[kind]
    prefix = [r.randrange(2) for _ in range(r.choice([0, 1, 2, 8, 9]))]
    k = r.random()
    if depth == 0 or k < .25:
        return {'k': 'U', 'prefix': prefix, 'seal': mkseal(r, op0(r)) if r.random() < .7 else {'t': 'f', 'ch': digest(r)}}
    if k < .6:
        n = {'k': 'L', 'key': r_key(r, kk, pools[0]), 'value': r_key(r, vk, pools[1])}
    else:
        l = r_node(r, kind, depth - 1, pools, nodes)
        rr = r_node(r, kind, depth - 1, pools, nodes) if r.random() < .85 else l
        n = {'k': 'I', 'prefix': prefix, 'left': l, 'right': rr}
    dig = contents(kind, n)
    k = r.random()
    if k < .12 and n['k'] == 'I':
        dig = contents(kind, dict(n, left=n['right'], right=n['left']))
    elif k < .2 and n['k'] == 'L' and kk == vk:
        dig = contents(kind, dict(n, key=n['value'], value=n['key']))
    elif k < .3 and nodes:
        dig = r.choice(nodes)
    elif k < .35:
        dig = r_bytes(r, 32)
    nodes.append(contents(kind, n))
    if r.random() < .3:
        n['witness'] = {'t': 'f', 'seal': {'t': 'f', 'ch': dig}}
    elif r.random() < .85:
        o = op0(r)
        w = {'t': 'b', 'seal': mkseal(r, o), 'i': '0', 'itx': tx_with(r, [o], [r.choice(good_scripts(dig))]), 'o': '0'}
        w['otx'] = w['itx']
        n['witness'] = w
    else:
        n['witness'] = r_witness(r, mkseal(r, op0(r)), dig, r_bytes(r, 32))
    return n


def q_gu(r, t, v):
    if t == 'witness':
        return {'s': 'seal'}
    if t == 'node':
        return {'s': r.choice(['verify', 'verify', 'seal', 'prefix'])}


def own_gumap():
    r = d.rng('gumap')
    for i in range(d.scale(330, 6000)):
        kind = r.choice(sorted(GK))
        kk, vk = GK[kind][1:]
        pools, nodes = ([], []), []
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            n = r_node(r, kind, r.choice([1, 1, 2, 3]), pools, nodes)
            ops.append({'op': 'make', 't': 'node', 'v': n})
            k = r.random()
            if k < .3 and n['k'] != 'U':
                # the witness moved to other contents
                m = dict(n)
                if n['k'] == 'L':
                    m[r.choice(['key', 'value'])] = None
                    m = dict(m, key=m['key'] or r_key(r, kk, pools[0]), value=m['value'] or r_key(r, vk, pools[1]))
                else:
                    f = r.choice(['left', 'right', 'swap', 'prefix'])
                    if f == 'swap':
                        m['left'], m['right'] = n['right'], n['left']
                    elif f == 'prefix':
                        m['prefix'] = n['prefix'] + [1]
                    else:
                        m[f] = r_node(r, kind, 1, pools, nodes)
                ops.append({'op': 'make', 't': 'node', 'v': m})
            elif k < .5 and n['k'] != 'U':
                # the same contents with another witness
                m = dict(n, witness={'t': 'f', 'seal': {'t': 'f', 'ch': r.choice([contents(kind, n), r_bytes(r, 32)])}})
                ops.append({'op': 'make', 't': 'node', 'v': m})
        yield {'ops': history(r, ops, r.choice([4, 8, 14]), q_gu), 'kind': kind, 'share': r.random() < .4}
    for i in range(d.scale(90, 1500)):
        # built up the way a user would
        kind = r.choice(sorted(GK))
        kk, vk = GK[kind][1:]
        pools = ([], [])
        ops = []
        n = r.choice([2, 3, 4])
        for j in range(n):
            ops.append({'op': 'make', 't': 'node', 'v': {'k': 'U', 'prefix': [r.randrange(2) for _ in range(r.choice([0, 1, 2, 8, 9]))],
                                                         'seal': mkseal(r, op0(r)) if r.random() < .7 else {'t': 'f', 'ch': digest(r)}}})
        m = n
        for j in range(r.choice([1, 2, 3])):
            # '@' stands for the digest the witness is asked to commit to
            k = r.random()
            a = r.randrange(n) + 1
            s = ops[a - 1]['v']['seal']
            wit = {'t': 'f'} if s['t'] == 'f' else {'t': 'b', 'i': '0', 'o': '0', 'itx': tx_with(r, [s['outpoint']], ['6a20@']),
                                                     'otx': None}
            if wit['t'] == 'b':
                wit['otx'] = wit['itx']
            if k < .4:
                ops.append({'op': 'close', 'a': a, 'node': {'k': 'L', 'key': r_key(r, kk, pools[0]), 'value': r_key(r, vk, pools[1]), 'witness': wit}})
            elif k < .7:
                l, rr = r.randrange(m) + 1, r.randrange(m) + 1
                ops.append({'op': 'close', 'a': a, 'l': l, 'r': rr, 'node': {'k': 'I', 'prefix': ops[a - 1]['v']['prefix'], 'witness': wit}})
            else:
                ops.append({'op': 'children', 'a': r.randrange(m) + 1, 'b': r.randrange(m) + 1})
            m += 1
            ops += [{'op': 'say', 'a': m, 's': s} for s in ('verify', 'seal', 'prefix')]
            ops += [{'op': 'hash', 'a': m}, {'op': 'write', 'a': m}]
        ops += [{'op': 'prune', 'a': m}, {'op': 'say', 'a': m + 1, 's': 'verify'}, {'op': 'reload', 'a': m + 1}, {'op': 'say', 'a': m + 2, 's': 'verify'},
                {'op': 'say', 'a': m + 2, 's': 'seal'}]
        yield {'ops': ops, 'kind': kind}


OWN = {'tx': own_tx, 'seal': own_seal, 'gumap': own_gumap}[SUITE]


def run(prog, ev):
    kind = prog.get('kind', 'int')
    ex(json.loads(json.dumps(prog)), ev)
    return {'gc': gc_of(kind)}


for name, prog in d.programs(OWN):
    d.run(name, prog, run)
    d.traces[-1].setdefault('gc', gc_of('int'))
d.done()
