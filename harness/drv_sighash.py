"""Driver: signature hashes (C14).  Programs: lists of {op, tx, idx, type, script}."""
from scriptlib import *

d = Driver()


def ex(prog, ev):
    for o in prog:
        if o['op'] == 'fad':
            e = dict(o)
            _, e['out'] = call(lambda: S.FindAndDelete(CScript(bytes.fromhex(o['script'])), CScript(bytes.fromhex(o['pat']))), hexs)
            ev.append(e)
            continue
        for raw in (True, False):
            for mut in (False, True):
                e = dict(o, raw=raw, mut=mut)
                tx = m_any(o['tx'], mut)
                sc = CScript(bytes.fromhex(o['script']))
                t = int(o['type'])
                if raw:
                    def pr(r):
                        if r[1] is not None and not isinstance(r[1], str):
                            raise BadValue('error is %r' % (r[1],))
                        return {'hash': hexs(r[0]), 'err': r[1] is not None}
                    _, e['out'] = call(lambda: S.RawSignatureHash(sc, tx, o['idx'], t), pr)
                else:
                    _, e['out'] = call(lambda: S.SignatureHash(sc, tx, o['idx'], t), lambda r: {'hash': hexs(r), 'err': False})
                _, a = call(lambda: tx, j_tx)
                e['after'] = a['v']
                ev.append(e)


CODES = ['', 'ab', 'abab', '76a914' + '11' * 20 + '88ac', 'ab51ab', '51ab', '02abab', '01abab', '4c01abab', '6aab6a', 'abac', '02ab', '4c', '4d01', '02abababff']
TYPES = [0, 1, 2, 3, 4, 0x1f, 0x21, 0x22, 0x23, 0x41, 0x80, 0x81, 0x82, 0x83, 0x84, 0xff, 0xe1, 0x101, 0x102, 0x103, 0x181, 0x183, 0xffffffff, 0x80000001, 0x7fffffff, 0x80000000]


def rcode(r):
    k = r.random()
    if k < 0.3:
        return r.choice(CODES)
    if k < 0.5:
        return r_bytes(r, r.randrange(30))
    s = ''
    for _ in range(r.randrange(8)):
        s += r.choice(['ab', 'ac', '51', '76', push('ab' * r.randrange(1, 4)), push(r_bytes(r, r.choice([1, 20, 33, 80]))), push('ab' * 260) if r.random() < .1 else '00'])
    return s


def progs():
    r = d.rng('sig')
    # every type, index and number of outputs around the boundary
    for nin in (1, 2, 3):
        for nout in (0, 1, 2, 3):
            t = good_tx(r)
            t['vin'] = [r_txin(r) for _ in range(nin)]
            t['vout'] = [r_txout(r) for _ in range(nout)]
            yield [{'op': 'sighash', 'tx': t, 'idx': i, 'type': str(h), 'script': r.choice(CODES[:4])} for i in range(nin + 2) for h in r.sample(TYPES, 8 if not d.thorough else 26) + [3]]
    # every index of a transaction with many inputs and outputs
    for nin, nout in ((5, 5), (7, 4), (4, 7), (d.scale(12, 40), d.scale(12, 40))):
        t = good_tx(r)
        t['vin'] = [r_txin(r) for _ in range(nin)]
        t['vout'] = [dict(r_txout(r), script=r.choice(['51', push(r_bytes(r, 20))])) for _ in range(nout)]
        yield [{'op': 'sighash', 'tx': t, 'idx': i, 'type': str(h), 'script': CODES[3]} for i in range(nin + 1) for h in [3, 2, 0x83, 1]]
    yield [{'op': 'sighash', 'tx': good_tx(r), 'idx': 0, 'type': str(h), 'script': c} for c in CODES for h in r.sample(TYPES, 4)]
    for _ in range(d.scale(40, 1500)):
        t = good_tx(r)
        if r.random() < 0.05:
            t['vin'] += [r_txin(r) for _ in range(260)]
        yield [{'op': 'sighash', 'tx': t, 'idx': r.randrange(len(t['vin']) + 1), 'type': str(r.choice(TYPES + [r.randrange(2**32), r.randrange(256)] * 8)), 'script': rcode(r)} for _ in range(6)]
    for _ in range(d.scale(10, 300)):
        p = []
        for _ in range(20):
            s = rcode(r)
            pat = r.choice(['ab', 'ac', '51', '00', push('ab'), push('abab'), push(r_bytes(r, 3))])
            if r.random() < 0.5:
                k = r.randrange(4)
                s = rcode(r) + pat * k + rcode(r) + pat * r.randrange(2)
            p.append({'op': 'fad', 'script': s, 'pat': pat})
        yield p


for name, p in d.programs(progs):
    d.run(name, p, ex)
d.done()
