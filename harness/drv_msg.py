"""Driver: peer-to-peer messages (C18).  Programs: lists of operations, see specs/MsgTrace.tla."""
from msglib import *

import time

d = Driver()


class Stop(Exception):
    pass


def ex(prog, ev):
    bitcoin.SelectParams('mainnet')
    chain = 'mainnet'
    f = None
    kept = {}
    queue = list(prog)
    while queue:
        o = queue.pop(0)
        k = o['op']
        if k == 'shape':
            queue = shape(o, random.Random(str(o))) + queue
            continue
        e = dict(o)
        pr = hexs
        if k == 'select':
            bitcoin.SelectParams(o['chain'])
            chain = o['chain']
            e['out'] = out('ok', '')
        elif k == 'frame':
            m = make(o['cmd'], o['v'], o['how'] % 2 == 0)
            if 'kept' in o:
                # a message written before, which now says something else
                new, m = m, kept.setdefault(o['cmd'], m)
                if m is not new:
                    for x, y in vars(new).items():
                        if o['kept'] and x in vars(m) and vars(m)[x].__class__ is list:
                            vars(m)[x][:] = y
                        else:
                            setattr(m, x, y)
            if o['chain']:
                fn = lambda: m.to_bytes(PARAMS[o['chain']]()) if o['how'] % 4 < 2 else m.to_bytes(params=PARAMS[o['chain']]())
            elif o['how'] % 3 == 0:
                fn = m.to_bytes
            elif o['how'] % 3 == 1:
                fn = m.serialize
            else:
                def fn():
                    g = BytesIO()
                    g.write(b'abc')
                    m.stream_serialize(g)
                    return g.getvalue()[3:]
            _, e['out'] = call(fn, pr)
        elif k == 'fresh':
            _, e['out'] = call(lambda: CLS[o['cmd']]().to_bytes(), pr)
        elif k == 'freshversion':
            def fn():
                t0 = int(time.time())
                m = MS.msg_version(int(o['ver'])) if o['ver'] else MS.msg_version()
                v = proj(m)['v']
                e['time'], e['nonce'] = v[2], v[5]
                if not t0 <= int(v[2]) <= time.time():
                    e['time'] = 'now'
                if not 0 <= int(v[5]) < 2**64:
                    e['nonce'] = 'nonce'
                return m
            e['time'] = e['nonce'] = '0'
            _, e['out'] = call(fn, lambda m: {'v': proj(m)['v'], 'frame': hexs(m.to_bytes())})
            if not o['ver']:
                e['ver'] = '60002'
        elif k == 'part':
            # parts of messages made of nothing
            if o['t'] == 'addr':
                fn = lambda: NE.CAddress(int(o['ver'])).serialize() if o['ver'] else NE.CAddress().serialize()
                e['time'] = not o['ver'] or int(o['ver']) >= 31402
            elif o['t'] == 'locator':
                fn = lambda: NE.CBlockLocator(int(o['ver'])).serialize() if o['ver'] else NE.CBlockLocator().serialize()
                e['ver'] = o['ver'] or '60002'
            else:
                fn = lambda: NE.CUnsignedAlert().serialize()
            _, e['out'] = call(fn, pr)
        elif k == 'same':
            a, b = make(o['cmd'], o['v']), make(o['cmd2'], o['v2'])

            def fn():
                r = a == b
                if (a != b) == r or (b == a) != r:
                    raise BadValue('comparisons disagree')
                if r and hash(a) != hash(b):
                    raise BadValue('hashes differ')
                return r
            _, e['out'] = call(fn, p_bool)
        elif k == 'open':
            f = BytesIO(bytes.fromhex(o['h']))
        elif k == 'read':
            def fn():
                cls = [MS.MsgSerializable, MS.msg_ping, MS.msg_version][o['how'] % 3]
                return cls.stream_deserialize(f, PARAMS[o['chain']]()) if o['chain'] else cls.stream_deserialize(f)

            def pr(x):
                if x is None:
                    return {'k': 'none', 'cmd': '', 'v': [], 'pos': f.tell(), 'again': ''}
                return dict(proj(x), pos=f.tell(), again=hexs(x.to_bytes()))
            _, e['out'] = call(fn, pr)
        elif k == 'whole':
            def fn():
                h = bytes.fromhex(o['h'])
                if o['how'] % 3 == 0:
                    return MS.MsgSerializable.from_bytes(h)
                if o['how'] % 3 == 1:
                    return MS.msg_pong.from_bytes(h)
                return MS.MsgSerializable.deserialize(h)
            _, e['out'] = call(fn, lambda x: {'k': 'none'} if x is None else dict(proj(x), pos=0, again=hexs(x.to_bytes())))
        elif k == 'struct':
            t = o['t']
            cls = {'addrt': NE.CAddress, 'inv': NE.CInv, 'ualert': NE.CUnsignedAlert}[t]
            pj = {'addrt': lambda a: j_addr(a, True), 'inv': j_inv, 'ualert': lambda a: [(lambda x: items(x, ints) if n == 'setCancel' else items(x, hexs) if n == 'setSubVer' else hexs(x) if n[:3] == 'str' else ints(x))(getattr(a, n)) for n in UA]}[t]
            _, e['out'] = call(lambda: cls.deserialize(bytes.fromhex(o['h'])), lambda x: {'v': pj(x), 'again': hexs(x.serialize())})
        ev.append(e)
        if k == 'read' and (e['out']['k'] != 'ok'):
            while queue and queue[0]['op'] == 'read':
                queue.pop(0)
    bitcoin.SelectParams('mainnet')


FIXED = ['ping', 'pong', 'getblocks', 'getheaders', 'version']
VAR = ['addr', 'alert', 'inv', 'getdata', 'headers', 'tx', 'block', 'getblocks']
SPAN = {'magic': (0, 4), 'cmd': (4, 16), 'len': (16, 20), 'chk': (20, 24)}


def shape(o, r):
    """a stream of frames with one fault, from the design"""
    chain = r.choice(list(MAGIC))
    fr, syms = [], []
    for c, n in zip(o['cmds'], o['sizes']):
        cmd = 'verack' if n == 0 and c == 'x' else 'mempool' if n == 0 else r.choice(FIXED if c == 'x' else VAR)
        fr.append(frame(chain, cmd, payload(cmd, r_msg(r, cmd))))
        syms += [(len(fr) - 1, x) for x in ['magic', 'cmd', 'len', 'chk'] + ['body'] * n]
    w = bytearray(b''.join(fr))
    base = [sum(map(len, fr[:i])) for i in range(len(fr))]

    def place(s):
        i, x = s
        lo, hi = SPAN.get(x, (24, len(fr[i])))
        return base[i] + r.randrange(lo, hi)
    if o['fault'] == 'cut':
        w = w[:place(syms[o['at']])]
    elif o['fault'] == 'change':
        p = place(syms[o['at'] - 1])
        w[p] ^= 1 << r.randrange(8)
    own = r.random() < .5
    p = [{'op': 'select', 'chain': chain if own else 'mainnet'}, {'op': 'open', 'h': bytes(w).hex()}]
    return p + [{'op': 'read', 'chain': '' if own else chain, 'how': r.randrange(3)} for _ in range(len(fr) + 1)]


def progs():
    r = d.rng('msg')
    yield [{'op': 'fresh', 'cmd': c, 'v': v} for c, v in FRESH.items()]
    yield [{'op': 'freshversion', 'ver': v} for v in ('', '60001', '60002', '70001', '209', '208', '107', '106', '105', '0', '10300', '-1')]
    yield [{'op': 'part', 't': t, 'ver': v} for t in ('addr', 'locator') for v in ('', '60002', '31403', '31402', '31401', '31400', '209', '106')] + [{'op': 'part', 't': 'ualert', 'ver': ''}]
    for cmd in CLS:
        for _ in range(d.scale(4, 60)):
            p = []
            for _ in range(6):
                if r.random() < .4:
                    p.append({'op': 'select', 'chain': r.choice(list(MAGIC))})
                v = r_msg(r, cmd)
                ch = r.choice(['', '', ''] + list(MAGIC))
                p.append({'op': 'frame', 'cmd': cmd, 'v': v, 'chain': ch, 'how': r.randrange(12)})
                now = ([x['chain'] for x in p if x['op'] == 'select'] or ['mainnet'])[-1]
                p.append({'op': 'whole', 'h': frame(now, cmd, payload(cmd, v)).hex(), 'how': r.randrange(3)})
                c2 = r.choice([cmd, cmd, r.choice(list(CLS))])
                v2 = copy.deepcopy(v) if c2 == cmd and r.random() < .6 else r_msg(r, c2)
                if c2 == cmd:
                    p.append({'op': 'same', 'cmd': cmd, 'v': v, 'cmd2': c2, 'v2': v2})
                if cmd in FRESH and r.random() < .5:
                    p.append({'op': 'fresh', 'cmd': cmd, 'v': FRESH[cmd]})
            yield p
    yield [{'op': 'whole', 'h': frame('mainnet', 'version', payload('version', [str(n)] + r_msg(r, 'version')[1:4] + [r_addr(r, False), r_u64(r), 'abcd', '7'])).hex(), 'how': 0} for n in VERSIONS]
    def version(n):
        return payload('version', [str(n)] + r_msg(r, 'version')[1:4] + ([r_addr(r, False), r_u64(r), 'abcd'] if n == 10300 or n >= 106 else ['none'] * 3) + [r_i32(r) if n == 10300 or n >= 209 else 'none'])
    for c in range(0, len(NEARLY), 16):
        yield [{'op': 'whole', 'h': frame('mainnet', 'version', version(n)).hex(), 'how': 0} for n in NEARLY[c:c + 16]]
    # messages written, changed, and written again, perhaps for another chain
    for cmd in CLS:
        for _ in range(d.scale(1, 10)):
            p, v = [], r_msg(r, cmd)
            for _ in range(8):
                if r.random() < .4:
                    p.append({'op': 'select', 'chain': r.choice(list(MAGIC))})
                if r.random() < .7:
                    v = r_msg(r, cmd)
                p.append({'op': 'frame', 'cmd': cmd, 'v': v, 'chain': r.choice(['', '', ''] + list(MAGIC)), 'how': r.randrange(12), 'kept': r.random() < .5})
            yield p
    # command fields that nearly say a command
    for cmd in CLS:
        x = cmd.encode()
        v = r_msg(r, cmd)
        while len(payload(cmd, v)) > 2000:
            v = r_msg(r, cmd)
        p = []
        for i in range(len(x) + 1):
            p += [x[:i] + b'\0' + x[i:], x[:i] + b' ' + x[i:], x[:i] + b'\xc3' + x[i:]]
            if i < len(x):
                p += [x[:i] + x[i + 1:], x[:i] + x[i:i + 1].upper() + x[i + 1:], x[:i] + b'\0' + x[i + 1:], x[:i] + bytes([x[i] | 128]) + x[i + 1:], x[:i + 1] + b'\0' * (11 - i)]
        p += [x + b'\0' * (11 - len(x)) + b'x' if len(x) < 12 else x, x + x, x[::-1], x + b'\n', x + b's', x.upper()]
        p = [f for f in p if len(f) <= 12]
        for c in range(0, len(p), 20):
            yield [{'op': 'whole', 'h': frame('mainnet', cmd, payload(cmd, v), f + bytes(12 - len(f))).hex(), 'how': c // 20 % 3} for f in p[c:c + 20]]
    # streams: many frames, sometimes other chains, unknown commands, damage
    for _ in range(d.scale(60, 1500)):
        chain = r.choice(list(MAGIC))
        w = b''
        n = r.randrange(1, 7)
        for _ in range(n):
            cmd = r.choice(list(CLS))
            p = payload(cmd, r_msg(r, cmd))
            q = r.random()
            fld = None
            if q < .12:
                fld = r.choice([b'', b'nonsense', b'versio', b'versionn', b'pingpongping', b'ping\0x', b'Ping', b' ping', b'tx2', b'filterload', b'pin\xff', b'\0ping', b'getheadersxx', b'a' * 12])
                fld += bytes(12 - len(fld))
            elif q < .2:
                k = r.randrange(4)
                p = p + r_bytes(r, 2).encode() if k == 0 else p[:-1] if k == 1 else p[:r.randrange(len(p) + 1)] if k == 2 else bytes.fromhex(r_bytes(r, r.randrange(40)))
            x = frame(r.choice([chain] * 20 + list(MAGIC)), cmd, p, fld)
            if r.random() < .06:
                x = bytearray(x)
                x[r.randrange(len(x))] = r.randrange(256)
                x = bytes(x)
            w += x
        if r.random() < .2:
            w = w[:r.randrange(len(w) + 1)]
        if r.random() < .1:
            w += bytes.fromhex(r_bytes(r, r.randrange(1, 30)))
        own = r.random() < .5
        yield [{'op': 'select', 'chain': chain if own else r.choice(list(MAGIC))}, {'op': 'open', 'h': w.hex()}] + [{'op': 'read', 'chain': '' if own else chain, 'how': r.randrange(3)} for _ in range(n + 1)]
    # every bit of a frame
    for cmd in r.sample(list(CLS), d.scale(2, 15)):
        v = r_msg(r, cmd)
        while len(payload(cmd, v)) > 120:
            v = r_msg(r, cmd)
        x = frame('mainnet', cmd, payload(cmd, v))
        p = []
        for i in range(len(x)):
            y = bytearray(x)
            y[i] ^= 1 << r.randrange(8)
            p.append({'op': 'whole', 'h': bytes(y).hex(), 'how': r.randrange(3)})
            p.append({'op': 'whole', 'h': x[:i].hex(), 'how': r.randrange(3)})
        yield p
    # sizes beyond the limit
    yield [{'op': 'whole', 'h': (bytes.fromhex(MAGIC['mainnet']) + b'ping' + bytes(8) + le(n, 4) + b'abcd').hex(), 'how': 0} for n in (0x02000000, 0x02000001, 2**31, 2**32 - 1)]
    # structures
    for _ in range(d.scale(30, 600)):
        p = []
        for _ in range(6):
            t = r.choice(['addrt', 'inv', 'ualert', 'ualert'])
            if t == 'addrt':
                b = b_addr(r_addr(r, True))
            elif t == 'inv':
                b = le(int(r_i32(r)), 4) + bytes.fromhex(r_bytes(r, 32))
            else:
                b = le(int(r_i32(r)), 4) + le(int(r_i64(r)), 8) + le(int(r_i64(r)), 8) + le(int(r_i32(r)), 4) + le(int(r_i32(r)), 4) + vec([r_i32(r) for _ in range(count(r))], lambda x: le(int(x), 4)) + \
                    le(int(r_i32(r)), 4) + le(int(r_i32(r)), 4) + vec([r_script(r) for _ in range(count(r))], b_var) + le(int(r_i32(r)), 4) + b_var(r_script(r)) + b_var(r_script(r)) + b_var(r_script(r))
            k = r.random()
            if k < .15:
                b = b[:r.randrange(len(b))]
            elif k < .25:
                b += b'\0'
            elif k < .4:
                b = bytearray(b)
                b[r.randrange(len(b))] = r.randrange(256)
            p.append({'op': 'struct', 't': t, 'h': bytes(b).hex()})
        yield p


for name, p in d.programs(progs):
    d.run(name, p, ex)
d.done()
