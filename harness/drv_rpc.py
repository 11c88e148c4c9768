"""Driver: the RPC client (C23) against a scripted node on the loopback
interface.  Programs: lists of operations, see specs/RpcTrace.tla."""
from scriptlib import *
import base64
import decimal
import os
import socket
import ssl
import threading
import urllib.parse
import bitcoin
import bitcoin.rpc as RPC
import bitcoin.wallet as W
from b58lib import check

d = Driver()
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['SSL_CERT_FILE'] = os.path.join(HERE, 'tls', 'cert.pem')
D = decimal.Decimal


# -- canonical texts --------------------------------------------------------

def canon(v, req=False):
    if v is None:
        return 'null'
    if v is True or v is False:
        return 'true' if v else 'false'
    if v.__class__ is int:
        return str(v)
    if v.__class__ is D:
        if not v.is_finite():
            return 'nan'
        if req:
            s = v * 10**8
            if s != s.to_integral_value():
                return '%sbad' % v
            s = int(s)
            return str(s // 10**8) if s % 10**8 == 0 else '%dsat' % s
        return 'd' + str(v.normalize())
    if v.__class__ is str:
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(canon(x, req) for x in v) + ']'
    if v.__class__ is dict:
        return '{' + ', '.join('%s: %s' % (json.dumps(k), canon(v[k], req)) for k in sorted(v)) + '}'
    if v.__class__ is float:
        return 'f%r' % v
    if v.__class__ is CScript:
        return 'script:' + hexs(v)
    if v.__class__ in (W.P2PKHBitcoinAddress, W.P2SHBitcoinAddress):
        return 'addr:%s:%d:%s' % ('p2sh' if v.__class__ is W.P2SHBitcoinAddress else 'p2pkh', v.nVersion, hexs(v.to_bytes()))
    if v.__class__ is C.CTransaction:
        return 'tx:' + b_tx(j_tx(v)).hex()
    if v.__class__ is C.CBlock:
        return 'block:' + b_block(j_block(v)).hex()
    if v.__class__ is C.COutPoint:
        return 'out:%s:%s' % (hexs(v.hash), ints(v.n))
    if v.__class__ is C.CTxOut:
        if v.scriptPubKey.__class__ is not CScript:
            raise BadValue('scriptPubKey %r' % (v.scriptPubKey,))
        return 'txout:%s:%s' % (ints(v.nValue), hexs(v.scriptPubKey))
    if v.__class__ is bytes:
        return 'x:' + v.hex()
    raise BadValue('unexpected %r' % (v,))


def project(v):
    if v.__class__ is dict:
        return {k: canon(x) for k, x in v.items()}
    if v.__class__ is list:
        return [project(x) for x in v]
    return canon(v)


class Raw(str):
    """a JSON text"""


def emit(v):
    if v.__class__ is Raw:
        return str(v)
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (json.dumps(k), emit(x)) for k, x in v.items()) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(emit(x) for x in v) + ']'
    return json.dumps(v)


def parsed(v):
    return json.loads(emit(v), parse_float=D)


# -- the node ---------------------------------------------------------------

ORIGIN = {}             # client socket's port -> (host, port) it asked for
REQS = []               # requests seen since the last call began
NEXT = {}               # how to answer
_real_connect = socket.create_connection
_ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
_ctx.load_cert_chain(os.path.join(HERE, 'tls', 'cert.pem'), os.path.join(HERE, 'tls', 'key.pem'))
LISTEN = socket.socket()
LISTEN.bind(('127.0.0.1', 0))
LISTEN.listen(64)


def connect(address, *args, **kw):
    s = _real_connect(LISTEN.getsockname(), timeout=10)
    ORIGIN[s.getsockname()[1]] = (address[0], int(address[1]))
    return s


socket.create_connection = connect


def record(verb, path, headers, body, origin, tls):
    a = headers.get('authorization', '')
    try:
        auth = base64.b64decode(a[6:]).hex() if a.startswith('Basic ') else 'none'
    except Exception:
        auth = 'bad'
    try:
        j = json.loads(body.decode('utf8'), parse_float=D)
    except Exception:
        j = None
    ok = j.__class__ in (dict, list)
    if j.__class__ is list:
        j = {'method': '', 'params': j, 'id': None}
    j = j or {}
    REQS.append({'verb': verb, 'path': path, 'auth': auth, 'json': ok, 'host': origin[0], 'port': origin[1], 'tls': tls,
                 'method': str(j.get('method', '')), 'params': canon(j.get('params', []), True), 'id': canon(j.get('id'))})
    return j.get('id')


def answer(i):
    """(status, body) or a fault on the connection"""
    f = NEXT['fault']
    ok = {'result': NEXT['rep'], 'error': None, 'id': i}
    if f in ('ok', 'spent', 'missing', 'null'):
        return 200, emit(ok)
    if f == 'noversion':
        return 200, emit({'error': None, 'result': NEXT['rep']})
    if f == 'error':
        return NEXT['status'], emit({'result': NEXT['rep'], 'error': NEXT['error'], 'id': i})
    if f == 'noresult':
        return 200, emit({'error': None, 'id': i})
    if f == 'noerror':
        return 200, emit({'result': NEXT['rep'], 'id': i})
    if f == 'baderror':
        return 500, emit({'result': None, 'error': NEXT['error'], 'id': i})
    return NEXT['status'], {'notjson': '<html>no</html>', 'empty': '', 'badutf8': b'{"result":"\xff\xfe","error":null}', 'array': '[]', 'nullbody': 'null',
                            'number': '12', 'cut': emit(ok)[:-3]}[f]


def serve(s, port):
    tls = False
    try:
        s.settimeout(30)
        if s.recv(1, socket.MSG_PEEK) == b'\x16':
            s = _ctx.wrap_socket(s, server_side=True)
            tls = True
        f = s.makefile('rb')
        while True:
            line = f.readline().decode('latin1')
            if not line:
                return
            verb, path = line.split(' ')[:2]
            h = {}
            while True:
                x = f.readline().decode('latin1').strip()
                if not x:
                    break
                k, v = x.split(':', 1)
                h[k.strip().lower()] = v.strip()
            body = f.read(int(h.get('content-length', 0)))
            i = record(verb, path, h, body, ORIGIN.get(port, ('', 0)), tls)
            fault = NEXT['fault']
            if fault == 'drop':
                return
            if fault == 'badstatus':
                s.sendall(b'nonsense\r\n\r\n')
                return
            if fault == 'short':
                s.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n{"result":')
                return
            st, b = NEXT['batch'] if NEXT.get('batch') else answer(i)
            if isinstance(b, str):
                b = b.encode('utf8')
            s.sendall(b'HTTP/1.1 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n' % (st, len(b)) + b)
    except Exception:
        pass
    finally:
        try:
            s.shutdown(socket.SHUT_RDWR)
        except Exception:
            pass
        s.close()


def accept():
    while True:
        s, a = LISTEN.accept()
        threading.Thread(target=serve, args=(s, a[1]), daemon=True).start()


threading.Thread(target=accept, daemon=True).start()


class Fake:
    """a connection that may have no response"""

    def __init__(self, p):
        self.p = p
        self.q = []

    def request(self, verb, path, body=None, headers={}):
        if isinstance(body, str):
            body = body.encode('utf8')
        h = {k.lower(): v.decode('latin1') if isinstance(v, bytes) else v for k, v in headers.items()}
        self.q.append(record(verb, path, h, body, (self.p['host'], self.p['port']), False))

    def getresponse(self):
        i = self.q.pop(0)
        if NEXT['fault'] == 'noresponse':
            return None
        st, b = NEXT['batch'] if NEXT.get('batch') else answer(i)
        return FakeResponse(b.encode('utf8') if isinstance(b, str) else b, st)

    def close(self):
        self.q = []


class FakeResponse:
    def __init__(self, b, st):
        self.b, self.status, self.reason = b, st, 'X'

    def read(self, *a):
        b, self.b = self.b, b''
        return b


# -- running ----------------------------------------------------------------

def m_addr(s, obj):
    if not obj:
        return s
    try:
        return W.CBitcoinAddress(s)
    except Exception:
        return s


def invoke(p, m, a):
    """the call"""
    h = bytes.fromhex(a['hash']) if 'hash' in a else None
    more = [json.loads(x) for x in a.get('more', [])]
    acct = json.loads(a['acct']) if 'acct' in a else None
    if m == 'getaccountaddress':
        return p.getaccountaddress(acct) if acct is not None else p.getaccountaddress()
    if m == 'getbalance':
        return p.getbalance() if acct == '*' and a['conf'] == 1 else p.getbalance(acct, a['conf'])
    if m == 'getblock':
        return p.getblock(h)
    if m == 'getblockhash':
        return p.getblockhash(a['n'])
    if m == 'getnewaddress':
        return p.getnewaddress(acct)
    if m == 'getrawmempool':
        return p.getrawmempool(verbose=True) if a['verbose'] else p.getrawmempool()
    if m == 'getrawtransaction':
        return p.getrawtransaction(h, verbose=True) if a['verbose'] else p.getrawtransaction(h)
    if m == 'getreceivedbyaddress':
        return p.getreceivedbyaddress(m_addr(a['addr'], a['obj']), a['conf'])
    if m == 'gettransaction':
        return p.gettransaction(h)
    if m == 'gettxout':
        o = C.COutPoint(h, int(a['n']))
        return p.gettxout(o) if a['mempool'] else p.gettxout(o, includemempool=False)
    if m == 'listunspent':
        if a['filter']:
            return p.listunspent(a['min'], a['max'], [m_addr(s, a['obj']) for s in a['addrs']])
        return p.listunspent(a['min'], a['max'])
    if m == 'lockunspent':
        return p.lockunspent(a['unlock'], [m_outpoint(o) for o in a['outs']])
    if m == 'sendrawtransaction':
        t = m_any(a['tx'], a['mut'])
        return p.sendrawtransaction(t, allowhighfees=True) if a['high'] else p.sendrawtransaction(t)
    if m == 'sendtoaddress':
        return p.sendtoaddress(m_addr(a['addr'], a['obj']), int(a['amount']))
    if m == 'signrawtransaction':
        return p.signrawtransaction(m_any(a['tx'], a['mut']), *more)
    if m == 'submitblock':
        return p.submitblock(m_block(a['block']), *more)
    if m == 'validateaddress':
        return p.validateaddress(m_addr(a['addr'], a['obj']))
    if m in ('addnode', 'addnodeonetry', 'removenode'):
        return getattr(p, m)(json.loads(a['node']))
    return getattr(p, m)(*more)


def guard(fn, box):
    def f():
        try:
            return fn()
        except BaseException as x:
            box['exc'] = x
            raise
    return f


def unraw(v):
    """replies in programs: {"$raw": text} for a JSON text"""
    if isinstance(v, dict):
        if set(v) == {'$raw'}:
            return Raw(v['$raw'])
        return {k: unraw(x) for k, x in v.items()}
    if isinstance(v, list):
        return [unraw(x) for x in v]
    return v


def conf_text(o):
    lines = list(o['lines'])
    return '\n'.join(lines) + '\n'


def make(o):
    if o['how'] == 'conf':
        home = os.path.join(d.work, 'home', '.bitcoin')
        os.makedirs(home, exist_ok=True)
        path = os.path.join(home if o.get('usual') else d.work, 'bitcoin.conf')
        with open(path, 'w', encoding='utf8') as f:
            f.write(conf_text(o))
        kw = {'btc_conf_file': path}
        if o.get('usual'):
            # where it usually is
            os.environ['HOME'] = os.path.join(d.work, 'home')
            kw = {}
        if o['sport']:
            kw['service_port'] = o['sport']
        return RPC.Proxy(timeout=10, **kw) if not o['rawproxy'] else RPC.RawProxy(timeout=10, **kw)
    cls = RPC.RawProxy if o['rawproxy'] else RPC.Proxy
    if o['how'] == 'fake':
        return cls(service_url=o['url'], _connection=Fake(o))
    return cls(service_url=o['url'], timeout=10)


def strip(v):
    """the result as the specification reads it"""
    return project(parsed(v))


def ex(prog, ev):
    bitcoin.SelectParams('mainnet')
    chain = 'mainnet'
    ps = []
    if prog and prog[0]['op'] == 'design':
        prog = concretize(prog)
    for o in prog:
        e = dict(o)
        k = o['op']
        box = {}
        del REQS[:]
        if k in ('call', 'wrongtype', 'batch') and not 1 <= o['ref'] <= len(ps):
            ev.append({'op': 'skip'})
            continue
        if k == 'select':
            chain = o['chain']
            res, e['out'] = call(lambda: bitcoin.SelectParams(chain), p_none)
        elif k == 'proxy':
            res, e['out'] = call(lambda: make(o), p_any)
            e['id'] = 0
            for x in ('url', 'lines'):
                e.pop(x, None)
            if e['out']['k'] == 'ok':
                ps.append((res, o))
                e['id'] = len(ps)
        elif k == 'call':
            p, po = ps[o['ref'] - 1]
            f = o['fault']
            if f == 'noresponse' and po['how'] != 'fake' or f in ('drop', 'badstatus', 'short') and po['how'] == 'fake' or po['rawproxy'] and o['m'] in METHODS:
                ev.append({'op': 'skip'})
                continue
            v = unraw(o['reply'])
            NEXT.clear()
            NEXT.update(fault=f, rep=v, status=o.get('status', 200), error=o.get('error'))
            res, e['out'] = call(guard(lambda: invoke(p, o['m'], o['args']), box), project)
            e['reqs'] = list(REQS)
            e['rep'] = strip(v)
            e['sent'] = canon(o.get('error'))
            e['error'] = canon(getattr(box.get('exc'), 'error', None))
            for x in ('reply', 'status'):
                e.pop(x, None)
        elif k == 'wrongtype':
            p, po = ps[o['ref'] - 1]
            if po['rawproxy']:
                ev.append({'op': 'skip'})
                continue
            NEXT.clear()
            NEXT.update(fault='ok', rep=None)
            res, e['out'] = call(lambda: getattr(p, o['m'])(o['arg']), project)
            e['reqs'] = list(REQS)
        elif k == 'batch':
            p, po = ps[o['ref'] - 1]
            v = unraw(o['reply'])
            NEXT.clear()
            NEXT.update(fault='ok', batch=(200, emit(v)))
            res, e['out'] = call(lambda: p._batch([json.loads(x) for x in o['calls']]), project)
            e['reqs'] = list(REQS)
            e['rep'] = strip(v)
            e['calls'] = [canon(json.loads(x)) for x in o['calls']]
            e.pop('reply', None)
        elif k == 'lx':
            res, e['out'] = call(lambda: C.lx(o['s']), hexs)
        elif k == 'x':
            res, e['out'] = call(lambda: C.x(o['s']), hexs)
        elif k == 'b2lx':
            res, e['out'] = call(lambda: C.b2lx(bytes.fromhex(o['h'])), p_str)
        elif k == 'b2x':
            res, e['out'] = call(lambda: C.b2x(bytes.fromhex(o['h'])), p_str)
        elif k == 'money':
            res, e['out'] = call(lambda: C.str_money_value(int(o['n'])), p_str)
        ev.append(e)
    bitcoin.SelectParams('mainnet')


# -- random programs --------------------------------------------------------

VER = {('mainnet', 0): 0, ('mainnet', 1): 5, ('test', 0): 111, ('test', 1): 196}
METHODS = ['getaccountaddress', 'getbalance', 'getblock', 'getblockhash', 'getinfo', 'getnewaddress', 'getrawchangeaddress', 'getrawmempool', 'getrawtransaction',
           'getreceivedbyaddress', 'gettransaction', 'gettxout', 'listunspent', 'lockunspent', 'sendrawtransaction', 'sendtoaddress', 'signrawtransaction',
           'submitblock', 'validateaddress', 'addnode', 'addnodeonetry', 'removenode']
PASS = {'gettransaction', 'lockunspent', 'submitblock', 'addnode', 'addnodeonetry', 'removenode'}
NOTUSABLE = ['notjson', 'empty', 'badutf8', 'array', 'nullbody', 'number', 'cut']
CUT = ['drop', 'badstatus', 'short']


def r_addr(r, chain):
    c = 'mainnet' if chain == 'mainnet' else 'test'
    if r.random() < .06:
        c = 'test' if c == 'mainnet' else 'mainnet'
    s = check(VER[c, r.randrange(2)], bytes.fromhex(r_bytes(r, 20)))
    if r.random() < .05:
        s = r.choice([s[:-1], s + '1', '', s[:5] + ('2' if s[5] != '2' else '3') + s[6:]])
    return s


def r_sat(r):
    k = r.random()
    if k < .2:
        return r.choice([0, 1, 2, 10, 99999999, 10**8, 10**8 + 1, 29 * 10**6, 57 * 10**6, 58 * 10**6, 115 * 10**6, 21 * 10**14, 21 * 10**14 - 1, 2099999997690000, 2**53 % (21 * 10**14)])
    if k < .5:
        return r.randrange(1, 10**8)
    if k < .8:
        return r.randrange(21 * 10**14)
    # round ones; never more than there can be
    return min(21 * 10**14, r.randrange(21 * 10**14) // 10**r.randrange(12) * 10**r.randrange(3))


def r_amount(r, neg=False):
    """JSON text of an amount in bitcoins"""
    s = r_sat(r)
    sign = '-' if neg and r.random() < .4 else ''
    t = sign + '%d.%08d' % (s // 10**8, s % 10**8)
    k = r.random()
    if k < .5:
        return t
    if k < .7:
        t = t.rstrip('0')
        return t + '0' if t[-1] == '.' else t
    if k < .85:
        return '%s%d%s-8' % (sign, s, r.choice('eE'))
    if s % 10**8 == 0:
        return '%s%d' % (sign, s // 10**8)
    if k > .97:
        return t + r.choice(['5', '00', '01'])
    return t


def jstr(r):
    return json.dumps(r.choice(['', '*', 'a', 'default', 'caf\u00e9', '"quoted"', 'a\\b', '\u20bf \U0001f4b0', 'x' * 40, ' ', '\n']))


def r_hextext(r, h):
    """mostly h; a damaged text otherwise"""
    k = r.random()
    if k < .8:
        return h
    return r.choice([h[:-1], h[:-2], h + '00', 'zz' + h[2:], '', h + '0', h[2:], ' ' + h, h[:-1] + 'g', '0x' + h])


def r_json(r, n=2):
    k = r.randrange(7 if n else 5)
    if k == 0:
        return None
    if k == 1:
        return r.random() < .5
    if k == 2:
        return r.choice([0, 1, -1, 2**31, 2**53 + 1, 10**30])
    if k == 3:
        return json.loads(jstr(r))
    if k == 4:
        return {'$raw': r.choice(['0.1', '1.00000000', '-0.00001', '1e-8', '123456789.123456789012345678901'])}
    if k == 5:
        return [r_json(r, n - 1) for _ in range(r.randrange(3))]
    return {r.choice('abcdefgh'): r_json(r, n - 1) for _ in range(r.randrange(3))}


def r_call(r, m, chain, ref):
    """a call with a good reply: (op with args, reply, raw)"""
    h = r_bytes(r, 32) if r.random() < .8 else r.choice(['00' * 32, 'ff' * 32, '01' + '00' * 31])
    a, rep, raw = {}, None, ''
    o = {'op': 'call', 'ref': ref, 'm': m, 'fault': 'ok'}
    if m in ('getaccountaddress', 'getnewaddress'):
        a = {'acct': 'null' if r.random() < .3 else jstr(r)}
        rep = raw = r_addr(r, chain)
    elif m == 'getrawchangeaddress':
        rep = raw = r_addr(r, chain)
    elif m == 'getbalance':
        a = r.choice([{'acct': '"*"', 'conf': 1}, {'acct': jstr(r), 'conf': r.choice([0, 1, 6, 100])}])
        raw = r_amount(r, True)
        rep = {'$raw': raw}
    elif m == 'getreceivedbyaddress':
        a = {'addr': r_addr(r, chain), 'obj': r.random() < .5, 'conf': r.choice([0, 1, 6])}
        raw = r_amount(r)
        rep = {'$raw': raw}
    elif m == 'getblock':
        a = {'hash': h}
        rep = raw = r_hextext(r, b_block(r_block(r, 2)).hex())
    elif m == 'getblockhash':
        a = {'n': r.choice([0, 1, 200000, -1, 2**31 - 1])}
        rep = raw = r_hextext(r, h)
    elif m == 'getinfo':
        raw = {'paytxfee': r_amount(r), 'balance': '0'}
        rep = {'version': 90300, 'paytxfee': {'$raw': raw['paytxfee']}, 'relayfee': {'$raw': '0.00001000'}, 'testnet': False, 'errors': 'x', 'difficulty': {'$raw': '23844670038.80329'}}
        if r.random() < .8:
            raw['balance'] = r_amount(r)
            rep['balance'] = {'$raw': raw['balance']}
    elif m == 'getrawmempool':
        a = {'verbose': r.random() < .4}
        raw = [r_hextext(r, r_bytes(r, 32)) if r.random() < .2 else r_bytes(r, 32) for _ in range(r.randrange(4))]
        rep = raw if not a['verbose'] else {t: {'fee': {'$raw': r_amount(r)}, 'size': 226} for t in raw if t}
    elif m == 'getrawtransaction':
        a = {'hash': h, 'verbose': r.random() < .5}
        t = r_hextext(r, b_tx(good_tx(r)).hex())
        if a['verbose']:
            raw = {'hex': t, 'blockhash': r_hextext(r, r_bytes(r, 32))}
            rep = {'hex': t, 'txid': h, 'version': 1, 'locktime': 0, 'vin': [], 'vout': [], 'confirmations': r.randrange(9), 'time': 1400000000}
            if r.random() < .6:
                rep['blockhash'] = raw['blockhash']
        else:
            rep = raw = t
    elif m == 'gettransaction':
        a = {'hash': h}
        rep = r.choice([{'amount': {'$raw': r_amount(r, True)}, 'txid': h, 'details': [r_json(r)]}, None])
    elif m == 'gettxout':
        a = {'hash': h, 'n': r_u32(r), 'mempool': r.random() < .5}
        raw = {'value': r_amount(r), 'script': r_hextext(r, r_script(r)), 'bestblock': r_hextext(r, r_bytes(r, 32))}
        rep = {'bestblock': raw['bestblock'], 'confirmations': 3, 'value': {'$raw': raw['value']}, 'scriptPubKey': {'asm': 'x', 'hex': raw['script']}, 'version': 1, 'coinbase': False}
    elif m == 'listunspent':
        a = {'min': r.choice([0, 1, 6]), 'max': r.choice([9999999, 100]), 'filter': r.random() < .5, 'addrs': [], 'obj': r.random() < .5}
        if a['filter']:
            a['addrs'] = [r_addr(r, chain) for _ in range(r.randrange(3))]
        rep, raw = [], []
        for _ in range(r.randrange(4)):
            u = {'txid': r_bytes(r, 32), 'vout': str(r.choice([0, 1, 2**32 - 1, 7])), 'script': r_hextext(r, r_script(r)), 'amount': r_amount(r), 'address': r_addr(r, chain)}
            raw.append(u)
            j = {'txid': u['txid'], 'vout': int(u['vout']), 'address': u['address'], 'account': json.loads(jstr(r)), 'scriptPubKey': u['script'], 'amount': {'$raw': u['amount']}, 'confirmations': 5}
            if r.random() < .2:
                del j['address']
            if r.random() < .2:
                j['redeemScript'] = '51'
            rep.append(j)
    elif m == 'lockunspent':
        a = {'unlock': r.random() < .5, 'outs': [r_outpoint(r) for _ in range(r.randrange(3))]}
        rep = r.random() < .5
    elif m == 'sendrawtransaction':
        a = {'tx': good_tx(r), 'mut': r.random() < .4, 'high': r.random() < .4}
        rep = raw = r_hextext(r, h)
    elif m == 'sendtoaddress':
        a = {'addr': r_addr(r, chain), 'obj': r.random() < .5, 'amount': str(r_sat(r))}
        rep = raw = r_hextext(r, h)
    elif m == 'signrawtransaction':
        a = {'tx': good_tx(r), 'mut': r.random() < .4, 'more': [json.dumps(x) for x in r.choice([[], [], [[]], [[], ['k'], 'ALL']])]}
        raw = {'hex': r_hextext(r, b_tx(good_tx(r)).hex())}
        rep = {'hex': raw['hex'], 'complete': r.random() < .5}
    elif m == 'submitblock':
        a = {'block': r_block(r, 2), 'more': r.choice([[], ['{"workid": 1}'], ['"x"']])}
        rep = r.choice([None, 'duplicate', 'rejected'])
    elif m == 'validateaddress':
        a = {'addr': r_addr(r, chain), 'obj': r.random() < .5}
        raw = {'valid': r.random() < .7, 'address': r_addr(r, chain), 'pubkey': r_hextext(r, r_bytes(r, 33))}
        rep = {'isvalid': raw['valid']}
        if raw['valid']:
            rep.update(address=raw['address'], ismine=False)
        if r.random() < .4:
            rep['pubkey'] = raw['pubkey']
    elif m in ('addnode', 'addnodeonetry', 'removenode'):
        a = {'node': json.dumps(r.choice(['1.2.3.4:8333', 'host', '[::1]:8333']))}
    else:
        a = {'more': [json.dumps(r_json0(r)) for _ in range(r.randrange(4))]}
        rep = r_json(r)
    o.update(args=a, reply=rep, raw=raw)
    return o


def r_json0(r):
    return r.choice([1, 'a', None, True, [], [1, 'b'], {'k': 'v'}, 'caf\u00e9', -5, 2**40])


RAWNAMES = ['help', 'stop', 'getwork', 'getblock', 'x', 'walletpassphrase', '_private', 'getinfo2', 'setgenerate']


def plague(r, o, fault=None):
    """make a fault of a call"""
    m = o['m']
    f = fault or r.choice(['error'] * 4 + ['noresult', 'noerror', 'noversion', 'baderror', 'null', 'missing', 'noresponse', 'spent'] + NOTUSABLE + CUT)
    o = dict(o)
    if f == 'spent' and m != 'gettxout':
        f = 'error'
    if f == 'missing':
        need = {'getinfo': ['paytxfee'], 'getrawtransaction': ['hex'], 'gettxout': ['value', 'bestblock', 'scriptPubKey'], 'signrawtransaction': ['hex'], 'validateaddress': ['isvalid']}.get(m)
        if not need or not isinstance(o['reply'], dict):
            f = 'noresult'
        else:
            o['reply'] = {k: v for k, v in o['reply'].items() if k != r.choice(need)} if len(need) == 1 else {k: v for k, v in o['reply'].items() if k not in need}
    if f == 'null':
        if m in PASS or m not in METHODS or m == 'getrawmempool' and o['args']['verbose']:
            f = 'ok'
        elif m == 'gettxout':
            f = 'spent'
        o['reply'] = None
    if f == 'spent':
        o['reply'] = None
    if f == 'error':
        o['error'] = r.choice([{'code': -5, 'message': 'Invalid address'}, {'code': -8, 'message': 'Block height out of range'}, {'code': -1, 'message': ''},
                               {'message': 'Insufficient funds "x" \u20bf', 'code': -6, 'data': [1]}, {'code': -32601, 'message': 'Method not found'}])
        o['status'] = r.choice([500, 500, 200, 404])
        if r.random() < .8:
            o['reply'] = None
    if f == 'baderror':
        o['error'] = r.choice([{}, 'x', 1, False, [], {'code': 1}, {'message': 'x'}, ''])
    if f in NOTUSABLE:
        o['status'] = r.choice([200, 401, 500])
    o['fault'] = f
    return o


def r_cred(r):
    return r.choice(['u', 'user', 'bitcoinrpc', 'us er', 'caf\u00e9', 'a@b', 'x/y', 'p?q', '100%', '%41', 'a+b', 'a&b=c', '[x]', "it's", 'A' * 40, '1', 'x;y', '\\', '%2F'] + [r_bytes(r, 8)] * 8)


def r_proxy(r, chain):
    u, p = r_cred(r), r_cred(r)
    if r.random() < .2:
        p += ':' + r_cred(r)
    o = {'op': 'proxy', 'how': r.choice(['url', 'url', 'conf', 'conf', 'fake']), 'auth': ('%s:%s' % (u, p)).encode('utf8').hex(), 'host': 'localhost', 'port': 0, 'sport': 0, 'path': '/', 'ssl': r.random() < .2,
         'bad': False, 'rawproxy': r.random() < .15}
    if o['how'] == 'conf':
        o['usual'] = r.random() < .3
        lines = ['rpcuser=' + u, 'rpcpassword=' + p]
        if r.random() < .6:
            o['port'] = r.choice([8332, 1, 65535, 9999])
            lines.append('rpcport=%d' % o['port'])
        if r.random() < .4:
            o['sport'] = r.choice([4444, 18332])
        if o['ssl']:
            lines.append('rpcssl=' + r.choice(['1', 'true', 'True']))
        elif r.random() < .4:
            lines.append('rpcssl=' + r.choice(['0', 'false', 'FALSE']))
        lines += r.sample(['# rpcuser=other', 'server=1', '', 'nonsense', '#', 'addnode=1.2.3.4 # rpcpassword=x', '[main]', 'rpcallowip=*'], r.randrange(4))
        r.shuffle(lines)
        lines = [r.choice(['', ' ']) + x.replace('=', r.choice(['=', ' = ', '= ']), 1) + r.choice(['', ' ', ' # comment']) for x in lines]
        if r.random() < .06:
            k = r.choice(['rpcuser', 'rpcpassword', 'rpcssl', 'rpcport'])
            if k in ('rpcuser', 'rpcpassword'):
                lines = [x for x in lines if not x.strip().startswith(k)]
            else:
                lines += [{'rpcssl': 'rpcssl=maybe', 'rpcport': 'rpcport=abc'}[k]]
            o['bad'] = True
        o['lines'] = lines
    else:
        if o['how'] == 'fake':
            o['ssl'] = False
        if r.random() < .8:
            o['port'] = r.choice([8332, 18332, 1, 65535])
        o['host'] = r.choice(['localhost', 'localhost', '127.0.0.1'])
        o['path'] = r.choice(['/', '/', '', '/wallet/x', '/a/b/'])
        o['url'] = '%s://%s:%s@%s%s%s' % ('https' if o['ssl'] else 'http', urllib.parse.quote(u, safe=''), urllib.parse.quote(p, safe=''), o['host'], ':%d' % o['port'] if o['port'] else '', o['path'])
        if o['how'] != 'fake':
            o['path'] = o['path'] or '/'
        elif not o['port']:
            o['port'] = 80
    return o


PLAIN = {'op': 'proxy', 'how': 'url', 'auth': b'u:p'.hex(), 'host': 'localhost', 'port': 8332, 'sport': 0, 'path': '/', 'ssl': False, 'bad': False, 'rawproxy': False, 'url': 'http://u:p@localhost:8332'}
FAKE = dict(PLAIN, how='fake', path='')


def concretize(prog):
    """histories of the design: calls of proxies with faults, methods at random"""
    r = d.rng('rpc-design/%s' % json.dumps(prog))
    p = [r.choice([PLAIN, FAKE]) for _ in range(2)]
    for o in prog[1:]:
        q = r_call(r, r.choice(METHODS), 'mainnet', o['p'])
        f = o['fault']
        if f == 'garbled':
            f = r.choice(NOTUSABLE)
        elif f == 'late':
            f = 'drop' if p[o['p'] - 1]['how'] == 'url' else 'noresponse'
        p.append(q if f == 'ok' else plague(r, q, f))
    return p


def progs():
    r = d.rng('rpc')
    # every method, well answered and with every fault
    for m in METHODS:
        p = [PLAIN, FAKE]
        for f in ['error', 'noresult', 'noerror', 'noversion', 'baderror', 'null', 'missing', 'spent'] + NOTUSABLE:
            p.append(plague(r, r_call(r, m, 'mainnet', 1), f))
        p += [plague(r, r_call(r, m, 'mainnet', 2), 'noresponse')]
        for _ in range(d.scale(8, 100)):
            p.append(r_call(r, m, 'mainnet', r.choice([1, 2])))
        p += [plague(r, r_call(r, m, 'mainnet', 1), r.choice(CUT)), r_call(r, m, 'mainnet', 1)]
        yield p
    # the same asked again and again: each answer stands for itself
    for m in METHODS:
        for ref in (1, 2):
            p = [PLAIN, FAKE]
            a = r_call(r, m, 'mainnet', ref)
            while a['args'].get('verbose') == (ref == 1):
                a = r_call(r, m, 'mainnet', ref)
            for i in range(d.scale(4, 12)):
                b = r_call(r, m, 'mainnet', ref)
                while b['args'].get('verbose') != a['args'].get('verbose'):
                    b = r_call(r, m, 'mainnet', ref)
                b['args'] = a['args']
                p.append(plague(r, b, 'error') if i == 2 else b)
            yield p
    # amounts
    for _ in range(d.scale(4, 60)):
        yield [PLAIN] + [r_call(r, m, 'mainnet', 1) for m in ('sendtoaddress', 'getbalance', 'getreceivedbyaddress', 'getinfo', 'gettxout', 'listunspent') for _ in range(8)]
    # configurations
    for _ in range(d.scale(40, 800)):
        c = r.choice(['mainnet', 'testnet', 'regtest'])
        p = [{'op': 'select', 'chain': c}]
        for i in range(3):
            q = r_proxy(r, c)
            p.append(q)
        n = len([q for q in p if q['op'] == 'proxy' and not q['bad']])
        for i in range(n):
            p += [r_call(r, r.choice(METHODS + RAWNAMES), c, i + 1)]
        yield p
    # anything in any order
    for _ in range(d.scale(40, 1000)):
        c = 'mainnet'
        p = [dict(PLAIN, rawproxy=r.random() < .1), FAKE]
        for _ in range(r.choice([8, 20])):
            k = r.random()
            ref = r.choice([1, 1, 2, 3])
            if k < .06:
                p.append(r_proxy(r, c))
            elif k < .12:
                c = r.choice(['mainnet', 'testnet', 'regtest'])
                p.append({'op': 'select', 'chain': c})
            elif k < .16:
                p.append({'op': 'batch', 'ref': ref, 'calls': [json.dumps({'method': 'm%d' % i, 'params': [i], 'id': i}) for i in range(r.randrange(4))], 'reply': [r_json(r) for _ in range(r.randrange(3))]})
            elif k < .2:
                p.append({'op': 'wrongtype', 'ref': ref, 'm': r.choice(['getblock']), 'arg': r.choice(['00' * 32, 5])})
            else:
                o = r_call(r, r.choice(METHODS + RAWNAMES[:1]), c, ref)
                p.append(o if r.random() < .7 else plague(r, o))
        yield p
    # texts
    for _ in range(d.scale(20, 300)):
        p = []
        for _ in range(10):
            h = r_bytes(r, r.choice([0, 1, 2, 20, 32, 33]))
            p += [{'op': 'lx', 's': r_hextext(r, h)}, {'op': 'x', 's': r_hextext(r, h)}, {'op': 'b2lx', 'h': h}, {'op': 'b2x', 'h': h}, {'op': 'money', 'n': str(r_sat(r) * r.choice([1, 1, -1]))}]
        yield p


for name, p in d.programs(progs):
    d.run(name, p, ex)
d.done()
