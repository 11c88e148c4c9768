"""Driver: sus-tool.py, run in a scratch directory, with a fake node to ask for
transactions.  Each invocation is a process of its own: a fork of this one
(with the modules loaded already), or now and then a new interpreter."""
from btclib import *
import gc
import io
import http.server
import os
import runpy
import socket
import shutil
import subprocess
import sys
import threading
import concurrent.futures
from sealgen import *

REPO = os.environ['VERIF_REPO']
TOOL = os.path.join(REPO, 'sus-tool.py')
d = Driver()

NODE = r'''
import http.server, json, sys, os
class H(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'
    def log_message(self, *a): pass
    def do_POST(self):
        q = json.loads(self.rfile.read(int(self.headers['Content-Length'])))
        res, err = None, {'code': -32601, 'message': 'Method not found'}
        if q['method'] == 'getrawtransaction':
            p = os.path.join(sys.argv[1], os.path.basename(q['params'][0]))
            if os.path.exists(p): res, err = open(p).read(), None
            else: err = {'code': -5, 'message': 'No information available about transaction'}
        b = json.dumps({'result': res, 'error': err, 'id': q['id']}).encode()
        self.send_response(200 if err is None else 500)
        self.send_header('Content-Length', str(len(b)))
        self.end_headers()
        self.wfile.write(b)
s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
print(s.server_address[1], flush=True)
s.serve_forever()
'''


PORTS = {}      # the nodes of the chains, by the port such a node has


def reach(connect):
    def go(address, *a, **k):
        return connect(('127.0.0.1', PORTS[address[1]]) if address[1] in PORTS else address, *a, **k)
    return go


def invoke(cwd, home, args, real):
    """exit status as text, standard output"""
    env = dict(os.environ, HOME=home)
    if real:
        r = subprocess.run([sys.executable, TOOL] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=60)
        return ('%d' % r.returncode if r.returncode >= 0 else 'signal'), r.stdout.decode('utf8', 'replace')
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        st = 1
        try:
            os.close(rfd)
            os.chdir(cwd)
            os.environ['HOME'] = home
            nul = os.open('/dev/null', os.O_RDWR)
            os.dup2(nul, 0)
            os.dup2(wfd, 1)
            os.dup2(nul, 2)
            sys.stdout = os.fdopen(1, 'w')
            sys.stderr = os.fdopen(2, 'w')
            sys.argv = [TOOL] + args
            socket.create_connection = reach(socket.create_connection)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(50)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                runpy.run_path(TOOL, run_name='__main__')
                st = 0
            except SystemExit as e:
                st = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except BaseException:
                st = 1
            # as the interpreter does when it ends
            for o in gc.get_objects():
                if isinstance(o, io.BufferedWriter) and not o.closed:
                    o.flush()
            sys.stdout.flush()
        except BaseException:
            st = 1
        os._exit(st & 255)
    os.close(wfd)
    o = b''
    while True:
        b = os.read(rfd, 65536)
        if not b:
            break
        o += b
    os.close(rfd)
    _, s = os.waitpid(pid, 0)
    return ('%d' % os.WEXITSTATUS(s) if os.WIFEXITED(s) else 'signal'), o.decode('utf8', 'replace')


def snapshot(cwd):
    r = {}
    for n in sorted(os.listdir(cwd)):
        p = os.path.join(cwd, n)
        if os.path.isfile(p):
            with open(p, 'rb') as f:
                r[n] = f.read().hex()
    return r


BAD_TX = {'version': '0', 'vin': [], 'vout': [], 'lock': 'bad'}


def ex(prog, ev):
    if isinstance(prog, list):
        prog = from_tlc(prog)
    base = prog_dir()
    cwd, home = base + '/work', base + '/home'
    os.makedirs(cwd)
    os.makedirs(home + '/.bitcoin')
    with open(home + '/.bitcoin/bitcoin.conf', 'w') as f:
        f.write('rpcuser=u\nrpcpassword=p\n' + ('' if prog.get('chains') else 'rpcport=%d\n' % PORT))
    try:
        for e in prog['ops']:
            if e['op'] == 'away':
                for n in os.listdir(cwd):
                    os.remove(os.path.join(cwd, n))
                ev.append(dict(e))
                continue
            if e['op'] == 'put':
                with open(os.path.join(cwd, e['name']), 'wb') as f:
                    f.write(bytes.fromhex(e['hex']))
                ev.append(dict(e))
                continue
            e = dict({'outpoint': {'hash': '', 'n': 'bad'}, 'tx': BAD_TX, 'd': '', 'sf': '', 'id': '', 'meth': '', 'on': '', 'flags': []}, **e)
            if e.get('how') == 'txid' and e['tx']['lock'] != 'bad':
                with open(os.path.join(NODEDIR, e['on'], dsha(b_tx(e['tx']))[::-1].hex()), 'w') as f:
                    f.write(b_tx(e['tx']).hex())
            before = snapshot(cwd)
            st, o = invoke(cwd, home, argv(e, before), e.get('real', False))
            after = snapshot(cwd)
            e['made'] = [{'name': n, 'hex': after[n]} for n in order(e, [n for n in after if n not in before])]
            e['lost'] = [n for n in before if after.get(n) != before[n]]
            if e['c'] == 'mkclosetx':
                e['says'] = o.strip()
            elif e['c'] in ('sealinfo', 'witnessinfo'):
                e['says'] = says(o, e['c'])
            else:
                e['says'] = ''
            e['out'] = {'k': 'exit', 'v': st, 'mro': []}
            e.pop('argv', None)
            ev.append(e)
    finally:
        shutil.rmtree(base)


def order(e, made):
    want = [n + '.witness' for n in e['names']]
    return sorted(made, key=lambda n: (want.index(n) if n in want else 99, n))


def says(o, c):
    """the values shown, by their labels"""
    labels = ['Hash', 'OutPoint'] if c == 'sealinfo' else ['Hash', 'Txid', 'Seal Hash', 'Seal OutPoint']
    got = {}
    for line in o.splitlines():
        if ':' in line:
            k, v = line.split(':', 1)
            got[k.strip()] = v.strip()
    return [got.get(x, '?') for x in labels]


def argv(e, before):
    if 'argv' in e:
        return e['argv']
    a = list(e.get('flags', []))
    c = e['c']
    if c == 'mkseal':
        return a + ['mkseal', e['text']] + e['names']
    if c == 'mkclosetx':
        m = {'op_return': [[], ['--op-return']][len(e['d']) // 2 % 2 if e['d'] != 'bad' else 0], 'p2sh': ['--p2sh'], 'p2pkh': ['--p2pkh']}[e['meth']]
        return a + ['mkclosetx'] + m + [e.get('text', e['d'])] + e['names']
    if c == 'mkwitness':
        if e.get('how') == 'txid':
            t = ['--txid', e.get('text') or dsha(b_tx(e['tx']))[::-1].hex()]
        else:
            t = ['--tx', e.get('text') or b_tx(e['tx']).hex()]
        return a + ['mkwitness'] + t + e['names'] if len(e['names']) % 2 else a + ['mkwitness'] + e['names'] + t
    if c == 'verify':
        if e['id'] == 'own':
            raise Exception('id')
        return a + ['verifywitness'] + (['-d', e.get('text', e['d'])] if e['d'] else []) + (['--seal-file', e['sf']] if e['sf'] else []) + \
            (['--seal-id', e['id'] if e['id'] != 'bad' else 'zz'] if e['id'] else []) + e['names']
    return a + [c] + e['names']


NDIR = [0]


def prog_dir():
    NDIR[0] += 1
    p = os.path.join(d.work, 'tool-%d-%d' % (os.getpid(), NDIR[0]))
    os.makedirs(p)
    return p


# -- programs ---------------------------------------------------------------

def text_of(o):
    return bytes.fromhex(o['hash'])[::-1].hex() + ':' + o['n']


def from_tlc(h):
    D = {0: '', 1: '11' * 32, 2: '22' * 32}
    o = lambda n: {'hash': '0%d' % n * 32, 'n': str(n)}
    i = lambda n: {'prevout': o(n), 'script': '', 'seq': '0'}
    t = lambda x: {'value': '0', 'script': '6a20' + D[x]}
    tx = {1: {'version': '1', 'lock': '0', 'vin': [i(1)], 'vout': [t(1), t(2)]}, 2: {'version': '1', 'lock': '0', 'vin': [i(2), i(1)], 'vout': [t(2)]},
          3: {'version': '1', 'lock': '0', 'vin': [i(2)], 'vout': [{'value': '0', 'script': '51'}, t(1)]}}
    ops = []
    for c in h:
        e = {'op': 'cmd', 'c': c['c'], 'names': c['names']}
        if c['c'] == 'mkseal':
            e.update(outpoint=o(c['n']), text=text_of(o(c['n'])))
        elif c['c'] == 'mkwitness':
            e.update(tx=tx[c['n']], how='tx')
        elif c['c'] == 'mkclosetx':
            e.update(d=D[1], meth='op_return')
        elif c['c'] == 'verify':
            e.update(d=D[c['d']], sf=c['sf'])
        ops.append(e)
    return {'ops': ops}


def leb(n):
    r = b''
    while n > 127:
        r += bytes([n & 127 | 128])
        n >>= 7
    return r + bytes([n])


def seal_hex(s):
    return '0024' + b_outpoint(s['outpoint']).hex() + s['nonce']


def witness_hex(w):
    def part(i, tx):
        b = b_tx(tx)
        return (b'\0' + leb(int(i)) + b'\0' + leb(len(b)) + b).hex()
    return '00' + seal_hex(w['seal']) + part(w['i'], w['itx']) + part(w['o'], w['otx'])


def near(r, h):
    """one bit of it changed"""
    b = bytearray.fromhex(h)
    b[r.choice([0, -1, len(b) // 2, r.randrange(len(b))])] ^= 1 << r.randrange(8)
    return bytes(b).hex()


def own():
    r = d.rng('tool')
    for k in range(d.scale(150, 1500)):
        os_ = [op0(r) for _ in range(2)]
        os_.append(dict(os_[0], n=str(int(os_[0]['n']) ^ 1)))
        D = [r_bytes(r, 32) for _ in range(2)]
        names = ['s1', 's 2', 's3.seal']
        ops, made = [], {}       # name -> seal known to us (outpoint only if the tool made it)
        wits = []
        flags = lambda: r.choice([[], [], [], ['-v'], ['-vv'], ['-q'], ['-t'], ['-n'], ['-v', '-q']])
        for n in names:
            o = r.choice(os_)
            if r.random() < .6:
                ops.append({'op': 'cmd', 'c': 'mkseal', 'outpoint': o, 'text': text_of(o), 'names': [n], 'flags': flags()})
                made[n] = o
            elif r.random() < .7:
                s = mkseal(r, o)
                ops.append({'op': 'put', 'name': n, 't': 'seal', 'v': s, 'hex': seal_hex(s)})
                made[n] = o
            else:
                h = bytearray.fromhex(seal_hex(mkseal(r, o)))
                bad = r.choice([h[:-1], h + b'\0', b'', h[1:], b'\x01' + h[1:], h[:1] + b'\x25' + h[2:]])
                ops.append({'op': 'put', 'name': n, 't': 'junk', 'v': '', 'hex': bytes(bad).hex()})
        if r.random() < .3 and made:
            # the same seal under another name
            s = mkseal(r, r.choice(os_))
            for n in ('c1', 'c2'):
                ops.append({'op': 'put', 'name': n, 't': 'seal', 'v': s, 'hex': seal_hex(s)})
                made[n] = s['outpoint']
        if r.random() < .6:
            dig = r.choice(D)
            seal = mkseal(r, r.choice(os_))
            w = r_witness(r, seal, dig, D[0] if dig == D[1] else D[1])
            ops.append({'op': 'put', 'name': 'w.witness', 't': 'witness', 'v': w, 'hex': witness_hex(w)})
            ops.append({'op': 'put', 'name': 'ws', 't': 'seal', 'v': seal, 'hex': seal_hex(seal)})
            wits.append('w.witness')
            made['ws'] = seal['outpoint']
            # a seal that is almost the same
            if r.random() < .5:
                s2 = json.loads(json.dumps(seal))
                k2 = r.choice(['nonce', 'hash', 'n'])
                if k2 == 'nonce':
                    s2['nonce'] = near(r, s2['nonce'])
                elif k2 == 'hash':
                    s2['outpoint']['hash'] = near(r, s2['outpoint']['hash'])
                else:
                    s2['outpoint']['n'] = str(int(s2['outpoint']['n']) ^ 1 << r.randrange(32))
                ops.append({'op': 'put', 'name': 'wn', 't': 'seal', 'v': s2, 'hex': seal_hex(s2)})
                made['wn'] = s2['outpoint']
            ask = []
            for _ in range(3):
                sh = seal_hash(seal)
                a = {'op': 'cmd', 'c': 'verify', 'flags': [], 'names': ['w.witness'], 'd': '', 'sf': ''}
                k2 = r.choice(['d', 'sf', 'id', 'id', 'all'])
                if k2 in ('d', 'all'):
                    a['d'] = r.choice([dig, near(r, dig)])
                if k2 in ('sf', 'all'):
                    a['sf'] = r.choice(['ws', 'wn']) if 'wn' in made else 'ws'
                if k2 in ('id', 'all'):
                    a['id'] = r.choice([sh, near(r, sh), near(r, sh)])
                ask.append(a)
            if r.random() < .3:
                h = bytearray.fromhex(witness_hex(w))
                bad = r.choice([h[:-1], h + b'\0', b'', h[:40], h[1:]])
                ops.append({'op': 'put', 'name': 'j.witness', 't': 'junk', 'v': '', 'hex': bytes(bad).hex()})
                wits.append('j.witness')
        if wits:
            ops += ask
        alln = names + ['c1', 'c2', 'ws', 'nosuch']
        for _ in range(r.choice([3, 5, 8])):
            c = r.choice(['mkseal', 'mkclosetx', 'mkclosetx', 'mkwitness', 'mkwitness', 'mkwitness', 'verify', 'verify', 'verify', 'sealinfo', 'witnessinfo', 'bad'])
            e = {'op': 'cmd', 'c': c, 'flags': flags()}
            some = r.sample(sorted(made) or ['nosuch'], min(len(made) or 1, r.choice([1, 1, 2, 3])))
            if r.random() < .1:
                some.append(r.choice(alln))
            if c == 'mkseal':
                o = r.choice(os_)
                e.update(names=[r.choice(names + ['new1', 'new2'])], outpoint=o, text=text_of(o))
                if r.random() < .3:
                    e['outpoint'] = {'hash': '', 'n': 'bad'}
                    h = bytes.fromhex(o['hash'])[::-1].hex()
                    e['text'] = r.choice([h, h + ':', h[2:] + ':0', h + ':4294967296', h + ':-1', h + ':0:0', 'zz' + h[2:] + ':0', h + ':x', ':0', h + '00:1', h + ':1.0'])
            elif c == 'mkclosetx':
                e.update(names=some, d=r.choice(D), meth=r.choice(['op_return', 'p2sh', 'p2pkh']))
                if r.random() < .15:
                    e['text'] = r.choice([e['d'][2:], e['d'] + '00', 'zz' * 32, ''])
                    e['d'] = 'bad'
            elif c == 'mkwitness':
                e.update(names=some, how=r.choice(['tx', 'tx', 'txid']))
                ins = [made[n] for n in some if n in made and r.random() < .9] + [op0(r) for _ in range(r.choice([0, 0, 1]))]
                if r.random() < .1 and ins:
                    ins.append(ins[0])
                r.shuffle(ins)
                tx = tx_with(r, ins, [r.choice(good_scripts(r.choice(D)) + ['51']) for _ in range(r.choice([1, 1, 2, 0]))])
                if len(ins) == 0:
                    tx['vout'] = []          # no input and an output would read differently in later versions
                e['tx'] = tx
                if k % 4 == 1:
                    e['how'] = r.choice(['txid', 'txid', 'tx'])
                    e['on'] = r.choice(['mainnet', 'testnet']) if e['how'] == 'txid' else ''
                    e['flags'] = r.choice([[], ['-t'], ['-t', '-v'], ['-n']])
                if r.random() < .15:
                    e['text'] = (b_tx(tx).hex() + '00') if e['how'] == 'tx' else r_bytes(r, 32)
                    if e['how'] == 'tx' and r.random() < .5:
                        e['text'] = r.choice([b_tx(tx).hex()[:-2], 'zz', b_tx(tx).hex()[:-1]])
                    e['tx'] = BAD_TX
            elif c == 'verify':
                w = r.choice(wits + [n + '.witness' for n in some] + ['nosuch'] * (r.random() < .05))
                e.update(names=[w], d=r.choice(['', D[0], D[0], D[1], r_bytes(r, 32)]), sf=r.choice(['', '', 'ws'] + some))
                if r.random() < .1:
                    e['text'] = r.choice(['zz', D[0][2:], D[0] + '00'])
                    e['d'] = 'bad'
                wit = [p for p in ops if p['op'] == 'put' and p['name'] == w and p['t'] == 'witness']
                if r.random() < .3:
                    sh = seal_hash(wit[0]['v']['seal']) if wit else r_bytes(r, 32)
                    e['id'] = r.choice([sh, sh, sh, r_bytes(r, 32), 'bad'])
            elif c == 'sealinfo':
                e['names'] = [r.choice(some + wits + ['nosuch'])]
            elif c == 'witnessinfo':
                e['names'] = [r.choice(wits + [n + '.witness' for n in some] + ['ws'])]
            else:
                e.update(names=[], argv=r.choice([[], ['nosuchcommand'], ['mkseal'], ['mkwitness', 's1'], ['verifywitness'], ['mkclosetx', D[0]],
                                                  ['mkclosetx', '--p2sh', '--p2pkh', D[0], 's1']]))
            if k % 40 == 0:
                e['real'] = True
            ops.append(e)
        if k % 5 == 0:       # parts that belong together, and that do not: asked every way
            seal = mkseal(r, os_[0])
            for m in range(3):
                w = r_witness(r, seal, D[0], D[1])
                nm = 'v%d.witness' % m
                ops.append({'op': 'put', 'name': nm, 't': 'witness', 'v': w, 'hex': witness_hex(w)})
                sh = seal_hash(seal)
                for n, fl in enumerate([[], ['-v'], ['-q'], ['-qq'], ['-t'], ['-n'], ['-q', '-n'], ['-q', '-t'], ['-v', '-q'], ['-vvv']]):
                    for a in ({'d': ''}, {'d': '', 'id': sh}, {'d': D[0]})[:3 if (n + m) % 3 == 0 else 1]:
                        ops.append(dict({'op': 'cmd', 'c': 'verify', 'flags': fl, 'names': [nm], 'sf': ''}, **a))
        if k % 3 == 0:       # all files kept elsewhere, and the same asked for again
            again = [e for e in ops if e['op'] == 'cmd' and e['c'] == 'mkseal' and e['outpoint']['n'] != 'bad']
            again = again or [{'op': 'cmd', 'c': 'mkseal', 'outpoint': os_[0], 'text': text_of(os_[0]), 'names': ['s1'], 'flags': []}]
            again = {e['names'][0]: e for e in reversed(again)}
            ops += [{'op': 'away'}] + list(again.values()) + [{'op': 'away'}] + list(again.values())
        yield {'ops': ops, 'chains': k % 4 == 1}


def seal_hash(s):
    h = lambda b: hashlib.sha256(b).digest()
    return h(bytes.fromhex('b59093bf527f4d2a9a513c2e3d2f0c25') + h(b'\x24' + b_outpoint(s['outpoint']) + bytes.fromhex(s['nonce']))).hex()


NODEDIR = os.path.join(d.work, 'node')
os.makedirs(NODEDIR, exist_ok=True)
import bitcoin.rpc, bitcoin.core, proofchains.core.bitcoin, proofchains.core.uniquebits.singleuseseal, proofchains.uniquebits.singleuseseal  # noqa
import argparse, collections, logging  # noqa
nodes = []
for chain, port in (('', 0), ('mainnet', 8332), ('testnet', 18332)):
    os.makedirs(os.path.join(NODEDIR, chain), exist_ok=True)
    nodes.append(subprocess.Popen([sys.executable, '-c', NODE, os.path.join(NODEDIR, chain)], stdout=subprocess.PIPE, stdin=subprocess.DEVNULL))
    PORTS[port] = int(nodes[-1].stdout.readline())
PORT = PORTS.pop(0)
jobs = list(d.programs(own))
gc.collect()
gc.freeze()
# several processes, each with a share of the programs
kids = []
N = 8 if len(jobs) > 16 else 1
for w in range(N):
    path = os.path.join(d.work, 'share-%d.json' % w)
    pid = os.fork()
    if pid == 0:
        for k, (name, prog) in enumerate(jobs):
            if k % N == w:
                d.run(name, prog, ex)
        with open(path, 'w') as f:
            json.dump(d.traces, f)
        os._exit(0)
    kids.append((pid, path))
bad = 0
for pid, path in kids:
    _, s = os.waitpid(pid, 0)
    bad |= s
    if not s:
        with open(path) as f:
            d.traces += json.load(f)
for node in nodes:
    node.kill()
    node.wait()
if bad:
    sys.exit(1)
d.traces.sort(key=lambda t: t['name'])
d.done()
