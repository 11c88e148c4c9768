"""Scripts, transactions and witnesses for seals: right ones and near misses"""
from btclib import *


# -- scripts that do, and that nearly do, commit to a digest -----------------

def h160(dig):
    return hashlib.new('ripemd160', hashlib.sha256(bytes.fromhex(dig)).digest()).hexdigest()


def good_scripts(dig):
    return ['6a20' + dig, 'a914' + h160(dig) + '87', '76a914' + h160(dig) + '88ac']


def near_scripts(dig, other):
    h = h160(dig)
    hd = bytes.fromhex(dig)
    return good_scripts(other) + [
        '6a4c20' + dig, '6a4d2000' + dig, '6a20' + dig + '00', '6a20' + dig[:-2], '6a1f' + dig[:-2], '6a21' + dig + '00', '6a2100' + dig,
        '20' + dig, '6a', '', '006a20' + dig, '5020' + dig, '6a20' + dig[2:] + dig[:2], '6a20' + hd[::-1].hex(),
        'a914' + h + '88', 'a914' + h, 'a815' + h, 'a914' + h + '8787', 'a94c14' + h + '87', 'a920' + dig + '87', 'a914' + dig[:40] + '87',
        '76a914' + h + '88', '76a914' + h + '87ac', '76a914' + h + '88ad', '76a914' + dig[:40] + '88ac', '76a94c14' + h + '88ac',
        '76a914' + h + '88ac00', '14' + h, '6a14' + h, '6a20' + h + '00' * 12, '6a20' + hashlib.sha256(hd).hexdigest(),
        'a914' + hashlib.new('ripemd160', hd).hexdigest() + '87', '6a20' + dig + '6a20' + dig]


def digest(r):
    return r.choice(['00' * 32, 'ff' * 32, r_bytes(r, 32), r_bytes(r, 32), '00' * 31 + '01'])


def tx_with(r, ins, outs):
    """outs: scripts"""
    return {'version': '1', 'lock': '0', 'vin': [{'prevout': o, 'script': r_script(r, 6), 'seq': r_u32(r)} for o in ins],
            'vout': [{'value': r.choice(['0', '600', '-1']), 'script': s} for s in outs]}


def op0(r, h=None, n=None):
    return {'hash': h or r_bytes(r, 32), 'n': n if n is not None else r.choice(['0', '0', '1', '2', '4294967295'])}


def mkseal(r, o):
    return {'t': 'b', 'outpoint': o, 'nonce': r_bytes(r, 16)}


def r_witness(r, seal, dig, other, script=None):
    """mostly right, with up to two things wrong"""
    wrong = r.choice([0, 0, 1, 1, 2])
    defects = r.sample(['input', 'index', 'script', 'output', 'oindex', 'tx', 'n'], wrong)
    o = seal['outpoint']
    ins = [op0(r) for _ in range(r.randrange(3))]
    at = r.randrange(len(ins) + 1)
    mine = o
    if 'input' in defects:
        mine = op0(r)
    if 'n' in defects:
        mine = dict(o, n=r.choice(['0', '1', '7']))
    ins.insert(at, mine)
    sc = script or r.choice(good_scripts(dig))
    if 'script' in defects:
        sc = r.choice(near_scripts(dig, other))
    outs = [sc] + [r.choice(good_scripts(dig) + good_scripts(other) + ['51']) for _ in range(r.randrange(3))]
    if 'output' in defects:
        outs.pop(0) if r.random() < .5 else outs.insert(0, r.choice(['51', good_scripts(other)[0]]))
    i, oi = at, 0
    if 'index' in defects:
        i = r.choice([x for x in (0, 1, 2, len(ins), 2**32 - 1) if x != at])
    if 'oindex' in defects:
        oi = r.choice([1, 2, len(outs), 2**32 - 1])
        if oi < len(outs):
            outs[oi] = r.choice(good_scripts(dig))
    tx = tx_with(r, ins, outs)
    otx = tx
    if 'tx' in defects:
        otx = json.loads(json.dumps(tx))
        k = r.choice(['lock', 'version', 'seq', 'outs', 'ins'])
        if k == 'seq':
            otx['vin'][0]['seq'] = '12345'
        elif k == 'outs':
            otx['vout'].append({'value': '1', 'script': ''})
        elif k == 'ins':
            otx['vin'].append({'prevout': op0(r), 'script': '', 'seq': '0'})
        else:
            otx[k] = '99'
    return {'t': 'b', 'seal': seal, 'i': str(i), 'itx': tx, 'o': str(oi), 'otx': otx}
