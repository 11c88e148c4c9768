"""secp256k1 for the harness: makes keys and signatures without the code under
verification.  Signing is deterministic in its arguments."""
import hashlib

P = 2**256 - 2**32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
     0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)


def _add(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        l = 3 * p[0] * p[0] * pow(2 * p[1], -1, P) % P
    else:
        l = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
    x = (l * l - p[0] - q[0]) % P
    return x, (l * (p[0] - x) - p[1]) % P


_TAB = None


def mulg(k):
    global _TAB
    if _TAB is None:
        _TAB = [G]
        for _ in range(255):
            _TAB.append(_add(_TAB[-1], _TAB[-1]))
    r = None
    for i in range(256):
        if k >> i & 1:
            r = _add(r, _TAB[i])
    return r


def pub(secret, compressed=True, hybrid=False):
    x, y = mulg(secret)
    if compressed:
        return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return bytes([6 + (y & 1) if hybrid else 4]) + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def der(r, s):
    def i(v):
        b = v.to_bytes(v.bit_length() // 8 + 1, 'big')
        return b'\x02' + bytes([len(b)]) + b
    b = i(r) + i(s)
    return b'\x30' + bytes([len(b)]) + b


def sign(secret, digest, salt=0, low=None):
    z = int.from_bytes(digest[:32], 'big')
    while True:
        k = int.from_bytes(hashlib.sha256(b'%d/%d/' % (secret, salt) + digest).digest(), 'big') % N
        salt += 1
        r = mulg(k)[0] % N if k else 0
        s = pow(k, -1, N) * (z + r * secret) % N if r else 0
        if s:
            if low is not None and (s <= N // 2) != low:
                s = N - s
            return der(r, s)
