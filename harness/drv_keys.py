"""Random key sets for Merbinner trees"""
from mblib import *


def prefix_free(r, n):
    """random prefix-free set of bit strings"""
    leaves = [[]]
    while len(leaves) < n:
        i = r.randrange(len(leaves))
        p = leaves.pop(i)
        ext = [r.randrange(2) for _ in range(r.choice([0, 0, 0, 1, 3, 7, 9]))]
        leaves += [p + ext + [0], p + ext + [1]]
    return leaves


def keys_for(r, kind, n):
    kk = KV[kind][0]
    if kk == 'd':
        base = bytes(r.randrange(256) for _ in range(32))
        ks = set()
        while len(ks) < n:
            k = r.randrange(4)
            b = bytearray(base)
            if k == 0:
                b = bytearray(r.randrange(256) for _ in range(32))
            elif k == 1:                      # differs in one bit
                i = r.choice([0, 1, 7, 8, 9, 127, 128, 200, 247, 248, 254, 255])
                b[i // 8] ^= 0x80 >> (i % 8)
            elif k == 2:                      # long common prefix
                i = r.randrange(24, 32)
                b[i:] = bytes(r.randrange(256) for _ in range(32 - i))
            ks.add(bytes(b).hex())
        return sorted(ks)
    if kk == 'b1':
        return ['%02x' % i for i in sorted(r.sample(range(256), n))]
    if kk == 'b2':
        return ['%02x%02x' % (i, r.randrange(256)) for i in sorted(r.sample(range(256), n))]
    if kk == 'bits':
        return prefix_free(r, n)
    return r.sample(range(256), n)
