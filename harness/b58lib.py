"""Base58Check for the drivers, independent of the code under verification."""
from btclib import dsha

DIG = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def enc58(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = DIG[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def check(ver, data, sum_=None):
    k = bytes([ver]) + data
    return enc58(k + (dsha(k)[:4] if sum_ is None else sum_))
