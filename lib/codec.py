"""What a point decoder may answer (documented format: 00 | 02/03 X | 04 X Y, fixed width big endian)."""
from ecref import *


def decode(cv, b):
    """-> set of acceptable answers; None in the set = rejection, ('P', point) = accepted"""
    L = cv.plen
    n = len(b)
    if n == 0:
        return {None}
    if b[0] == 0:
        if n in (1 + L, 1 + 2 * L) and not any(b):
            if cv.O is None:
                return {('P', None)}
            return {None, ('P', cv.O)}       # forms whose neutral element is an ordinary point: either way
        if n == 1:
            return {None, ('P', cv.O)}       # SEC 1 writes infinity as one zero octet
        return {None}
    if b[0] == 4:
        if n != 1 + 2 * L:
            return {None}
        P = (int.from_bytes(b[1:1 + L], 'big'), int.from_bytes(b[1 + L:], 'big'))
        return {('P', P)} if cv.on(P) else {None}
    if b[0] in (2, 3):
        if n != 1 + L:
            return {None}
        x = int.from_bytes(b[1:], 'big')
        if x >= cv.p:
            return {None}
        y = cv.lift(x)
        if y is None:
            return {None}
        if y == 0:
            return {('P', (x, 0))} if b[0] == 2 else {('P', (x, 0)), None}
        return {('P', (x, y if y & 1 == b[0] & 1 else cv.p - y))}
    return {None}


def decode_str(cv, s):
    try:
        t = s.decode('ascii')
    except UnicodeDecodeError:
        return {None}
    if len(t) % 2 or any(ch not in '0123456789abcdefABCDEF' for ch in t):
        return {None}
    return decode(cv, bytes.fromhex(t))


def judge(cv, acc):
    def f(got):
        st, v = got.split(' ')
        if st == '1':
            return None if None in acc else 'a valid encoding was rejected'
        ok = [cv.fmt(a[1]) for a in acc if a is not None]
        if not ok:
            return 'accepted (as %s) although it must be rejected' % v
        return None if v in ok else 'decoded to %s instead of %s' % (v, ok)
    return f
