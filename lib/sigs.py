"""ECDSA workload helpers."""
import functools
import os
import zoo
from ecref import *

PRIME_N = None


def prime_order(c):
    return is_prime(c.n)


@functools.lru_cache(None)
def big():
    """all larger curves whose generator has prime order"""
    return [c for c in zoo.uniq(zoo.named) + zoo.iso if is_prime(c.n) and c.n > 2 ** 13]


@functools.lru_cache(None)
def tiny():
    return [c for c in zoo.tiny if is_prime(c.n) and c.n >= 7]


@functools.lru_cache(None)
def table(name):
    """multiples of the generator of a tiny curve"""
    cv = zoo.by_name[name]
    t, P = [], cv.O
    for _ in range(cv.n):
        t.append(P)
        P = cv.add(P, cv.G)
    return t


def rx(cv, P):
    return None if P is None else P[0] % cv.n


def make(cv, d, z, k, kG=None):
    """signature for the integer z by nonce k, or None"""
    n = cv.n
    R = kG if kG is not None else cv.mul(k, cv.G)
    if R is None:
        return None
    r = R[0] % n
    if r == 0 or k % n == 0:
        return None
    s = pow(k, -1, n) * (z + r * d) % n
    return (r, s) if s else None


def signable(name, d, z):
    """tiny curves: some nonce gives a signature"""
    cv = zoo.by_name[name]
    t = table(name)
    return any(make(cv, d, z, k, t[k]) for k in range(1, cv.n))


def digest_len(rnd, n):
    nb = (n.bit_length() + 7) // 8
    return rnd.choice([1, 2, nb - 1, nb, nb + 1, nb, 20, 28, 32, 48, 64, nb + rnd.randrange(1, 20), max(1, nb - rnd.randrange(1, 6))]) or 1


def digest(rnd, ln):
    k = rnd.randrange(8)
    if k == 0:
        return b'\xff' * ln
    if k == 1:
        return b'\0' * ln
    if k == 2:
        return b'\0' * (ln - 1) + b'\1'
    if k == 3:
        return b'\x80' + b'\0' * (ln - 1)
    if k == 4:
        z = rnd.randrange(ln)
        return b'\0' * z + rnd.randbytes(ln - z)
    return rnd.randbytes(ln)


def msg(rnd):
    ln = rnd.choice([1, 1, 2, 3, 16, 63, 64, 65, rnd.randrange(1, 300), 2000])
    return rnd.choice([rnd.randbytes(ln), b'\0' * ln, b'a' * ln])
