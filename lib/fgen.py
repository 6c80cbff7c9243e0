"""Field workload: moduli, boundary-heavy operand values."""
import random
import zoo
from ecref import is_prime

W = 1 << 64


def moduli(rnd, extra=8):
    ps = [('two', 2)] + list(zoo.primes.items())
    for i in range(extra):
        b = rnd.randrange(4, 400)
        while True:
            p = rnd.getrandbits(b) | 1 | (1 << (b - 1))
            if p > 2 and is_prime(p):
                break
        ps.append(('seed%d' % b, p))
    return ps


def value(rnd, p):
    """an element of 0..p-1, boundary heavy"""
    k = rnd.randrange(14)
    L = (p.bit_length() + 63) // 64
    if k == 0:
        v = rnd.choice([0, 1, 2, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, 3])
    elif k == 1:
        v = (1 << (64 * rnd.randrange(L + 1))) + rnd.choice([-1, 0, 1])
    elif k == 2:
        v = p - (1 << (64 * rnd.randrange(L))) + rnd.choice([-1, 0, 1])
    elif k == 3:
        v = rnd.getrandbits(64 * rnd.randrange(1, L + 1))
    elif k == 4:
        v = sum(rnd.choice([0, W - 1, 1, W >> 1]) << (64 * i) for i in range(L))
    elif k == 5:
        v = p - rnd.getrandbits(64)
    elif k == 6:
        v = 1 << rnd.randrange(p.bit_length())
    elif k == 7:
        v = (p >> rnd.randrange(1, p.bit_length() + 1))
    elif k == 8:
        v = rnd.getrandbits(64)
    else:
        v = rnd.randrange(p)
    return v % p


def word(rnd, p):
    k = rnd.randrange(8)
    if k == 0:
        return rnd.choice([0, 1, 2, 3, W - 1, W - 2, W >> 1, (W >> 1) - 1, 1 << 32, (1 << 32) - 1])
    if k == 1:
        return (p + rnd.choice([-2, -1, 0, 1, 2])) % W
    if k == 2:
        return (2 * p + rnd.choice([-1, 0, 1])) % W
    if k == 3:
        return rnd.randrange(1 << 16)
    return rnd.getrandbits(64)


def integer(rnd, p):
    """an arbitrary integer, possibly negative or far larger than p"""
    k = rnd.randrange(10)
    if k == 0:
        v = rnd.choice([0, 1, 2, p, p - 1, p + 1, 2 * p, 2 * p - 1, p * p, p * p - 1])
    elif k == 1:
        v = rnd.getrandbits(rnd.randrange(1, 3000))
    elif k == 2:
        v = 1 << rnd.randrange(0, 2200)
    elif k == 3:
        v = (1 << (64 * rnd.randrange(1, 20))) - 1
    elif k == 4:
        v = p * rnd.getrandbits(rnd.randrange(1, 1500)) + rnd.choice([-1, 0, 1])
    elif k == 5:
        v = rnd.getrandbits(64)
    elif k == 6:
        v = value(rnd, p)
    else:
        v = rnd.getrandbits(p.bit_length() + rnd.randrange(1, 80))
    return -v if rnd.random() < .3 else v


def foreign(rnd, c, reg, exists=True):
    """register reg becomes an element of another field, often a fresh one of a small field: its storage may be shorter than the result needs"""
    if exists and rnd.random() < .7:
        c.op('fclear %d' % reg)
    q = rnd.choice([3, 5, 251, 65521, 4294967291, 18446744073709551557]) if rnd.random() < .5 else rnd.choice(list(zoo.primes.values()))
    c.op('fset %d %x %x' % (reg, rnd.randrange(q), q))
