"""Point and scalar workload shared by the curve checks."""
import zoo
from ecref import *

_tors = {}


def torsion(cv, rnd):
    """a point of small order (O when the cofactor is 1)"""
    if cv.h == 1:
        return cv.O
    L = _tors.setdefault(cv.params(), [])
    if len(L) < 6:
        L.append(cv.mul(cv.n, cv.random_point(rnd)))
    return rnd.choice(L)


def order2(cv, rnd):
    """a point of order two, or O"""
    T = torsion(cv, rnd)
    for _ in range(6):
        D = cv.dbl(T)
        if D == cv.O:
            return T
        T = D
    return cv.O


def lift_small(cv, rnd):
    """a point with a short x coordinate (leading zero octets)"""
    for _ in range(60):
        x = rnd.choice([0, 1, 2, rnd.randrange(256), rnd.randrange(1 << 16), rnd.getrandbits(64), rnd.getrandbits(max(1, cv.p.bit_length() - 8))]) % cv.p
        y = cv.lift(x)
        if y is not None:
            return (x, rnd.choice([y, -y % cv.p]))
    return cv.G


def point(cv, rnd, sub=False):
    k = rnd.randrange(12)
    if k == 0:
        return cv.O
    if k == 1:
        return cv.G
    if k == 2:
        return cv.neg(cv.G)
    if k == 3:
        return cv.mul(rnd.choice([2, 3, 4, 5, cv.n - 2, (cv.n + 1) // 2]), cv.G)
    if sub:
        return cv.rand_sub(rnd)
    if k == 4:
        return torsion(cv, rnd)
    if k == 5:
        return order2(cv, rnd)
    if k == 6:
        return lift_small(cv, rnd)
    if k == 7:
        return cv.add(cv.rand_sub(rnd), order2(cv, rnd))
    return cv.random_point(rnd)


def related(cv, P, rnd):
    """a second operand in a special position to P"""
    k = rnd.randrange(10)
    if k == 0:
        return P
    if k == 1:
        return cv.neg(P)
    if k == 2:
        return cv.add(P, order2(cv, rnd))
    if k == 3:
        return cv.add(cv.neg(P), order2(cv, rnd))
    if k == 4:
        return cv.dbl(P)
    if k == 5:
        return cv.add(P, torsion(cv, rnd))
    if k == 6:
        return cv.O
    return point(cv, rnd)


def scalar(rnd, n):
    nb = n.bit_length()
    k = rnd.randrange(14)
    if k == 0:
        return rnd.choice([0, 1, 2, 3, n - 1, n - 2, n - 3, n // 2, (n + 1) // 2]) % n
    if k == 1:
        return (1 << rnd.randrange(nb)) % n
    if k == 2:
        return ((1 << rnd.randrange(1, nb + 1)) - 1) % n
    if k == 3:
        return (n - (1 << rnd.randrange(nb))) % n
    if k == 4:
        return sum(rnd.choice([0, 255, 1, 128]) << (8 * i) for i in range((nb + 7) // 8)) % n
    if k == 5:
        return (((1 << nb) - 1) // 3) % n
    if k == 6:
        return ((n >> rnd.randrange(1, nb)) + rnd.choice([-1, 0, 1])) % n
    if k == 7:
        return (1 << (nb - 1)) + rnd.getrandbits(8) if (1 << (nb - 1)) + 255 < n else n - 1 - rnd.randrange(min(n, 255))
    if k == 8:
        return rnd.getrandbits(16) % n
    return rnd.randrange(n)


def load(c, cv, reg, creg, P, rnd, proj=.5, tmp=94):
    """operations that put P into a register, often with a projective representation other than Z=1"""
    if P is None:
        if rnd.random() < .5:
            R = cv.rand_sub(rnd)
            c.op('psetq %d %d %x %x' % (tmp, creg, *R))
            c.op('psubq %d %d %d' % (reg, tmp, tmp))
        else:
            c.op('pneut %d %d' % (reg, creg), 'N')
        return
    if rnd.random() < proj:
        R = cv.rand_sub(rnd)
        S = cv.sub(P, R)
        if R is not None and S is not None:
            c.op('psetq %d %d %x %x' % (tmp, creg, *R))
            c.op('psetq %d %d %x %x' % (tmp + 1, creg, *S))
            c.op('paddq %d %d %d' % (reg, tmp, tmp + 1))
            return
    c.op('psetq %d %d %x %x' % (reg, creg, *P))


def curves(rnd, k_iso, k_tiny, named=None):
    n = zoo.uniq(zoo.named)
    if named is not None:
        n = rnd.sample(n, min(named, len(n)))
    return n + rnd.sample(zoo.iso, min(k_iso, len(zoo.iso))) + rnd.sample(zoo.tiny, min(k_tiny, len(zoo.tiny)))
