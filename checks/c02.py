"""C02: inverse, powers and square roots over moduli of every shape, incl. large 2-adicity."""
import random
import vlib
import fgen
from ecref import jacobi
from vlib import Case


def chk_sqrt(a, p):
    j = 0 if a % p == 0 else 1 if p == 2 else jacobi(a, p)

    def f(got):
        st, v = got.split(' ')
        if j < 0:
            return None if st == '1' else 'a non-residue was given the root %s' % v
        if st != '0':
            return 'no root reported for the square %x' % a
        r = int(v, 16)
        if not 0 <= r < p:
            return 'root out of range'
        return None if r * r % p == a else 'root %x squared is not the operand' % r
    return f


def inv_exp(a, p):
    return '1 -' if a == 0 else '0 %x' % pow(a, -1, p)


def exps(rnd, p):
    k = rnd.randrange(9)
    if k == 0:
        return rnd.choice([0, 1, 2, 3, p - 2, p - 1, p, p + 1, 2 * (p - 1), (p - 1) // 2, (p + 1) // 2, p * p])
    if k == 1:
        return rnd.getrandbits(rnd.randrange(1, 3000))
    if k == 2:
        return 1 << rnd.randrange(0, 1500)
    if k == 3:
        return (1 << rnd.randrange(1, 1500)) - 1
    return rnd.getrandbits(rnd.randrange(1, p.bit_length() + 2))


def two_adic(p):
    s, q = 0, p - 1
    while q % 2 == 0:
        s, q = s + 1, q // 2
    return s, q


def foreign(rnd, c):
    """register 3 becomes an element of another field"""
    fgen.foreign(rnd, c, 3)


def inp(p):
    """register 3 now belongs to the field of the operand"""
    def f(got):
        return None if int(got.split('/')[1], 16) == p else 'the result is left in the field mod %s' % got.split('/')[1]
    return f


def mix(rnd, name, p, n, nsq):
    c = Case('invpow', '%s p=%x' % (name, p))
    c.op('fset 3 0 3')
    for _ in range(n):
        a = fgen.value(rnd, p)
        d = rnd.choice([0, 1, 3, 3])
        c.op('fset 0 %x %x' % (a, p), '%x' % a)
        foreign(rnd, c)
        c.op('finv %d 0' % d, inv_exp(a, p), (p, 'inv', a, d == 0))
        if d == 3 and a:
            c.op('fget 3', inp(p))
        foreign(rnd, c)
        c.op('fset 0 %x %x' % (a, p))
        w = fgen.word(rnd, p)
        c.op('fpowui %d 0 %x' % (d, w), '%x' % pow(a, w, p), (p, 'pw', a, w, d == 0))
        c.op('fset 0 %x %x' % (a, p))
        if d == 3:
            c.op('fget 3', inp(p))
            foreign(rnd, c)
        e = exps(rnd, p)
        c.op('fpowz %d 0 %x' % (d, e), '%x' % pow(a, e, p), (p, 'pz', a, e, d == 0))
        if d == 3:
            c.op('fget 3', inp(p))
        if a and rnd.random() < .4:
            c.op('fset 0 %x %x' % (a, p))
            c.op('fpowz %d 0 -%x' % (d, e), '%x' % pow(a, -e, p), (p, 'pz-', a, e, d == 0))
    out = [c]
    s, q = two_adic(p)
    c = Case('sqrt', '%s p=%x 2-adicity %d' % (name, p, s))
    c.op('fset 3 0 3')
    for i in range(nsq):
        k = rnd.randrange(6)
        a = fgen.value(rnd, p)
        if k == 0:
            a = a * a % p
        elif k == 1:                 # element whose odd part is trivial: exact power-of-two order
            a = pow(rnd.randrange(1, p), q << rnd.randrange(0, s + 1), p)
        elif k == 2:
            a = pow(rnd.randrange(1, p), q << rnd.randrange(0, min(s, 3) + 1), p)
        elif k == 3:
            a = rnd.choice([0, 1, p - 1, 2, 3, 4, p - 4, p - 2])  % p
        elif k == 4:
            a = pow(rnd.randrange(1, p), 1 << rnd.randrange(1, max(s, 1) + 1), p)
        d = rnd.choice([0, 1, 3, 3])
        c.op('fset 0 %x %x' % (a, p))
        if d == 3:
            foreign(rnd, c)
        c.op('fsqrt %d 0' % d, chk_sqrt(a, p), (p, 'sqrt', a, d == 0))
        if d == 3 and (p == 2 or jacobi(a, p) != -1):
            c.op('fget 3', inp(p))
    out.append(c)
    return out


def table(p):
    c = Case('table', 'all elements mod %d' % p)
    for a in range(p):
        c.op('fset 0 %x %x' % (a, p))
        c.op('finv 1 0', inv_exp(a, p), (p, 'inv', a))
        c.op('fsqrt 1 0', chk_sqrt(a, p), (p, 'sqrt', a))
        for e in list(range(0, 2 * p + 1)) if p < 40 else [0, 1, 2, 3, p - 2, p - 1, p, 1 << 64, (1 << 64) - 1]:
            if e < 1 << 64:
                c.op('fpowui 1 0 %x' % e, '%x' % pow(a, e, p), (p, 'pw', a, e))
            c.op('fpowz 1 0 %x' % e, '%x' % pow(a, e, p), (p, 'pz', a, e))
    return c


def gen(t):
    rnd = random.Random(t[1])
    if t[0] == 'table':
        return [table(p) for p in t[2]]
    out = []
    for name, p in t[2]:
        heavy = two_adic(p)[0] > 300
        out += mix(rnd, name, p, t[3], 4 if heavy else t[4])
    return out


def run(ctx):
    ctx.rule = ('inverse, power and square root for ~200 prime moduli of 1..16 words (2-adicity of p-1 from 1 to 1000), operands incl. exact power-of-two order elements, '
                'complete tables for small primes; distinct = distinct (modulus, operation, operands, aliasing)')
    drv = vlib.opdrv()
    ms = fgen.moduli(ctx.rnd)
    tasks = []
    for r in range(ctx.pick(8, 80)):
        ctx.rnd.shuffle(ms)
        for i in range(0, len(ms), 4):
            tasks.append(('w', ctx.rnd.getrandbits(64), ms[i:i + 4], ctx.pick(15, 60), ctx.pick(15, 60)))
    small = [p for p in range(2, ctx.pick(130, 700)) if fgen.is_prime(p)]
    for i in range(8):
        tasks.append(('table', 0, small[i::8]))
    ctx.drive(drv, gen, tasks)
    ctx.extra['two_adicities_seen'] = sorted({two_adic(p)[0] for _, p in ms})
    ctx.extra['moduli'] = len(ms) + len(small)
