"""C05: scalar multiplication by every route against the reference."""
import random
import vlib
import zoo
import pgen
from ecref import *
from vlib import Case


def exhaustive(cv, rnd):
    c = Case('exhaustive', cv.label())
    c.op(zoo.load(0, cv, rnd), '0')
    for P in cv.all_points():
        pgen.load(c, cv, 0, 0, P, rnd, .5)
        c.op('pcopy 1 0')
        c.op('pbsetup 1', 'ok')
        Q = cv.O
        for k in range(cv.n):
            e = cv.fmt(Q)
            c.op('fset 0 %x %x' % (k, cv.n))
            c.op('pmul 2 0 0', e, (cv.name, 'mul', P, k))
            c.op('pbmul 2 1 0', e, (cv.name, 'bmul', P, k))
            if k % 7 == 0:
                z = k + cv.n * rnd.randrange(-3, 5)
                c.op('pmulz 2 1 %s' % hx(z), e, (cv.name, 'mulz', P, z))
                c.op('pbmulz 2 1 %s' % hx(z), e, (cv.name, 'bmulz', P, z))
            Q = cv.add(Q, P)
    return c


def hx(v):
    return '-%x' % -v if v < 0 else '%x' % v


def routes(cv, rnd, npts, nk):
    c = Case('routes', cv.label())
    n = cv.n
    c.op(zoo.load(0, cv, rnd), '0')
    c.op(zoo.load(1, cv, rnd), '0')
    for _ in range(npts):
        P = pgen.point(cv, rnd)
        pgen.load(c, cv, 0, 0, P, rnd)
        c.op('pcopy 1 0')
        if rnd.random() < .5:
            c.op('pbsetup 1', 'ok')
        R = cv.rand_sub(rnd)
        c.op('psetq 3 %d %x %x' % (rnd.randrange(2), *R))
        if rnd.random() < .3:
            c.op('pbsetup 3', 'ok')       # destination that carries a table of another point
        for _ in range(nk):
            k = pgen.scalar(rnd, n)
            Q = cv.fmt(cv.mul(k, P))
            c.op('fset 0 %x %x' % (k, n), '%x' % k)
            r = rnd.randrange(7)
            if r <= 1:
                c.op('pmul 2 0 0', Q, (cv.name, 'mul', P, k))
            if r in (0, 2):
                c.op('pbmul 2 1 0', Q, (cv.name, 'bmul', P, k))
            if r == 3:
                c.op('pmul 2 1 0', Q, (cv.name, 'mul-table', P, k))
            if r == 4:
                z = k + n * rnd.choice([0, 0, 1, -1, 5, -7, rnd.getrandbits(70)])
                c.op('pmulz 3 %d %s' % (rnd.randrange(2), hx(z)), Q, (cv.name, 'mulz', P, z))
            if r == 5:
                z = k + n * rnd.choice([0, 0, 1, -1, 5, -7, rnd.getrandbits(70)])
                c.op('pbmulz 3 1 %s' % hx(z), Q, (cv.name, 'bmulz', P, z))
            if r == 6:                    # result into the point itself
                c.op('pcopy 4 %d' % rnd.randrange(2))
                m = rnd.randrange(4)
                if m == 1:
                    c.op('pbsetup 4')
                c.op(('pmul' if m < 2 else 'pbmul') + ' 4 4 0', Q, (cv.name, 'alias%d' % m, P, k))
                c.op('pcmp 4 0', '%d' % (cv.mul(k, P) != P))
        # still the same point, and a table follows swaps
        c.op('pdump 1', cv.fmt(P))
        c.op('psetq 5 0 %x %x' % R)
        c.op('pbsetup 5')
        c.op('pswap 5 1', cv.fmt(P) + ' ' + cv.fmt(R))
        k = pgen.scalar(rnd, n)
        c.op('fset 0 %x %x' % (k, n))
        c.op('pbmul 2 5 0', cv.fmt(cv.mul(k, P)), (cv.name, 'swapped', P, k))
        c.op('pbmul 2 1 0', cv.fmt(cv.mul(k, R)), (cv.name, 'swapped', R, k))
        if R is not None:
            # re-assigning a point drops the table of its former value
            S = cv.random_point(rnd)
            m = rnd.randrange(6)
            if m == 0:
                c.op('psetq 5 0 %x %x' % S)
            elif m == 1:
                c.op('psetq 6 0 %x %x' % S)
                c.op('pcopy 5 6')
            elif m == 2:
                c.op('psetq 6 0 %x %x' % S)
                c.op('paddq 5 5 6')
                S = cv.add(P, S)
            elif m == 3:
                c.op('pneg 5 5')
                S = cv.neg(P)
            elif m == 4:
                c.op('pdbl 5 5')
                S = cv.dbl(P)
            else:
                c.op('pin 5 0 %s' % cv.enc(S, rnd.randrange(2)).hex())
            c.op('pbmul 2 5 0', cv.fmt(cv.mul(k, S)), (cv.name, 'reassigned%d' % m, S, k))
    return c


def edge(cv, rnd):
    """the whole boundary set of scalars on the generator"""
    c = Case('edge', cv.label())
    n, nb = cv.n, cv.n.bit_length()
    c.op(zoo.load(0, cv, rnd), '0')
    c.op('pgen 0 0', cv.fmt(cv.G))
    c.op('pgen 1 0')
    c.op('pbsetup 1')
    ks = {0, 1, 2, n - 1, n - 2, n // 2, n // 2 + 1} | {(1 << nb - 1) % n, (1 << nb - 2) % n, ((1 << nb - 1) + 1) % n, ((1 << nb - 1) - 1) % n}
    ks |= {(1 << rnd.randrange(nb)) % n for _ in range(3)} | {255 << (8 * rnd.randrange((nb + 7) // 8)) % n for _ in range(2)}
    for k in sorted(ks):
        k %= n
        e = cv.fmt(cv.mul(k, cv.G))
        c.op('fset 0 %x %x' % (k, n))
        c.op('pmul 2 0 0', e, (cv.name, 'mul', 'G', k))
        c.op('pbmul 2 1 0', e, (cv.name, 'bmul', 'G', k))
    return c


def gen(t):
    rnd = random.Random(t[1])
    if t[0] == 'ex':
        return [exhaustive(zoo.by_name[nm], rnd) for nm in t[2]]
    out = []
    for nm in t[2]:
        cv = zoo.by_name[nm]
        out.append(edge(cv, rnd))
        for _ in range(t[5]):
            out.append(routes(cv, rnd, t[3], t[4]))
    return out


def run(ctx):
    ctx.rule = ('all (point, scalar) pairs of tiny curves by ladder and table; boundary and random scalars by seven routes on all named and further curves up to 1024 bits, '
                'incl. orders longer than the field; distinct = (curve, route, point, scalar)')
    drv = vlib.opdrv()
    tasks = []
    tiny = [c.name for c in zoo.tiny if c.p <= ctx.pick(23, 127)]
    ctx.rnd.shuffle(tiny)
    for i in range(0, len(tiny), 3):
        tasks.append(('ex', ctx.rnd.getrandbits(64), tiny[i:i + 3]))
    big = [c.name for c in zoo.uniq(zoo.named)] + [c.name for c in ctx.rnd.sample(zoo.iso, ctx.pick(90, len(zoo.iso)))]
    big.sort(key=lambda nm: -zoo.by_name[nm].bits)
    for nm in big:
        tasks.insert(0, ('r', ctx.rnd.getrandbits(64), [nm], 2, ctx.pick(6, 20), ctx.pick(1, 6)))
    ctx.drive(drv, gen, tasks)
    ctx.extra['large_curves'] = len(big)
    ctx.extra['curves_with_order_longer_than_field'] = sum(zoo.by_name[b].n.bit_length() > zoo.by_name[b].p.bit_length() for b in big)
