"""C04: the group law, exhaustively on tiny curves of every form and on random histories of large ones."""
import random
import vlib
import zoo
import pgen
from ecref import *
from vlib import Case


def exhaustive(cv, rnd, frac):
    out = []
    pts = cv.all_points()
    idx = {P: i for i, P in enumerate(pts)}
    order = list(pts)
    rnd.shuffle(order)
    for blk in range(0, len(order), 80):
        rows = order[blk:blk + 80]
        c = Case('exhaustive', cv.label())
        c.op(zoo.load(0, cv, rnd), '0')
        for i, P in enumerate(rows):
            pgen.load(c, cv, i, 0, P, rnd, .6)
            c.op('pdump %d' % i, cv.fmt(P), (cv.name, 'load', P))
            c.op('pneg 90 %d' % i, cv.fmt(cv.neg(P)), (cv.name, 'neg', P))
            c.op('pdbl 90 %d' % i, cv.fmt(cv.dbl(P)), (cv.name, 'dbl', P))
            c.op('pcopy 91 %d' % i)
            c.op('pdbl 91 91', cv.fmt(cv.dbl(P)), (cv.name, 'dbla', P))
            c.op('pcopy 91 %d' % i)
            c.op('pneg 91 91', cv.fmt(cv.neg(P)))
            c.op('padd 91 91 %d' % i, cv.fmt(cv.O), (cv.name, 'p-p', P))
        for Q in pts:
            if rnd.random() > frac:
                continue
            pgen.load(c, cv, 92, 0, Q, rnd, .4)
            for i, P in enumerate(rows):
                S, D = cv.add(P, Q), cv.sub(P, Q)
                k = rnd.randrange(8)
                if k < 3:
                    c.op('padd 90 %d 92' % i, cv.fmt(S), (cv.name, '+', P, Q))
                elif k == 3:
                    c.op('pcopy 91 %d' % i)
                    c.op('padd 91 91 92', cv.fmt(S), (cv.name, '+', P, Q))
                elif k == 4:
                    c.op('pcopy 91 92')
                    c.op('padd 91 %d 91' % i, cv.fmt(S), (cv.name, '+', P, Q))
                elif k == 5:
                    c.op('psub 90 %d 92' % i, cv.fmt(D), (cv.name, '-', P, Q))
                elif k == 6:
                    c.op('pcopy 91 92')
                    c.op('psub 91 %d 91' % i, cv.fmt(D), (cv.name, '-', P, Q))
                else:
                    c.op('pcmp %d 92' % i, '%d' % (P != Q), (cv.name, '=', P, Q))
        out.append(c)
    return out


def walk(cv, rnd, n):
    c = Case('walk', cv.label())
    c.op(zoo.load(0, cv, rnd), '0')
    c.op(zoo.load(1, cv, rnd), '0')          # an equal curve in another object
    reg = {}
    for i in range(5):
        P = pgen.point(cv, rnd) if i == 0 else pgen.related(cv, reg[0], rnd)
        pgen.load(c, cv, i, rnd.choice([0, 0, 0, 1]), P, rnd)
        reg[i] = P
    for _ in range(n):
        d, a, b = rnd.randrange(5), rnd.randrange(5), rnd.randrange(5)
        k = rnd.randrange(10)
        A, B = reg[a], reg[b]
        if k < 3:
            reg[d] = cv.add(A, B)
            c.op('padd %d %d %d' % (d, a, b), cv.fmt(reg[d]), (cv.name, '+', A, B, d == a, d == b))
        elif k < 5:
            reg[d] = cv.sub(A, B)
            c.op('psub %d %d %d' % (d, a, b), cv.fmt(reg[d]), (cv.name, '-', A, B, d == a, d == b))
        elif k == 5:
            reg[d] = cv.dbl(A)
            c.op('pdbl %d %d' % (d, a), cv.fmt(reg[d]), (cv.name, '2', A, d == a))
        elif k == 6:
            reg[d] = cv.neg(A)
            c.op('pneg %d %d' % (d, a), cv.fmt(reg[d]), (cv.name, 'n', A, d == a))
        elif k == 7:
            c.op('pcmp %d %d' % (a, b), '%d' % (A != B), (cv.name, '=', A, B))
            # the same point reached another way must compare equal
            R = cv.rand_sub(rnd)
            c.op('psetq 80 0 %x %x' % R)
            c.op('paddq 81 %d 80' % a)
            c.op('psubq 81 81 80')
            c.op('pcmp 81 %d' % a, '0', (cv.name, '=r', A))
            c.op('pcmp %d 81' % a, '0')
        elif k == 8:
            m = rnd.randrange(4)
            if m == 0:
                c.op('pswap %d %d' % (a, b), cv.fmt(B) + ' ' + cv.fmt(A), (cv.name, 'sw', A, B))
                reg[a], reg[b] = B, A
            elif m == 1:
                s = rnd.choice([0, 1, 2, -1, 256])
                if s:
                    reg[a], reg[b] = B, A
                c.op('pcswap %d %d %d' % (a, b, s), cv.fmt(reg[a]) + ' ' + cv.fmt(reg[b]), (cv.name, 'csw', A, B, s))
            else:
                c.op('pcopy %d %d' % (d, a), cv.fmt(A))
                reg[d] = A
        else:
            P = pgen.related(cv, A, rnd)
            pgen.load(c, cv, d, rnd.choice([0, 0, 1]), P, rnd)
            reg[d] = P
    for i, P in reg.items():
        c.op('pdump %d' % i, cv.fmt(P), None)
    return c


def gen(t):
    rnd = random.Random(t[1])
    if t[0] == 'ex':
        out = []
        for nm in t[2]:
            out += exhaustive(zoo.by_name[nm], rnd, t[3])
        return out
    return [walk(zoo.by_name[nm], rnd, t[3]) for nm in t[2] for _ in range(t[4])]


def run(ctx):
    ctx.rule = ('every ordered pair of points of tiny curves of all four forms (incl. all torsion), random histories with special relations (P=Q, P=-Q, P-Q of order 2), '
                'random projective representations and aliasings on all named and 280 further curves up to 1024 bits; distinct = (curve, operation, operands, aliasing)')
    drv = vlib.opdrv()
    tasks = []
    tiny = [c.name for c in zoo.tiny if ctx.thorough or c.p <= 43]
    ctx.rnd.shuffle(tiny)
    for i in range(0, len(tiny), 4):
        tasks.append(('ex', ctx.rnd.getrandbits(64), tiny[i:i + 4], 1.0))
    big = [c.name for c in zoo.uniq(zoo.named)] + [c.name for c in zoo.iso]
    ctx.rnd.shuffle(big)
    for i in range(0, len(big), 6):
        tasks.append(('walk', ctx.rnd.getrandbits(64), big[i:i + 6], ctx.pick(40, 120), ctx.pick(1, 10)))
    ctx.drive(drv, gen, tasks)
    ctx.extra['tiny_curves_enumerated'] = len(tiny)
    ctx.extra['large_curves'] = len(big)
