"""C14: EC Elgamal."""
import random
import vlib
import zoo
import pgen
import sigs
from ecref import *
from vlib import Case


def par(s):
    return None if s == 'N' else tuple(int(x, 16) for x in s.split(','))


def chk_enc(cv, d, M, seen, tab=None):
    def f(got):
        st, C, D = got.split(' ')
        if st != '0':
            return 'encryption refused'
        C, D = par(C), par(D)
        if not cv.on(C) or not cv.on(D):
            return 'ciphertext is not on the curve'
        if C == cv.O:
            return 'C is the neutral element (k = 0)'
        if tab is not None and C not in tab:
            return 'C is not a multiple of the generator'
        if tab is None and cv.h != 1 and cv.mul(cv.n, C) != cv.O:
            return 'C is not a multiple of the generator'
        if cv.sub(D, cv.mul(d, C)) != M:
            return 'D - d*C is not the plaintext'
        if tab is None:
            if C in seen:
                return 'the same k was used twice'
            seen.add(C)
        return None
    return f


def gen(t):
    rnd = random.Random(t[1])
    out = []
    for nm in t[2]:
        cv = zoo.by_name[nm]
        n = cv.n
        tab = set(sigs.table(nm)) if n < 1000 else None
        seen = set()
        c = Case('elgamal', cv.label())
        c.op(zoo.load(0, cv, rnd), '0')
        c.op(zoo.load(1, cv, rnd), '0')
        o = rnd.choice(zoo.iso + zoo.named)
        while o.params()[:-1] == cv.params()[:-1]:
            o = rnd.choice(zoo.iso)
        c.op(zoo.load(2, o, rnd), '0')
        c.op('psetq 8 2 %x %x' % o.G)
        for _ in range(t[3]):
            d = rnd.choice([1, n - 1, rnd.randrange(1, n), rnd.randrange(1, n), rnd.randrange(1, n)])
            Q = cv.mul(d, cv.G)
            M = pgen.point(cv, rnd)
            pgen.load(c, cv, 5, rnd.randrange(2), Q, rnd, .5)
            pgen.load(c, cv, 6, rnd.randrange(2), M, rnd, .5)
            c.op('fset 0 %x %x' % (d, n))
            for rep in range(rnd.choice([1, 2, 3])):
                c.op('enc 1 5 6', chk_enc(cv, d, M, seen, tab), (nm, 'enc', d, M))
                c.op('dec 7 0 1', '0 ' + cv.fmt(M), (nm, 'dec', d, M))
            c.op('pdump 5', cv.fmt(Q))
            c.op('pdump 6', cv.fmt(M))
            # constructed ciphertexts, points on equal curves held in different objects
            k = rnd.choice([0, 1, n - 1, rnd.randrange(n), rnd.randrange(n)])
            C, D = cv.mul(k, cv.G), cv.add(cv.mul(k, Q), M)
            pgen.load(c, cv, 9, rnd.randrange(2), C, rnd, .5)
            pgen.load(c, cv, 10, rnd.randrange(2), D, rnd, .5)
            c.op('eset 2 9 10')
            c.op('dec 7 0 2', '0 ' + cv.fmt(M), (nm, 'dec2', k, M))
            # the wrong key gives another point
            d2 = rnd.randrange(1, n)
            c.op('fset 1 %x %x' % (d2, n))
            c.op('dec 7 1 2', '0 ' + cv.fmt(cv.sub(D, cv.mul(d2, C))), (nm, 'wrongkey', k, d2))
            # other groups
            m2 = rnd.choice([x for x in (o.n, n + 2, n - 2, cv.p, (1 << n.bit_length()) + 1) if x != n and x > 2 and x % 2])
            c.op('fset 2 %x %x' % (rnd.randrange(m2), m2))
            c.op('dec 7 2 2', '1 -', (nm, 'foreignkey', m2))
            c.op('enc 3 5 8', '1 - -', (nm, 'mixed', o.name))
            c.op('enc 3 8 6', '1 - -', (nm, 'mixed2', o.name))
            c.op('eset 2 9 8')
            c.op('dec 7 0 2', '1 -', (nm, 'mixedC', o.name))
            c.op('eset 2 8 10')
            c.op('dec 7 0 2', '1 -', (nm, 'mixedD', o.name))
        out.append(c)
    return out


def run(ctx):
    ctx.rule = ('encrypt/decrypt with boundary and random keys and plaintext points (neutral, small order, random) on every curve, oracle-built ciphertexts, points held in equal but distinct curve objects, '
                'wrong keys and mixed curves; C must be a fresh non-neutral multiple of G and D - dC the plaintext; distinct = (curve, action, key, point)')
    drv = vlib.opdrv()
    names = [c.name for c in zoo.uniq(zoo.named)] + [c.name for c in zoo.iso] + [c.name for c in sigs.tiny()]
    names = [x for x in names if zoo.by_name[x].n % 2 == 1 and zoo.by_name[x].n >= 5]
    tasks = []
    for r in range(ctx.pick(1, 8)):
        ctx.rnd.shuffle(names)
        for i in range(0, len(names), 8):
            tasks.append(('r', ctx.rnd.getrandbits(64), names[i:i + 8], ctx.pick(3, 8)))
    ctx.drive(drv, gen, tasks)
    ctx.extra['curves'] = len(names)
