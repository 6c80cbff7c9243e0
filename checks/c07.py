"""C07: explicit construction, point check, copy and equality of curve objects."""
import random
import vlib
import zoo
import pgen
from ecref import *
from vlib import Case


def build(rnd, r, cv):
    return '%s %d %s' % (rnd.choice(['cset', 'csetstr', 'csetdec']), r, cv.args())


def offcurve(cv, rnd):
    for _ in range(50):
        x, y = cv.G if rnd.random() < .6 else cv.random_point(rnd)
        k = rnd.randrange(6)
        if k == 0:
            y = (y + rnd.choice([-1, 1])) % cv.p
        elif k == 1:
            x = (x + rnd.choice([-1, 1])) % cv.p
        elif k == 2:
            x, y = y, x
        elif k == 3:
            x, y = rnd.randrange(cv.p), rnd.randrange(cv.p)
        elif k == 4:
            x ^= 1 << rnd.randrange(cv.p.bit_length())
        else:
            y ^= 1 << rnd.randrange(cv.p.bit_length())
        x, y = x % cv.p, y % cv.p
        if not cv.on((x, y)):
            return x, y
    return None


def clone(cv, **kw):
    c = Curve(cv.form, cv.p, cv.c1, cv.c2, cv.n, cv.h, cv.G, cv.bits)
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def neighbours(cv, rnd):
    """curves that differ from cv in exactly one respect (the generator stays on the curve)"""
    out = [clone(cv, n=cv.n + 2), clone(cv, n=cv.n - 2), clone(cv, n=cv.n ^ (1 << rnd.randrange(cv.n.bit_length() + 3))), clone(cv, h=cv.h + 1), clone(cv, h=cv.h + (1 << 64)),
           clone(cv, G=cv.dbl(cv.G) if cv.dbl(cv.G) else cv.G), clone(cv, G=cv.neg(cv.G))]
    if cv.form in (ED, TE):
        out.append(clone(cv, G=((-cv.G[0]) % cv.p, (-cv.G[1]) % cv.p)))
        out.append(clone(cv, G=((cv.G[0]) % cv.p, (-cv.G[1]) % cv.p)))
    p, (x, y) = cv.p, cv.G
    t = rnd.randrange(1, p)
    try:
        if cv.form == WS:
            out.append(clone(cv, c1=(cv.c1 + t) % p, c2=(cv.c2 - t * x) % p))
        elif cv.form == MO:
            i = pow(x * x, -1, p)
            out.append(clone(cv, c1=(cv.c1 + t) % p, c2=(cv.c2 + t * y * y * i) % p))
        elif cv.form == TE:
            out.append(clone(cv, c1=(cv.c1 + t) % p, c2=(cv.c2 + t * pow(y * y, -1, p)) % p))
        else:
            d = (cv.c1 + t) % p
            i = pow(d * d * x * x * y * y, -1, p)
            out.append(clone(cv, c1=d, c2=(x * x + y * y - d * d) * i % p))
    except ValueError:
        pass
    return [o for o in out if o.params()[:-1] != cv.params()[:-1] and o.on(o.G) and o.n > 1 and not (o.form == MO and o.c1 == 0)]


def siblings(cv, rnd):
    """curves over the same field which share exactly one of the two coefficients with cv (their order is unknown: for point arithmetic only)"""
    out, p = [], cv.p
    for _ in range(2):
        x, y = rnd.randrange(1, p), rnd.randrange(1, p)
        try:
            if cv.form == WS:
                out.append(clone(cv, c2=(y * y - x ** 3 - cv.c1 * x) % p, G=(x, y)))
                out.append(clone(cv, c1=(y * y - x ** 3 - cv.c2) * pow(x, -1, p) % p, G=(x, y)))
            elif cv.form == MO:
                out.append(clone(cv, c1=(x ** 3 + cv.c2 * x * x + x) * pow(y * y, -1, p) % p, G=(x, y)))
                out.append(clone(cv, c2=(cv.c1 * y * y - x ** 3 - x) * pow(x * x, -1, p) % p, G=(x, y)))
            elif cv.form == ED:
                c = cv.c1
                out.append(clone(cv, c2=(x * x + y * y - c * c) * pow(c * c * x * x * y * y, -1, p) % p, G=(x, y)))
                c = sqrt_mod((x * x + y * y) * pow(1 + cv.c2 * x * x * y * y, -1, p) % p, p)
                if c:
                    out.append(clone(cv, c1=c, G=(x, y)))
            else:
                out.append(clone(cv, c2=(cv.c1 * x * x + y * y - 1) * pow(x * x * y * y, -1, p) % p, G=(x, y)))
                out.append(clone(cv, c1=(1 + cv.c2 * x * x * y * y - y * y) * pow(x * x, -1, p) % p, G=(x, y)))
        except ValueError:
            pass
    return [o for o in out if (o.form == WS or (o.c1 and o.c2)) and (o.c1, o.c2) != (cv.c1, cv.c2) and o.on(o.G) and twice(o) is not None]


def twice(cv):
    try:
        return cv.fmt(cv.dbl(cv.G))
    except ValueError:
        return None


# integer identities that hold in every field: the same numbers over different primes, or in different forms
def crossfield(form, p, rnd):
    if form == WS:
        return Curve(WS, p, 0, 1, 7, 1, (2, 3))
    if form == MO:
        return Curve(MO, p, 6, 4, 7, 1, (1, 1))
    if form == ED:
        return Curve(ED, p, 1, 7, 7, 1, (1, 0))
    return Curve(TE, p, 5, 2, 7, 1, (1, 2))


def gen(t):
    rnd = random.Random(t[1])
    out = []
    for nm in t[2]:
        cv = zoo.by_name[nm]
        c = Case('construct', cv.label())
        o = rnd.choice([x for x in zoo.iso if x.params()[:-1] != cv.params()[:-1]])
        if rnd.random() < .6:
            c.op(build(rnd, 0, o), '0')
        for kind in ('cset', 'csetstr', 'csetdec'):
            c.op('%s 0 %s' % (kind, cv.args()), '0', (nm, kind))
            c.op('cdump 0', cv.dump(), (nm, 'dump', kind))
            bad = offcurve(cv, rnd)
            if bad:
                b = clone(cv, G=bad)
                c.op('%s %d %s' % (kind, rnd.choice([0, 1]), b.args()), '1', (nm, 'bad', kind, bad))
        c.op(build(rnd, 0, cv), '0')
        for _ in range(t[3]):
            P = pgen.point(cv, rnd)
            if P is not None:
                c.op('ccheck 0 %x %x' % P, '1', (nm, 'on', P))
            b = offcurve(cv, rnd)
            if b:
                c.op('ccheck 0 %x %x' % b, '0', (nm, 'off', b))
        out.append(c)
        # equality and copies
        c = Case('equality', cv.label())
        if rnd.random() < .5:
            c.op(build(rnd, 0, rnd.choice(zoo.iso)), '0')
        c.op(build(rnd, 0, cv), '0')
        c.op(build(rnd, 1, cv), '0')
        c.op('ccmp 0 1', '0', (nm, 'eq'))
        c.op('ccmp 1 0', '0')
        if rnd.random() < .5:
            c.op(build(rnd, 2, rnd.choice(zoo.iso)), '0')
        c.op('ccopy 2 0', 'ok')
        c.op('ccmp 2 0', '0', (nm, 'copyeq'))
        c.op('cdump 2', cv.dump(), (nm, 'copydump'))
        for nb in neighbours(cv, rnd):
            c.op(build(rnd, 3, nb), '0')
            c.op('ccmp 0 3', '1', (nm, 'ne', nb.params()))
            c.op('ccmp 3 0', '1', (nm, 'ne2', nb.params()))
            c.op('ccopy 2 3', 'ok')
            c.op('ccmp 2 3', '0')
            c.op('ccmp 2 0', '1')
            c.op('cdump 2', nb.dump())
            c.op('cdump 0', cv.dump())
        # a copy or assignment over a curve that shares a coefficient with the new one must leave nothing of the old one behind
        if cv.p.bit_length() > 30 and twice(cv) is not None:
            for nb in siblings(cv, rnd):
                for a, b in ((cv, nb), (nb, cv)):
                    c.op(build(rnd, 1, b), '0')
                    c.op(build(rnd, 3, a), '0')
                    c.op('ccopy 2 3', 'ok')
                    c.op('ccopy 2 1', 'ok')
                    c.op(build(rnd, 3, b), '0')
                    for k in (2, 3):
                        c.op('cdump %d' % k, b.dump(), (nm, 'sib', k, a.params(), b.params()))
                        c.op('ccmp %d 1' % k, '0')
                        c.op('pgen 0 %d' % k, b.fmt(b.G))
                        c.op('pdbl 1 0', twice(b), (nm, 'sibuse', k, a.params(), b.params()))
            c.op(build(rnd, 1, cv), '0')
        c.op('ccopy 2 0')
        c.op(build(rnd, 0, o), '0')            # the source changes, the copy stays
        c.op('cdump 2', cv.dump(), (nm, 'indep'))
        c.op('ccmp 2 1', '0')
        c.op('ccmp 2 0', '1', (nm, 'vs', o.name))
        c.op('ccmp 0 2', '1', (nm, 'vs2', o.name))
        c.op('cclear 0', 'ok')
        c.op('cdump 2', cv.dump())
        c.op('ccopy 2 2')
        c.op('cdump 2', cv.dump(), (nm, 'selfcopy'))
        c.op('ccmp 2 2', '0')
        G = cv.G
        c.op('pgen 0 2', cv.fmt(G))
        c.op('pmulz 0 0 5', cv.fmt(cv.mul(5 % cv.n, G)), (nm, 'use'))
        out.append(c)
    # different fields / forms with literally the same numbers
    ps = rnd.sample([p for p in zoo.primes.values() if p > 100], 6)
    for form in (WS, MO, ED, TE):
        c = Case('crossfield', FORM[form])
        cs = [crossfield(form, p, rnd) for p in ps]
        for i, a in enumerate(cs):
            c.op(build(rnd, i, a), '0')
        for i, a in enumerate(cs):
            for j, b in enumerate(cs):
                c.op('ccmp %d %d' % (i, j), '%d' % (i != j), ('field', form, a.p, b.p))
        out.append(c)
    c = Case('crossform', '')
    for p in ps:
        d = 7
        for i, a in enumerate([Curve(ED, p, 1, d, 7, 1, (1, 0)), Curve(TE, p, 1, d, 7, 1, (1, 0)), Curve(WS, p, 1, 0, 7, 1, (0, 0)), Curve(MO, p, 1, 0, 7, 1, (0, 0))]):
            c.op(build(rnd, i, a), '0')
        for i in range(4):
            for j in range(4):
                c.op('ccmp %d %d' % (i, j), '%d' % (i != j), ('form', p, i, j))
    out.append(c)
    return out


def run(ctx):
    ctx.rule = ('curves of all forms built from integers, hexadecimal and decimal strings with on- and off-curve generators, point checks, copies into re-used objects, and '
                'equality against curves that differ in a single respect; distinct = (curve, action, values)')
    drv = vlib.opdrv()
    names = [c.name for c in zoo.named] + [c.name for c in zoo.iso] + [c.name for c in zoo.tiny if c.p > 10]
    tasks = []
    for r in range(ctx.pick(1, 8)):
        ctx.rnd.shuffle(names)
        for i in range(0, len(names), 10):
            tasks.append(('c', ctx.rnd.getrandbits(64), names[i:i + 10], ctx.pick(12, 30)))
    ctx.drive(drv, gen, tasks)
    ctx.extra['curves'] = len(names)
