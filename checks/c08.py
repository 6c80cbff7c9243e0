"""C08: exports are exact and importing them returns the point."""
import random
import vlib
import zoo
import pgen
import codec
from ecref import *
from vlib import Case


def hexs(s):
    return s.encode().hex() or '-'


def chk_str(enc):
    want = enc.hex()

    def f(got):
        ann, ln, s = got.split(' ')
        if int(ann) != len(want) or int(ln) != len(want):
            return 'announced %s, wrote %s, expected %d characters' % (ann, ln, len(want))
        return None if s.lower() == want else 'got %s expected %s' % (s, want)
    return f


def gen(t):
    rnd = random.Random(t[1])
    out = []
    for nm in t[2]:
        cv = zoo.by_name[nm]
        c = Case('codec', cv.label())
        c.op(zoo.load(0, cv, rnd), '0')
        c.op(zoo.load(1, cv, rnd), '0')
        o = rnd.choice(zoo.iso)
        c.op('cset 2 %s' % o.args(), '0')
        c.op('psetq 3 2 %x %x' % o.G)
        if t[0] == 'all':
            pts = cv.all_points()
        else:
            pts = [cv.O, cv.G, cv.neg(cv.G), pgen.order2(cv, rnd), pgen.torsion(cv, rnd), pgen.lift_small(cv, rnd), pgen.lift_small(cv, rnd)] + [pgen.point(cv, rnd) for _ in range(t[3])]
        for P in pts:
            pgen.load(c, cv, 0, 0, P, rnd, .6)
            for comp in (0, 1):
                enc = cv.enc(P, comp)
                if rnd.random() < .5:
                    pgen.load(c, cv, 0, 0, P, rnd, .7)       # fresh projective representation
                c.op('pout 0 %d' % (comp * rnd.choice([1, 1, 2, -1])), enc.hex(), (nm, 'out', P, comp))
                if rnd.random() < .5:
                    pgen.load(c, cv, 0, 0, P, rnd, .7)
                c.op('pouts 0 %d' % comp, chk_str(enc), (nm, 'outs', P, comp))
                ok = '0 ' + cv.fmt(P)
                d = rnd.choice([1, 1, 3])
                c.op('pin %d %d %s' % (d, rnd.randrange(2), enc.hex()), ok, (nm, 'in', P, comp))
                c.op('pcmp %d 0' % d, '0')
                s = enc.hex()
                s = rnd.choice([s, s.upper(), ''.join(rnd.choice([ch, ch.upper()]) for ch in s)])
                c.op('pins %d %d %s' % (d, rnd.randrange(2), hexs(s)), ok, (nm, 'ins', P, comp))
                c.op('pcmp %d 0' % d, '0')
                if d == 3:
                    c.op('psetq 3 2 %x %x' % o.G)
            if P is not None:
                pgen.load(c, cv, 0, 0, P, rnd, .7)
                c.op('paff 0', '%x,%x' % P, (nm, 'aff', P))
                pgen.load(c, cv, 0, 0, P, rnd, .7)
                c.op('pafff 0 0 1', '%x,%x' % P, (nm, 'afff', P))
                c.op('psetf 1 0 0 1', cv.fmt(P), (nm, 'setf', P))
            # the decoded point is usable
            Q = cv.rand_sub(rnd)
            c.op('psetq 5 0 %x %x' % Q)
            c.op('pin 1 0 %s' % cv.enc(P, rnd.randrange(2)).hex())
            c.op('padd 1 1 5', cv.fmt(cv.add(P, Q)), (nm, 'use', P))
        out.append(c)
    return out


def run(ctx):
    ctx.rule = ('every point of tiny curves and boundary/random points (short coordinates, small order, neutral) of all named and further curves, random projective representations, '
                'all four encodings and both readers; distinct = (curve, action, point, compression)')
    drv = vlib.opdrv()
    tasks = []
    tiny = [c.name for c in zoo.tiny if ctx.thorough or c.p <= 43]
    for i in range(0, len(tiny), 8):
        tasks.append(('all', ctx.rnd.getrandbits(64), tiny[i:i + 8]))
    big = [c.name for c in zoo.uniq(zoo.named)] + [c.name for c in zoo.iso]
    for r in range(ctx.pick(1, 8)):
        ctx.rnd.shuffle(big)
        for i in range(0, len(big), 8):
            tasks.append(('r', ctx.rnd.getrandbits(64), big[i:i + 8], ctx.pick(6, 12)))
    ctx.drive(drv, gen, tasks)
    ctx.extra['curves'] = len(tiny) + len(big)
