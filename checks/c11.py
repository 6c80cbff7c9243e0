"""C11: verification accepts exactly the valid signatures."""
import random
import vlib
import zoo
import sigs
from ecref import *
from vlib import Case


def leaks_x(cv):
    """values a careless implementation could take for the x coordinate of infinity"""
    out = [0, 1]
    if cv.form == MO:
        i3 = pow(3, -1, cv.p)
        out += [-cv.c2 * i3 % cv.p, (cv.c1 - cv.c2 * i3) % cv.p]
    return [x % cv.n for x in out if x % cv.n]


def gen(t):
    rnd = random.Random(t[1])
    out = []
    for nm in t[2]:
        cv = zoo.by_name[nm]
        n = cv.n
        c = Case('verify', cv.label())
        c.op(zoo.load(0, cv, rnd), '0')
        c.op(zoo.load(1, cv, rnd), '0')
        if t[0] == 'tiny':
            tab = sigs.table(nm)
            idx = {P: i for i, P in enumerate(tab)}
            ln = rnd.choice([1, 1, 2])
            c.op('sinit 0 0 %d' % ln, '0')
            for d in rnd.sample(range(1, n), min(n - 1, t[3])):
                if tab[d] is None:
                    continue
                c.op('psetq 5 %d %x %x' % (rnd.randrange(2), *tab[d]))
                for _ in range(t[4]):
                    dig = sigs.digest(rnd, ln)
                    z = digest_int(dig, n)
                    c.op('digest ' + dig.hex())
                    pairs = [(r, s) for r in range(n) for s in range(n)]
                    if len(pairs) > t[5]:
                        good = [p for p in (sigs.make(cv, d, z, k, tab[k]) for k in range(1, n)) if p]
                        inf = [(-z * pow(d, -1, n) % n, s) for s in rnd.sample(range(1, n), min(8, n - 1))]
                        pairs = good + inf + rnd.sample(pairs, t[5] - len(good))
                    for r, s in pairs:
                        ok = False
                        if r and s:
                            w = pow(s, -1, n)
                            R = tab[(z * w + r * w * d) % n]
                            ok = R is not None and R != cv.O and R[0] % n == r
                        c.op('gset 1 0 %x %x' % (r, s))
                        c.op('verify 1 5 61', '%d' % ok, (nm, d, z, r, s))
        else:
            o = rnd.choice(sigs.big())
            while o.params()[:-1] == cv.params()[:-1]:
                o = rnd.choice(sigs.big())
            c.op(zoo.load(2, o, rnd), '0')
            c.op('psetq 8 2 %x %x' % o.mul(rnd.randrange(1, o.n), o.G))
            for _ in range(t[3] if cv.p.bit_length() < 400 else max(1, t[3] // 2)):
                ln = min(200, sigs.digest_len(rnd, n))
                d = rnd.choice([1, n - 1, rnd.randrange(1, n), rnd.randrange(1, n)])
                Q = cv.mul(d, cv.G)
                c.op('psetq 5 %d %x %x' % (rnd.randrange(2), *Q))
                c.op('sinit 0 0 %d' % ln, '0')
                dig = sigs.digest(rnd, ln)
                z = digest_int(dig, n)
                sg = None
                while sg is None:
                    sg = sigs.make(cv, d, z, rnd.choice([1, 2, n - 1, rnd.randrange(1, n), rnd.randrange(1, n)]))
                    if sg is None and z == 0 and d in (1, n - 1) and rnd.random() < .5:
                        break
                if sg is None:
                    continue
                r, s = sg
                m = sigs.msg(rnd).hex()
                c.op('digest ' + dig.hex())
                c.op('gset 1 0 %x %x' % (r, s))
                c.op('verify 1 5 ' + m, '1', (nm, 'good', r, s))

                def tryit(r2, s2, dg2=dig, q=5, QQ=Q, key=''):
                    r2, s2 = r2 % n, s2 % n
                    want = ecdsa_valid(cv, QQ, dg2, r2, s2)
                    c.op('gset 1 0 %x %x' % (r2, s2))
                    c.op('verify 1 %d %s' % (q, m), '%d' % want, (nm, key, r2, s2, dg2))
                tryit(r, n - s, key='neg')
                tryit(0, s, key='r0')
                tryit(r, 0, key='s0')
                for k in rnd.sample(range(6), 3):
                    if k == 0:
                        tryit(r ^ (1 << rnd.randrange(n.bit_length())), s, key='rbit')
                    elif k == 1:
                        tryit(r, s ^ (1 << rnd.randrange(n.bit_length())), key='sbit')
                    elif k == 2:
                        tryit(s, r, key='swap')
                    elif k == 3:
                        tryit(n - r, s, key='rneg')
                    elif k == 4:
                        tryit(r + 1, s, key='r1')
                    else:
                        tryit(r, s - 1, key='s1')
                # digest changes: a significant bit must matter, one beyond the order's length must not
                sig_bits = min(n.bit_length(), 8 * ln)
                for pos in {rnd.randrange(8 * ln), 0, sig_bits - 1, min(sig_bits, 8 * ln - 1), 8 * ln - 1}:
                    if rnd.random() < .5:
                        b = bytearray(dig)
                        b[pos // 8] ^= 0x80 >> (pos % 8)
                        c.op('digest ' + b.hex())
                        tryit(r, s, bytes(b), key='dig%d' % pos)
                c.op('digest ' + dig.hex())
                # other keys
                d2 = rnd.randrange(1, n)
                Q2 = rnd.choice([cv.neg(Q), cv.mul(d2, cv.G), cv.dbl(Q), cv.add(Q, cv.G)])
                if Q2 is not None and Q2 != cv.O:
                    c.op('psetq 6 0 %x %x' % Q2)
                    tryit(r, s, q=6, QQ=Q2, key='Q2')
                c.op('gset 1 0 %x %x' % (r, s))
                c.op('verify 1 8 ' + m, '0', (nm, 'foreign', o.name))
                c.op('verify 1 5 ' + m, '1')
                c.op('verify 1 5 -', '0')
                # infinity: u1 G + u2 Q = O
                r3 = -z * pow(d, -1, n) % n
                if r3:
                    for s3 in (1, rnd.randrange(1, n)):
                        tryit(r3, s3, key='inf')
                if n.bit_length() <= 8 * ln:
                    for r4 in leaks_x(cv):
                        z4 = -r4 * d % n
                        for s4 in (1, z4, rnd.randrange(1, n), r4 * d % n, r4):
                            dg = (z4 << (8 * ln - n.bit_length())).to_bytes(ln, 'big')
                            if s4:
                                c.op('digest ' + dg.hex())
                                tryit(r4, s4, dg, key='infx')
                    c.op('digest ' + dig.hex())
                if cv.p.bit_length() > 400 and rnd.random() < .6:
                    continue
                # the scheme's hash length matters
                ln2 = rnd.choice([x for x in (ln - 1, ln + 1, 1, 33) if x > 0 and x != ln])
                dig2 = sigs.digest(rnd, ln2)
                c.op('sinit 1 0 %d' % ln2, '0')
                c.op('digest ' + dig2.hex())
                c.op('gset 2 1 %x %x' % (r, s))
                c.op('verify 2 5 ' + m, '%d' % ecdsa_valid(cv, Q, dig2, r, s), (nm, 'hash', dig2))
                # message dependent hash
                c.op('sinit 1 0 toy %d' % ln, '0')
                m2 = sigs.msg(rnd)
                sg2 = sigs.make(cv, d, digest_int(toy_hash(m2, ln), n), rnd.randrange(1, n))
                if sg2:
                    c.op('gset 2 1 %x %x' % sg2)
                    c.op('verify 2 5 ' + m2.hex(), '1', (nm, 'toy', m2))
                    b = bytearray(m2)
                    b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
                    for mm in (bytes(b), m2 + b'\0', m2[:-1] or b'zz'):
                        c.op('verify 2 5 ' + mm.hex(), '%d' % ecdsa_valid(cv, Q, toy_hash(mm, ln), *sg2), (nm, 'toy', mm))
        out.append(c)
    return out


def run(ctx):
    ctx.rule = ('signatures built by the oracle for chosen nonces and digests, then altered in one part (r, s, digest bits inside and beyond the order length, key, curve, hash length, message), '
                'infinity cases, and on tiny curves every pair (r, s); the verdict is compared with the FIPS 186-4 equation; distinct = (curve, change, values)')
    drv = vlib.opdrv()
    tiny = [c.name for c in sigs.tiny()]
    bigs = [c.name for c in sigs.big()]
    tasks = []
    for r in range(ctx.pick(1, 6)):
        ctx.rnd.shuffle(tiny)
        for i in range(0, len(tiny), 6):
            tasks.append(('tiny', ctx.rnd.getrandbits(64), tiny[i:i + 6], ctx.pick(2, 4), ctx.pick(2, 4), ctx.pick(600, 3000)))
        ctx.rnd.shuffle(bigs)
        for i in range(0, len(bigs), 4):
            tasks.append(('big', ctx.rnd.getrandbits(64), bigs[i:i + 4], ctx.pick(2, 6)))
    ctx.drive(drv, gen, tasks)
    ctx.extra['curves'] = len(tiny) + len(bigs)
