"""C10: signatures produced are standard-conforming and verify."""
import random
import vlib
import zoo
import sigs
from ecref import *
from vlib import Case


def chk_sig(cv, Q, dig):
    def f(got):
        st, r, s = got.split(' ')
        if st != '0':
            return 'signing failed'
        r, s = int(r, 16), int(s, 16)
        if not (0 < r < cv.n and 0 < s < cv.n):
            return 'r or s out of range: %x %x' % (r, s)
        if not ecdsa_valid(cv, Q, dig, r, s):
            return '(%x, %x) does not satisfy the verification equation for digest %s' % (r, s, dig.hex())
        return None
    return f


def gen(t):
    rnd = random.Random(t[1])
    out = []
    for nm in t[2]:
        cv = zoo.by_name[nm]
        n = cv.n
        c = Case('sign', cv.label())
        c.op(zoo.load(0, cv, rnd), '0')
        c.op(zoo.load(1, cv, rnd), '0')
        if t[0] == 'tiny':
            tab = sigs.table(nm)
            ln = rnd.choice([1, 1, 2, 3])
            c.op('sinit 0 0 %d' % ln, '0')
            for d in range(1, n):
                c.op('fset 0 %x %x' % (d, n))
                c.op('psetq 5 %d %x %x' % (rnd.randrange(2), *tab[d])) if tab[d] is not None else None
                for _ in range(t[3]):
                    dig = sigs.digest(rnd, ln)
                    if not sigs.signable(nm, d, digest_int(dig, n)):
                        continue
                    m = sigs.msg(rnd)
                    c.op('digest ' + dig.hex())
                    for _ in range(3):
                        c.op('sign 1 0 0 ' + m.hex(), chk_sig(cv, tab[d], dig), (nm, d, dig))
                        c.op('verify 1 5 ' + m.hex(), '1')
        else:
            lens = [sigs.digest_len(rnd, n) for _ in range(t[3] if cv.p.bit_length() < 400 else t[3] // 2)]
            for ln in lens:
                d = rnd.choice([1, 2, n - 1, n - 2, rnd.getrandbits(16) + 1, rnd.randrange(1, n), rnd.randrange(1, n), rnd.randrange(1, n)])
                Q = cv.mul(d, cv.G)
                c.op('fset 0 %x %x' % (d, n))
                c.op('psetq 5 %d %x %x' % (rnd.randrange(2), *Q))
                toy = rnd.random() < .35
                ln = min(ln, 200)
                if toy:
                    c.op('sinit 0 %d toy %d' % (rnd.randrange(2), ln), '0')
                else:
                    c.op('sinit 0 %d %d' % (rnd.randrange(2), ln), '0')
                for _ in range(2):
                    m = sigs.msg(rnd)
                    if toy:
                        dig = toy_hash(m, ln)
                    else:
                        dig = sigs.digest(rnd, ln)
                        c.op('digest ' + dig.hex())
                    c.op('sign 1 0 0 ' + m.hex(), chk_sig(cv, Q, dig), (nm, d, ln, dig))
                    c.op('verify 1 5 ' + m.hex(), '1', (nm, 'v', d, dig))
                c.op('sign 2 0 0 -', '1 - -')           # the empty message is refused
        out.append(c)
    return out


def run(ctx):
    ctx.rule = ('sign with planted digests of 1..200 octets (below, at and above the length of n, orders that are not whole octets) and a message-dependent hash; boundary and random keys; '
                'tiny curves: every key, so that the r=0 and s=0 retries occur; r, s judged by the FIPS 186-4 equation; distinct = (curve, key, digest)')
    drv = vlib.opdrv()
    tiny = [c.name for c in sigs.tiny()]
    bigs = [c.name for c in sigs.big()]
    tasks = []
    for r in range(ctx.pick(1, 8)):
        ctx.rnd.shuffle(tiny)
        for i in range(0, len(tiny), 8):
            tasks.append(('tiny', ctx.rnd.getrandbits(64), tiny[i:i + 8], ctx.pick(4, 8)))
        ctx.rnd.shuffle(bigs)
        for i in range(0, len(bigs), 6):
            tasks.append(('big', ctx.rnd.getrandbits(64), bigs[i:i + 6], ctx.pick(4, 10)))
    ctx.drive(drv, gen, tasks)
    ctx.extra['curves'] = len(tiny) + len(bigs)
