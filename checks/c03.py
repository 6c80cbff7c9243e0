"""C03: import/export, comparisons, swaps, bit tests and the per-modulus registry."""
import random
import vlib
import fgen
import zoo
from vlib import Case
from ecref import is_prime


def mix(rnd, name, p, n):
    c = Case('io', '%s p=%x' % (name, p))
    L = (p.bit_length() + 63) // 64
    q = rnd.choice(list(zoo.primes.values()))
    c.op('fset 5 1 %x' % q)
    val = {}
    for i in range(4):
        val[i] = fgen.value(rnd, p)
        c.op('fset %d %x %x' % (i, val[i], p), '%x' % val[i])
    for _ in range(n):
        k = rnd.randrange(13)
        d, a = rnd.randrange(4), rnd.randrange(4)
        if k == 0:
            v = fgen.integer(rnd, p)
            c.op('fset %d %s %x' % (d, hx(v), p), '%x' % (v % p), (p, 'set', v))
            val[d] = v % p
        elif k == 1:
            v = fgen.integer(rnd, p)
            c.op('fset 6 %s %x' % (hx(v), q), '%x' % (v % q), (q, 'set', v))
            c.op('fsetlike 6 %s %d' % (hx(v), a), '%x' % (v % p), (p, 'setlike', v))
            c.op('fget 6', '%x/%x' % (v % p, p))
            fgen.foreign(rnd, c, 6)
        elif k == 2:
            w = fgen.word(rnd, p)
            c.op('fsetui %d %x %x' % (d, w, p), '%x' % (w % p), (p, 'setui', w))
            val[d] = w % p
        elif k == 3:
            w = fgen.word(rnd, p)
            c.op('fsetuilike 5 %x %d' % (w, a), '%x' % (w % p), (p, 'setui', w))
            fgen.foreign(rnd, c, 5)
        elif k == 4:
            c.op('fcmp %d %d' % (d, a), '%d' % (val[d] != val[a]), (p, 'cmp', val[d], val[a]))
            c.op('fcmps %d %d' % (d, a), '%d' % ((val[d] > val[a]) - (val[d] < val[a])), (p, 'cmps', val[d], val[a]))
            # neighbours: differ in exactly one word, incl. equal low word
            e = val[a] ^ (1 << rnd.randrange(p.bit_length()))
            if e < p:
                c.op('fset 4 %x %x' % (e, p), '%x' % e)
                c.op('fcmp 4 %d' % a, '1', (p, 'cmp', e, val[a]))
                c.op('fcmp %d 4' % a, '1', (p, 'cmp', val[a], e))
            c.op('fset 4 %x %x' % (val[a], p))
            c.op('fcmp 4 %d' % a, '0', (p, 'cmp', val[a], val[a]))
        elif k == 5:
            for w in (val[a] % fgen.W, fgen.word(rnd, p), (val[a] + p) % fgen.W):
                c.op('fcmpui %d %x' % (a, w), '%d' % (val[a] != w), (p, 'cmpui', val[a], w))
        elif k == 6:
            for v in (val[a], -val[a], val[a] + p, val[a] - p, val[a] ^ (1 << rnd.randrange(p.bit_length())), val[a] + (1 << (64 * L)),
                      val[a] % (1 << 64 * rnd.randrange(1, L + 1)), 0, fgen.integer(rnd, p)):
                c.op('fcmpz %d %s' % (a, hx(v)), '%d' % (val[a] != v), (p, 'cmpz', val[a], v))
        elif k == 7:
            c.op('fcopy %d %d' % (d, a), '%x' % val[a], (p, 'copy', val[a]))
            val[d] = val[a]
        elif k == 8:
            c.op('fcopy 5 %d' % a, '%x' % val[a], (p, 'copyx', val[a]))
            c.op('fget 5', '%x/%x' % (val[a], p))
            fgen.foreign(rnd, c, 5)
        elif k == 9:
            c.op('fswap %d %d' % (d, a), '%x %x' % (val[a], val[d]), (p, 'swap', val[a], val[d], a == d))
            val[a], val[d] = val[d], val[a]
        elif k == 10:
            s = rnd.choice([0, 1, 1, 2, -1, 255, 256, 0x7fffffff, -2147483648])
            if s:
                c.op('fcswap %d %d %d' % (d, a, s), '%x %x' % (val[a], val[d]), (p, 'cswap', val[a], val[d], s))
                val[a], val[d] = val[d], val[a]
            else:
                c.op('fcswap %d %d 0' % (d, a), '%x %x' % (val[d], val[a]), (p, 'cswap', val[d], val[a], 0))
        elif k == 11:
            for b in [0, 1, 63, 64, 65, p.bit_length() - 1, p.bit_length(), 64 * L - 1, 64 * L, 2000, rnd.randrange(p.bit_length())]:
                c.op('ftst %d %d' % (a, b), '%d' % (val[a] >> b & 1), (p, 'bit', val[a], b))
        else:
            c.op('fgetdirty %d %s' % (a, hx(fgen.integer(rnd, p))), '%x' % val[a], (p, 'get', val[a]))
        c.op('fget %d' % a, '%x/%x' % (val[a], p))
    return c


def hx(v):
    return '-%x' % -v if v < 0 else '%x' % v


def registry(rnd, ps):
    """many moduli in use at once, revisited in random order, near-collisions included"""
    c = Case('registry', '%d moduli' % len(ps))
    ps = list(ps)
    first = {}
    regs = list(range(90))
    for step in range(260):
        p = rnd.choice(ps)
        if p in first and rnd.random() < .9:
            r = first[p]
            t = 90 + rnd.randrange(4)
            v = fgen.value(rnd, p)
            c.op('fset %d %x %x' % (t, v, p), '%x' % v)
            c.op('fsame %d %d' % (t, r), '1', (p, 'same', step))
            c.op('fset 95 1 %x' % p)
            c.op('fsub 95 %d 95' % t, '%x' % ((v - 1) % p))
            q = rnd.choice(list(first))
            c.op('fsame %d %d' % (t, first[q]), '1' if p == q else '0', (p, q, 'same'))
        elif regs:
            first[p] = regs.pop()
            c.op('fset %d %x %x' % (first[p], p - 1, p), '%x' % (p - 1))
    for p, r in first.items():
        c.op('fget %d' % r, '%x/%x' % (p - 1, p))
    return c


def nextp(n):
    n |= 1
    while not all(n % q for q in (3, 5, 7, 11, 13) if q < n) or not is_prime(n):
        n += 2
    return n


def crowd(rnd, m):
    """thousands of moduli: those used first must still be found, and no later one may be taken for another"""
    c = Case('crowd', '%d moduli' % m)
    first = []
    for i in range(80):
        b = rnd.choice([9, 31, 33, 63, 64, 65, 100, 127, 128, 129, 160, 192, 200, 256])
        p = nextp(rnd.getrandbits(b) | 1 << (b - 1))
        first.append(p)
        c.op('fset %d %x %x' % (i, p - 2, p), '%x' % (p - 2))
    last = rnd.getrandbits(100) | 1 << 99
    for i in range(m):
        k = rnd.randrange(4)
        if k == 0:          # same low limb
            p = last + (rnd.getrandbits(30) << 64)
        elif k == 1:        # same high limb
            p = last + 2 * rnd.getrandbits(20)
        else:
            p = rnd.getrandbits(rnd.choice([20, 40, 64, 70, 100, 128])) + 5
        p = nextp(p)
        last = p if p.bit_length() > 66 else last
        v = rnd.randrange(p)
        c.op('fset 90 %x %x' % (v + p, p), '%x' % v)
        c.op('fset 91 %x %x' % (p - 1, p), '%x' % (p - 1))
        c.op('fadd 91 91 90', '%x' % ((v - 1) % p), (p, 'crowd', v))
        if i % 16 == 0:
            j = rnd.randrange(len(first))
            q = first[j]
            v = rnd.randrange(q)
            c.op('fset 92 %x %x' % (v, q), '%x' % v)
            c.op('fsame 92 %d' % j, '1', (q, 'crowd', i))
            c.op('fadd 92 92 %d' % j, '%x' % ((v - 2) % q))
    return c


def gen(t):
    rnd = random.Random(t[1])
    if t[0] == 'crowd':
        return [crowd(rnd, t[2])]
    if t[0] == 'reg':
        return [registry(rnd, t[2]) for _ in range(t[3])]
    return [mix(rnd, name, p, t[3]) for name, p in t[2]]


def run(ctx):
    ctx.rule = ('random import/export/compare/swap/bit-test histories for ~200 moduli and a registry workload with up to 90 moduli alive at once; '
                'distinct = distinct (modulus, operation, values)')
    drv = vlib.opdrv()
    ms = fgen.moduli(ctx.rnd)
    tasks = []
    for r in range(ctx.pick(2, 20)):
        ctx.rnd.shuffle(ms)
        for i in range(0, len(ms), 6):
            tasks.append(('w', ctx.rnd.getrandbits(64), ms[i:i + 6], ctx.pick(120, 200)))
    ps = [p for _, p in ms]
    for _ in range(ctx.pick(6, 60)):
        tasks.append(('reg', ctx.rnd.getrandbits(64), ctx.rnd.sample(ps, 85), 2))
    for _ in range(ctx.pick(2, 8)):
        tasks.append(('crowd', ctx.rnd.getrandbits(64), ctx.pick(4000, 20000)))
    ctx.drive(drv, gen, tasks)
    ctx.extra['moduli'] = len(ms)
