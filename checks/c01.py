"""C01: random walks over field registers (all aliasings), and exhaustive tables for tiny moduli."""
import random
import vlib
import fgen
from vlib import Case

NR = 6
OPS2 = ['fadd', 'fsub', 'fmul']
OPSU = ['faddui', 'fsubui', 'fmului']


def walk(rnd, name, p, nops):
    c = Case('ring', '%s p=%x' % (name, p))
    reg = []
    for i in range(NR):
        v = fgen.value(rnd, p)
        c.op('fset %d %x %x' % (i, v, p), '%x' % v)
        reg.append(v)
    foreign = rnd.random() < .5
    if foreign:      # a destination that last held an element of another field
        reg.append(None)
        fgen.foreign(rnd, c, NR, False)
    for _ in range(nops):
        k = rnd.random()
        if k < .22:
            i = rnd.randrange(len(reg))
            v = fgen.value(rnd, p)
            c.op('fset %d %x %x' % (i, v, p), '%x' % v)
            reg[i] = v
            continue
        if foreign and k > .97:
            reg[NR] = None
            fgen.foreign(rnd, c, NR)
        live = [i for i, v in enumerate(reg) if v is not None]
        d, a, b = rnd.randrange(len(reg)), rnd.choice(live), rnd.choice(live)
        if k < .62:
            o = rnd.choice(OPS2)
            r = {'fadd': reg[a] + reg[b], 'fsub': reg[a] - reg[b], 'fmul': reg[a] * reg[b]}[o] % p
            c.op('%s %d %d %d' % (o, d, a, b), '%x' % r, (p, o, reg[a], reg[b], d == a, d == b, a == b))
        elif k < .76:
            o = rnd.choice(['fneg', 'fsqr'])
            r = (-reg[a] if o == 'fneg' else reg[a] ** 2) % p
            c.op('%s %d %d' % (o, d, a), '%x' % r, (p, o, reg[a], d == a))
        else:
            o = rnd.choice(OPSU)
            w = fgen.word(rnd, p)
            if o == 'faddui' and rnd.random() < .3:
                w = (p - reg[a] + rnd.choice([-1, 0, 1])) % fgen.W     # right at the wrap
            if o == 'fsubui' and rnd.random() < .3:
                w = (reg[a] + rnd.choice([-1, 0, 1])) % fgen.W
            r = {'faddui': reg[a] + w, 'fsubui': reg[a] - w, 'fmului': reg[a] * w}[o] % p
            c.op('%s %d %d %x' % (o, d, a, w), '%x' % r, (p, o, reg[a], w, d == a))
        if foreign and reg[d] is None:
            c.op('fget %d' % d, '%x/%x' % (r, p))
        reg[d] = r
    for i, v in enumerate(reg):
        if v is not None:
            c.op('fget %d' % i, '%x/%x' % (v, p))
    return c


def pairs(rnd, name, p, n):
    """operand pairs aimed at carries: sums near p and near powers of the word base, products with extreme words"""
    c = Case('ring-edge', '%s p=%x' % (name, p))
    for _ in range(n):
        a = fgen.value(rnd, p)
        b = (rnd.choice([p - a, a, -a, (1 << p.bit_length() // 64 * 64) - a, 1 << 64]) + rnd.choice([-1, 0, 1])) % p
        c.op('fset 0 %x %x' % (a, p), '%x' % a)
        c.op('fset 1 %x %x' % (b, p), '%x' % b)
        c.op('fadd 2 0 1', '%x' % ((a + b) % p), (p, '+', a, b))
        c.op('fsub 2 0 1', '%x' % ((a - b) % p), (p, '-', a, b))
        c.op('fmul 2 0 1', '%x' % (a * b % p), (p, '*', a, b))
    return c


def table(p, lo, hi):
    c = Case('ring-table', 'all pairs mod %d' % p)
    ws = list(range(0, 2 * p + 2)) + [fgen.W - 1, fgen.W - 2, fgen.W >> 1]
    for a in range(lo, hi):
        c.op('fset 0 %x %x' % (a, p), '%x' % a)
        c.op('fneg 2 0', '%x' % (-a % p), (p, 'n', a))
        c.op('fsqr 2 0', '%x' % (a * a % p), (p, 's', a))
        for b in range(p):
            c.op('fset 1 %x %x' % (b, p))
            c.op('fadd 2 0 1', '%x' % ((a + b) % p), (p, '+', a, b))
            c.op('fsub 2 0 1', '%x' % ((a - b) % p), (p, '-', a, b))
            c.op('fmul 2 0 1', '%x' % (a * b % p), (p, '*', a, b))
        for w in ws:
            c.op('faddui 2 0 %x' % w, '%x' % ((a + w) % p), (p, '+u', a, w))
            c.op('fsubui 2 0 %x' % w, '%x' % ((a - w) % p), (p, '-u', a, w))
            c.op('fmului 2 0 %x' % w, '%x' % (a * w % p), (p, '*u', a, w))
    return c


def gen(t):
    rnd = random.Random(t[1])
    if t[0] == 'table':
        return [table(t[2], t[3], t[4])]
    out = []
    for name, p in t[2]:
        for _ in range(t[3]):
            out.append(walk(rnd, name, p, 60))
        out.append(pairs(rnd, name, p, 12))
    return out


def run(ctx):
    ctx.rule = ('random walks over 6-7 registers with all destination/operand aliasings and boundary-heavy values for ~170 prime moduli of 1..16 words, '
                'plus complete operation tables for tiny moduli; distinct = distinct (modulus, operation, operand values, aliasing)')
    drv = vlib.opdrv()
    ms = fgen.moduli(ctx.rnd)
    n = ctx.pick(40, 400)
    tasks = []
    for r in range(ctx.pick(1, 6)):
        ctx.rnd.shuffle(ms)
        for i in range(0, len(ms), 6):
            tasks.append(('walk', ctx.rnd.getrandbits(64), ms[i:i + 6], n))
    for p in [3, 5, 7, 11, 13] + ctx.pick([], [17, 31, 61, 127]):
        tasks.append(('table', 0, p, 0, p))
    ctx.drive(drv, gen, tasks)
    ctx.extra['moduli'] = len(ms)
    ctx.extra['word_sizes_of_moduli'] = sorted({(p.bit_length() + 63) // 64 for _, p in ms})
