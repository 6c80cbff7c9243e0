"""C09: hostile octet and character strings against the decoders, judged by an exact acceptor."""
import random
import vlib
import zoo
import pgen
import codec
from ecref import *
from vlib import Case


def be(v, L):
    return (v % (1 << 8 * L)).to_bytes(L, 'big')


def mutate(cv, rnd):
    """an octet string near the boundary between valid and invalid"""
    L = cv.plen
    P = pgen.point(cv, rnd)
    comp = rnd.randrange(2)
    e = cv.enc(P, comp)
    k = rnd.randrange(17)
    x, y = P if P else (0, 0)
    room = (1 << 8 * L) - cv.p
    if k == 0:
        return e
    if k == 1:                                          # wrong length
        n = rnd.choice([0, 1, 2, L, L + 1, L + 2, 2 * L, 2 * L + 1, 2 * L + 2, 3 * L, len(e) - 1, len(e) + 1, rnd.randrange(4 * L)])
        return (e + rnd.randbytes(4 * L))[:n]
    if k == 2:                                          # wrong prefix
        return bytes([rnd.randrange(256)]) + e[1:]
    if k == 3:                                          # an x without (or with) a point
        return bytes([rnd.choice([2, 3])]) + be(rnd.randrange(cv.p), L)
    if k == 4 and room > 0:                             # non-reduced x
        v = x + cv.p if x < room else cv.p + rnd.randrange(room)
        return bytes([rnd.choice([2, 3])]) + be(v, L)
    if k == 5 and room > 0:
        a, b = x, y
        w = rnd.randrange(3)
        if w != 1 and x < room:
            a += cv.p
        if w != 0 and y < room:
            b += cv.p
        return b'\4' + be(a, L) + be(b, L)
    if k == 6:                                          # off the curve
        return b'\4' + be(x, L) + be(y + rnd.choice([1, -1]), L)
    if k == 7:
        return b'\4' + be(y, L) + be(x, L)
    if k == 8:
        return b'\4' + be(rnd.randrange(cv.p), L) + be(rnd.randrange(cv.p), L)
    if k == 9:                                          # neutral forms
        n = rnd.choice([1, 2, L, L + 1, L + 2, 2 * L, 2 * L + 1, 2 * L + 2])
        b = bytearray(n)
        if rnd.random() < .5 and n > 1:
            b[rnd.randrange(1, n)] = rnd.choice([1, 128, 255])
        return bytes(b)
    if k == 10:
        b = bytearray(e)
        b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
        return bytes(b)
    if k == 11:                                         # hybrid prefixes of X9.62
        return bytes([rnd.choice([6, 7])]) + cv.enc(P, 0)[1:]
    if k == 12:
        return bytes([rnd.choice([2, 3, 4])]) + b'\xff' * rnd.choice([L, 2 * L])
    if k == 13:
        v = rnd.choice([cv.p - 1, cv.p, cv.p + 1, (1 << 8 * L) - 1])
        w = rnd.choice([cv.p - 1, cv.p, cv.p + 1, y, 0])
        return rnd.choice([bytes([rnd.choice([2, 3])]) + be(v, L), b'\4' + be(v, L) + be(w, L), b'\4' + be(w, L) + be(v, L)])
    if k == 14:
        return bytes([rnd.choice([0, 2, 3, 4])]) + rnd.randbytes(rnd.choice([L, 2 * L]))
    if k == 15:                                         # compressed body with uncompressed prefix and vice versa
        return bytes([rnd.choice([0, 2, 3, 4])]) + e[1:]
    return rnd.randbytes(rnd.randrange(0, 3 * L + 2))


BADCH = b' \t\n\r+-xXgGzZ.:/@`\x7f\x80\xff\x01;,%nN'


def mutstr(cv, rnd):
    s = mutate(cv, rnd).hex().encode()
    s = rnd.choice([s, s.upper()])
    k = rnd.randrange(9)
    if k < 2 or not s:
        return s
    b = bytearray(s)
    i = rnd.choice([0, 1, len(b) - 1, rnd.randrange(len(b))])
    if k == 2:
        b[i] = rnd.choice(BADCH)
    elif k == 3:
        del b[i]
    elif k == 4:
        b.insert(i, rnd.choice(b'0123456789abcdef'))
    elif k == 5:                                        # what lenient parsers skip or swallow
        j = i & ~1
        b[j:j + 2] = rnd.choice([b' 4', b'4 ', b'+4', b'-4', b'0x', b'0X', b'\t1', b'x4', b'zz', b'g0', b'0g'])
    elif k == 6:
        b[:0] = rnd.choice([b'0x', b'  ', b'04', b'+0'])
    elif k == 7:
        b += rnd.choice([b'zz', b' ', b'\n', b'  ', b'00', b'0'])
    else:
        b = bytearray(rnd.choice(BADCH + b'0123456789ABCDEFabcdef') for _ in range(rnd.randrange(0, 2 * len(s))))
    return bytes(x for x in b if x)


def loose(rnd, p):
    """a curve with arbitrary coefficients (any group structure, addition law complete or not) through some point"""
    while True:
        form = rnd.choice([WS, ED, MO, TE, ED, TE])
        c1, x, y = rnd.randrange(1, p), rnd.randrange(1, p), rnd.randrange(1, p)
        if form == WS:
            c2 = (y * y - x * x * x - c1 * x) % p
        elif form == MO:
            c2 = (c1 * y * y - x * x * x - x) * pow(x * x, -1, p) % p
        elif form == ED:
            c2 = ((x * x + y * y) * pow(c1 * c1, -1, p) - 1) * pow(x * x * y * y, -1, p) % p
        else:
            c2 = (c1 * x * x + y * y - 1) * pow(x * x * y * y, -1, p) % p
        if form == ED and (c2 * c1 ** 4 % p == 1 or c2 == 0) or form == TE and (c1 == c2 or c2 == 0):
            continue                                    # degenerate: no curve of this form
        cv = Curve(form, p, c1, c2, rnd.choice([7, 13, 101, p]), rnd.randrange(1, 9), (x, y), None, 'loose')
        if cv.on(cv.G):
            return cv


def poles(cv):
    """the x at which the equation has no solution because its denominator vanishes"""
    k = {ED: cv.c1 * cv.c1 * cv.c2, TE: cv.c2}.get(cv.form)
    r = None if k is None else sqrt_mod(pow(k, -1, cv.p), cv.p)
    return [] if r is None else [r, cv.p - r]


def gen_loose(rnd, count):
    out = []
    for i in range(count):
        p = rnd.choice([5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 61, 127, 251]) if i % 2 else rnd.choice(list(zoo.primes.values()))
        if p < 5:
            continue
        cv = loose(rnd, p)
        c = Case('decode', 'arbitrary coefficients: ' + cv.args())
        c.op('%s 0 %s' % (rnd.choice(['cset', 'csetstr', 'csetdec']), cv.args()), '0')
        xs = list(range(p)) if p < 300 else poles(cv) + [rnd.randrange(p) for _ in range(6)] + [0, 1, p - 1]
        for x in xs:
            for pre in (2, 3):
                b = bytes([pre]) + be(x, cv.plen)
                c.op('pin 0 0 %s' % b.hex(), codec.judge(cv, codec.decode(cv, b)), (cv.args(), b))
        for x in poles(cv):
            for y in (0, 1, p - 1):
                b = b'\4' + be(x, cv.plen) + be(y, cv.plen)
                c.op('pin 0 0 %s' % b.hex(), codec.judge(cv, codec.decode(cv, b)), (cv.args(), b))
        for _ in range(6):
            b = b'\4' + be(rnd.randrange(p), cv.plen) + be(rnd.randrange(p), cv.plen)
            c.op('pin 0 0 %s' % b.hex(), codec.judge(cv, codec.decode(cv, b)), (cv.args(), b))
        out.append(c)
    return out


def gen(t):
    rnd = random.Random(t[1])
    if t[0] == 'loose':
        return gen_loose(rnd, t[2])
    out = []
    for nm in t[2]:
        cv = zoo.by_name[nm]
        for _ in range(t[4]):
            c = Case('decode', cv.label())
            c.op(zoo.load(0, cv, rnd), '0')
            o = rnd.choice(zoo.iso)
            c.op('cset 1 %s' % o.args(), '0')
            c.op('psetq 1 1 %x %x' % o.G)
            if t[0] == 'all':
                L = cv.plen
                for pre in range(256):
                    c.op('pin 0 0 %02x' % pre, codec.judge(cv, codec.decode(cv, bytes([pre]))), (nm, pre))
                    for x in range(256):
                        if pre < 8 or x % 37 == 0:
                            b = bytes([pre, x])
                            c.op('pin 0 0 %s' % b.hex(), codec.judge(cv, codec.decode(cv, b)), (nm, b))
                for i in range(1500):
                    b = bytes([rnd.choice([4, 4, 4, 0, 2, 3])]) + bytes([rnd.randrange(min(256, cv.p + 4)), rnd.randrange(min(256, cv.p + 4))])
                    c.op('pin 0 0 %s' % b.hex(), codec.judge(cv, codec.decode(cv, b)), (nm, b))
            for i in range(t[3]):
                b = mutate(cv, rnd)
                d = rnd.choice([0, 0, 1])
                c.op('pin %d 0 %s' % (d, b.hex() or '-'), codec.judge(cv, codec.decode(cv, b)), (nm, b))
                s = mutstr(cv, rnd)
                c.op('pins %d 0 %s' % (d, s.hex() or '-'), codec.judge(cv, codec.decode_str(cv, s)), (nm, 's', s))
                if d:
                    c.op('psetq 1 1 %x %x' % o.G)
            out.append(c)
    return out


def run(ctx):
    ctx.rule = ('mutated encodings (length, prefix, range, off-curve, parity, neutral, non-hex characters) for all named and further curves; exhaustive short strings for tiny curves; '
                'each answer compared with an exact acceptor; distinct = (curve, input)')
    drv = vlib.opdrv()
    tasks = []
    tiny = ctx.rnd.sample([c.name for c in zoo.tiny], ctx.pick(40, len(zoo.tiny)))
    for i in range(0, len(tiny), 4):
        tasks.append(('all', ctx.rnd.getrandbits(64), tiny[i:i + 4], 20, 1))
    big = [c.name for c in zoo.uniq(zoo.named)] + [c.name for c in zoo.iso]
    for r in range(ctx.pick(1, 6)):
        ctx.rnd.shuffle(big)
        for i in range(0, len(big), 6):
            tasks.append(('r', ctx.rnd.getrandbits(64), big[i:i + 6], ctx.pick(40, 150), ctx.pick(1, 2)))
    tasks += [('loose', ctx.rnd.getrandbits(64), ctx.pick(40, 150)) for _ in range(ctx.pick(8, 64))]
    ctx.drive(drv, gen, tasks)
    ctx.extra['curves'] = len(tiny) + len(big)
