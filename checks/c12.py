"""C12: signature serialisation."""
import random
import vlib
import zoo
import sigs
from ecref import *
from vlib import Case


def hexs(b):
    return b.hex() or '-'


def judge(n, L, b):
    """b: bytes or None (not parseable)"""
    if b is None or len(b) != 2 * L:
        return '1 - -'
    r, s = int.from_bytes(b[:L], 'big'), int.from_bytes(b[L:], 'big')
    if not (0 < r < n and 0 < s < n):
        return '1 - -'
    return '0 %x %x' % (r, s)


def parse(s):
    if len(s) % 2 or any(ch not in b'0123456789abcdefABCDEF' for ch in s):
        return None
    return bytes.fromhex(s.decode())


def scal(rnd, n):
    k = rnd.randrange(7)
    if k == 0:
        return rnd.choice([1, 2, n - 1, n - 2])
    if k == 1:
        return 1 + rnd.randrange(min(255, n - 1))
    if k == 2:
        return 1 << rnd.randrange(n.bit_length() - 1)
    if k == 3:
        return 1 + rnd.getrandbits(max(1, n.bit_length() - rnd.choice([8, 9, 16, 17, 64]))) % (n - 1) if n.bit_length() > 72 else 1 + rnd.randrange(n - 1)
    return rnd.randrange(1, n)


def oct_(rnd, n, L):
    """an octet string for one half, often at the limits"""
    k = rnd.randrange(9)
    top = 256 ** L
    v = [0, n, n + 1, top - 1, n - 1, 1, (n + rnd.randrange(1, 300)) % top, rnd.randrange(top), rnd.randrange(n)][k]
    return (v % top).to_bytes(L, 'big')


def gen(t):
    rnd = random.Random(t[1])
    out = []
    for nm in t[2]:
        cv = zoo.by_name[nm]
        n = cv.n
        L = (n.bit_length() + 7) // 8
        c = Case('sercodec', cv.label())
        c.op(zoo.load(0, cv, rnd), '0')
        c.op('sinit 0 0 %d' % rnd.choice([20, 32, 64]), '0')
        for _ in range(t[3]):
            r, s = scal(rnd, n), scal(rnd, n)
            enc = r.to_bytes(L, 'big') + s.to_bytes(L, 'big')
            c.op('gset 1 0 %x %x' % (r, s))
            c.op('gout 1', enc.hex(), (nm, 'out', r, s))
            c.op('gouts 1', (lambda want: lambda got: None if got.lower() == want else 'got %s expected %s' % (got, want))(enc.hex()), (nm, 'outs', r, s))
            c.op('gin 2 0 ' + enc.hex(), '0 %x %x' % (r, s), (nm, 'in', r, s))
            h = enc.hex().encode()
            h = rnd.choice([h, h.upper(), bytes(rnd.choice([x, ord(chr(x).upper())]) for x in h)])
            c.op('gins 3 0 ' + hexs(h), '0 %x %x' % (r, s), (nm, 'ins', r, s))
            c.op('gout 3', enc.hex())
            # hostile octet strings
            for _ in range(t[4]):
                b = oct_(rnd, n, L) + oct_(rnd, n, L)
                c.op('gin 2 0 ' + hexs(b), judge(n, L, b), (nm, 'oct', b))
                h2 = b.hex().encode()
                c.op('gins 2 0 ' + hexs(h2), judge(n, L, b), (nm, 'str', b))
            for ln in {0, 1, L, 2 * L - 1, 2 * L + 1, 2 * L - 2, 2 * L + 2, 4 * L, rnd.randrange(3 * L)}:
                b = (enc + enc)[:ln] if rnd.random() < .7 else rnd.randbytes(ln)
                if ln > 2 * L and rnd.random() < .4:
                    b = b'\0' * (ln - 2 * L) + enc
                c.op('gin 2 0 ' + hexs(b), judge(n, L, b), (nm, 'len', ln))
                c.op('gins 2 0 ' + hexs(b.hex().encode()), judge(n, L, b), (nm, 'slen', ln))
            for _ in range(t[4]):
                m = bytearray(h)
                k = rnd.randrange(7)
                pos = rnd.choice([0, 1, len(m) - 1, len(m) - 2, rnd.randrange(len(m)), 2 * (rnd.randrange(len(m)) // 2)])
                if k == 0:
                    m[pos] = rnd.choice(b' \t\n-+xXgG:/@`GZz.,\x7f\x80\xff\x01')
                elif k == 1:
                    m = m[:pos] + bytes([rnd.choice(b' \n0')]) + m[pos:]
                elif k == 2:
                    del m[pos]
                elif k == 3:
                    m = bytearray(b'0x') + m[2:]
                elif k == 4:
                    m = m[:2 * (pos // 2)] + bytearray(rnd.choice([b' 1', b'+1', b'-1', b'0x', b'1 ', b'1g', b'g1'])) + m[2 * (pos // 2) + 2:]
                elif k == 5:
                    m = m + bytearray(rnd.choice([b'\n', b' ', b'00', b'zz']))
                else:
                    m = bytearray(rnd.choice([b'', b'0', b'zz' * L * 2, b' ' * 4 * L, b'-' * 4 * L]))
                m = bytes(m)
                c.op('gins 2 0 ' + hexs(m), judge(n, L, parse(m)), (nm, 'bad', m))
        # every two-octet text at a fixed place once in a while
        if t[0] == 'scan':
            r, s = scal(rnd, n), scal(rnd, n)
            h = (r.to_bytes(L, 'big') + s.to_bytes(L, 'big')).hex().encode()
            pos = 2 * rnd.randrange(2 * L)
            for a in range(1, 256):
                for q in (0, 1):
                    m = bytearray(h)
                    m[pos + q] = a
                    c.op('gins 2 0 ' + bytes(m).hex(), judge(n, L, parse(bytes(m))), (nm, 'scan', a, q))
        out.append(c)
    return out


def run(ctx):
    ctx.rule = ('export/import of signatures with short, boundary and random halves on every curve; hostile octet strings (halves at 0, n-1, n, all ones; every wrong length) and texts '
                '(each character replaced, inserted, removed); the accept/reject verdict and the values are compared with the exact language; distinct = (curve, action, input)')
    drv = vlib.opdrv()
    names = [c.name for c in sigs.big()] + [c.name for c in sigs.tiny() if c.p > 40]
    tasks = []
    for r in range(ctx.pick(1, 10)):
        ctx.rnd.shuffle(names)
        for i in range(0, len(names), 8):
            tasks.append(('scan' if i % 24 == 0 else 'r', ctx.rnd.getrandbits(64), names[i:i + 8], ctx.pick(5, 10), ctx.pick(8, 16)))
    ctx.drive(drv, gen, tasks)
    ctx.extra['curves'] = len(names)
