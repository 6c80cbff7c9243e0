"""Histories of Go binding calls with the answers exact mathematics requires."""
import hashlib
import random
import zoo
import fgen
import pgen
import sigs
import codec
from ecref import *
from vlib import Case

HASHES = ['md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'toy1', 'toy8', 'toy17', 'toy33', 'toy65', 'toy80']


def hx(z):
    return '%x' % z if z >= 0 else '-%x' % -z


def hb(b):
    return b.hex() or '-'


def hsh(name, msg):
    if name.startswith('toy'):
        return toy_hash(msg, int(name[3:]))
    return hashlib.new(name, msg).digest()


def anyint(rnd, p):
    return fgen.integer(rnd, p)


def congruent(rnd, v, p):
    """an integer that represents v modulo p"""
    return v + p * rnd.choice([0, 0, 0, 1, -1, -2, 3, rnd.getrandbits(70), -rnd.getrandbits(300)])


# ------------------------------------------------------------------ field elements
def fieldcase(rnd, nops, tmp, maxbits=1024):
    c = Case('gofield')
    ps = [p for _, p in fgen.moduli(rnd, 4) if p.bit_length() <= maxbits]
    ps = rnd.sample(ps, min(len(ps), rnd.choice([1, 2, 3])))
    c.tag = 'moduli of %s bits' % [p.bit_length() for p in ps]
    val = {}
    NR = 6

    def new(i):
        p = rnd.choice(ps)
        if rnd.random() < .7:
            v = anyint(rnd, p)
            c.op('fnew %d %s %x' % (i, hx(v), p), '%x/%x' % (v % p, p), ('fnew', p, v))
            val[i] = (v % p, p)
        else:
            w = fgen.word(rnd, p)
            c.op('fui %d %x %x' % (i, w, p), '%x/%x' % (w % p, p), ('fui', p, w))
            val[i] = (w % p, p)
    for i in range(NR):
        new(i)
    T = 't' if tmp else ''
    for _ in range(nops):
        k = rnd.choice(['add', 'sub', 'mul', 'neg', 'inv', 'sqrt', 'exp', 'bit', 'cmp', 'get', 'new', 'urand', 'bad'])
        d, a = rnd.randrange(NR), rnd.randrange(NR)
        va, p = val[a]
        b = rnd.choice([x for x in range(NR) if val[x][1] == p]) if rnd.random() < .8 else rnd.randrange(NR)
        vb, pb = val[b]
        t = T if rnd.random() < .8 else ''

        def res(op, args, v):
            c.op('%sf%s %d %s' % (t, op, d, args), '%x/%x' % (v, p), (t, op, p, va, vb))
            if not t:
                val[d] = (v, p)
        if k in ('add', 'sub', 'mul'):
            if pb != p:
                c.op('%sf%s %d %d %d' % (t, k, d, a, b), 'panic', ('mismatch', k, p, pb))
            else:
                res(k, '%d %d' % (a, b), {'add': va + vb, 'sub': va - vb, 'mul': va * vb}[k] % p)
        elif k == 'neg':
            res('neg', '%d' % a, -va % p)
        elif k == 'exp':
            e = rnd.choice([0, 1, 2, 3, (p - 1) % 2 ** 64, (1 << 64) - 1, fgen.word(rnd, p)])
            res('exp', '%d %x' % (a, e), pow(va, e, p))
        elif k in ('inv', 'sqrt'):
            if k == 'sqrt' and rnd.random() < .5 and not t:
                c.op('fmul %d %d %d' % (a, a, a), '%x/%x' % (va * va % p, p))
                va = va * va % p
                val[a] = (va, p)
            if k == 'inv':
                ok = va != 0

                def good(v, x=va, p=p):
                    return v * x % p == 1 % p
            else:
                ok = va == 0 or jacobi(va, p) == 1

                def good(v, x=va, p=p):
                    return v * v % p == x
            if not ok:
                c.op('%sf%s %d %d' % (t, k, d, a), 'err', (t, k, p, va))
                if not t and d != a:
                    new(d)
                elif not t:
                    new(d)
            else:
                def f(got, good=good, p=p):
                    if not got.startswith('ok '):
                        return 'refused'
                    v, q = got[3:].split(' ')[0].split('/')
                    if got.count(' ') > 1:
                        return got
                    if int(q, 16) != p or not 0 <= int(v, 16) < p or not good(int(v, 16)):
                        return 'wrong result %s' % got
                    return None
                c.op('%sf%s %d %d' % (t, k, d, a), f, (t, k, p, va))
                if not t:
                    if k == 'inv':
                        val[d] = (pow(va, -1, p), p)
                        c.op('fget %d' % d, '%x/%x' % val[d])
                    else:
                        e = d
                        c.op('fmul %d %d %d' % (e, e, e), '%x/%x' % (va, p))
                        val[e] = (va, p)
        elif k == 'bit':
            i = rnd.choice([0, 1, 63, 64, 65, p.bit_length() - 1, p.bit_length(), p.bit_length() + rnd.randrange(90), rnd.randrange(p.bit_length())])
            c.op('%sfbit %d %d' % (t, a, i), '%d' % (va >> i & 1), (t, 'bit', p, va, i))
        elif k == 'cmp':
            if p != pb:
                c.op('%sfcmp %d %d' % (t, a, b), lambda g: None if g in ('-1', '1', 'panic') else 'elements of different fields compare as %s' % g, ('cmpf', p, pb))
            else:
                c.op('%sfcmp %d %d' % (t, a, b), lambda g, e=(va == vb): None if (g == '0') == e and g in ('-1', '0', '1') else 'compares as %s' % g, (t, 'cmp', p, va, vb))
        elif k == 'get':
            c.op('%sfget %d' % (t, a), '%x/%x' % (va, p), (t, 'get', p, va))
        elif k == 'new':
            new(d)
        elif k == 'urand':
            def f(got, p=p):
                v, q = got.split('/')
                return None if int(q, 16) == p and 0 <= int(v, 16) < p else 'not in the field: ' + got
            c.op('furand %d %x' % (d, p), f, ('urand', p))
            new(d)
        else:
            j = rnd.randrange(4)
            v = anyint(rnd, p)
            if j == 0:
                c.op(rnd.choice(['fnew 60 %s -%x' % (hx(v), p), 'fui 60 7 -%x' % p, 'furand 60 -%x' % p]), 'nil', ('negp', p))
            elif j == 1:
                c.op(rnd.choice(['fnew 60 %s 0' % hx(v), 'fui 60 7 0', 'furand 60 0']), 'panic', ('zerop', v))
            else:
                big = (1 << rnd.choice([2048, 2049, 4100, 9000])) + rnd.getrandbits(60) * 2 + 1
                c.op(rnd.choice(['fnew 60 %s %x' % (hx(v), big), 'fui 60 7 %x' % big, 'furand 60 %x' % big]),
                     lambda g: None if g in ('nil', 'panic') else 'a modulus beyond the maximum was accepted', ('hugep', v))
        if rnd.random() < .2:
            i = rnd.randrange(NR)
            c.op('fget %d' % i, '%x/%x' % val[i])
        if tmp and rnd.random() < .15:
            i = rnd.randrange(NR)
            c.op('drop f %d' % i, '0')
            new(i)
    for i in range(NR):
        c.op('fget %d' % i, '%x/%x' % val[i])
    return c


# ------------------------------------------------------------------ curves and points
def cvload(c, r, cv, rnd, named=.5):
    if cv.name in zoo._named and rnd.random() < named:
        c.op('cname %d %s' % (r, cv.name.encode().hex()), cv.dump(), ('cname', cv.name))
    else:
        v = cv.params()
        c.op('cset %d %d %s %d' % (r, v[0], ' '.join('%x' % x for x in v[1:8]), v[8]), cv.dump(), ('cset', cv.label()))


ATTR = {WS: ('ws_a', 'ws_b'), ED: ('ed_c', 'ed_d'), MO: ('mo_B', 'mo_A'), TE: ('te_a', 'te_d')}


def attr(c, t, r, cv, rnd):
    form = rnd.choice([cv.form, cv.form, WS, ED, MO, TE])
    k = rnd.randrange(10)
    names = {'p': cv.p, 'n': cv.n, 'h': cv.h, 'gx': cv.G[0], 'gy': cv.G[1], 'bits': cv.bits}
    if k < 5:
        a = rnd.choice(list(names))
        e = '%x' % names[a]
    elif k < 9:
        i = rnd.randrange(2)
        a = ATTR[form][i]
        e = '%x' % (cv.c1, cv.c2)[i] if form == cv.form else 'nil'
    else:
        a = rnd.choice(['', 'P', 'ws_a\0', 'p\0', 'a', 'ed', 'wsa', 'n '])
        e = 'nil'
    c.op('%scattr %d %s' % (t, r, a.encode().hex() or '-'), e, (t, 'attr', cv.label(), a))


def encs(cv, P):
    a, b = cv.enc(P, True), cv.enc(P, False)
    w = '%s %s %s %s' % (a.hex(), b.hex(), a.hex(), b.hex())
    return lambda g: None if g.lower() == w else 'got %s instead of %s' % (g, w)


def judge_point(cv, acc):
    def f(got):
        if got == 'nil':
            return None if None in acc else 'a valid encoding was rejected'
        ok = [cv.fmt(a[1]) for a in acc if a is not None]
        if not ok:
            return 'accepted (as %s) although it must be rejected' % got
        return None if got in ok else 'decoded to %s instead of %s' % (got, ok)
    return f


def damaged(rnd, b):
    b = bytearray(b)
    k = rnd.randrange(6)
    if k == 0 and b:
        b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
    elif k == 1:
        del b[rnd.randrange(len(b) + 1):]
    elif k == 2:
        b += bytes(rnd.randrange(1, 4))
    elif k == 3 and b:
        b[0] = rnd.randrange(256)
    elif k == 4 and b:
        b[0] ^= 1
    return bytes(b)


class PModel:
    """registers of points over a set of curves; every live register has a known value"""

    def __init__(self, c, rnd, curves, tmp, share=False):
        self.c, self.rnd, self.cvs, self.tmp = c, rnd, curves, tmp
        self.NR = 7
        self.val = {}
        self.n = 0

    def load(self, i, cr=None, P=0):
        c, rnd = self.c, self.rnd
        cr = rnd.randrange(len(self.cvs)) if cr is None else cr
        cv = self.cvs[cr]
        t = 't' if self.tmp and rnd.random() < .7 else ''
        if P == 0:
            P = pgen.point(cv, rnd)
        k = rnd.randrange(6)
        s = (t, 'load', cv.label(), P)
        if P is None or (P == cv.O and k == 0):
            c.op('%spneut %d %d' % (t, i, cr), cv.fmt(cv.O), s)
        elif P == cv.G and k < 3:
            c.op('%spgen %d %d' % (t, i, cr), cv.fmt(P), s)
        elif k < 2:
            e = cv.enc(P, k == 1)
            c.op('%spbytes %d %d %s' % (t, i, cr, e.hex()), cv.fmt(P), s)
        elif k == 2:
            e = cv.enc(P, rnd.random() < .5).hex()
            e = e.upper() if rnd.random() < .3 else e
            c.op('%spstr %d %d %s' % (t, i, cr, e.encode().hex()), cv.fmt(P), s)
        else:
            c.op('%spxy %d %d %s %s' % (t, i, cr, hx(congruent(rnd, P[0], cv.p)), hx(congruent(rnd, P[1], cv.p))), cv.fmt(P), s)
        self.val[i] = (cr, P)

    def same(self, i):
        """a register on an equal curve"""
        pr = self.cvs[self.val[i][0]].params()
        return [j for j in self.val if self.cvs[self.val[j][0]].params()[:-1] == pr[:-1]]

    def scalar(self, cv, P):
        """outside 0..n-1 only for points of the generated group: the library reduces scalars modulo n"""
        rnd = self.rnd
        n = cv.n
        k = rnd.randrange(8)
        if cv.h != 1 and k < 4 and cv.mul(n, P) != cv.O:
            k = 7
        if k == 0:
            return -pgen.scalar(rnd, n)
        if k == 1:
            return n + rnd.choice([-1, 0, 1, n, rnd.getrandbits(40)])
        if k == 2:
            return rnd.choice([0, 1, -1, 2, -2, n, -n, 1 << 64, (1 << 64) - 1])
        if k == 3:
            return rnd.getrandbits(n.bit_length() + rnd.randrange(1, 200)) * rnd.choice([1, -1])
        return pgen.scalar(rnd, n)

    def step(self):
        c, rnd = self.c, self.rnd
        d, a = rnd.randrange(self.NR), rnd.randrange(self.NR)
        cr, P = self.val[a]
        cv = self.cvs[cr]
        b = rnd.choice(self.same(a)) if rnd.random() < .85 else rnd.randrange(self.NR)
        crb, Q = self.val[b]
        k = rnd.choice(['add', 'sub', 'add', 'sub', 'neg', 'set', 'mul', 'mul', 'setup', 'cmp', 'enc', 'aff', 'isn', 'load', 'load', 'bad', 'attr', 'chk', 'ccmp', 'related', 'urand'])
        m = rnd.choice(['t', 'x', 't', 'x', '']) if self.tmp else ''

        def put(op, args, R, m=m):
            c.op('%sp%s %d %s' % (m, op, d, args), cv.fmt(R), (m, op, cv.label(), P, Q, args))
            if m != 't':
                self.val[d] = (cr, R)
        if k in ('add', 'sub'):
            if b not in self.same(a):
                if not m:
                    c.op('p%s %d %d %d' % (k, d, a, b), 'panic', ('pmismatch', k, cv.label(), self.cvs[crb].label()))
                return
            R = cv.add(P, Q) if k == 'add' else cv.sub(P, Q)
            put(k, '%d %d%s' % (a, b, ' %d' % cr if m else ''), R)
        elif k == 'neg':
            put('neg', '%d%s' % (a, ' %d' % cr if m else ''), cv.neg(P))
        elif k == 'set':
            put('set', '%d%s' % (a, ' %d' % cr if m else ''), P)
        elif k == 'mul':
            s = self.scalar(cv, P)
            R = cv.mul(s, P)
            op = 'mul'
            if m == 't' and rnd.random() < .3:
                op = 'bmul'
            put(op, '%d %s%s' % (a, hx(s), ' %d' % cr if m else ''), R)
        elif k == 'setup':
            if m:
                c.op('tpbase %d %d' % (a, cr), cv.fmt(P))
            else:
                c.op('psetup %d' % a, cv.fmt(P), ('setup', cv.label(), P))
                s = self.scalar(cv, P)
                put('mul', '%d %s' % (a, hx(s)), cv.mul(s, P))
        elif k == 'cmp':
            e = b in self.same(a) and P == Q
            if m:
                if b in self.same(a):
                    c.op('tpcmp %d %d %d' % (a, b, cr), '%d' % (not e))
            else:
                c.op('pcmp %d %d' % (a, b), '%d' % (not e), ('cmp', cv.label(), P, Q, crb))
        elif k == 'enc':
            c.op('tpenc %d %d' % (a, cr) if m else 'penc %d' % a, encs(cv, P), (m, 'enc', cv.label(), P))
        elif k == 'aff':
            if P is not None:
                c.op('tpaff %d %d' % (a, cr) if m else 'paff %d' % a, '%x,%x' % P, (m, 'aff', cv.label(), P))
        elif k == 'isn':
            if P != cv.O or cv.O is None:
                c.op('tpisn %d %d' % (a, cr) if m else 'pisn %d' % a, '%d' % (P == cv.O), (m, 'isn', cv.label(), P))
        elif k == 'load':
            self.load(d)
        elif k == 'related':
            self.load(d, cr, pgen.related(cv, P, rnd))
        elif k == 'urand':
            def f(got, cv=cv):
                if got == 'nil':
                    return 'nil'
                x = None if got == 'N' else tuple(int(v, 16) for v in got.split(','))
                return None if cv.on(x) else 'not on the curve'
            c.op('%spurand %d %d' % ('t' if m else '', d, cr), f, ('urand', cv.label()))
            self.load(d)
        elif k == 'bad':
            e = cv.enc(P, rnd.random() < .5)
            e = damaged(rnd, e) if rnd.random() < .8 else e
            if rnd.random() < .5:
                c.op('%spbytes 60 %d %s' % ('t' if m else '', cr, hb(e)), judge_point(cv, codec.decode(cv, e)), (m, 'badb', cv.label(), e))
            else:
                s = e.hex().encode()
                j = rnd.randrange(5)
                if j == 0:
                    s += rnd.choice([b'\0', b'\0' + s, b' ', b'0', b'g', b'\xc3\xa9'])
                elif j == 1 and s:
                    i = rnd.randrange(len(s))
                    s = s[:i] + bytes([rnd.choice(b'gGxX \0@`/:-+')]) + s[i + 1:]
                elif j == 2:
                    s = b'0x' + s
                c.op('%spstr 60 %d %s' % ('t' if m else '', cr, hb(s)), judge_point(cv, codec.decode_str(cv, s)), (m, 'bads', cv.label(), s))
        elif k == 'attr':
            attr(c, 't' if m else '', cr, cv, rnd)
        elif k == 'chk':
            t = 't' if m else ''
            if P is not None and rnd.random() < .5:
                c.op('%scchk %d %x %x' % (t, cr, *P), '1', (t, 'chk', cv.label(), P))
                x, y = P
                if rnd.random() < .5:
                    x = -x - 1
                else:
                    y = -y - 1
                c.op('%scchk %d %s %s' % (t, cr, hx(x), hx(y)), lambda g: None if g in ('0', 'panic') else 'a negative coordinate passed the check', (t, 'chkneg', cv.label(), P))
            else:
                X = (rnd.randrange(cv.p), rnd.randrange(cv.p))
                c.op('%scchk %d %x %x' % (t, cr, *X), '%d' % cv.on(X), (t, 'chk', cv.label(), X))
        elif k == 'ccmp':
            r2 = rnd.randrange(len(self.cvs))
            c.op('%sccmp %d %d' % ('t' if m else '', cr, r2), '%d' % (cv.params()[:-1] != self.cvs[r2].params()[:-1]), ('ccmp', cv.label(), self.cvs[r2].label()))
        if rnd.random() < .25:
            i = rnd.randrange(self.NR)
            c.op('pdump %d' % i, self.cvs[self.val[i][0]].fmt(self.val[i][1]))
        if rnd.random() < (.2 if self.tmp else .05):
            i = rnd.randrange(self.NR)
            c.op('drop p %d' % i, '0')
            self.load(i)


def pickcurves(rnd, big=1., maxbits=600):
    pool = [x for x in (zoo.uniq(zoo.named) if rnd.random() < .6 else zoo.iso) if x.p.bit_length() <= maxbits]
    cv = rnd.choice(pool if rnd.random() < big else [t for t in zoo.tiny if t.p > 10])
    o = rnd.choice([x for x in zoo.iso + zoo.named if x.p.bit_length() <= maxbits])
    while o.params()[:-1] == cv.params()[:-1]:
        o = rnd.choice(zoo.iso)
    return [cv, cv, o] if rnd.random() < .7 else [cv, o, cv]


def pointcase(rnd, nops, tmp, maxbits=600):
    c = Case('gopoint')
    cvs = pickcurves(rnd, .75, maxbits)
    c.tag = '/'.join(x.label() for x in cvs)
    for i, cv in enumerate(cvs):
        cvload(c, i, cv, rnd)
    m = PModel(c, rnd, cvs, tmp)
    for i in range(m.NR):
        m.load(i)
    for _ in range(nops):
        m.step()
        if tmp and rnd.random() < .1:
            # a curve object goes away while its points live, and comes back as another object
            i = rnd.randrange(3)
            c.op('drop c %d' % i, '0')
            if rnd.random() < .5:
                j = rnd.randrange(m.NR)
                c.op('pdump %d' % j, cvs[m.val[j][0]].fmt(m.val[j][1]))
            cvload(c, i, cvs[i], rnd)
    for i in range(m.NR):
        c.op('pdump %d' % i, cvs[m.val[i][0]].fmt(m.val[i][1]))
    return c


# ------------------------------------------------------------------ signatures
def sigbytes(n, r, s):
    L = (n.bit_length() + 7) // 8
    return r.to_bytes(L, 'big') + s.to_bytes(L, 'big')


def parsesig(n, b):
    L = (n.bit_length() + 7) // 8
    if len(b) != 2 * L:
        return None
    r, s = int.from_bytes(b[:L], 'big'), int.from_bytes(b[L:], 'big')
    return (r, s) if 0 < r < n and 0 < s < n else None


def sigcase(rnd, nops, tmp, maxbits=600, share=None):
    """share: (curve, hash) of a scheme that all cases of the task hold in shared registers"""
    c = Case('gosig')
    cv = share[0] if share else rnd.choice([x for x in sigs.big() if x.p.bit_length() <= maxbits])
    n = cv.n
    c.tag = cv.label()
    if share:
        v = cv.params()
        c.op('share cset 64 %d %s %d' % (v[0], ' '.join('%x' % x for x in v[1:8]), v[8]), 'shared')
        c.op('share sch 64 64 %s' % share[1], 'shared')
        ds = share[2]
        for j, d in enumerate(ds):
            c.op('share pbytes %d 64 %s' % (64 + j, cv.enc(cv.mul(d, cv.G), False).hex()), 'shared')
        c.op('share psetup 64', 'shared')
    cvload(c, 0, cv, rnd)
    hs = [rnd.choice(HASHES) for _ in range(3)]
    for i, h in enumerate(hs):
        c.op('sch %d 0 %s' % (i, h), '0')
    keys = list(ds) if share else [rnd.choice([1, n - 1, rnd.randrange(1, n)]) for _ in range(2)]
    qs = [cv.mul(d, cv.G) for d in keys]
    for i, Q in enumerate(qs):
        e = cv.enc(Q, rnd.random() < .5)
        c.op('%spbytes %d 0 %s' % ('t' if tmp else '', i, e.hex()), cv.fmt(Q))
    live = {}
    seen = set()
    for _ in range(nops):
        ki = rnd.randrange(len(keys))
        d, Q = keys[ki], qs[ki]
        si = rnd.randrange(3)
        h = hs[si]
        sh = share and rnd.random() < .7
        if sh:
            si, h = 64, share[1]
        msg = sigs.msg(rnd)[:600]
        z = digest_int(hsh(h, msg), n)
        pk = '%d' % (64 + ki if sh and rnd.random() < .6 else ki)
        k = rnd.choice(['sign', 'sign', 'make', 'verify', 'verify', 'bad', 'drop'])
        g = rnd.randrange(5)
        if k == 'sign':
            dd = rnd.choice([d, d, d + n, d - n, d + n * rnd.getrandbits(90)])

            def f(got, Q=Q, h=h, msg=msg):
                if got in ('nil', 'panic'):
                    return got
                rs = parsesig(n, bytes.fromhex(got))
                if rs is None:
                    return 'malformed signature ' + got
                if not ecdsa_valid(cv, Q, hsh(h, msg), *rs):
                    return 'the signature is not valid'
                if rs[0] in seen and n > 2 ** 60:
                    return 'nonce used twice'
                seen.add(rs[0])
                return None
            if tmp and rnd.random() < .6:
                if rnd.random() < .5:
                    c.op('tsign 0 %s %s %s' % (h, hx(dd), hb(msg)), f, (cv.label(), 'tsign', d, h, msg))
                    continue
                c.op('xsign %d 0 %s %s %s' % (g, h, hx(dd), hb(msg)), f, (cv.label(), 'xsign', d, h, msg))
            else:
                c.op('sign %d %d %s %s' % (g, si, hx(dd), hb(msg)), f, (cv.label(), 'sign', d, h, msg))
            live[g] = (h, None)
            c.op('verify %d %s %s' % (g, pk, hb(msg)), '1', (cv.label(), 'round', d, msg))
            m2 = msg + b'x' if rnd.random() < .5 else msg[:-1]
            v2 = digest_int(hsh(h, m2), n) % n == z % n
            c.op('verify %d %s %s' % (g, pk, hb(m2)), '%d' % v2 if not v2 else None, (cv.label(), 'other', d, m2))
            if len(keys) > 1 and qs[0] != qs[1] and z % n and n > 2 ** 100:
                c.op('verify %d %d %s' % (g, 1 - ki, hb(msg)), '0')
        elif k == 'make':
            rs = sigs.make(cv, d, z, rnd.randrange(1, n))
            if rs is None:
                continue
            b = sigbytes(n, *rs)
            if tmp and rnd.random() < .6:
                c.op('xgfrom %d 0 %s %s' % (g, h, b.hex()), b.hex(), (cv.label(), 'xgfrom', rs))
            else:
                c.op('gfrom %d %d %s' % (g, si, b.hex()), b.hex(), (cv.label(), 'gfrom', rs))
            live[g] = (h, rs)
            c.op('verify %d %s %s' % (g, pk, hb(msg)), '1', (cv.label(), 'made', d, msg))
        elif k == 'verify' and live:
            g = rnd.choice(list(live))
            h, rs = live[g]
            if rs is None:
                continue
            want = '%d' % ecdsa_valid(cv, Q, hsh(h, msg), *rs)
            if tmp and rnd.random() < .6:
                c.op('tverify %d %d %s 0 %s' % (g, ki, hb(msg), h), want, (cv.label(), 'tv', rs, msg))
            else:
                c.op('verify %d %s %s' % (g, pk, hb(msg)), want, (cv.label(), 'v', rs, msg))
            c.op('gbytes %d' % g, sigbytes(n, *rs).hex())
        elif k == 'bad':
            L = (n.bit_length() + 7) // 8
            r, s = rnd.choice([0, n, n - 1, 1, rnd.randrange(n), 256 ** L - 1]), rnd.choice([0, n, n - 1, 1, rnd.randrange(n), 256 ** L - 1])
            b = r.to_bytes(L, 'big') + s.to_bytes(L, 'big')
            b = rnd.choice([b, b, b[:-1], b + b'\0', b'', b[1:], b[:L]])
            rs = parsesig(n, b)
            c.op('gfrom %d %d %s' % (g, si, hb(b)), hb(b) if rs else 'nil', (cv.label(), 'gbad', b))
            live.pop(g, None)
            if rs:
                live[g] = (h, rs)
        elif k == 'drop' and tmp:
            w = rnd.randrange(4)
            if w == 0:
                i = rnd.randrange(3)
                c.op('drop s %d' % i, '0')
                if live and rnd.random() < .6:
                    q = rnd.choice(list(live))
                    if live[q][1]:
                        c.op('gbytes %d' % q, sigbytes(n, *live[q][1]).hex())
                c.op('sch %d 0 %s' % (i, hs[i]), '0')
            elif w == 1:
                c.op('drop c 0', '0')
                if live:
                    q = rnd.choice(list(live))
                    if live[q][1]:
                        c.op('verify %d %d %s' % (q, ki, hb(msg)), '%d' % ecdsa_valid(cv, Q, hsh(live[q][0], msg), *live[q][1]))
                cvload(c, 0, cv, rnd)
            elif live:
                q = rnd.choice(list(live))
                live.pop(q)
                c.op('drop g %d' % q, '0')
    return c


# ------------------------------------------------------------------ Elgamal
def egcase(rnd, nops, tmp, maxbits=600):
    c = Case('goelgamal')
    pool = [x for x in zoo.uniq(zoo.named) + zoo.iso if x.n % 2 and x.n >= 5 and x.p.bit_length() <= maxbits]
    cv = rnd.choice(pool)
    o = rnd.choice(pool)
    while o.params()[:-1] == cv.params()[:-1]:
        o = rnd.choice(pool)
    n = cv.n
    c.tag = cv.label()
    cvload(c, 0, cv, rnd)
    cvload(c, 1, cv, rnd)
    cvload(c, 2, o, rnd)
    c.op('pgen 20 2', o.fmt(o.G))
    keys = [rnd.choice([1, n - 1, rnd.randrange(1, n)]) for _ in range(2)]
    live = {}

    def pt(r, P):
        cr = rnd.randrange(2)
        t = 't' if tmp and rnd.random() < .6 else ''
        if P is None:
            c.op('%spneut %d %d' % (t, r, cr), 'N')
        else:
            c.op('%spbytes %d %d %s' % (t, r, cr, cv.enc(P, False).hex()), cv.fmt(P))

    def par(s):
        return None if s == 'N' else tuple(int(x, 16) for x in s.split(','))
    for _ in range(nops):
        d = rnd.choice(keys)
        Q = cv.mul(d, cv.G)
        M = pgen.point(cv, rnd)
        e = rnd.randrange(4)
        k = rnd.choice(['enc', 'enc', 'new', 'new', 'dec', 'dec', 'part', 'mixed', 'drop'])
        if k == 'enc':
            pt(0, Q)
            pt(1, M)

            def f(got, d=d, M=M):
                if got in ('nil', 'panic'):
                    return got
                C, D = (par(x) for x in got.split(' '))
                if not cv.on(C) or not cv.on(D) or C == cv.O:
                    return 'bad ciphertext'
                if cv.sub(D, cv.mul(d, C)) != M:
                    return 'D - dC is not the plaintext'
                return None
            if tmp and rnd.random() < .6:
                c.op('xenc %d 0 1 0' % e, f, (cv.label(), 'xenc', d, M))
            else:
                c.op('enc %d 0 1' % e, f, (cv.label(), 'enc', d, M))
            dd = rnd.choice([d, d, d + n, d - n])
            live.pop(e, None)
            c.op('dec 5 %d %s' % (e, hx(dd)), cv.fmt(M), (cv.label(), 'dec', d, M))
            if tmp:
                c.op('xdec 6 %d %s 0' % (e, hx(dd)), cv.fmt(M))
                c.op('pdump 5', cv.fmt(M))
                c.op('pdump 6', cv.fmt(M))
            if rnd.random() < .5:
                c.op('drop e %d' % e, '0')
        elif k == 'new':
            kk = rnd.choice([0, 1, n - 1, rnd.randrange(n)])
            C, D = cv.mul(kk, cv.G), cv.add(cv.mul(kk, Q), M)
            pt(0, C)
            pt(1, D)
            w = '%s %s' % (cv.fmt(C), cv.fmt(D))
            if tmp and rnd.random() < .6:
                c.op('xenew %d 0 1 0' % e, w, (cv.label(), 'xenew', C, D))
            else:
                c.op('enew %d 0 1' % e, w, (cv.label(), 'enew', C, D))
            live[e] = (C, D)
            if rnd.random() < .6:
                pt(0, cv.random_point(rnd))      # the operands change afterwards
                c.op('drop p 1', '0')
                c.op('ecd %d' % e, w)
        elif k == 'dec' and live:
            e = rnd.choice(list(live))
            C, D = live[e]
            R = cv.sub(D, cv.mul(d, C))
            dd = rnd.choice([d, d + n, d - n, -d])
            R = cv.sub(D, cv.mul(dd % n, C))
            if tmp:
                c.op('tdec %d %s 0' % (e, hx(dd)), cv.fmt(R), (cv.label(), 'tdec', C, D, dd))
            c.op('dec 5 %d %s' % (e, hx(dd)), cv.fmt(R), (cv.label(), 'dec', C, D, dd))
        elif k == 'part' and live:
            e = rnd.choice(list(live))
            w = rnd.randrange(2)
            X = live[e][w]
            c.op('ept 7 %d %s' % (e, 'CD'[w]), cv.fmt(X), (cv.label(), 'part', w, X))
            c.op('pneg 7 7', cv.fmt(cv.neg(X)))
            c.op('ecd %d' % e, '%s %s' % (cv.fmt(live[e][0]), cv.fmt(live[e][1])))
            if tmp:
                c.op('tecd %d 1' % e, '%s %s' % (cv.fmt(live[e][0]), cv.fmt(live[e][1])))
                c.op('drop e %d' % e, '0')
                live.pop(e)
                c.op('pdump 7', cv.fmt(cv.neg(X)))
        elif k == 'mixed':
            pt(0, Q)
            ref = lambda g: None if g in ('nil', 'panic') else 'points of different curves were accepted'
            c.op(rnd.choice(['enc 9 0 20', 'enc 9 20 0', 'enew 9 0 20', 'enew 9 20 0']), ref, (cv.label(), 'mixed', o.label()))
        elif k == 'drop' and tmp:
            if rnd.random() < .5:
                i = rnd.randrange(2)
                c.op('drop c %d' % i, '0')
                if live:
                    q = rnd.choice(list(live))
                    c.op('ecd %d' % q, '%s %s' % (cv.fmt(live[q][0]), cv.fmt(live[q][1])))
                cvload(c, i, cv, rnd)
            elif live:
                q = rnd.choice(list(live))
                live.pop(q)
                c.op('drop e %d' % q, '0')
    return c


def curvecase(rnd, nops):
    """construction that must be refused, and names"""
    c = Case('gocurve')
    cv = rnd.choice(zoo.uniq(zoo.named) + zoo.iso)
    c.tag = cv.label()
    cvload(c, 0, cv, rnd)
    for _ in range(nops):
        v = list(cv.params())
        k = rnd.randrange(6)
        if k == 0:
            i = rnd.randrange(1, 8)
            v[i] = -v[i] if v[i] else -1
            c.op('cset 1 %d %s %d' % (v[0], ' '.join(hx(x) for x in v[1:8]), v[8]), lambda g: None if g in ('nil', 'panic') else 'a negative parameter was accepted', (cv.label(), 'neg', i))
        elif k == 1:
            x, y = v[6], v[7]
            if rnd.random() < .5:
                x = (x + rnd.randrange(1, cv.p)) % cv.p
            else:
                y = (y + rnd.randrange(1, cv.p)) % cv.p
            if not cv.on((x, y)):
                v[6], v[7] = x, y
                c.op('cset 1 %d %s %d' % (v[0], ' '.join(hx(x) for x in v[1:8]), v[8]), 'nil', (cv.label(), 'off', x, y))
        elif k == 2:
            v[1] = (1 << rnd.choice([2048, 2100, 5000])) + 2 * rnd.getrandbits(50) + 1
            c.op('cset 1 %d %s %d' % (v[0], ' '.join(hx(x) for x in v[1:8]), v[8]), lambda g: None if g in ('nil', 'panic') else 'a modulus beyond the maximum was accepted', (cv.label(), 'huge'))
        elif k == 3:
            nm = rnd.choice(zoo.named).name
            bad = rnd.choice([nm + '\0', nm + '\0x', '\0' + nm, '', nm + ' ', nm.swapcase(), nm[:-1], 'x' * 5000, '%s%n', nm + 'é'])
            if bad not in zoo.by_name:
                c.op('cname 1 %s' % hb(bad.encode()), 'nil', ('badname', bad))
        elif k == 4:
            o = rnd.choice(zoo.named)
            cvload(c, 1, o, rnd)
            c.op('ccmp 0 1', '%d' % (cv.params()[:-1] != o.params()[:-1]))
        else:
            attr(c, '', 0, cv, rnd)
    names = sorted(x.name for x in zoo.named)
    c.op('cnames', lambda g: None if set(names) <= set(g.split(',')) else 'names are missing: %s' % sorted(set(names) - set(g.split(','))))
    c.op('cdump 0', cv.dump())
    return c
