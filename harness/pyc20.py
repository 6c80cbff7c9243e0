"""C20 worker: runs the Python binding against the reference of lib/ecref.py, in one process.
usage: pyc20.py seed seconds mode out.json log
The log always holds the operations of the case being executed, so that a crash can be attributed."""
import json
import os
import random
import sys
import time
import types

import ECC
import zoo
import fgen
import pgen
import sigs
import codec
from ecref import *

SEED, COUNT, MODE, OUT, LOG = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5]
rnd = random.Random('%s/%d' % (MODE, SEED))
logfd = os.open(LOG, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
res = {'evals': 0, 'viol': [], 'samples': [], 'bumps': {}}
distinct = set()
case = []


def note(s):
    s = s if len(s) < 1500 else s[:1500] + '...'
    case.append(s)
    os.write(logfd, (s + '\n').encode('utf8', 'backslashreplace'))


class Bad(Exception):
    pass


def expect(what, got, want):
    res['evals'] += 1
    if got != want or type(got) is not type(want):
        raise Bad('%s: got %.400r, expected %.400r' % (what, got, want))


def call(what, f, *a):
    """f must not raise"""
    note(what)
    try:
        return f(*a)
    except Exception as e:
        res['evals'] += 1
        raise Bad('%s raised %s: %s' % (what, type(e).__name__, e))


def bump(k):
    res['bumps'][k] = res['bumps'].get(k, 0) + 1


def sig(*a):
    distinct.add(hash(a))


FORMNAME = {WS: 'ShortWeierstrass', ED: 'Edwards', MO: 'Montgomery', TE: 'TwistedEdwards'}
COEF = {WS: 'ab', ED: 'cd', MO: 'BA', TE: 'ad'}


def integer(p):
    k = rnd.randrange(8)
    if k == 0:
        b = rnd.choice([8, 16, 24, 30, 31, 32, 60, 63, 64, 120, 128, 255, 256, 512, 1024, 2040, 2047, 2048, 2049, 4096])
        v = (1 << b) + rnd.choice([-2, -1, 0, 1])
    elif k == 1:
        v = rnd.getrandbits(rnd.randrange(1, 5200))
    elif k == 2:
        return rnd.choice([True, False, 0, -1, 1, -p, p, 255, 256, -255, -256, -128, 128, 127, -129])
    else:
        return fgen.integer(rnd, p)
    return -v if rnd.random() < .4 else v


def kind_of(i, p):
    return ('neg' if i < 0 else 'pos', min(abs(i).bit_length() // 32, 170), abs(i) >= p)


# ------------------------------------------------------------------ field elements
def fcheck(what, e, v, p):
    expect('type of ' + what, type(e), ECC.FieldElement)
    expect('int(%s)' % what, int(e), v % p)


def fcase(p):
    F = lambda v: ECC.FieldElement(v, p)
    xs = []
    for _ in range(rnd.randrange(2, 5)):
        v = integer(p) if rnd.random() < .6 else fgen.value(rnd, p)
        e = call('e%d = FieldElement(%#x, %#x)' % (len(xs), v, p), F, v)
        fcheck('FieldElement(%#x)' % v, e, v, p)
        sig('new', p, v)
        xs.append((e, v % p))
    for _ in range(rnd.randrange(6, 16)):
        op = rnd.choice(['+', '+', '-', '-', '*', '*', 'i+', '+i', 'i-', '-i', 'i*', '*i', 'neg', 'pow', 'pow', 'inv', 'sqrt', 'eq', 'eqi', 'ne',
                         'repr', 'iadd', 'imul', 'isub', 'sum', 'drop', 'reread'])
        ai = rnd.randrange(len(xs))
        bi = rnd.randrange(len(xs))
        (a, av), (b, bv) = xs[ai], xs[bi]
        i = integer(p)
        w, f, r = None, None, None
        if op == '+':
            w, f, r = 'e%d + e%d' % (ai, bi), lambda: a + b, av + bv
        elif op == '-':
            w, f, r = 'e%d - e%d' % (ai, bi), lambda: a - b, av - bv
        elif op == '*':
            w, f, r = 'e%d * e%d' % (ai, bi), lambda: a * b, av * bv
        elif op == '+i':
            w, f, r = 'e%d + %#x' % (ai, i), lambda: a + i, av + i
        elif op == 'i+':
            w, f, r = '%#x + e%d' % (i, ai), lambda: i + a, av + i
        elif op == '-i':
            w, f, r = 'e%d - %#x' % (ai, i), lambda: a - i, av - i
        elif op == 'i-':
            w, f, r = '%#x - e%d' % (i, ai), lambda: i - a, i - av
        elif op == '*i':
            w, f, r = 'e%d * %#x' % (ai, i), lambda: a * i, av * i
        elif op == 'i*':
            w, f, r = '%#x * e%d' % (i, ai), lambda: i * a, av * i
        elif op == 'neg':
            w, f, r = '-e%d' % ai, lambda: -a, -av
        elif op == 'pow':
            k = fgen.word(rnd, p) if rnd.random() < .5 else rnd.randrange(20)
            w, f, r = 'e%d ** %#x' % (ai, k), lambda: a ** k, pow(av, k, p)
        elif op == 'sum':
            w, f, r = 'sum((e%d, e%d, e%d), %#x)' % (ai, bi, ai, i), lambda: sum((a, b, a), i), i + 2 * av + bv
        elif op in ('iadd', 'isub', 'imul'):
            o = i if rnd.random() < .5 else b
            ov = i if o is i else bv
            nm = '%#x' % i if o is i else 'e%d' % bi
            def f(o=o):
                t = a
                if op == 'iadd':
                    t += o
                elif op == 'isub':
                    t -= o
                else:
                    t *= o
                return t
            w = 'e%d %s= %s' % (ai, {'iadd': '+', 'isub': '-', 'imul': '*'}[op], nm)
            r = av + ov if op == 'iadd' else av - ov if op == 'isub' else av * ov
        if f:
            e = call(w, f)
            fcheck(w, e, r, p)
            fcheck('e%d after %s' % (ai, w), a, av, p)
            fcheck('e%d after %s' % (bi, w), b, bv, p)
            sig(op, p, av, bv, kind_of(i, p))
            xs.append((e, r % p))
            continue
        if op == 'inv':
            e = call('e%d.inverse()' % ai, a.inverse)
            if av == 0:
                expect('inverse of 0', e, None)
            else:
                fcheck('e%d.inverse()' % ai, e, pow(av, -1, p), p)
                xs.append((e, int(e)))
            sig(op, p, av)
        elif op == 'sqrt':
            e = call('e%d.sqrt()' % ai, a.sqrt)
            rr = sqrt_mod(av, p)
            if rr is None:
                expect('sqrt of a non-residue %#x' % av, e, None)
            else:
                if e is None or int(e) not in (rr, -rr % p):
                    raise Bad('sqrt(%#x) mod %#x = %r' % (av, p, e))
                xs.append((e, int(e)))
            sig(op, p, av)
        elif op in ('eq', 'ne'):
            c = b if rnd.random() < .5 else call('c = FieldElement(%#x, %#x)' % (av + p * rnd.randrange(3), p), F, av + p * rnd.randrange(3))
            cv = int(c)
            expect('e%d == ' % ai, call('e%d == (%#x)' % (ai, cv), lambda: a == c), av == cv)
            expect('e%d != ' % ai, call('e%d != (%#x)' % (ai, cv), lambda: a != c), av != cv)
            sig(op, p, av, cv)
        elif op == 'eqi':
            c = rnd.choice([av, av + 1, -av, i, av + (1 << 64 * rnd.randrange(1, 40)), av ^ (1 << rnd.randrange(p.bit_length()))])
            if not 0 <= c < p and (c - av) % p == 0:
                c = av
            expect('e%d == int' % ai, call('e%d == %#x' % (ai, c), lambda: a == c), av == c)
            expect('int != e%d' % ai, call('%#x != e%d' % (c, ai), lambda: c != a), av != c)
            sig(op, p, av, c)
        elif op == 'repr':
            t = call('repr(e%d)' % ai, repr, a)
            e = call('eval(%s)' % t, eval, t, {'ECC': ECC})
            fcheck('eval(repr)', e, av, p)
            expect('eval(repr) ==', e == a, True)
            expect('modulus in repr', t.replace(' ', '').rstrip(')').split(',')[-1], str(p))
            sig(op, p, av)
        elif op == 'drop' and len(xs) > 2:
            note('del e')
            xs.pop(rnd.randrange(len(xs)))
        elif op == 'reread':
            for k, (e, v) in enumerate(xs):
                fcheck('e%d (re-read)' % k, e, v, p)
    e = call('FieldElement.urandom(%#x)' % p, ECC.FieldElement.urandom, p)
    if not 0 <= int(e) < p:
        raise Bad('urandom out of range: %d' % int(e))
    expect('urandom + 0', e + 0 == e, True)
    for k, (e, v) in enumerate(xs):
        fcheck('e%d at the end' % k, e, v, p)
    if len(res['samples']) < 2:
        res['samples'].append(' ; '.join(x[:80] for x in case[:6]))


# ------------------------------------------------------------------ curves
NAMED = {c.name for c in zoo.named}


def mkcurve(cv):
    if cv.name in NAMED and rnd.random() < .6:
        return call('cv = ECurve(%r)' % cv.name, ECC.ECurve, cv.name)
    f = getattr(ECC.ECurve, FORMNAME[cv.form])
    a = [cv.p, cv.c1, cv.c2, cv.n, cv.h, cv.G[0], cv.G[1], cv.bits]
    if rnd.random() < .3:
        a[1] += cv.p * rnd.randrange(3)
        a[2] += cv.p * (1 << rnd.randrange(70))
    return call('cv = ECurve.%s(%s)' % (FORMNAME[cv.form], ', '.join(map(str, a))), f, *a)


def ccheck(what, C, cv):
    for nm, v in (('p', cv.p), ('n', cv.n), ('h', cv.h), ('G', cv.G), ('bits', cv.bits), ('ctype', FORMNAME[cv.form]),
                  (COEF[cv.form][0], cv.c1), (COEF[cv.form][1], cv.c2)):
        expect('%s.%s' % (what, nm), call('%s.%s' % (what, nm), getattr, C, nm), v)
    for nm in 'abcdBA':
        if nm not in COEF[cv.form]:
            try:
                getattr(C, nm)
                raise Bad('%s.%s exists' % (what, nm))
            except (ValueError, AttributeError):
                res['evals'] += 1
    sig('attr', cv.params())


def ccase(cv, other):
    C = mkcurve(cv)
    D = mkcurve(cv)
    E = mkcurve(other)
    ccheck('cv', C, cv)
    expect('equal curves', (C == D, C != D, C == C), (True, False, True))
    same = other.params() == cv.params()
    expect('curve equality %s/%s' % (cv.label(), other.label()), (C == E, C != E, E == C), (same, not same, same))
    t = call('repr(cv)', repr, C)
    R = call('eval(repr)', eval, t, {'ECC': ECC})
    ccheck('eval(repr(cv))', R, cv)
    expect('eval(repr(cv)) == cv', R == C, True)
    # one parameter changed: another curve, where such a curve is accepted
    for k in rnd.sample(range(3), 2):
        a = [cv.p, cv.c1, cv.c2, cv.n, cv.h, cv.G[0], cv.G[1], cv.bits]
        if k == 0:
            a[3] = cv.n + 2 if cv.n > 3 else cv.n + 4
        elif k == 1:
            a[4] = cv.h + 1
        else:
            a[5], a[6] = cv.mul(2, cv.G) or cv.G
        if a == [cv.p, cv.c1, cv.c2, cv.n, cv.h, cv.G[0], cv.G[1], cv.bits]:
            continue
        M = call('cv2 = ECurve.%s(%s)' % (FORMNAME[cv.form], ', '.join(map(str, a))), getattr(ECC.ECurve, FORMNAME[cv.form]), *a)
        diff = (M == C, C != M)
        expect('curves differing in parameter %d' % k, diff, (False, True))
    for _ in range(6):
        P = pgen.point(cv, rnd) or cv.G
        ok = True
        k = rnd.randrange(4)
        if k == 0:
            P = (P[0], (P[1] + 1) % cv.p)
        elif k == 1:
            P = ((P[0] ^ 1) % cv.p, P[1])
        elif k == 2:
            P = (rnd.randrange(cv.p), rnd.randrange(cv.p))
        Q = (P[0] + cv.p * rnd.choice([0, 0, 1, rnd.getrandbits(9)]), P[1] + cv.p * rnd.choice([0, 0, 1]))
        expect('PointIsValid', call('cv.PointIsValid(%#x, %#x)' % Q, C.PointIsValid, *Q), cv.on(P))
        sig('valid', cv.params(), P)


# ------------------------------------------------------------------ points
def pcheck(what, pt, P, cv):
    expect('type of ' + what, type(pt), ECC.ECPoint)
    expect('%s.compressed()' % what, pt.compressed(), cv.enc(P, True))
    expect('%s.uncompressed()' % what, pt.uncompressed(), cv.enc(P, False))
    expect('str(%s)' % what, str(pt).lower(), cv.enc(P, True).hex())
    if P is not None:
        expect('%s.affine()' % what, pt.affine(), P)
    sig('pt', cv.params(), P)


def mkpoint(C, cv, P):
    k = rnd.randrange(6)
    if P is None:
        if k < 3:
            return call('ECPoint(cv)', ECC.ECPoint, C)
        b = cv.enc(None, rnd.random() < .5)
    if P is not None:
        if k == 0:
            t = (P[0] + cv.p * rnd.choice([0, 0, 1, -1, -7, 1 << 2000]), P[1] + cv.p * rnd.choice([0, 0, 2, -1]))
            return call('ECPoint(cv, (%#x, %#x))' % t, ECC.ECPoint, C, t)
        if k == 1:
            note('ECPoint(cv, (FieldElement %#x, FieldElement %#x))' % P)
            return call('ECPoint(cv, FE)', lambda: ECC.ECPoint(C, (ECC.FieldElement(P[0], cv.p), ECC.FieldElement(P[1], cv.p))))
        if P == cv.O and k == 2:
            return call('ECPoint(cv)', ECC.ECPoint, C)
        b = cv.enc(P, rnd.random() < .5)
    if k < 4:
        return call('ECPoint(cv, %r)' % b, ECC.ECPoint, C, b)
    s = b.hex() if k == 4 else b.hex().upper()
    return call('ECPoint(cv, %r)' % s, ECC.ECPoint, C, s)


_sub = {}


def scalar(cv, P):
    # the library reduces scalars modulo n, which is the multiple itself only in the subgroup
    key = (cv.params(), P)
    if key not in _sub:
        _sub[key] = cv.h == 1 or cv.mul(cv.n, P) == cv.O
    if not _sub[key]:
        return pgen.scalar(rnd, cv.n)
    k = rnd.randrange(6)
    if k == 0:
        return integer(cv.n)
    s = pgen.scalar(rnd, cv.n)
    return -s if k == 1 else s


def pcase(cv, steps):
    curves = [mkcurve(cv) for _ in range(rnd.randrange(1, 3))]
    pts = []
    for _ in range(3):
        P = pgen.point(cv, rnd)
        pts.append((mkpoint(rnd.choice(curves), cv, P), P))
        pcheck('pt%d' % (len(pts) - 1), *pts[-1], cv)
    if rnd.random() < .3:
        note('del cv')
        curves = curves[:1]
    for _ in range(steps):
        op = rnd.choice(['+', '+', '-', '-', 'neg', '*', 'i*', 'fe', 'fe2', 'eq', 'repr', 'base', 'codec', 'drop', 'urandom', 'reread', 'iadd'])
        ai, bi = rnd.randrange(len(pts)), rnd.randrange(len(pts))
        (a, A), (b, B) = pts[ai], pts[bi]
        w = f = R = None
        if op == '+':
            w, f, R = 'pt%d + pt%d' % (ai, bi), lambda: a + b, cv.add(A, B)
        elif op == '-':
            w, f, R = 'pt%d - pt%d' % (ai, bi), lambda: a - b, cv.sub(A, B)
        elif op == 'neg':
            w, f, R = '-pt%d' % ai, lambda: -a, cv.neg(A)
        elif op in ('*', 'i*'):
            k = scalar(cv, A)
            w, f = ('pt%d * %#x' % (ai, k), lambda: a * k) if op == '*' else ('%#x * pt%d' % (k, ai), lambda: k * a)
            R = cv.mul(k, A) if k >= 0 else cv.neg(cv.mul(-k, A))
        elif op in ('fe', 'fe2'):
            k = pgen.scalar(rnd, cv.n) % cv.n
            s = call('s = FieldElement(%#x, %#x)' % (k, cv.n), ECC.FieldElement, k, cv.n)
            w, f, R = (('pt%d * s' % ai, lambda: a * s) if op == 'fe' else ('s * pt%d' % ai, lambda: s * a)) + (cv.mul(k, A),)
        elif op == 'iadd':
            def f():
                t = a
                t += b
                t -= a
                t *= 2
                return t
            w, R = 't = pt%d; t += pt%d; t -= pt%d; t *= 2' % (ai, bi, ai), cv.dbl(cv.sub(cv.add(A, B), A))
        if f:
            r = call(w, f)
            pcheck(w, r, R, cv)
            pcheck('pt%d after %s' % (ai, w), a, A, cv)
            pts.append((r, R))
            sig(op, cv.params(), A, B)
        elif op == 'eq':
            c, Cp = (b, B) if rnd.random() < .5 else (mkpoint(curves[0], cv, A), A)
            expect('pt%d == ' % ai, (a == c, a != c, c == a), (A == Cp, A != Cp, A == Cp))
        elif op == 'repr':
            t = call('repr(pt%d)' % ai, repr, a)
            r = call('eval(%s)' % t, eval, t, {'ECC': ECC})
            pcheck('eval(repr)', r, A, cv)
            expect('eval(repr) ==', r == a, True)
            pts.append((r, A))
        elif op == 'base':
            call('pt%d.setup_basemult()' % ai, a.setup_basemult)
            pcheck('pt%d' % ai, a, A, cv)
        elif op == 'codec':
            r = mkpoint(curves[0], cv, A)
            expect('re-read point', r == a, True)
            raw = bytearray(cv.enc(A, rnd.random() < .6))
            k = rnd.randrange(4)
            if k == 0:
                raw[rnd.randrange(len(raw))] ^= 1 << rnd.randrange(8)
            elif k == 1:
                raw[0] = rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 255])
            elif k == 2:
                raw = raw[:rnd.randrange(len(raw) + 1)]
            else:
                raw += rnd.randbytes(rnd.randrange(3))
            raw = bytes(raw)
            ok = codec.decode(cv, raw)
            note('ECPoint(cv, %r)' % raw)
            try:
                r = ECC.ECPoint(curves[0], raw if rnd.random() < .5 else raw.hex())
            except ValueError:
                r = None
            if r is None:
                if None not in ok:
                    raise Bad('valid encoding %s refused' % raw.hex())
            elif r.compressed() not in [cv.enc(x[1], True) for x in ok if x]:
                raise Bad('encoding %s accepted as %s' % (raw.hex(), r))
            res['evals'] += 1
        elif op == 'drop' and len(pts) > 3:
            note('del pt')
            pts.pop(rnd.randrange(len(pts)))
        elif op == 'urandom':
            r = call('ECPoint.urandom(cv)', ECC.ECPoint.urandom, curves[0])
            R = None if cv.O is None and r == ECC.ECPoint(curves[0]) else r.affine()
            if not cv.on(R):
                raise Bad('urandom gives a point off the curve')
            pcheck('urandom', r, R, cv)
            pts.append((r, R))
        elif op == 'reread':
            for i, (x, X) in enumerate(pts):
                pcheck('pt%d (re-read)' % i, x, X, cv)
    curves = None
    for i, (x, X) in enumerate(pts):
        pcheck('pt%d at the end' % i, x, X, cv)
    if len(res['samples']) < 4:
        res['samples'].append(cv.label() + ': ' + ' ; '.join(x[:90] for x in case[:7]))


# ------------------------------------------------------------------ signatures
def hashmodule(ln, log):
    m = types.ModuleType('toyhash')

    class H:
        def __init__(self, d):
            self.d = d

        def digest(self):
            return toy_hash(self.d, ln)

    def new(data):
        log.append(bytes(data))
        return H(bytes(data))
    m.new = new
    m.digest_size = ln
    return m


def message():
    k = rnd.randrange(4)
    if k == 0:
        s = ''.join(chr(rnd.choice([97, 233, 0x20ac, 0x1f600, 0])) for _ in range(rnd.randrange(1, 30)))
        return s, s.encode('utf8')
    if k == 1:
        s = 'x' * rnd.choice([1, 63, 64, 65, 3000])
        return s, s.encode()
    b = sigs.msg(rnd)
    return b, b


def scase(cv):
    n = cv.n
    C = mkcurve(cv)
    seen = []
    ln = sigs.digest_len(rnd, n)
    S = call('S = ECDSASignatureScheme(cv, hash of %d bytes)' % ln, ECC.ECDSASignatureScheme, C, hashmodule(ln, seen))
    if rnd.random() < .5:
        note('del cv')
        C = None
        C2 = mkcurve(cv)
    else:
        C2 = C
    d = rnd.choice([rnd.randrange(1, n), 1, n - 1])
    Q = cv.mul(d, cv.G)
    K = call('K', mkpoint, C2, cv, Q)
    for _ in range(3):
        m, mb = message()
        k = rnd.randrange(3)
        if k == 0:
            key = call('key = FieldElement(%#x, n)' % d, ECC.FieldElement, d, n)
        elif k == 1:
            key = d
        else:
            key = d + n * rnd.choice([1, -1, -3, 1 << 1100, -(1 << 2050)])
        del seen[:]
        g = call('sig = S.Sign(%s, %.200r)' % (key, m), S.Sign, key, m)
        if not seen or any(x != mb for x in seen):
            raise Bad('the hash was given %r' % (seen[:1],))
        b = call('sig.AsBytes()', g.AsBytes)
        L = (n.bit_length() + 7) // 8
        expect('length of signature', len(b), 2 * L)
        r, s = int.from_bytes(b[:L], 'big'), int.from_bytes(b[L:], 'big')
        if not ecdsa_valid(cv, Q, toy_hash(mb, ln), r, s):
            raise Bad('signature (%x, %x) by key %x of %r is not valid' % (r, s, d, mb[:200]))
        expect('str(sig)', str(g).lower(), b.hex())
        expect('Verify', call('sig.Verify(K, m)', g.Verify, K, m), True)
        m2 = mb + b'x' if rnd.random() < .5 else bytes([mb[0] ^ 1]) + mb[1:]
        Q2 = cv.mul(rnd.randrange(1, n), cv.G)
        K2 = mkpoint(C2, cv, Q2)
        for kk, QQ, mm in ((K, Q, m2), (K2, Q2, m), (K2, Q2, m2)):
            mmb = mm if isinstance(mm, bytes) else mb
            expect('Verify of another key or message', call('sig.Verify(..)', g.Verify, kk, mm), ecdsa_valid(cv, QQ, toy_hash(mmb, ln), r, s))
        for _ in range(3):
            bb = bytearray(b)
            k = rnd.randrange(4)
            if k == 0:
                bb[rnd.randrange(len(bb))] ^= 1 << rnd.randrange(8)
            elif k == 1:
                bb[L:] = (n - s).to_bytes(L, 'big')
            elif k == 2:
                bb[:L] = (r + n).to_bytes(L + 1, 'big')[-L:]
            bb = bytes(bb)
            r2, s2 = int.from_bytes(bb[:L], 'big'), int.from_bytes(bb[L:], 'big')
            valid = 0 < r2 < n and 0 < s2 < n
            note('ECDSASignature(S, %r)' % bb)
            try:
                g2 = ECC.ECDSASignature(S, bb if rnd.random() < .5 else bb.hex())
            except ValueError:
                g2 = None
            expect('import of signature accepted', g2 is not None, valid)
            if g2 is not None:
                expect('re-export', g2.AsBytes(), bb)
                expect('Verify imported', call('sig2.Verify(K, m)', g2.Verify, K, m), ecdsa_valid(cv, Q, toy_hash(mb, ln), r2, s2))
            sig('sig', cv.params(), r2, s2)
        bump('signatures')
        repr(g), repr(S)
    if rnd.random() < .5:
        note('del S')
        S = None
        expect('Verify after the scheme was dropped', g.Verify(K, m), True)


# ------------------------------------------------------------------ Elgamal
def gcase(cv):
    n = cv.n
    C = mkcurve(cv)
    d = rnd.choice([rnd.randrange(1, n), 1, n - 1])
    Q = cv.mul(d, cv.G)
    K = mkpoint(C, cv, Q)
    for _ in range(2):
        M = pgen.point(cv, rnd)
        pt = mkpoint(mkcurve(cv), cv, M)
        ct = call('ct = ECElgamalCiphertext.encrypt(K, pt)', ECC.ECElgamalCiphertext.encrypt, K, pt)
        c, D = call('ct.C', getattr, ct, 'C'), call('ct.D', getattr, ct, 'D')

        def val(x):
            a = codec.decode(cv, x.uncompressed())
            a = [y for y in a if y]
            if len(a) != 1 or (x.uncompressed() != cv.enc(a[0][1], False)):
                raise Bad('ciphertext half %s is not a point' % x)
            return a[0][1]
        Cv, Dv = val(c), val(D)
        res['evals'] += 1
        if cv.sub(Dv, cv.mul(d, Cv)) != M:
            raise Bad('D - d C is not the message: C %s D %s d %x' % (Cv, Dv, d))
        expect('str', str(ct).lower().replace(' ', ''), '(%s,%s)' % (cv.enc(Cv, True).hex(), cv.enc(Dv, True).hex()))
        for key in (d, d - n, d + n * (1 << 1500), ECC.FieldElement(d, n)):
            r = call('ct.decrypt(%s)' % key, ct.decrypt, key)
            pcheck('decrypted', r, M, cv)
        d2 = rnd.randrange(n)
        pcheck('decrypted with another key', call('ct.decrypt(other)', ct.decrypt, d2), cv.sub(Dv, cv.mul(d2, Cv)), cv)
        # assembled from points, sums
        ct2 = call('ECElgamalCiphertext(C, D)', ECC.ECElgamalCiphertext, c, D)
        A = pgen.point(cv, rnd)
        B = pgen.point(cv, rnd)
        ct3 = call('ECElgamalCiphertext(A, B)', ECC.ECElgamalCiphertext, mkpoint(mkcurve(cv), cv, A), mkpoint(mkcurve(cv), cv, B))
        if rnd.random() < .6:
            note('del ct')
            del ct, c, D, pt
        pcheck('decrypted copy', call('ct2.decrypt(d)', ct2.decrypt, d), M, cv)
        x = call('ct3.decrypt(d)', ct3.decrypt, d)
        X = cv.sub(B, cv.mul(d, A))
        c3, d3 = ct3.C, ct3.D
        rr = call('eval(repr(ct3))', eval, repr(ct3), {'ECC': ECC})
        del ct3
        pcheck('ct3', x, X, cv)
        pcheck('ct3.C', c3, A, cv)
        pcheck('ct3.D', d3, B, cv)
        pcheck('sum', c3 + d3, cv.add(A, B), cv)
        pcheck('eval(repr(ct3)).D', rr.D, B, cv)
        bump('ciphertexts')
        sig('ct', cv.params(), Cv, Dv)


# ------------------------------------------------------------------ driver
big = zoo.uniq(zoo.named) + zoo.iso
names = call('ECurve._CurveNames()', ECC.ECurve._CurveNames)
if MODE == 'names':
    jobs = []
    expect('listed curves', sorted(set(names)), sorted(NAMED))
    for nm in names:
        jobs.append((ccase, zoo.by_name[nm], rnd.choice(big)))
    for c in zoo.iso:
        jobs.append((ccase, c, rnd.choice([c, rnd.choice(big)])))
else:
    jobs = []
    ps = fgen.moduli(rnd, 6)
    tiny = [c for c in zoo.tiny if c.p > 13]
    sg, st = sigs.big(), sigs.tiny()
    for k in range(COUNT):
        for _ in range(30):
            jobs.append((fcase, rnd.choice(ps)[1]))
        for _ in range(4):
            jobs.append((pcase, rnd.choice(tiny), 14))
        jobs.append((pcase, rnd.choice(big), 8))
        jobs.append((pcase, rnd.choice(big), 8))
        jobs.append((ccase, rnd.choice(big + tiny), rnd.choice(big + tiny)))
        jobs.append((scase, rnd.choice(sg)))
        jobs.append((gcase, rnd.choice(big)))
        jobs.append((gcase, rnd.choice(tiny)))
for f, *a in jobs:
    case.clear()
    os.ftruncate(logfd, 0)
    os.lseek(logfd, 0, 0)
    head = '%s %s' % (f.__name__, a[0].label() if hasattr(a[0], 'label') else hex(a[0]))
    note('# ' + head)
    try:
        f(*a)
        bump(f.__name__)
    except Bad as e:
        key = '%s:%s' % (f.__name__, str(e).split(':')[0].split('(')[0][:40])
        res['viol'].append((key, '[%s] %s' % (head, e), '\n'.join(case)))
        if len(res['viol']) > 5:
            break
res['distinct'] = sorted(distinct)
res['done'] = True
with open(OUT, 'w') as fh:
    json.dump(res, fh)
