"""C21 worker: misuse, reference counts, memory growth and object lifetimes of the Python binding.
usage: pyc21.py seed count mode out.json log"""
import copy
import ctypes
import gc
import hashlib
import json
import os
import pickle
import random
import sys
import threading
import types

import ECC
import zoo
import codec
import pgen
import sigs
from ecref import *

SEED, COUNT, MODE, OUT, LOG = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5]
rnd = random.Random('%s/%d' % (MODE, SEED))
logfd = os.open(LOG, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
res = {'evals': 0, 'viol': [], 'samples': [], 'bumps': {}}
distinct = set()
history = []


def note(s):
    s = s if len(s) < 1200 else s[:1200] + '...'
    history.append(s)
    os.write(logfd, (s + '\n').encode('utf8', 'backslashreplace'))


def fresh():
    history.clear()
    os.ftruncate(logfd, 0)
    os.lseek(logfd, 0, 0)


def bump(k, n=1):
    res['bumps'][k] = res['bumps'].get(k, 0) + n


def bad(key, msg):
    if len(res['viol']) < 8:
        res['viol'].append((key, msg, '\n'.join(history[-60:])))


FE, CV, PT, SS, SG, CT = ECC.FieldElement, ECC.ECurve, ECC.ECPoint, ECC.ECDSASignatureScheme, ECC.ECDSASignature, ECC.ECElgamalCiphertext
KLASS = {'FE': FE, 'CV': CV, 'PT': PT, 'SS': SS, 'SG': SG, 'CT': CT}


# ---------------------------------------------------------------- hash modules
def mkhash(name, ln=32, new=None, size='same', digest=None):
    m = types.ModuleType(name)

    class H:
        def __init__(self, d):
            self.d = d

        def digest(self):
            return digest(self.d) if digest else toy_hash(self.d, ln)
    if new is None:
        def new(d):
            return H(d)
    if new != 'missing':
        m.new = new
    if size != 'missing':
        m.digest_size = ln if size == 'same' else size
    return m


class Boom(Exception):
    pass


def raiser(*a):
    raise Boom('boom')


class Flip:
    """misbehaves once it is armed"""
    def __init__(self, f):
        self.f, self.armed = f, False

    def digest(self, d):
        return self.f(d) if self.armed else toy_hash(d, 32)


class ModSub(types.ModuleType):
    def __repr__(self):
        raise Boom('module repr')


def badrepr():
    m = ModSub('badrepr')
    m.new, m.digest_size = mkhash('x', 32).new, 32
    return m


def badmodules():
    L = [mkhash('nosize', size='missing'), mkhash('nonew', new='missing'), mkhash('strsize', size='32'), mkhash('negsize', size=-3), mkhash('zerosize', size=0),
         mkhash('hugesize', size=1 << 80), mkhash('bigsize', size=1 << 40), mkhash('nonesize', size=None), mkhash('floatsize', size=32.0),
         mkhash('lyingsize', size=33), mkhash('raisenew', new=raiser), mkhash('raisedigest', digest=raiser), mkhash('nodigest', new=lambda d: object()),
         mkhash('strdigest', digest=lambda d: (repr(d) + 'a' * 32)[:32]), mkhash('nonedigest', digest=lambda d: None), mkhash('arraydigest', digest=lambda d: bytearray(32)),
         mkhash('longdigest', digest=lambda d: (bytes(d) + b'x' * 5000)), mkhash('emptydigest', digest=lambda d: b''), mkhash('noargs', new=lambda: None), mkhash('classnew', new=int),
         badrepr(), types.ModuleType('empty'), hashlib, sys, mkhash('builtinnew', new=hashlib.sha256)]
    return L


def flipmodules():
    out = []
    for nm, f in (('turns to raise', raiser), ('turns short', lambda d: b'x'), ('turns long', lambda d: b'x' * 9000), ('turns str', lambda d: 'x' * 32), ('turns None', lambda d: None),
                  ('collects', lambda d: (gc.collect(), toy_hash(d, 32))[1])):
        fl = Flip(f)
        m = mkhash(nm, 32, digest=fl.digest)
        out.append((m, fl))
    return out


# ---------------------------------------------------------------- the world of a case
class IntSub(int):
    pass


class StrSub(str):
    pass


class BytesSub(bytes):
    pass


class TupSub(tuple):
    pass


class LazyFE(FE):
    def __init__(self, *a):
        pass


class LazyPT(PT):
    def __init__(self, *a):
        pass


class LazyCV(CV):
    def __init__(self, *a):
        pass


class SubFE(FE):
    pass


class SubPT(PT):
    pass


class Weird:
    def __index__(self):
        return 5

    def __int__(self):
        return 5

    def __bytes__(self):
        return b'5'

    def __str__(self):
        raise Boom('str')

    def __repr__(self):
        raise Boom('repr')

    def __eq__(self, o):
        raise Boom('eq')

    __hash__ = None

    def __getattr__(self, n):
        raise Boom('getattr')


SMALL = [c for c in zoo.named if c.p.bit_length() <= 260]
PUB = ['secp256k1', 'secp112r1', 'Curve25519', 'E-222', 'E-521', 'Curve1174']


def world():
    """a pool of labelled objects, good and odd"""
    w = {}
    c1 = zoo.by_name[rnd.choice([c.name for c in SMALL])]
    c2 = rnd.choice([c for c in zoo.tiny[20:] if c.n > 40 and is_prime(c.n)])       # on tinier ones a key may have no signature at all
    c3 = rnd.choice([c for c in SMALL if c.form == c1.form and c.p != c1.p] or SMALL)
    W = {'c1': c1, 'c2': c2, 'c3': c3}
    for nm, c in W.items():
        C = getattr(CV, {WS: 'ShortWeierstrass', ED: 'Edwards', MO: 'Montgomery', TE: 'TwistedEdwards'}[c.form])(c.p, c.c1, c.c2, c.n, c.h, c.G[0], c.G[1], c.bits)
        w['cv' + nm] = C
        d = rnd.randrange(1, c.n)
        w['G' + nm] = PT(C, c.G)
        w['K' + nm] = PT(C, c.mul(d, c.G) or c.G)
        w['N' + nm] = PT(C)
        w['fp' + nm] = FE(rnd.randrange(c.p), c.p)
        w['zero' + nm] = FE(0, c.p)
        w['fn' + nm] = FE(d, c.n)
        w['ct' + nm] = CT(w['G' + nm], w['K' + nm])
        ln = rnd.choice([20, 32, 64])

        def nonzero(m, n=c.n, ln=ln):       # key 0 has no signature of digest 0
            while True:
                dg = toy_hash(m, ln)
                if digest_int(dg, n) % n:
                    return dg
                m += b'+'
        w['hm' + nm] = mkhash('h' + nm, ln, digest=nonzero)
        w['ss' + nm] = SS(C, w['hm' + nm])
        L = (c.n.bit_length() + 7) // 8
        r = rnd.randrange(1, c.n)
        w['sg' + nm] = SG(w['ss' + nm], r.to_bytes(L, 'big') * 2)
        w['enc' + nm] = c.enc(c.G, True)
        w['encu' + nm] = c.enc(c.G, False).hex()
        w['raw' + nm] = r.to_bytes(L, 'big') * 2
        w['xy' + nm] = (c.G[0], c.G[1])
        w['off' + nm] = (c.G[0], (c.G[1] + 1) % c.p)
        w['fexy' + nm] = (FE(c.G[0], c.p), FE(c.G[1], c.p))
    w['feoff'] = (FE(1, c1.p), FE(2, c1.p))
    w['femix'] = (FE(1, c1.p), FE(2, c2.p))
    w['xyz'] = (1, 2, 3)
    w['x'] = (1,)
    w['empty'] = ()
    w['mixed'] = (1, 'x')
    w['mixed2'] = (FE(1, c1.p), 2)
    w['tupsub'] = TupSub(c1.G)
    w['lazyFE'], w['lazyPT'], w['lazyCV'] = LazyFE(1, 7), LazyPT(), LazyCV()
    w['lazyxy'] = (w['lazyFE'], w['lazyFE'])
    for k, t in KLASS.items():
        w['raw' + k] = t.__new__(t)
        w['type' + k] = t
    w['subFE'], w['subPT'] = SubFE(3, c1.p), SubPT(w['cvc1'], c1.G)
    for v in (0, 1, 2, 3, -1, -2, 255, 256, 1 << 30, 1 << 63, 1 << 64, -(1 << 63), (1 << 1023) - 1, 1 << 1023, (1 << 1024) - 1, 1 << 1024, (1 << 1024) + 1, 1 << 1030, 1 << 1088,
              (1 << 2047) - 1, 1 << 2047, 1 << 2048, -(1 << 2048), 1 << 4096, 1 << 9000, c1.p, c1.n, c2.p, c2.n, rnd.getrandbits(700)):
        w['int%x' % v if abs(v) < 1 << 70 else 'int%s2^%d' % ('-' if v < 0 else '', abs(v).bit_length())] = v
    w['True'], w['None'], w['NotImpl'], w['Ell'] = True, None, NotImplemented, ...
    w['float'], w['nan'], w['inf'], w['complex'] = 1.5, float('nan'), float('inf'), 1j
    w['intsub'], w['strsub'], w['bytessub'] = IntSub(12345), StrSub(c1.enc(c1.G, True).hex()), BytesSub(c1.enc(c1.G, True))
    w['s'], w['sname'], w['ssur'], w['snul'], w['suni'], w['slong'], w['sdec'] = '', 'secp256k1', '\ud800', 'secp256k1\0x', '\u20ac' * 40, 'ab' * 70000, '123'
    w['sencnul'] = c1.enc(c1.G, True).hex() + '\0zz'
    w['ssignul'] = w['rawc1'].hex() + '\0'
    w['b'], w['bnul'], w['blong'], w['bff'] = b'', b'\0', b'\4' * 70000, b'\xff' * 33
    w['ba'], w['mv'] = bytearray(c1.enc(c1.G, True)), memoryview(c1.enc(c1.G, True))
    w['list'], w['dict'], w['obj'], w['weird'], w['func'] = [1, 2], {'a': 1}, object(), Weird(), raiser
    for i, m in enumerate(badmodules()):
        w['mod_%s' % m.__name__] = m
    return W, w


def arith(f, sym):
    return (sym, 2, lambda a, b: f(a, b))


CALLS = [
    ('FE', 2, FE), ('FE', 2, FE), ('FE', 1, FE), ('FE', 0, FE), ('FE', 3, FE), ('FE.urandom', 1, FE.urandom), ('CV', 1, CV), ('CV', 0, CV), ('CV', 2, CV),
    ('PT', 2, PT), ('PT', 2, PT), ('PT', 2, PT), ('PT', 1, PT), ('PT', 0, PT), ('PT', 3, PT), ('PT.urandom', 1, PT.urandom),
    ('SS', 2, SS), ('SS', 2, SS), ('SS', 1, SS), ('SG', 2, SG), ('SG', 2, SG), ('SG', 1, SG), ('CT', 2, CT), ('CT', 1, CT), ('CT.encrypt', 2, CT.encrypt), ('CT.encrypt', 1, CT.encrypt),
    arith(lambda a, b: a + b, '+'), arith(lambda a, b: a - b, '-'), arith(lambda a, b: a * b, '*'), arith(lambda a, b: a ** b if not isinstance(a, int) and not isinstance(a, float) else 0, '**'),
    arith(lambda a, b: a / b, '/'), arith(lambda a, b: a // b, '//'), arith(lambda a, b: a % b if not isinstance(a, str) else 0, '%'),
    arith(lambda a, b: a == b, '=='), arith(lambda a, b: a != b, '!='), arith(lambda a, b: a < b, '<'), arith(lambda a, b: a >= b, '>='),
    ('pow3', 3, lambda a, b, c: pow(a, b, c) if not isinstance(a, int) else 0),
    ('neg', 1, lambda a: -a), ('pos', 1, lambda a: +a), ('abs', 1, lambda a: abs(a)), ('int', 1, lambda a: int(a) if not isinstance(a, (str, bytes)) else 0),
    ('str', 1, lambda a: str(a) if not isinstance(a, int) else 0), ('repr', 1, lambda a: repr(a) if not isinstance(a, (int, tuple)) else 0), ('bool', 1, lambda a: bool(a)), ('hash', 1, lambda a: hash(a)),
    ('float', 1, lambda a: float(a) if not isinstance(a, (int, str, bytes, bytearray)) else 0), ('len', 1, lambda a: len(a)),
    ('dir', 1, lambda a: dir(a) and None), ('sizeof', 1, lambda a: sys.getsizeof(a)),
    ('reinit', 2, lambda a, b: a.__init__(b) if type(a) in KLASS.values() else 0), ('reinit2', 3, lambda a, b, c: a.__init__(b, c) if type(a) in KLASS.values() else 0),
    ('bareuse', 1, lambda a: copy.copy(a) if type(a) in KLASS.values() else 0),
    ('pickle', 1, lambda a: pickle.loads(pickle.dumps(a)) if type(a) in KLASS.values() else 0),
    ('getattr', 2, lambda a, b: getattr(a, b)), ('setattr', 2, lambda a, b: setattr(a, 'p', b) if type(a) in KLASS.values() else 0),
    ('delattr', 1, lambda a: delattr(a, 'p') if type(a) in KLASS.values() else 0),
    ('new', 1, lambda a: a.__new__(a) if a in KLASS.values() else 0),
]
for nm in 'inverse sqrt affine compressed uncompressed setup_basemult AsBytes'.split():
    CALLS.append(('.' + nm, 1, lambda a, nm=nm: getattr(a, nm)()))
    CALLS.append(('.%s(x)' % nm, 2, lambda a, b, nm=nm: getattr(a, nm)(b)))
for nm in 'p n h G bits ctype a b c d A B C D nonsense cv curve'.split():
    CALLS.append(('.' + nm, 1, lambda a, nm=nm: getattr(a, nm) if type(a) in KLASS.values() else 0))
for nm, k in (('PointIsValid', 2), ('PointIsValid', 1), ('Sign', 2), ('Sign', 2), ('Sign', 1), ('Verify', 2), ('Verify', 2), ('Verify', 1), ('decrypt', 1), ('decrypt', 1), ('decrypt', 0)):
    CALLS.append(('.' + nm, k + 1, lambda a, *b, nm=nm: getattr(a, nm)(*b)))
for nm in ('affine', 'compressed', '__repr__', '__neg__', '__int__', '__add__', 'setup_basemult'):
    CALLS.append(('PT.%s(x)' % nm, 1, lambda a, nm=nm: getattr(PT, nm)(a)))
for nm in ('inverse', '__int__', '__repr__', '__neg__', 'sqrt'):
    CALLS.append(('FE.%s(x)' % nm, 1, lambda a, nm=nm: getattr(FE, nm)(a)))


def usable(r):
    """what a call returned must be whole: -> complaint or None"""
    t = type(r)
    if isinstance(r, tuple) and len(r) <= 4:
        for x in r:
            u = usable(x)
            if u:
                return u
        return None
    if t not in KLASS.values() and t not in (SubFE, SubPT):
        return None
    try:
        s = repr(r)
    except ValueError as e:
        return None if 'not initialized' in str(e) else 'repr raised %r' % e
    except Boom:
        return None         # raised by the hash module's own repr
    if isinstance(r, FE):
        v, p = int(r), int(s.rstrip(')').split(',')[-1])
        if not 0 <= v < p:
            return '%r is out of range' % r
        if int(r + (p - v)) != 0:
            return '%r plus its negative is not 0' % r
    elif isinstance(r, PT):
        u = onwhole(r, s)
        if u:
            return u
        r + r, -r, r * 3
    elif t is CT:
        for x in (r.C, r.D):
            u = usable(x)
            if u:
                return u
    elif t is SG:
        if not 0 < len(r.AsBytes()):
            return 'empty signature'
    return None


def onwhole(r, s):
    """the point lies on the curve its repr states, and encodes consistently"""
    i = s.rindex(')')
    cvs = s[len('ECC.ECPoint('):s.rindex(', ')]
    c = eval(cvs, {'ECC': ECC})
    form = {'ShortWeierstrass': WS, 'Edwards': ED, 'Montgomery': MO, 'TwistedEdwards': TE}[c.ctype]
    co = {WS: 'ab', ED: 'cd', MO: 'BA', TE: 'ad'}[form]
    ref = Curve(form, c.p, getattr(c, co[0]), getattr(c, co[1]), c.n, c.h, c.G, c.bits)
    b = r.uncompressed()
    ok = [x for x in codec.decode(ref, b) if x]
    if not ok:
        return 'the point %s does not lie on its curve' % b.hex()
    if r.compressed() != ref.enc(ok[0][1], True):
        return 'the encodings of the point differ: %s %s' % (r.compressed().hex(), b.hex())
    return None


def attempt(label, f, args, names):
    """one call: it may raise, not break"""
    note('%s(%s)' % (label, ', '.join(names)))
    watch, names = list(args), list(names)
    for n, a in zip(list(names), args):
        if isinstance(a, types.ModuleType) and a is not sys and type(a.__dict__.get('new')) is types.FunctionType:
            watch.append(a.new)
            names.append(n + '.new')
    before = [sys.getrefcount(a) for a in watch]
    r, exc, msg = None, None, ''
    try:
        r = f(*args)
    except Exception as e:
        exc, msg = type(e), str(e)
    res['evals'] += 1
    if exc is SystemError:
        bad('%s:SystemError' % label, '%s(%s) raised SystemError: %s' % (label, ', '.join(names), msg))
    mid = [sys.getrefcount(a) for a in watch]
    u = None
    if exc is None:
        u = usable(r)
    if u:
        bad('%s:result' % label, '%s(%s): %s' % (label, ', '.join(names), u))
    r = None
    after = [sys.getrefcount(a) for a in watch]
    kept = label.startswith('reinit') and names[0].startswith('raw') and exc is None    # a blank object made whole holds its arguments
    for n, a, x, m, y in zip(names, watch, before, mid, after):
        if isinstance(a, str) and label in ('getattr', 'new'):
            continue                                                                    # Python interns attribute names
        if m < x or (y < x if kept else y != x):
            bad('%s:refcount' % label, '%s(%s): reference count of %s went %d -> %d (result alive) -> %d (result dropped)' % (label, ', '.join(names), n, x, m, y))
            break
    distinct.add(hash((label, tuple(type(a).__name__ for a in args), exc.__name__ if exc else 'ok', msg[:24])))
    bump('calls_raised' if exc else 'calls_returned')
    return exc


def relevant(label, i, w, names):
    """bias: arguments that reach deeper into the call"""
    k = label.split('.')[0]
    if label in ('PT', 'SS') and i == 0:
        return [n for n in names if n.startswith('cv')]
    if label == 'SG' and i == 0:
        return [n for n in names if n.startswith('ss') and w[n].__class__ is SS]
    if label in ('CT', 'CT.encrypt', '.Verify') and i <= 1:
        pts = [n for n in names if n[0] in 'GKN' and isinstance(w[n], PT)]
        return pts if label != '.Verify' or i else [n for n in names if n.startswith('sg')]
    if label == '.Sign' and i <= 1:
        return [n for n in names if (isinstance(w[n], SS) if i == 0 else isinstance(w[n], (FE, int)))]
    if label == '.decrypt':
        return [n for n in names if isinstance(w[n], CT if i == 0 else (FE, int))]
    if label == 'SS' and i == 1:
        return [n for n in names if n.startswith(('hm', 'mod_'))]
    if label == 'PT' and i == 1:
        return [n for n in names if n.startswith(('enc', 'xy', 'off', 'fe', 'senc', 'tup', 'lazyxy', 'mixed'))]
    if label == '.PointIsValid' and i == 0:
        return [n for n in names if n.startswith('cv')]
    if label in '+ - * ** == != < pow3 neg' or label.startswith('.'):
        return [n for n in names if isinstance(w[n], tuple(KLASS.values()))]
    return names


def misuse(n):
    for _ in range(n):
        fresh()
        W, w = world()
        names = list(w)
        for _ in range(700):
            label, k, f = rnd.choice(CALLS)
            args = []
            for i in range(k):
                pool = names if rnd.random() < .35 else relevant(label, i, w, names) or names
                args.append(rnd.choice(pool))
            attempt(label, f, [w[a] for a in args], args)
            if len(history) > 3000:
                fresh()
        must(W, w)
        bump('worlds')
    if len(res['samples']) < 3:
        res['samples'].append('misuse: ' + ' ; '.join(history[:8]))


def must(W, w):
    """calls that have to be refused, and what may not change"""
    T = []
    for a, b in (('c1', 'c2'), ('c2', 'c3'), ('c3', 'c1')):
        if W[a].params()[:4] == W[b].params()[:4] or W[a].p == W[b].p or W[a].n == W[b].n:
            continue
        Ga, Gb, fa, fb, na, nb = ('G' + a, 'G' + b, 'fp' + a, 'fp' + b, 'fn' + a, 'fn' + b)
        T += [('%s + %s' % (Ga, Gb), ValueError), ('%s - %s' % (Ga, Gb), ValueError), ('%s + %s' % (fa, fb), ValueError), ('%s - %s' % (fa, fb), ValueError), ('%s * %s' % (fa, fb), ValueError),
              ('CT(%s, %s)' % (Ga, Gb), ValueError), ('CT.encrypt(%s, %s)' % (Ga, Gb), ValueError), ('PT(cv%s, fexy%s)' % (a, b), ValueError), ('ct%s.decrypt(%s)' % (a, nb), ValueError),
              ('ss%s.Sign(%s, b"x")' % (a, nb), ValueError), ('PT(cv%s, off%s)' % (a, a), None if W[a].on(w['off' + a]) else ValueError), ('PT(cv%s, "zz")' % a, ValueError), ('PT(cv%s, b"")' % a, ValueError),
              ('PT(cv%s, "")' % a, ValueError), ('PT(cv%s, 5)' % a, TypeError), ('PT(cv%s, None)' % a, TypeError), ('PT(5, xy%s)' % a, TypeError), ('SG(ss%s, b"")' % a, ValueError),
              ('SG(ss%s, "")' % a, ValueError), ('SG(ss%s, raw%s + b"x")' % (a, a), ValueError), ('SG(ss%s, b"\\0" * len(raw%s))' % (a, a), ValueError),
              ('SG(ss%s, b"\\xff" * len(raw%s))' % (a, a), ValueError), ('ss%s.Sign(%s, b"")' % (a, na), ValueError), ('ss%s.Sign(%s, "\\ud800")' % (a, na), UnicodeError),
              ('ss%s.Sign("1", b"x")' % a, TypeError), ('ss%s.Sign(1, 5)' % a, TypeError), ('sg%s.Verify(1, b"x")' % a, TypeError), ('sg%s.Verify(%s, 5)' % (a, Ga), TypeError),
              ('%s < %s' % (Ga, Ga), TypeError), ('%s + 1' % Ga, TypeError), ('1 + %s' % Ga, TypeError), ('%s * %s' % (Ga, Ga), TypeError), ('%s * "x"' % Ga, TypeError), ('"x" * %s' % Ga, TypeError),
              ('%s * 1.5' % Ga, TypeError), ('%s + %s' % (Ga, fa), TypeError), ('%s + "x"' % fa, TypeError), ('"x" - %s' % fa, TypeError), ('1.5 - %s' % fa, TypeError), ('%s ** -1' % fa, ValueError),
              ('%s ** 1.5' % fa, (ValueError, TypeError)), ('%s ** (1 << 80)' % fa, ValueError), ('pow(%s, 2, 3)' % fa, (ValueError, TypeError)),
              ('FE(1, 0)', ValueError), ('FE(1, -7)', (ValueError, TypeError)), ('FE(1, 1 << 1024)', ValueError), ('FE(1, 1 << 5000)', ValueError), ('FE("1", 7)', TypeError), ('FE(1, "7")', TypeError), ('FE(1)', TypeError),
              ('FE.urandom(0)', ValueError), ('FE.urandom(-7)', (ValueError, TypeError)), ('FE.urandom("x")', TypeError), ('PT.urandom(5)', TypeError),
              ('CV("no such curve")', ValueError), ('CV(5)', TypeError), ('CV("secp256k1\\0")', (ValueError, TypeError)), ('CV("\\ud800")', (ValueError, TypeError)),
              ('cv%s.PointIsValid(-1, 2)' % a, ValueError), ('cv%s.PointIsValid("x", 2)' % a, ValueError), ('SS(cv%s, 5)' % a, TypeError), ('SS(cv%s, mod_empty)' % a, TypeError),
              ('SS(cv%s, mod_nosize)' % a, TypeError), ('SS(cv%s, mod_nonew)' % a, TypeError), ('SS(cv%s, mod_raisenew)' % a, Exception), ('SS(cv%s, mod_lyingsize)' % a, (TypeError, ValueError)),
              ('SS(cv%s, mod_strdigest)' % a, TypeError), ('SS(cv%s, mod_negsize)' % a, ValueError), ('%s == 5' % Ga, False), ('%s == %s' % (Ga, Gb), False), ('%s != %s' % (Ga, Gb), True), ('%s == None' % Ga, False),
              ('%s == %s' % (fa, fb), False), ('%s != %s' % (fa, fb), True), ('cv%s == 5' % a, False), ('cv%s == cv%s' % (a, b), False), ('sg%s.Verify(%s, b"x")' % (a, Gb), False), ('sg%s.Verify(%s, b"")' % (a, Ga), False),
              ('sg%s.Verify(%s, b"x")' % (a, 'N' + a), None)]
        v = W[a]
        pars = [v.p, v.c1, v.c2, v.n, v.h, v.G[0], v.G[1], v.bits]
        mk = 'CV.%s(' % {WS: 'ShortWeierstrass', ED: 'Edwards', MO: 'Montgomery', TE: 'TwistedEdwards'}[v.form]
        for i in range(8):
            for x, ex in ((-1, (ValueError, OverflowError)), ('x', (ValueError, TypeError)), (None, (ValueError, TypeError)), (0, None), (1 << 1024, None), (1 << 3000, None), (1.5, (ValueError, TypeError))):
                q = list(pars)
                q[i] = x
                T.append((mk + ', '.join(map(repr, q)) + ')', ex if i < 7 else (ValueError, TypeError, OverflowError)))
        for q in ([0] + pars[1:], [v.p + 1] + pars[1:], [v.p * 3] + pars[1:], pars[:3] + [0] + pars[4:], [1] + pars[1:], [2] + pars[1:]):
            T.append((mk + ', '.join(map(repr, q)) + ')', ValueError))
        off = (v.G[0], (v.G[1] + 1) % v.p)
        if not v.on(off):
            T.append((mk + ', '.join(map(repr, pars[:6] + [off[1], v.bits])) + ')', ValueError))
        for k in range(8):
            T.append((mk + ', '.join(map(repr, pars[:k])) + ')', TypeError))
    ns = dict(w)
    ns.update(KLASS)
    for src, want in T:
        note(src)
        try:
            r = eval(src, ns)
            got = None
        except Exception as e:
            got, r = type(e), None
            m = str(e)
        res['evals'] += 1
        distinct.add(hash(src[:30]))
        if want in (True, False):
            if got is not None or r is not want:
                bad('must:%s' % src.split('(')[0][:20], '%s: %r, expected %s' % (src, got or r, want))
        elif want is None:
            if got is SystemError:
                bad('must:SystemError', '%s raised SystemError: %s' % (src, m))
            if got is None:
                u = usable(r)
                if u:
                    bad('must:result', '%s: %s' % (src, u))
        elif got is None:
            bad('must:%s' % src.split('(')[0][:20], '%s returned %.200r, it has to be refused' % (src, r))
        elif not issubclass(got, want) or got is SystemError:
            bad('must:type', '%s raised %s (%s), expected %s' % (src, got.__name__, m, want))
        r = None


# ---------------------------------------------------------------- memory growth
_alloc = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
_alloc.restype = ctypes.c_size_t

GROW = '''
FE(5, P)
FE(-5 - (1 << 3000), P)
FE("x", P)
FE(1, "x")
FE(1, 0)
FE(1, 1 << 1024)
FE(1)
FE.urandom(P)
FE.urandom("x")
FE.urandom(0)
fe + fe2
fe - fe2
fe * fe2
fe + 5
5 + fe
fe - 5
5 - fe
fe * (1 << 2100)
(1 << 2100) * fe
-(1 << 2100) - fe
fe + fo
fe - fo
fe * fo
fe * "x"
"x" - fe
-fe
fe ** 5
fe ** (1 << 80)
fe ** -1
fe ** "x"
pow(fe, 2, 3)
fe.inverse()
zero.inverse()
fe.sqrt()
(fe * fe).sqrt()
(fe * fe * nonres).sqrt()
zero.sqrt()
fe == fe2
fe == 5
fe != (1 << 3000)
fe == fo
fe < fe2
fe < 5
fe == "x"
int(fe)
repr(fe)
CV(name)
CV("nothing")
CV(5)
eval(repr(cv), {"ECC": ECC})
cv == cv2
cv != co
cv == 5
cv < cv2
cv.p
cv.n
cv.h
cv.G
cv.bits
cv.ctype
cv.nonsense
getattr(cv, c1)
getattr(cv, c2)
getattr(cv, "\\ud800")
repr(cv)
CV._CurveNames()
cv.PointIsValid(*xy)
cv.PointIsValid(1, 2)
cv.PointIsValid("x", 2)
cv.PointIsValid(1, -2)
cv.PointIsValid(1)
mk(*pars)
mk(0, *pars[1:])
mk("x", *pars[1:])
mk(*pars[:6], pars[6] + 1, pars[7])
mk(*pars[:6], -1, pars[7])
mk(*pars[:7])
PT(cv)
PT(cv, xy)
PT(cv, fexy)
PT(cv, feoff)
PT(cv, fomix)
PT(cv, (xy[0], "x"))
PT(cv, (xy[0], xy[1] + 1))
PT(cv, (1, 2, 3))
PT(cv, enc)
PT(cv, encu)
PT(cv, enc.hex())
PT(cv, encu.hex())
PT(cv, enc[:-1])
PT(cv, enc.hex()[:-1])
PT(cv, b"")
PT(cv, "zz")
PT(cv, "\\ud800")
PT(cv, enc.hex() + "\\0")
PT(cv, 5)
PT(cv, b"\\4" + b"\\0" * (len(encu) - 1))
PT(5)
PT(rawcv)
PT.urandom(cv)
PT.urandom(5)
pt + pt2
pt - pt2
pt + po
pt - po
pt + 5
-pt
pt * 5
5 * pt
pt * -(1 << 3000)
pt * fn
fn * pt
pt * "x"
pt * None
pt * pt2
pt == pt2
pt != po
pt == 5
pt < pt2
pt.affine()
neutral.affine()
pt.compressed()
pt.uncompressed()
str(pt)
repr(pt)
pt.setup_basemult()
neutral.setup_basemult()
PT(cv, xy).setup_basemult()
neutral + neutral
neutral * 7
pt.nonsense
SS(cv, hm)
SS(cv, 5)
SS(5, hm)
SS(cv, b_nosize)
SS(cv, b_nonew)
SS(cv, b_raisenew)
SS(cv, b_raisedigest)
SS(cv, b_strdigest)
SS(cv, b_lyingsize)
SS(cv, b_nodigest)
SS(cv, b_negsize)
SS(cv, b_hugesize)
SS(rawcv, hm)
repr(ss)
ss.Sign(fn, b"message")
ss.Sign(fn, "message")
ss.Sign(77, b"message" * 40)
ss.Sign(-(1 << 2200), "message" * 40)
ss.Sign(fn, b"")
ss.Sign(fn, "")
ss.Sign(fn, "\\ud800")
ss.Sign(77, "\\ud800")
ss.Sign(77, 5)
ss.Sign(fn, 5)
ss.Sign(fe, b"x")
ss.Sign("x", b"x")
ss.Sign(1)
armed.Sign(77, b"message")
armed.Sign(fn, "message")
armedshort.Sign(77, b"message")
sig.Verify(pt, b"message")
sig.Verify(pt, "message" * 30)
sig.Verify(pt, b"")
sig.Verify(pt, "\\ud800")
sig.Verify(po, b"message")
sig.Verify(5, b"message")
sig.Verify(pt, 5)
sig.Verify(pt)
asig.Verify(pt, b"message")
asig.Verify(pt, "message")
sig.AsBytes()
str(sig)
repr(sig)
SG(ss, raw)
SG(ss, raw.hex())
SG(ss, raw[:-1])
SG(ss, "zz")
SG(ss, "\\ud800")
SG(ss, raw.hex() + "\\0")
SG(ss, 5)
SG(5, raw)
SG(ss, b"\\0" * len(raw))
CT(pt, pt2)
CT(pt, po)
CT(pt, 5)
CT(5, pt)
CT.encrypt(pt, pt2)
CT.encrypt(pt, po)
CT.encrypt(pt, 5)
CT.encrypt(pt)
ct.C
ct.D
ct.nonsense
getattr(ct, "\\ud800")
str(ct)
repr(ct)
ct.decrypt(77)
ct.decrypt(-(1 << 2500))
ct.decrypt(fn)
ct.decrypt(fe)
ct.decrypt("x")
fe.__init__(1, 7)
cv.__init__(name)
pt.__init__(cv)
ss.__init__(cv, hm)
sig.__init__(ss, raw)
ct.__init__(pt, pt)
copy.copy(pt)
SS(CV(name), mkhash("a", 32)).Sign(3, b"fresh")
SG(SS(mk(*pars), mkhash("a", 32)), raw)
(lambda s: s.Sign(3, b"fresh").Verify(PT(mk(*pars), xy), b"fresh"))(SS(mk(*pars), mkhash("a", 32)))
CT.encrypt(PT(mk(*pars), xy), PT(mk(*pars), enc)).decrypt(5)
CT(PT(mk(*pars), xy), PT(mk(*pars), enc)).decrypt(FE(77, n))
CT(PT(mk(*pars), xy), PT(mk(*pars), enc)).D
PT(mk(*pars), xy) + PT(mk(*pars), enc)
PT(mk(*pars), xy) - PT(mk(*pars), enc)
-PT(mk(*pars), xy)
PT(mk(*pars), xy) * 5
PT(mk(*pars), xy) == PT(mk(*pars), enc)
PT(mk(*pars)) + PT(mk(*pars), enc)
FE(3, n) * PT(mk(*pars), xy)
PT.urandom(mk(*pars)).setup_basemult()
repr(SS(mk(*pars), mkhash("a", 32)))
repr(SS(mk(*pars), b_badrepr))
str(SG(SS(cv, b_badrepr), raw))
repr(SG(SS(cv, b_badrepr), raw))
SS(mk(*pars), mkhash("a", 32)).Sign(FE(3, n), "fresh").AsBytes()
FE.__new__(FE) + fe
PT.__new__(PT) + pt
CV.__new__(CV) == cv
SG.__new__(SG).AsBytes()
SS.__new__(SS).Sign(1, b"x")
CT.__new__(CT).decrypt(5)
'''


def growns(cv, other):
    FORM = {WS: 'ShortWeierstrass', ED: 'Edwards', MO: 'Montgomery', TE: 'TwistedEdwards'}
    mk = getattr(CV, FORM[cv.form])
    pars = [cv.p, cv.c1, cv.c2, cv.n, cv.h, cv.G[0], cv.G[1], cv.bits]
    C = mk(*pars)
    C2 = mk(*pars)
    O = getattr(CV, FORM[other.form])(other.p, other.c1, other.c2, other.n, other.h, other.G[0], other.G[1], other.bits)
    p, n = cv.p, cv.n
    nr = next(x for x in range(2, 5000) if jacobi(x, p) == -1)
    hm = mkhash('hm', 32)
    ss = SS(C, hm)
    L = (n.bit_length() + 7) // 8
    ns = dict(KLASS)
    fl, fl2 = Flip(raiser), Flip(lambda d: b'short')
    armed, armed2 = SS(C, mkhash('fl', 32, digest=fl.digest)), SS(C, mkhash('fl2', 32, digest=fl2.digest))
    asig = armed.Sign(3, b'm')
    fl.armed = fl2.armed = True
    nm = {m.__name__: m for m in badmodules()}
    d = 1 + rnd.randrange(n - 1)
    ns.update(P=p, fe=FE(rnd.randrange(1, p), p), fe2=FE(rnd.randrange(1, p), p), fo=FE(1, other.p), zero=FE(0, p), nonres=FE(nr, p), name='secp112r1', ECC=ECC, cv=C, cv2=C2, co=O,
              c1={WS: 'a', ED: 'c', MO: 'B', TE: 'a'}[cv.form], c2={WS: 'b', ED: 'd', MO: 'A', TE: 'd'}[cv.form], xy=cv.G, mk=mk, pars=pars, fexy=(FE(cv.G[0], p), FE(cv.G[1], p)),
              feoff=(FE(cv.G[0], p), FE(cv.G[1] + 1, p)), fomix=(FE(cv.G[0], p), FE(1, other.p)), enc=cv.enc(cv.G, True), encu=cv.enc(cv.G, False), rawcv=CV.__new__(CV), pt=PT(C, cv.G),
              pt2=PT(C2, cv.mul(5, cv.G)), po=PT(O, other.G), fn=FE(d, n), neutral=PT(C), hm=hm, ss=ss, raw=(3).to_bytes(L, 'big') * 2, ct=CT(PT(C, cv.G), PT(C2, cv.mul(3, cv.G))), copy=copy, n=n, mkhash=mkhash,
              armed=armed, armedshort=armed2, asig=asig, **{'b_' + k: v for k, v in nm.items()})
    ns['sig'] = SG(ss, ns['raw'])
    return ns


def growth(n, reps=60):
    lines = [x for x in GROW.strip().split('\n')]
    for k in range(n):
        fresh()
        cv = rnd.choice([c for c in zoo.named + zoo.iso if c.p.bit_length() < 400 and is_prime(c.n)])
        other = rnd.choice([c for c in zoo.named if c.p != cv.p and c.n != cv.n and c.p.bit_length() < 400])
        note('# memory growth on %s' % cv.label())
        ns = growns(cv, other)

        def loop(code, r):
            for _ in range(r):
                try:
                    eval(code, ns)
                except Exception:
                    pass
        for src in lines:
            note(src)
            code = compile(src, '<op>', 'eval')
            loop(code, 12)
            best = None
            for attempt_ in range(4):
                gc.collect()
                sys._clear_type_cache()     # it keeps the names of methods that were looked up
                a = _alloc()
                loop(code, reps)
                gc.collect()
                sys._clear_type_cache()
                g = _alloc() - a
                best = g if best is None else min(best, g)
                if best < reps * 8:
                    break
            res['evals'] += 1
            distinct.add(hash((src, cv.form)))
            bump('growth_probes')
            if best >= reps * 8:
                bad('growth:%s' % src[:40], '%d repetitions of "%s" on %s left %d more bytes allocated (%.1f each)' % (reps, src, cv.label(), best, best / reps))


# ---------------------------------------------------------------- lifetimes
def lifetimes(n):
    for _ in range(n):
        fresh()
        cv = rnd.choice(SMALL + [c for c in zoo.tiny[10:] if is_prime(c.n) and c.n > 40])
        f = getattr(CV, {WS: 'ShortWeierstrass', ED: 'Edwards', MO: 'Montgomery', TE: 'TwistedEdwards'}[cv.form])
        mk = lambda: f(cv.p, cv.c1, cv.c2, cv.n, cv.h, cv.G[0], cv.G[1], cv.bits)
        note('# lifetimes on %s' % cv.label())
        live = {}           # name -> (kind, object, what it must say)
        cnt = [0]
        L = (cv.n.bit_length() + 7) // 8

        def put(kind, o, val):
            nm = '%s%d' % (kind, cnt[0])
            cnt[0] += 1
            live[nm] = (kind, o, val)
            return nm

        def pick(kind):
            c = [k for k, v in live.items() if v[0] == kind]
            return rnd.choice(c) if c else None
        put('cv', mk(), None)
        for _ in range(50):
            ops = ['cv', 'pt', 'add', 'mul', 'neg', 'ct', 'enc', 'dec', 'half', 'ss', 'sign', 'sgimp', 'verify', 'base', 'drop', 'drop', 'drop', 'gc', 'check', 'repr', 'fe', 'femul']
            op = rnd.choice(ops)
            c, p, q, t, s, g, e = (pick(k) for k in ('cv', 'pt', 'pt', 'ct', 'ss', 'sg', 'fe'))
            o = lambda nm: live[nm][1]
            v = lambda nm: live[nm][2]
            if op == 'cv':
                note('%s = curve' % put('cv', mk(), None))
            elif op == 'pt' and c:
                P = cv.rand_sub(rnd)
                note('%s = PT(%s, ..)' % (put('pt', PT(o(c), P if rnd.random() < .5 else cv.enc(P, True)) if P else PT(o(c)), P), c))
            elif op == 'add' and p and q:
                note('%s = %s + %s' % (put('pt', o(p) + o(q), cv.add(v(p), v(q))), p, q))
            elif op == 'neg' and p:
                note('%s = %s - %s' % (put('pt', o(p) - o(q), cv.sub(v(p), v(q))), p, q))
            elif op == 'mul' and p:
                k = rnd.randrange(cv.n)
                note('%s = %s * %d' % (put('pt', o(p) * k, cv.mul(k, v(p))), p, k))
            elif op == 'fe':
                k = rnd.randrange(cv.n)
                note('%s = FE' % put('fe', FE(k, cv.n), k))
            elif op == 'femul' and p and e:
                note('%s = %s * %s' % (put('pt', o(e) * o(p), cv.mul(v(e), v(p))), e, p))
            elif op == 'ct' and p and q:
                note('%s = CT(%s, %s)' % (put('ct', CT(o(p), o(q)), (v(p), v(q))), p, q))
            elif op == 'enc' and p and q:
                x = CT.encrypt(o(p), o(q))
                C, D = x.C, x.D
                dec = lambda y: [z for z in codec.decode(cv, y.uncompressed()) if z][0][1]
                note('%s = CT.encrypt(%s, %s)' % (put('ct', x, (dec(C), dec(D))), p, q))
            elif op == 'dec' and t:
                d = rnd.randrange(cv.n)
                key = d if rnd.random() < .5 else FE(d, cv.n)
                note('%s = %s.decrypt(%d)' % (put('pt', o(t).decrypt(key), cv.sub(v(t)[1], cv.mul(d, v(t)[0]))), t, d))
            elif op == 'half' and t:
                i = rnd.randrange(2)
                note('%s = %s.%s' % (put('pt', o(t).D if i else o(t).C, v(t)[i]), t, 'CD'[i]))
            elif op == 'ss' and c:
                note('%s = SS(%s, hash)' % (put('ss', SS(o(c), mkhash('h', 32)), None), c))
            elif op == 'sign' and s:
                if cv.n.bit_length() > 60:
                    d = rnd.randrange(1, cv.n)
                    m = rnd.randbytes(rnd.randrange(1, 40))
                    x = o(s).Sign(d, m)
                    note('%s = %s.Sign(%d, ..)' % (put('sg', x, (x.AsBytes(), cv.mul(d, cv.G), m)), s, d))
            elif op == 'sgimp' and s:
                b = rnd.randrange(1, cv.n).to_bytes(L, 'big') * 2
                note('%s = SG(%s, ..)' % (put('sg', SG(o(s), b), (b, None, None)), s))
            elif op == 'verify' and g and v(g)[1]:
                K = PT(mk(), v(g)[1])
                note('%s.Verify' % g)
                res['evals'] += 1
                if o(g).Verify(K, v(g)[2]) is not True:
                    bad('lifetime:verify', '%s no longer verifies' % g)
                    break
            elif op == 'base' and p:
                note('%s.setup_basemult()' % p)
                o(p).setup_basemult()
            elif op == 'drop' and len(live) > 3:
                nm = rnd.choice(list(live)) if rnd.random() < .7 else (c or rnd.choice(list(live)))
                note('del ' + nm)
                del live[nm]
            elif op == 'gc':
                gc.collect()
            elif op == 'repr':
                for nm, (k, x, y) in list(live.items()):
                    if k != 'ss':
                        note('repr(%s)' % nm)
                        repr(x), str(x)
            elif op == 'check':
                if not checkall(cv, live):
                    break
            bump('lifetime_' + op)
        else:
            checkall(cv, live)
        order = list(live)
        rnd.shuffle(order)
        while order:
            note('del ' + order[-1])
            del live[order.pop()]
            if rnd.random() < .3 and not checkall(cv, live):
                break
        distinct.add(hash(tuple(history)))
        if len(res['samples']) < 5:
            res['samples'].append('lifetimes: ' + ' ; '.join(x[:50] for x in history[:14]))


def checkall(cv, live):
    for nm, (k, x, v) in live.items():
        note('check ' + nm)
        res['evals'] += 1
        if k == 'pt':
            ok = x.uncompressed() == cv.enc(v, False) and (x + x).compressed() == cv.enc(cv.dbl(v), True)
        elif k == 'ct':
            ok = x.C.compressed() == cv.enc(v[0], True) and x.D.compressed() == cv.enc(v[1], True)
        elif k == 'sg':
            ok = x.AsBytes() == v[0]
        elif k == 'fe':
            ok = int(x) == v
        elif k == 'cv':
            ok = x.p == cv.p and x.G == cv.G
        else:
            ok = 'ECDSASignatureScheme' in repr(x)
        if not ok:
            bad('lifetime:%s' % k, '%s changed its value' % nm)
            return False
    return True


# ---------------------------------------------------------------- callbacks and threads
def callbacks(n):
    for _ in range(n):
        fresh()
        cv = rnd.choice(SMALL)
        C = CV(cv.name)
        d = rnd.randrange(1, cv.n)
        K = PT(C, cv.mul(d, cv.G))
        for m, fl in flipmodules():
            note('hash that %s' % m.__name__)
            S = SS(C, m)
            g = S.Sign(d, b'before')
            fl.armed = True
            for what, f in (('Sign', lambda: S.Sign(d, b'after')), ('Sign(str)', lambda: S.Sign(d, 'after')), ('Verify', lambda: g.Verify(K, b'before'))):
                note('%s with a hash that %s' % (what, m.__name__))
                try:
                    r = f()
                    e = None
                except Exception as ex:
                    r, e = None, type(ex)
                res['evals'] += 1
                distinct.add(hash((m.__name__, what)))
                if e is SystemError:
                    bad('callback:SystemError', '%s with a hash that %s raised SystemError' % (what, m.__name__))
                if m.__name__ == 'collects':
                    if e is not None:
                        bad('callback:gc', '%s failed under gc: %s' % (what, e))
                elif e is None:
                    bad('callback:ignored', '%s returned %r although the hash %s' % (what, r, m.__name__))
            for attr in ('new', 'digest_size'):
                note('del %s of the hash module' % attr)
                if hasattr(m, attr):
                    delattr(m, attr)
                try:
                    r = S.Sign(d, b'x')
                    if attr == 'new':
                        bad('callback:new', 'Sign worked without hash function')
                except Exception as ex:
                    if type(ex) is SystemError:
                        bad('callback:SystemError', 'Sign with a module that lost %s raised SystemError' % attr)
                res['evals'] += 1
        # a hash that signs, verifies, drops and collects
        depth = [0]
        box = {}

        def reenter(dt):
            if depth[0] < 3:
                depth[0] += 1
                note('nested Sign, depth %d' % depth[0])
                g = box['S'].Sign(d, dt + b'n')
                if not g.Verify(K, dt + b'n'):
                    bad('callback:nested', 'a nested signature does not verify')
                depth[0] -= 1
                gc.collect()
            return toy_hash(dt, 32)
        note('hash that signs again')
        box['S'] = SS(C, mkhash('nest', 32, digest=lambda dt: toy_hash(dt, 32)))
        inner = box['S']
        N = SS(C, mkhash('nest2', 32, digest=reenter))
        g = N.Sign(d, b'outer')
        depth[0] = 3
        if not g.Verify(K, b'outer'):
            bad('callback:outer', 'signature made with a nesting hash does not verify')
        depth[0] = 0
        r, s = (int.from_bytes(x, 'big') for x in (g.AsBytes()[:len(g.AsBytes()) // 2], g.AsBytes()[len(g.AsBytes()) // 2:]))
        if not ecdsa_valid(cv, cv.mul(d, cv.G), toy_hash(b'outer', 32), r, s):
            bad('callback:outer', 'signature made with a nesting hash is not valid')
        # the scheme's last outside reference goes away while it works
        holder = []

        def dropper(dt):
            holder.clear()
            gc.collect()
            return toy_hash(dt, 32)
        note('hash that drops the scheme')
        holder.append(SS(C, mkhash('drop', 32, digest=dropper)))
        holder.append(0) if False else None
        holder[:] = [SS(CV(cv.name), mkhash('drop', 32, digest=dropper))] if holder == [] else holder
        if holder:
            g = holder[0].Sign(d, b'dropped')
            if not g.Verify(K, b'dropped'):
                bad('callback:dropped', 'signature by a dropped scheme does not verify')
        res['evals'] += 3
        # threads switch inside the hash
        S = SS(C, mkhash('thr', 32, digest=lambda dt: toy_hash(dt, 32)))
        errs = []

        def work(i):
            r2 = random.Random(i)
            for j in range(4):
                m = b'%d-%d' % (i, j)
                g = S.Sign(d, m)
                if not g.Verify(K, m) or g.Verify(K, m + b'x'):
                    errs.append((i, j))
        note('4 threads sign with one scheme')
        sys.setswitchinterval(1e-6)
        th = [threading.Thread(target=work, args=(i,)) for i in range(4)]
        [t.start() for t in th]
        [t.join() for t in th]
        sys.setswitchinterval(.005)
        res['evals'] += 16
        if errs:
            bad('threads', 'signatures made in threads do not verify: %s' % errs)
        bump('callback_rounds')


{'misuse': misuse, 'growth': growth, 'lifetimes': lifetimes, 'callbacks': callbacks}[MODE](COUNT)
res['distinct'] = sorted(distinct)
with open(OUT, 'w') as fh:
    json.dump(res, fh)
