"""C06: named curves - published parameters, internal consistency, loading in any order."""
import random
import vlib
import zoo
from ecref import *
from vlib import Case

BAD = ['', 'secp256', 'SECP256K1', 'secp256k1 ', 'secp256k11', 'P-256', 'Curve2551', 'ed25519', 'Ed25519x', 'none', 'P25', '%s', 'E-22', 'brainpoolP256', 'secp112r', 'M-51', 'curve25519', 'X25519', 'P256P384', 'E-2222']


def consistent(cv):
    """group-theoretic soundness of the parameters that the library itself reports"""
    if not is_prime(cv.p):
        return 'the field size is not prime'
    if not is_prime(cv.n):
        return 'the order is not prime'
    p = cv.p
    if cv.form == WS and (4 * cv.c1 ** 3 + 27 * cv.c2 ** 2) % p == 0:
        return 'singular'
    if cv.form == MO and (cv.c1 == 0 or (cv.c2 ** 2 - 4) % p == 0):
        return 'singular'
    if cv.form == ED and (cv.c1 == 0 or jacobi(cv.c2, p) != -1 or (1 - cv.c2 * cv.c1 ** 4) % p == 0):
        return 'singular or incomplete'
    if cv.form == TE and (jacobi(cv.c1, p) != 1 or jacobi(cv.c2, p) != -1):
        return 'singular or incomplete'
    if not (0 <= cv.G[0] < p and 0 <= cv.G[1] < p and cv.on(cv.G)):
        return 'generator is not on the curve'
    if cv.G == cv.O or cv.mul(cv.n, cv.G) != cv.O:
        return 'generator does not have order n'
    t = cv.n * cv.h - (p + 1)
    if t * t > 4 * p:
        return 'n*h is outside the Hasse interval'
    if cv.bits != p.bit_length():
        return 'bits=%d for a field prime of %d bits' % (cv.bits, p.bit_length())
    return None


_ok = {}


def check_dump(name):
    def f(got):
        v = got.split(',')
        ref = zoo.by_name.get(name)
        if ref is not None and got != ref.dump():
            return 'parameters differ from the published ones: %s instead of %s' % (got, ref.dump())
        if got not in _ok:
            x = [int(a, 16) for a in v[1:8]]
            _ok[got] = consistent(Curve(int(v[0][1:]), *x[:5], (x[5], x[6]), int(v[8]), name))
        return _ok[got]
    return f


def gen(t):
    rnd = random.Random(t[1])
    names = t[2]
    c = Case('named', 'load order %d' % t[1])
    loaded = {}
    for _ in range(t[3]):
        r = rnd.randrange(16)
        k = rnd.random()
        if k < .12:
            b = rnd.choice([x for x in BAD if x and ' ' not in x and x not in names] + [mut(rnd, rnd.choice(names), names)])
            c.op('cname %d %s' % (r, b), '1', ('bad', b))
            loaded.pop(r, None)
            if rnd.random() < .5:
                c.op('cclear %d' % r, 'ok')
            continue
        if k < .2:       # a register last used for an explicit curve of another form
            o = rnd.choice(zoo.iso)
            c.op('cset %d %s' % (r, o.args()), '0')
        nm = rnd.choice(names)
        c.op('cname %d %s' % (r, nm), '0', ('name', nm))
        c.op('cdump %d' % r, check_dump(nm), ('dump', nm))
        loaded[r] = nm
        o = rnd.choice(list(loaded))
        a, b = zoo.by_name.get(nm), zoo.by_name.get(loaded[o])
        if a and b:
            c.op('ccmp %d %d' % (r, o), '%d' % (a.params() != b.params()), ('cmp', nm, loaded[o]))
        c.op('cdump %d' % o, check_dump(loaded[o]), ('redump', loaded[o]))
        # the library's own view of the generator
        c.op('pgen 0 %d' % r, None)
        if a:
            c.op('ccheck %d %x %x' % (r, *a.G), '1', ('gen', nm))
            c.op('pmulz 1 0 %x' % a.n, 'N' if a.O is None else '%x,%x' % a.O, ('order', nm))
            c.op('pmulz 1 0 %x' % (a.n - 1), a.fmt(a.neg(a.G)), ('order', nm))
    return [c]


def mut(rnd, s, names):
    while True:
        i = rnd.randrange(len(s))
        t = rnd.choice([s[:i] + s[i + 1:], s[:i] + rnd.choice('abcXYZ019-') + s[i:], s.swapcase(), s + s, s[:i], s[:i] + rnd.choice('abcXYZ019') + s[i + 1:]])
        if t and t not in names and ' ' not in t:
            return t


def run(ctx):
    ctx.rule = ('every listed name loaded in random order, repeatedly and into re-used objects; parameters compared with an independent snapshot (OpenSSL / SafeCurves) '
                'and checked for soundness; unlisted names tried; distinct = (action, name)')
    drv = vlib.opdrv()
    listed = []
    exp = sorted(c.name for c in zoo.named)

    def cb(got):
        listed.extend(got.split(' '))
        miss = set(exp) - set(listed)
        return ('names no longer listed: %s' % sorted(miss)) if miss else ('a name is listed twice' if len(set(listed)) != len(listed) else None)
    path = ctx.scratch() + '/l'
    rc, ended, res, _ = vlib._run_script(drv, [Case('list').op('clist', None)], None, False, path)
    ctx.count(1, 'list')
    if not ended:
        ctx.violation('list:crash', 'listing the curves failed, exit %d\n%s' % (rc, open(path + '.err', errors='replace').read()[-2000:]), 'clist')
        return
    m = cb(res[0][0])
    if m:
        ctx.violation('list', m, 'clist')
    # deterministic pass over every name plus random orders
    allc = []
    tasks = [('all', s, [n], 1) for s, n in enumerate(listed)]
    tasks += [('r', ctx.rnd.getrandbits(64), listed, ctx.pick(60, 120)) for _ in range(ctx.pick(16, 160))]
    ctx.drive(drv, gen, tasks)
    ctx.extra['names_listed'] = len(listed)
