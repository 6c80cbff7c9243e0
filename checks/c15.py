"""C15: operations change only their destination.  Model-based: after every operation the complete state of all live
objects is dumped and compared with the model."""
import random
import vlib
import zoo
import pgen
import sigs
from ecref import *
from vlib import Case


class Model:
    def __init__(self, rnd, c):
        self.rnd, self.c = rnd, c
        self.F, self.C, self.P, self.S, self.G, self.E = {}, {}, {}, {}, {}, {}
        self.gs, self.ver, self.state = {}, {}, {}

    # ---- state text
    def want(self):
        w = {}
        for i, (v, p) in self.F.items():
            w['f%d' % i] = '%x/%x' % (v, p)
        for i, cv in self.C.items():
            w['c%d' % i] = cv.dump()
        for i, (P, cs) in self.P.items():
            w['p%d' % i] = (P, self.C[min(cs)].fmt(P), frozenset(cs))
        for i, (cr, hsz) in self.S.items():
            cv = self.C[cr]
            w['s%d' % i] = '%d,%d,%d,%s' % (cr, (cv.n.bit_length() + 7) // 8, hsz, cv.fmt(cv.G))
        return w

    def dump(self, what, skip=()):
        w = self.want()
        for i, v in self.G.items():
            if v is not None:
                w['g%d' % i] = '%x,%x' % v
        # objects whose value the model does not determine (fresh signatures and ciphertexts): constant since written
        opaque = {'g%d' % i: self.ver.get('g%d' % i, 0) for i, v in self.G.items() if v is None}
        opaque.update({'e%d' % i: self.ver.get('e%d' % i, 0) for i in self.E})
        live = set(w) | set(opaque)
        skip = set(skip)
        state = self.state

        def f(got):
            g = {}
            for x in got.split(' ')[1:]:
                k, v = x.split('=', 1)
                g[k] = v
            for k in live - set(g) - skip:
                return '%s vanished after %s' % (k, what)
            for k, v in g.items():
                if k in skip:
                    continue
                if k in opaque:
                    old = state.setdefault((k, opaque[k]), v)
                    if old != v:
                        return '%s changed from %s to %s by %s' % (k, old, v, what)
                elif k not in w:
                    return 'unexpected object %s after %s' % (k, what)
                elif k[0] == 'p':
                    val, cr = v.rsplit('@', 1)
                    if val != w[k][1]:
                        return '%s is %s instead of %s after %s' % (k, val, w[k][1], what)
                    if int(cr) not in w[k][2]:
                        return '%s belongs to curve object %s instead of %s after %s' % (k, cr, sorted(w[k][2]), what)
                elif v != w[k]:
                    return '%s is %s instead of %s after %s' % (k, v, w[k], what)
            return None
        return f

    def newver(self, k):
        self.ver[k] = self.ver.get(k, 0) + 1

    def busy(self):
        b = set()
        for P, cs in self.P.values():
            b |= set(cs)
        for cr, _ in self.S.values():
            b.add(cr)
        for e in self.E.values():
            b |= e[0]
        return b


def gen(t):
    rnd = random.Random(t[1])
    out = []
    for h in range(t[2]):
        c = Case('frame', 'history %d' % h)
        m = Model(rnd, c)
        small = rnd.random() < .4
        pool = ([x for x in sigs.tiny()] if small else []) + sigs.big()
        base = [rnd.choice(sigs.tiny()) if small and rnd.random() < .6 else rnd.choice(sigs.big()) for _ in range(3)]
        base = [b if b.p.bit_length() < 700 else rnd.choice(sigs.big()) for b in base]
        if rnd.random() < .5:
            base[1] = rnd.choice([x for x in sigs.big() if x.form == base[0].form])
        params = [base[0], base[0], base[1], base[2]]
        for i, cv in enumerate(params):
            c.op('cset %d %s' % (i, cv.args()), '0')
            m.C[i] = cv
        for i in range(8):
            cr = rnd.randrange(4)
            P = pgen.point(m.C[cr], rnd)
            pgen.load(c, m.C[cr], i, cr, P, rnd, .6)
            m.P[i] = (P, {cr})
        for r in (94, 95):
            c.op('pneut %d 0' % r)
            m.P[r] = (m.C[0].O, {0})
        for i in range(6):
            cv = m.C[rnd.randrange(4)]
            q = rnd.choice([cv.p, cv.n, cv.n, rnd.choice(list(zoo.primes.values()))])
            v = rnd.choice([0, 1, q - 1, rnd.randrange(q), rnd.randrange(q)])
            c.op('fset %d %x %x' % (i, v, q))
            m.F[i] = (v, q)
        c.op('dumpall', m.dump('setup'))
        for _ in range(t[3]):
            step(c, m, rnd)
        out.append(c)
    return out


def step(c, m, rnd):
    k = rnd.choice(['f2', 'f2', 'f1', 'f1', 'fi', 'fswap', 'fcmp', 'padd', 'padd', 'padd', 'psub', 'psub', 'pdbl', 'pneg', 'pcopy', 'pswap', 'pcmp', 'pmul', 'pmulz', 'pbmul', 'pbset',
                    'pout', 'pin', 'paff', 'pafff', 'psetf', 'pset', 'ccopy', 'ccmp', 'cset', 'sinit', 'sign', 'sign', 'verify', 'gset', 'gout', 'gin', 'enc', 'enc', 'dec', 'dec', 'pclear', 'ccheck', 'purandom', 'furandom'])
    skip = []
    expect = None
    fs, ps, cs = list(m.F), [i for i in m.P if i < 90], list(m.C)

    def cvof(i):
        return m.C[min(m.P[i][1])]

    def same(i):
        key = cvof(i).params()[:-1]
        return [j for j in ps if cvof(j).params()[:-1] == key]
    txt = None
    if k == 'f2':
        a = rnd.choice(fs)
        b = rnd.choice([j for j in fs if m.F[j][1] == m.F[a][1]])
        d = rnd.choice(fs)
        o = rnd.choice(['fadd', 'fsub', 'fmul'])
        (x, p), y = m.F[a], m.F[b][0]
        txt = '%s %d %d %d' % (o, d, a, b)
        v = {'fadd': x + y, 'fsub': x - y, 'fmul': x * y}[o] % p
        m.F[d] = (v, p)
        expect = '%x' % v
    elif k == 'f1':
        a, d = rnd.choice(fs), rnd.choice(fs)
        x, p = m.F[a]
        o = rnd.choice(['fneg', 'fsqr', 'fcopy', 'faddui', 'fsubui', 'fmului', 'fpowui', 'fpowz'])
        u = rnd.choice([0, 1, 2, 3, (1 << 64) - 1, rnd.getrandbits(64)] + ([p - 1, p, p + 1, 3 * p - 2, rnd.getrandbits(400)] if o == 'fpowz' else []))
        txt = '%s %d %d' % (o, d, a) + (' %x' % u if o.endswith(('ui', 'z')) else '')
        v = {'fneg': -x, 'fsqr': x * x, 'fcopy': x, 'faddui': x + u, 'fsubui': x - u, 'fmului': x * u, 'fpowui': pow(x, u, p), 'fpowz': pow(x, u, p)}[o] % p
        m.F[d] = (v, p)
        expect = '%x' % v
    elif k == 'fi':
        a, d = rnd.choice(fs), rnd.choice(fs)
        x, p = m.F[a]
        if not is_prime(p):
            return
        o = rnd.choice(['finv', 'fsqrt'])
        txt = '%s %d %d' % (o, d, a)
        if o == 'finv':
            if x:
                m.F[d] = (pow(x, -1, p), p)
            else:
                skip = ['f%d' % d]
        elif jacobi(x, p) == -1:
            skip = ['f%d' % d]
        else:
            r = sqrt_mod(x, p)
            c.op(txt)
            # either root: normalise by squaring it into the model
            c.op('fsqr %d %d' % (d, d), '%x' % x)
            m.F[d] = (x, p)
            c.op('dumpall', m.dump(txt), ('fsqrt', p))
            return
        if skip:
            c.op(txt)
            c.op('fset %d 0 %x' % (d, p))       # the destination of a failed operation has no value
            m.F[d] = (0, p)
            c.op('dumpall', m.dump(txt), (o, 'fail', p))
            return
    elif k == 'fswap':
        a = rnd.choice(fs)
        b = rnd.choice([j for j in fs if m.F[j][1] == m.F[a][1]])
        s = rnd.choice([0, 1, 1])
        txt = 'fcswap %d %d %d' % (a, b, s) if rnd.random() < .6 else 'fswap %d %d' % (a, b)
        if s or txt.startswith('fswap'):
            m.F[a], m.F[b] = m.F[b], m.F[a]
    elif k == 'fcmp':
        a = rnd.choice(fs)
        b = rnd.choice([j for j in fs if m.F[j][1] == m.F[a][1]])
        txt = rnd.choice(['fcmp %d %d' % (a, b), 'fcmpui %d 5' % a, 'fcmpz %d 7' % a, 'ftst %d 3' % a, 'fget %d' % a])
    elif k in ('padd', 'psub'):
        a = rnd.choice(ps)
        b = rnd.choice(same(a))
        d = rnd.choice(ps)
        cv = cvof(a)
        A, B = m.P[a][0], m.P[b][0]
        txt = '%s %d %d %d' % (k, d, a, b)
        m.P[d] = (cv.add(A, B) if k == 'padd' else cv.sub(A, B), m.P[a][1] | m.P[b][1])
    elif k in ('pdbl', 'pneg', 'pcopy'):
        a, d = rnd.choice(ps), rnd.choice(ps)
        cv = cvof(a)
        A = m.P[a][0]
        txt = '%s %d %d' % (k, d, a)
        m.P[d] = ({'pdbl': cv.dbl, 'pneg': cv.neg, 'pcopy': lambda x: x}[k](A), set(m.P[a][1]))
    elif k == 'pswap':
        a = rnd.choice(ps)
        b = rnd.choice(same(a))
        txt = 'pswap %d %d' % (a, b)
        u = m.P[a][1] | m.P[b][1]
        m.P[a], m.P[b] = (m.P[b][0], set(u)), (m.P[a][0], set(u))
    elif k == 'pcmp':
        a, b = rnd.choice(ps), rnd.choice(ps)
        txt = 'pcmp %d %d' % (a, b)
        eq = b in same(a) and m.P[a][0] == m.P[b][0]
        expect = '%d' % (not eq)
    elif k in ('pmul', 'pmulz', 'pbmul'):
        a, d = rnd.choice(ps), rnd.choice(ps)
        cv = cvof(a)
        cand = [j for j in fs if m.F[j][1] == cv.n]
        if k == 'pmulz' or not cand:
            s = pgen.scalar(rnd, cv.n) + rnd.choice([0, 0, 1, 2, -1, -3, rnd.getrandbits(90)]) * cv.n
            txt = '%s %d %d %x' % (rnd.choice(['pmulz', 'pbmulz']), d, a, s)
        else:
            f = rnd.choice(cand)
            s = m.F[f][0]
            txt = '%s %d %d %d' % (k, d, a, f)
        m.P[d] = (cv.mul(s % cv.n, m.P[a][0]), set(m.P[a][1]))
    elif k == 'pbset':
        txt = 'pbsetup %d' % rnd.choice(ps)
    elif k == 'pout':
        a = rnd.choice(ps)
        txt = '%s %d %d' % (rnd.choice(['pout', 'pouts']), a, rnd.randrange(2))
    elif k == 'paff':
        a = rnd.choice(ps)
        if m.P[a][0] is None:
            return
        txt = 'paff %d' % a
        expect = '%x,%x' % m.P[a][0]
    elif k == 'pafff':
        a, d, e = rnd.choice(ps), *rnd.sample(fs, 2)
        if m.P[a][0] is None:
            return
        txt = 'pafff %d %d %d' % (a, d, e)
        p = cvof(a).p
        m.F[d], m.F[e] = (m.P[a][0][0], p), (m.P[a][0][1], p)
    elif k == 'psetf':
        cr = rnd.choice(cs)
        cv = m.C[cr]
        P = pgen.point(cv, rnd)
        if P is None:
            return
        d, (x, y) = rnd.choice(ps), rnd.sample(fs, 2)
        c.op('fset %d %x %x' % (x, P[0], cv.p))
        c.op('fset %d %x %x' % (y, P[1], cv.p))
        m.F[x], m.F[y] = (P[0], cv.p), (P[1], cv.p)
        txt = 'psetf %d %d %d %d' % (d, cr, x, y)
        m.P[d] = (P, {cr})
    elif k in ('pset', 'pin'):
        cr, d = rnd.choice(cs), rnd.choice(ps)
        cv = m.C[cr]
        P = pgen.point(cv, rnd)
        if k == 'pin':
            txt = 'pin %d %d %s' % (d, cr, cv.enc(P, rnd.randrange(2)).hex()) if rnd.random() < .6 else 'pins %d %d %s' % (d, cr, cv.enc(P, rnd.randrange(2)).hex().encode().hex())
        elif P is None:
            txt = 'pneut %d %d' % (d, cr)
        else:
            txt = 'pset %d %d %x %x' % (d, cr, *P)
        m.P[d] = (P, {cr})
    elif k in ('ccopy', 'cset'):
        free = [i for i in range(4, 7) if i not in m.busy()]
        if not free:
            return
        d = rnd.choice(free)
        if k == 'ccopy':
            a = rnd.choice(cs)
            txt = 'ccopy %d %d' % (d, a)
            m.C[d] = m.C[a]
        else:
            cv = rnd.choice(sigs.big())
            txt = '%s %d %s' % (rnd.choice(['cset', 'csetstr']), d, cv.args())
            m.C[d] = cv
    elif k == 'ccmp':
        txt = 'ccmp %d %d' % (rnd.choice(cs), rnd.choice(cs))
    elif k == 'ccheck':
        cr = rnd.choice(cs)
        txt = 'ccheck %d %x %x' % (cr, *m.C[cr].G)
        expect = '1'
    elif k == 'sinit':
        cr = rnd.choice(cs)
        if m.C[cr].n < 100 or m.C[cr].p.bit_length() > 400:
            return
        s = rnd.randrange(2)
        for i in [i for i in m.G if m.gs[i] == s]:
            c.op('gclear %d' % i)
            del m.G[i]
        hs = rnd.choice([20, 32, 64])
        txt = 'sinit %d %d %d' % (s, cr, hs)
        c.op('digest ' + '5a' * hs)
        m.S[s] = (cr, hs)
    elif k in ('sign', 'verify', 'gset', 'gout', 'gin'):
        if not m.S:
            return
        s = rnd.choice(list(m.S))
        cr, hs = m.S[s]
        cv = m.C[cr]
        c.op('digest ' + '5a' * hs)
        if k == 'sign':
            cand = [j for j in fs if m.F[j][1] == cv.n and m.F[j][0]]
            if not cand:
                f = rnd.choice(fs)
                m.F[f] = (rnd.randrange(1, cv.n), cv.n)
                c.op('fset %d %x %x' % (f, *m.F[f]))
                cand = [f]
            g = rnd.randrange(3)
            txt = 'sign %d %d %d 616263' % (g, s, rnd.choice(cand))
            m.G[g] = None
            m.gs[g] = s
            m.newver('g%d' % g)
            c.op(txt)
            c.op('dumpall', m.dump(txt), ('sign', cv.label()))
            return
        if k in ('gset', 'gin'):
            g = rnd.randrange(3)
            r, q = rnd.randrange(1, cv.n), rnd.randrange(1, cv.n)
            L = (cv.n.bit_length() + 7) // 8
            if k == 'gset':
                if g in m.G:
                    c.op('gclear %d' % g)
                txt = 'gset %d %d %x %x' % (g, s, r, q)
            else:
                txt = 'gin %d %d %s' % (g, s, (r.to_bytes(L, 'big') + q.to_bytes(L, 'big')).hex())
            m.G[g] = (r, q)
            m.gs[g] = s
        else:
            if not m.G:
                return
            g = rnd.choice(list(m.G))
            if k == 'gout':
                txt = '%s %d' % (rnd.choice(['gout', 'gouts']), g)
            else:
                a = rnd.choice(ps)
                c.op('digest ' + '5a' * m.S[m.gs[g]][1])
                txt = 'verify %d %d 616263' % (g, a)
    elif k == 'enc':
        a = rnd.choice(ps)
        b = rnd.choice(ps)
        e = rnd.randrange(2)
        if cvof(a).n < 5 or cvof(a).n % 2 == 0:
            return
        txt = 'enc %d %d %d' % (e, a, b)
        c.op(txt)
        if b in same(a):
            m.E[e] = (m.P[a][1] | m.P[b][1], cvof(a))
            m.newver('e%d' % e)
            c.op('dumpall', m.dump(txt), ('enc', cvof(a).label()))
        else:
            m.E.pop(e, None)
            c.op('dumpall', m.dump(txt), ('encfail', cvof(a).label()))
        return
    elif k == 'dec':
        if not m.E:
            return
        e = rnd.choice(list(m.E))
        cands, cv = m.E[e]
        f = rnd.choice([j for j in fs if m.F[j][1] == cv.n] or [None])
        if f is None:
            return
        d = rnd.choice(ps)
        txt = 'dec %d %d %d' % (d, f, e)
        c.op(txt)
        c.op('dumpall', m.dump(txt, ['p%d' % d]), ('dec', cv.label()))
        c.op('pneut %d 0' % d)
        m.P[d] = (m.C[0].O, {0})
        return
    elif k == 'pclear':
        d = rnd.choice(ps)
        c.op('pclear %d' % d)
        cr = rnd.choice(cs)
        P = pgen.point(m.C[cr], rnd)
        pgen.load(c, m.C[cr], d, cr, P, rnd, 0)
        m.P[d] = (P, {cr})
        # the helper registers may have been used
        for r in (94, 95):
            c.op('pneut %d 0' % r)
        txt = 'pneut 94 0'
    elif k == 'purandom':
        d, cr = rnd.choice(ps), rnd.choice(cs)
        txt = 'purandom %d %d' % (d, cr)
        c.op(txt)
        c.op('dumpall', m.dump(txt, ['p%d' % d]), (k, m.C[cr].label()))
        c.op('pneut %d %d' % (d, cr))
        m.P[d] = (m.C[cr].O, {cr})
        return
    elif k == 'furandom':
        d = rnd.choice(fs)
        p = m.C[rnd.choice(cs)].n
        txt = 'furandom %d %x' % (d, p)
        c.op(txt)
        c.op('dumpall', m.dump(txt, ['f%d' % d]), (k, p))
        c.op('fset %d 1 %x' % (d, p))
        m.F[d] = (1, p)
        return
    if txt is None:
        return
    c.op(txt, expect)
    c.op('dumpall', m.dump(txt), (txt.split()[0], tuple(sorted((i, m.C[i].label()) for i in m.C))))


def run(ctx):
    ctx.rule = ('random histories over 4-7 curve objects (two of equal parameters), 10 points, 6 field elements, schemes, signatures and ciphertexts with re-used destinations of other curves; after every '
                'operation all live objects are compared with the model; distinct = (operation, curve set)')
    drv = vlib.opdrv()
    tasks = [('h', ctx.rnd.getrandbits(64), ctx.pick(10, 20), ctx.pick(60, 120)) for _ in range(ctx.pick(48, 400))]
    ctx.drive(drv, gen, tasks)
