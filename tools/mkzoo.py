#!/usr/bin/env python3
"""Generates lib/zoo.json once (committed): published parameters of the named curves (cross-checked against
OpenSSL's explicit parameters and the SafeCurves definitions), plus a zoo of other curves of every form.
Not run by the checks."""
import json, os, random, re, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ecref, vlib
from ecref import *
rnd = random.Random(20240607)

drv = vlib.opdrv()
def ask(script):
    open('/tmp/zoo.s', 'w').write('@ 0\n' + script)
    subprocess.run([drv, '/tmp/zoo.s', '/tmp/zoo.o'], check=True)
    return open('/tmp/zoo.o').read().split('\n')[1:-2]
names = ask('clist\n')[0].split()
named = []
OSSL = {'secp192r1': 'prime192v1', 'P192': 'prime192v1', 'P224': 'secp224r1', 'secp256r1': 'prime256v1', 'P256': 'prime256v1', 'P384': 'secp384r1', 'P521': 'secp521r1'}
SAFE = {'E-222': (ED, 2**222-117, 1, 160102), 'Curve1174': (ED, 2**251-9, 1, -1174), 'E-382': (ED, 2**382-105, 1, -67254),
        'Curve41417': (ED, 2**414-17, 1, 3617), 'Ed448-Goldilocks': (ED, 2**448-2**224-1, 1, -39081), 'E-521': (ED, 2**521-1, 1, -376014),
        'M-221': (MO, 2**221-3, 1, 117050), 'Curve25519': (MO, 2**255-19, 1, 486662), 'M-383': (MO, 2**383-187, 1, 2065150),
        'Curve383187': (MO, 2**383-187, 1, 229969), 'M-511': (MO, 2**511-187, 1, 530438),
        'Ed25519': (TE, 2**255-19, -1, -121665 * pow(121666, -1, 2**255-19))}
def ossl(n):
    t = subprocess.run(['openssl', 'ecparam', '-name', n, '-param_enc', 'explicit', '-text', '-noout'], capture_output=True, text=True).stdout
    g = lambda lab: int(re.sub(r'[^0-9a-fA-F]', '', re.search(lab + r':((?:\s+[0-9a-f:]+\n)+)', t).group(1)), 16)
    G = re.search(r'Generator \(uncompressed\):((?:\s+[0-9a-f:]+\n)+)', t)
    gh = re.sub(r'[^0-9a-f]', '', G.group(1))
    assert gh[:2] == '04'
    L = (len(gh) - 2) // 2
    cof = re.search(r'Cofactor:\s+(\d+)', t)
    def big(lab):
        m = re.search(lab + r':\s+(\d+) \(0x', t)
        return int(m.group(1)) if m else g(lab)
    return big('Prime'), big('A'), big('B'), big('Order'), int(cof.group(1)), (int(gh[2:2+L], 16), int(gh[2+L:], 16))
src = {}
for nm in names:
    r = ask('cname 0 %s\ncdump 0\n' % nm)
    f = r[1].split(',')
    v = [int(x, 16) for x in f[1:8]]
    cv = Curve(int(f[0][1:]), v[0], v[1], v[2], v[3], v[4], (v[5], v[6]), int(f[8]), nm)
    if nm in SAFE:
        form, p, c1, c2 = SAFE[nm]
        assert (cv.form, cv.p, cv.c1, cv.c2) == (form, p, c1 % p, c2 % p), nm
        src[nm] = 'safecurves'
    else:
        try:
            o = ossl(OSSL.get(nm, nm))
            assert (cv.p, cv.c1, cv.c2, cv.n, cv.h, cv.G) == o, (nm, o, cv.params())
            src[nm] = 'openssl'
        except AttributeError:
            src[nm] = 'none'
    assert is_prime(cv.p) and is_prime(cv.n) and cv.on(cv.G) and cv.mul(cv.n, cv.G) == cv.O
    hp = cv.p.bit_length() // 2 + 2
    assert abs(cv.n * cv.h - (cv.p + 1)) <= 2 * (1 << hp), nm
    print(nm, src[nm], cv.bits, cv.p.bit_length(), cv.n.bit_length(), cv.h)
    named.append(dict(name=nm, form=cv.form, v=[hex(x) for x in (cv.p, cv.c1, cv.c2, cv.n, cv.h, cv.G[0], cv.G[1])], bits=cv.bits))

def C(cv):
    assert is_prime(cv.p) and is_prime(cv.n) and cv.on(cv.G) and cv.G != cv.O and cv.mul(cv.n, cv.G) == cv.O, cv.params()
    return dict(name=cv.name, form=cv.form, v=[hex(x) for x in (cv.p, cv.c1, cv.c2, cv.n, cv.h, cv.G[0], cv.G[1])], bits=cv.bits)

# isomorphic images of every form for a prime p = 3 mod 4 with h*n = p+1 (supersingular: order known at any size)
def legendre(a, p): return jacobi(a, p)
def images(p, n, h, tag):
    out = []
    def gen(cv):
        while True:
            P = cv.mul(h, cv.random_point(rnd))
            if P != cv.O and cv.mul(n, P) == cv.O:
                cv.G = P
                return cv
    nz = lambda: rnd.randrange(2, p)
    # Montgomery B y^2 = x^3 + x (A = 0), and a curve 2-isogenous to it is left out
    out.append(gen(Curve(MO, p, 1, 0, n, h, (0, 0), name=tag + '-mo1')))
    out.append(gen(Curve(MO, p, nz(), 0, n, h, (0, 0), name=tag + '-moB')))
    # A != 0: x^3+Ax^2+x supersingular with A = 6/sqrt2-type values need square roots; use 2-isogeny: A = 6 is 2-isogenous to A = 0
    out.append(gen(Curve(MO, p, 1, 6, n, h, (0, 0), name=tag + '-moA')))
    out.append(gen(Curve(MO, p, nz(), 6, n, h, (0, 0), name=tag + '-moBA')))
    out.append(gen(Curve(WS, p, nz(), 0, n, h, (0, 0), name=tag + '-ws0')))
    # WS from Montgomery A=6 image, scaled
    m = out[3]
    a, sh, sc = m._to_ws()
    A, B = m.c2, m.c1
    b = (2*A**3 - 9*A) * pow(27*B**3, -1, p) % p
    u = nz()
    out.append(gen(Curve(WS, p, a*u**4, b*u**6, n, h, (0, 0), name=tag + '-ws')))
    c = nz()
    out.append(gen(Curve(ED, p, 1, -1, n, h, (0, 0), name=tag + '-ed1')))
    out.append(gen(Curve(ED, p, c, -pow(c, -4, p), n, h, (0, 0), name=tag + '-edc')))
    s = nz()
    out.append(gen(Curve(TE, p, 1, -1, n, h, (0, 0), name=tag + '-te1')))
    out.append(gen(Curve(TE, p, s*s, -s*s, n, h, (0, 0), name=tag + '-tea')))
    return out
def ss_prime(bits, hbits, top=None):
    while True:
        h = 4 * rnd.randrange(1 << max(0, hbits - 3), 1 << max(1, hbits - 2))
        lo = ((1 << (bits - 1)) + 1) // h + 1
        hi = (1 << bits) // h
        if top == 'hi': lo = hi - max(1, hi >> 12)
        if top == 'lo': hi = lo + max(1, lo >> 12)
        for _ in range(200):
            n = rnd.randrange(lo, hi) | 1
            p = h * n - 1
            if p.bit_length() == bits and p % 4 == 3 and p > 7 and p % 3 and is_prime(n) and is_prime(p):
                return p, n, h
iso = []
for bits, top in [(16, None), (31, 'hi'), (63, None), (64, 'hi'), (65, 'lo'), (127, 'hi'), (128, 'hi'), (129, 'lo'), (160, None), (192, 'hi'), (193, 'lo'),
             (255, None), (256, 'hi'), (257, 'lo'), (320, 'hi'), (384, 'hi'), (448, 'hi'), (512, 'hi'), (521, None), (576, 'hi'), (640, 'hi'), (768, 'hi'), (896, 'hi'), (960, 'hi'), (1023, None), (1024, 'hi')]:
    p, n, h = ss_prime(bits, 4, top)
    iso += [C(c) for c in images(p, n, h, 'ss%d' % bits)]
    print('ss', bits)
# named curves through an isomorphism: non-trivial coefficients with a standard order
def nm(name):
    d = [x for x in named if x['name'] == name][0]
    v = [int(x, 16) for x in d['v']]
    return Curve(d['form'], *v[:5], (v[5], v[6]), d['bits'], name)
for name in ['Curve25519', 'M-221', 'M-383', 'M-511']:
    c = nm(name); p = c.p; s = rnd.randrange(2, p); B = s*s % p
    iso.append(C(Curve(MO, p, B, c.c2, c.n, c.h, (c.G[0], c.G[1]*pow(s, -1, p) % p), name=name + '-B')))
for name in ['E-222', 'Curve1174', 'Curve41417', 'Ed448-Goldilocks', 'E-521']:
    c = nm(name); p = c.p; k = rnd.randrange(2, p)
    iso.append(C(Curve(ED, p, k, c.c2*pow(k, -4, p), c.n, c.h, (c.G[0]*k % p, c.G[1]*k % p), name=name + '-c')))
    s = rnd.randrange(2, p)
    iso.append(C(Curve(TE, p, s*s, c.c2*s*s, c.n, c.h, (c.G[0]*pow(s, -1, p) % p, c.G[1]), name=name + '-te')))
for name in ['secp256k1', 'P256', 'secp224r1', 'secp521r1', 'secp160r1']:
    c = nm(name); p = c.p; u = rnd.randrange(2, p)
    iso.append(C(Curve(WS, p, c.c1*u**4, c.c2*u**6, c.n, c.h, (c.G[0]*u*u % p, c.G[1]*u**3 % p), name=name + '-u')))
# tiny curves of every form, for exhaustive checks
tiny = []
def factor_big(N):
    best, m, q = 1, N, 2
    while q * q <= m:
        while m % q == 0: best, m = max(best, q), m // q
        q += 1
    return max(best, m)
def add_tiny(form, p, c1, c2, minn=3):
    cv = Curve(form, p, c1, c2, 3, 1, (0, 0))
    pts = cv.all_points()
    N = len(pts)
    n = factor_big(N)
    if n < minn: return False
    for P in pts:
        if P is not None and P != cv.O and cv.mul_slow(n, P) == cv.O:
            cv.G = P; cv.n = n; cv.h = N // n
            cv.name = 'tiny-%s-%d-%d-%d' % (FORM[form], p, c1 % p, c2 % p)
            d = C(cv); d['N'] = N
            tiny.append(d); return True
    return False
for p in [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 61, 97, 101, 127]:
    per = 6 if p < 32 else 3
    for form in (WS, ED, MO, TE):
        got, tries = 0, 0
        while got < per and tries < 400:
            tries += 1
            c1, c2 = rnd.randrange(p), rnd.randrange(p)
            if form == WS and (4*c1**3 + 27*c2**2) % p == 0: continue
            if form == MO and (c1 == 0 or (c2*c2 - 4) % p == 0): continue
            if form == ED and (c1 == 0 or legendre(c2, p) != -1): continue
            if form == TE and (c1 == 0 or legendre(c1, p) != 1 or legendre(c2, p) != -1): continue
            if any(t['form'] == form and [int(x, 16) for x in t['v'][:3]] == [p, c1, c2] for t in tiny): continue
            # the supported-form condition c*d*(1-d*c^4) != 0
            if form == ED and (1 - c2*c1**4) % p == 0: continue
            got += add_tiny(form, p, c1, c2)
print('tiny', len(tiny))
# p of 64 bits with prime order (so that ECDSA's equations have non-negligible corner cases) come from tiny curves with h = 1
json.dump(dict(named=named, iso=iso, tiny=tiny), open(os.path.join(vlib.VERIF, 'lib', 'zoo.json'), 'w'), separators=(',', ':'))
