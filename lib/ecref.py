"""Independent reference: textbook curve arithmetic and ECDSA predicates over Python integers.

Nothing here is derived from libecc's code: affine chord/tangent and Edwards addition laws, plain modular
arithmetic.  `selftest()` cross-checks the fast scalar multiplication against repeated affine addition."""
import random

WS, ED, MO, TE = 2, 3, 4, 5
FORM = {WS: 'ws', ED: 'ed', MO: 'mo', TE: 'te'}


def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    rnd = random.Random(n)
    for a in [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] + [rnd.randrange(2, n - 1) for _ in range(12)]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def jacobi(a, n):
    a %= n
    t = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                t = -t
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            t = -t
        a %= n
    return t if n == 1 else 0


def sqrt_mod(a, p):
    """a square root of a modulo p, or None; Cipolla's algorithm (independent of 2-adicity)"""
    a %= p
    if a == 0:
        return 0
    if p == 2:
        return a
    if jacobi(a, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    b = 1
    while jacobi(b * b - a, p) != -1:
        b += 1
    w = (b * b - a) % p
    r0, r1, x0, x1, e = 1, 0, b, 1, (p + 1) // 2
    while e:
        if e & 1:
            r0, r1 = (r0 * x0 + r1 * x1 * w) % p, (r0 * x1 + r1 * x0) % p
        x0, x1 = (x0 * x0 + x1 * x1 * w) % p, 2 * x0 * x1 % p
        e >>= 1
    assert r1 == 0 and r0 * r0 % p == a
    return r0


class Curve:
    def __init__(self, form, p, c1, c2, n, h, G, bits=None, name=None):
        self.form, self.p, self.c1, self.c2 = form, p, c1 % p, c2 % p
        self.n, self.h, self.G = n, h, tuple(G)
        self.bits = bits if bits is not None else p.bit_length()
        self.name = name
        self.plen = (p.bit_length() + 7) // 8
        if form == ED:
            self.O = (0, self.c1)
        elif form == TE:
            self.O = (0, 1)
        else:
            self.O = None
        self._hash = hash((form, p, self.c1, self.c2, n, h, self.G))

    def params(self):
        return (self.form, self.p, self.c1, self.c2, self.n, self.h, self.G[0], self.G[1], self.bits)

    def args(self):
        return '%d %x %x %x %x %x %x %x %d' % self.params()

    def dump(self):
        return 't%d,%x,%x,%x,%x,%x,%x,%x,%u' % self.params()

    def label(self):
        return self.name or '%s/%db' % (FORM[self.form], self.p.bit_length())

    def on(self, P):
        if P is None:
            return self.O is None
        x, y = P
        p = self.p
        if not (0 <= x < p and 0 <= y < p):
            return False
        if self.form == WS:
            return (y * y - (x * x * x + self.c1 * x + self.c2)) % p == 0
        if self.form == ED:
            return (x * x + y * y - self.c1 * self.c1 * (1 + self.c2 * x * x * y * y)) % p == 0
        if self.form == MO:
            return (self.c1 * y * y - (x * x * x + self.c2 * x * x + x)) % p == 0
        return (self.c1 * x * x + y * y - (1 + self.c2 * x * x * y * y)) % p == 0

    def neg(self, P):
        if P is None:
            return None
        x, y = P
        if self.form in (ED, TE):
            return ((-x) % self.p, y)
        return (x, (-y) % self.p)

    def add(self, P, Q):
        p = self.p
        if self.form in (ED, TE):
            x1, y1 = P
            x2, y2 = Q
            if self.form == ED:
                c, d, a = self.c1, self.c2, 1
            else:
                c, d, a = 1, self.c2, self.c1
            t = d * x1 * x2 * y1 * y2 % p
            return ((x1 * y2 + y1 * x2) * pow(c * (1 + t), -1, p) % p,
                    (y1 * y2 - a * x1 * x2) * pow(c * (1 - t), -1, p) % p)
        if P is None:
            return Q
        if Q is None:
            return P
        x1, y1 = P
        x2, y2 = Q
        if x1 == x2 and (y1 + y2) % p == 0:
            return None
        if self.form == WS:
            if P == Q:
                l = (3 * x1 * x1 + self.c1) * pow(2 * y1, -1, p) % p
            else:
                l = (y2 - y1) * pow(x2 - x1, -1, p) % p
            x3 = (l * l - x1 - x2) % p
        else:
            B, A = self.c1, self.c2
            if P == Q:
                l = (3 * x1 * x1 + 2 * A * x1 + 1) * pow(2 * B * y1, -1, p) % p
            else:
                l = (y2 - y1) * pow(x2 - x1, -1, p) % p
            x3 = (B * l * l - A - x1 - x2) % p
        return (x3, (l * (x1 - x3) - y1) % p)

    def sub(self, P, Q):
        return self.add(P, self.neg(Q))

    def dbl(self, P):
        return self.add(P, P)

    def mul_slow(self, k, P):
        if k < 0:
            k, P = -k, self.neg(P)
        R = self.O
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R

    def _to_ws(self):
        p = self.p
        if self.form == WS:
            return self.c1, 0, 1
        B, A = self.c1, self.c2
        iB = pow(B, -1, p)
        i3 = pow(3, -1, p)
        return (3 - A * A) * i3 * iB * iB % p, A * i3 * iB % p, iB   # a, x shift, scale

    def mul(self, k, P):
        if k < 0:
            k, P = -k, self.neg(P)
        p = self.p
        if P is None or k == 0:
            return self.O
        if self.form in (ED, TE):
            x, y = P
            if self.form == ED:
                c, d, a = self.c1, self.c2, 1
            else:
                c, d, a = 1, self.c2, self.c1

            def padd(U, V):
                X1, Y1, Z1 = U
                X2, Y2, Z2 = V
                A = Z1 * Z2 % p
                Bq = A * A % p
                C = X1 * X2 % p
                D = Y1 * Y2 % p
                E = d * C * D % p
                F = (Bq - E) % p
                Gq = (Bq + E) % p
                X3 = A * F * ((X1 + Y1) * (X2 + Y2) - C - D) % p
                Y3 = A * Gq * (D - a * C) % p
                return X3, Y3, c * F * Gq % p
            R = (0, c, 1)
            Q = (x, y, 1)
            for b in bin(k)[2:]:
                R = padd(R, R)
                if b == '1':
                    R = padd(R, Q)
            zi = pow(R[2], -1, p)
            return (R[0] * zi % p, R[1] * zi % p)
        a, sh, sc = self._to_ws()
        x, y = (P[0] * sc + sh) % p, P[1] * sc % p
        X, Y, Z = 0, 1, 0
        for b in bin(k)[2:]:
            if Z:
                if Y == 0:
                    X, Y, Z = 0, 1, 0
                else:
                    YY = Y * Y % p
                    S = 4 * X * YY % p
                    ZZ = Z * Z % p
                    M = (3 * X * X + a * ZZ * ZZ) % p
                    X3 = (M * M - 2 * S) % p
                    Z = 2 * Y * Z % p
                    Y = (M * (S - X3) - 8 * YY * YY) % p
                    X = X3
            if b == '1':
                if Z == 0:
                    X, Y, Z = x, y, 1
                else:
                    ZZ = Z * Z % p
                    U2 = x * ZZ % p
                    S2 = y * ZZ * Z % p
                    H = (U2 - X) % p
                    r = (S2 - Y) % p
                    if H == 0:
                        if r == 0:
                            YY = Y * Y % p
                            S = 4 * X * YY % p
                            M = (3 * X * X + a * ZZ * ZZ) % p
                            if Y == 0:
                                X, Y, Z = 0, 1, 0
                            else:
                                X3 = (M * M - 2 * S) % p
                                Z = 2 * Y * Z % p
                                Y = (M * (S - X3) - 8 * YY * YY) % p
                                X = X3
                        else:
                            X, Y, Z = 0, 1, 0
                    else:
                        HH = H * H % p
                        HHH = H * HH % p
                        V = X * HH % p
                        X3 = (r * r - HHH - 2 * V) % p
                        Y = (r * (V - X3) - Y * HHH) % p
                        Z = Z * H % p
                        X = X3
        if Z == 0:
            return None
        zi = pow(Z, -1, p)
        zz = zi * zi % p
        xw, yw = X * zz % p, Y * zz * zi % p
        if self.form == WS:
            return (xw, yw)
        isc = pow(sc, -1, p)
        return ((xw - sh) * isc % p, yw * isc % p)

    def lift(self, x):
        """a y with (x, y) on the curve, or None (forms other than Edwards: any x; Edwards: 1-c^2 d x^2 != 0)"""
        p = self.p
        if self.form == WS:
            return sqrt_mod(x * x * x + self.c1 * x + self.c2, p)
        if self.form == MO:
            return sqrt_mod((x * x * x + self.c2 * x * x + x) * pow(self.c1, -1, p), p)
        if self.form == ED:
            num, den = self.c1 * self.c1 - x * x, 1 - self.c1 * self.c1 * self.c2 * x * x
        else:
            num, den = 1 - self.c1 * x * x, 1 - self.c2 * x * x
        if den % p == 0:
            return None
        return sqrt_mod(num * pow(den, -1, p), p)

    def random_point(self, rnd):
        while True:
            x = rnd.randrange(self.p)
            y = self.lift(x)
            if y is not None:
                return (x, y if rnd.random() < .5 else (-y) % self.p)

    def rand_sub(self, rnd):
        return self.mul(rnd.randrange(1, self.n), self.G)

    def all_points(self):
        pts = [self.O] if self.O is None else []
        p = self.p
        for x in range(p):
            for y in range(p):
                if self.on((x, y)):
                    pts.append((x, y))
        return pts

    def fmt(self, P):
        return 'N' if P is None else '%x,%x' % P

    # ---- octet encodings (form stated in the documentation: 00 | 02/03 x | 04 x y)
    def enc(self, P, compress):
        if P is None:
            return b'\0' + b'\0' * (self.plen * (1 if compress else 2))
        x, y = P
        if compress:
            return bytes([2 + (y & 1)]) + x.to_bytes(self.plen, 'big')
        return b'\4' + x.to_bytes(self.plen, 'big') + y.to_bytes(self.plen, 'big')


def digest_int(d, n):
    """FIPS 186-4: the leftmost min(bitlen(n), 8 len(d)) bits"""
    z = int.from_bytes(d, 'big')
    e = 8 * len(d) - n.bit_length()
    return z >> e if e > 0 else z


def ecdsa_valid(cv, Q, dig, r, s):
    n = cv.n
    if not (0 < r < n and 0 < s < n):
        return False
    z = digest_int(dig, n)
    w = pow(s, -1, n)
    R = cv.add(cv.mul(z * w % n, cv.G), cv.mul(r * w % n, Q))
    if R is None or R == cv.O:
        return False
    return R[0] % n == r


def toy_hash(msg, ln):
    a = 1469598103934665603
    M = (1 << 64) - 1
    for b in msg:
        a = ((a ^ b) * 1099511628211) & M
    out = bytearray()
    for i in range(ln):
        a = ((a ^ (i + 1)) * 1099511628211) & M
        out.append((a >> 32) & 255)
    return bytes(out)


def selftest(curves, rnd):
    for cv in curves:
        assert is_prime(cv.p) and cv.on(cv.G) and cv.mul(cv.n, cv.G) == cv.O, cv.label()
        for _ in range(2):
            P = cv.random_point(rnd)
            k = rnd.randrange(cv.n)
            assert cv.on(P) and cv.mul(k, P) == cv.mul_slow(k, P), cv.label()
