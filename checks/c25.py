"""C25: hostile octets for the importers of the example tools."""
import os
import random
import subprocess
import multiprocessing as mp
import codec
import extools as X
import pgen
import vlib
import zoo
from ecref import *
from vlib import Case

T = None


def leaves(t, path=()):
    if isinstance(t[1], list):
        for i, x in enumerate(t[1]):
            yield from leaves(x, path + (i,))
    else:
        yield path


def nodes(t, path=()):
    yield path
    if isinstance(t[1], list):
        for i, x in enumerate(t[1]):
            yield from nodes(x, path + (i,))


def get(t, path):
    for i in path:
        t = t[1][i]
    return t


def put(t, path, v):
    """replace the node by the nodes in v"""
    i, rest = path[0], path[1:]
    c = list(t[1])
    c[i:i + 1] = [put(c[i], rest, v)] if rest else v
    return (t[0], c)


def lenenc(rnd, n):
    k = rnd.randrange(6)
    if k == 0:
        return bytes([0x82]) + n.to_bytes(2, 'big') if n < 65536 else None
    if k == 1:
        return bytes([0x80])
    if k == 2:
        return bytes([0x84, 0xff, 0xff, 0xff, 0xff])
    if k == 3:
        return bytes([0x88]) + b'\x7f' + b'\xff' * 7
    if k == 4:
        return bytes([min(127, n + rnd.choice([1, 2, 50]))])
    return bytes([max(0, min(127, n - 1))])


def enc(t, odd=None, path=()):
    body = b''.join(enc(x, odd, path + (i,)) for i, x in enumerate(t[1])) if isinstance(t[1], list) else t[1]
    if odd and odd[0] == path:
        l = lenenc(odd[1], len(body))
        if l is not None:
            return bytes([t[0]]) + l + body
    return X.tlv(t[0], body)


def mutate(rnd, b):
    """-> (octets, what); what None: untouched, 'cut': a proper prefix"""
    k = rnd.randrange(20)
    if k == 0:
        return b, None
    if k == 1:
        return b[:rnd.randrange(len(b))], 'cut'
    if k == 2:
        i = rnd.randrange(len(b))
        return b[:i] + bytes([b[i] ^ (1 << rnd.randrange(8))]) + b[i + 1:], 'bit'
    if k == 3:
        i = rnd.randrange(len(b))
        return b[:i] + bytes([rnd.choice([0, 1, 127, 128, 129, 255, rnd.randrange(256)])]) + b[i + 1:], 'octet'
    if k == 4:
        i = rnd.randrange(len(b) + 1)
        return b[:i] + rnd.randbytes(rnd.choice([1, 1, 2, 7, 40])) + b[i:], 'insert'
    if k == 5:
        i = rnd.randrange(len(b))
        return b[:i] + b[i + rnd.choice([1, 1, 2, 9]):], 'delete'
    if k == 6:
        return b + rnd.choice([b'\0', b'\0\0', b'\4\0', rnd.randbytes(3), b]), 'trail'
    t = X.parse(b)
    if k in (7, 8):
        p = rnd.choice(list(nodes(t)))
        return enc(t, (p, rnd)), 'length'
    for _ in range(rnd.choice([1, 1, 1, 2, 3])):
        p = rnd.choice(list(leaves(t)))
        tag, v = get(t, p)
        m = rnd.randrange(14)
        if m == 0:
            n = [(tag, b'')]
        elif m == 1:
            n = [(tag, b'\0')]
        elif m == 2:
            n = [(tag, bytes(rnd.choice([1, 1, 3, 200])) + v)]
        elif m == 3:
            n = [(tag, v[:-1])]
        elif m == 4:
            n = [(tag, v + bytes([rnd.randrange(256)]))]
        elif m == 5:
            n = [(tag, rnd.randbytes(len(v)))]
        elif m == 6:
            n = [(tag, (int.from_bytes(v, 'big') + rnd.choice([-2, -1, 1, 2])) .__abs__().to_bytes(len(v) + 1, 'big').lstrip(b'\0') or b'\0')]
        elif m == 7:
            n = [(tag, b'\xff' * rnd.choice([1, 2, 3, 4, 5, 8, 9, 128, 129, 130, 5000]))]
        elif m == 8:
            n = [(rnd.choice([2, 3, 4, 5, 10, 12, 0x24, 0x30, 0x31, 0x84, 0xa0, 0]), v)]
        elif m == 9:
            n = []
        elif m == 10:
            n = [(tag, v), (tag, v)]
        elif m == 11:
            q = rnd.choice(list(leaves(t)))
            n = [(tag, get(t, q)[1])]
        elif m == 12:
            n = [(tag, rnd.choice([b'\1', b'\2', b'\3', b'\4', b'\5', b'\6', b'\xff', b'\0\0\0\0\4', b'\x7f\xff\xff\xff', b'\x80\0\0\0', b'\x04\0', b'\x04\1', b'\0']))]
        else:
            n = [(0x30, [(tag, v)])]
        try:
            t = put(t, p, n)
        except Exception:
            pass
        if not list(leaves(t)):
            break
    return enc(t), 'field'


def cvok(cv, was=None):
    if not is_prime(cv.p) or cv.p < 5:
        return 'modulus that is not prime accepted: %x' % cv.p
    if not cv.on((cv.G[0] % cv.p, cv.G[1] % cv.p)):
        return 'generator off the curve accepted'
    if cv.bits < cv.p.bit_length() or cv.n < 2:
        return 'unusable curve accepted'
    if was is not None and was.params() != cv.params():
        return 'curve %s came out as %s' % (was.params(), cv.params())


def pts(b, cv):
    return {a[1] for a in codec.decode(cv, b) if a is not None}


def same_point(cv, inb, outb):
    o = pts(outb, cv)
    if not o or not all(cv.on(P) for P in o):
        return 'point off the curve: ' + outb.hex()
    if inb is not None and not (o & pts(inb, cv)):
        return 'point %s came out as %s' % (inb.hex(), outb.hex())
    if cv.enc(next(iter(o)), True) != outb and next(iter(o)) != cv.O:
        return 'encoding of the point is not canonical: ' + outb.hex()


def judge(kind, b, what):
    def f(got):
        if got == '1':
            return 'a legitimate input was rejected' if what is None else None
        w = got.split(' ')
        if w[0] != '0':
            return 'strange answer'
        if what == 'cut':
            return 'truncated input accepted'
        r = [b'' if x == '-' else bytes.fromhex(x) for x in w[1:]]
        if what is None and kind != 'msg' and r[0] != b:
            return 're-export differs from the canonical input'
        rd = {'priv': X.read_priv, 'pub': X.read_pub, 'eg': X.read_eg, 'msg': X.read_msg}[kind]
        try:
            src = rd(b)
        except ValueError:
            src = None          # the decoder may be more lenient than the reference about tags and lengths
        if kind == 'msg':
            return 'fields differ from the input' if src is not None and list(src) != r else None
        o = rd(r[0])
        cv = o[-1]
        m = cvok(cv, src[-1] if src else None)
        if m:
            return m
        if kind == 'priv':
            if src and src[0] != o[0]:
                return 'key changed'
            return None if X.priv_der(o[0], cv) == r[0] else 're-export is not canonical'
        m = same_point(cv, src[0] if src else None, o[0])
        if kind == 'eg' and not m:
            m = same_point(cv, src[1] if src else None, o[1])
        if m:
            return m
        return None if X.seq(*[X.oct_(x) for x in o[:-1]], X.curve_der(cv)) == r[0] else 're-export is not canonical'
    return f


def offpoint(cv, rnd, b):
    """encodings that must not be accepted for a point"""
    L = cv.plen
    x = rnd.randrange(cv.p)
    k = rnd.randrange(6)
    if k == 0:
        for _ in range(40):
            if cv.lift(x) is None:
                return bytes([2 + rnd.randrange(2)]) + x.to_bytes(L, 'big')
            x = rnd.randrange(cv.p)
    if k == 1:
        return b'\4' + x.to_bytes(L, 'big') + rnd.randrange(cv.p).to_bytes(L, 'big')
    if k == 2 and cv.p + 1 < 256 ** L:
        return bytes([b[0]]) + rnd.randrange(cv.p, 256 ** L).to_bytes(L, 'big')
    if k == 3:
        return bytes([rnd.choice([1, 5, 6, 7, 255])]) + b[1:]
    if k == 4:
        return b[:-1]
    return b + b'\0'


def base(rnd):
    cv = rnd.choice(zoo.uniq(zoo.named) + zoo.iso if rnd.random() < .7 else zoo.tiny)
    kind = rnd.choice(['priv', 'pub', 'pub', 'msg', 'eg', 'eg'])
    P = cv.mul(rnd.randrange(1, cv.n), cv.G)
    Q = cv.mul(rnd.randrange(1, cv.n), cv.G)
    if kind == 'priv':
        return kind, cv, X.priv_der(rnd.choice([0, 1, cv.n - 1, cv.n, rnd.randrange(cv.n), rnd.getrandbits(3000)]), cv)
    if P is None or Q is None:
        P = Q = cv.G
    if kind == 'pub':
        return kind, cv, X.pub_der(P, cv)
    if kind == 'eg':
        return kind, cv, X.eg_der(P, Q, cv)
    return kind, cv, X.msg_der(P, cv, rnd.randbytes(24), rnd.randbytes(rnd.choice([1, 5, 200, 3000])))


def seen(op, f, legit):
    """the verdict f on the answer, and whatever the sanitizers saw during the operation"""
    def g(got):
        ans, _, rest = got.partition('!')
        ans = ans.strip()
        out = []
        if rest:
            st, _, e = rest.partition(' ')
            err = '' if e == '-' else bytes.fromhex(e).decode(errors='replace')
            rep = X.reports(err, op)
            if not rep:
                rep = [('hang', 'hang:' + op) if int(st) == 14 else ('status', 'status:%s:%s' % (op, st))]
            for cls, fn in rep:
                out.append(('%s:%s' % ('legit:' + cls if legit else 'malformed', fn), cls + ' ' + err[:2500]))
        if ans:
            try:
                m = f(ans) if callable(f) else None if ans == f else 'got %s, expected %s' % (ans, f)
            except Exception as ex:
                m = 'unexpected answer %r (%s)' % (ans[:200], ex)
            if m:
                out.append(('verdict:%s:' % op + m.split(':')[0].split(' came')[0].replace(' ', '-'), m))
        return out or None
    return g


def hx(b):
    return b.hex() or '-'


def gen(t):
    rnd = random.Random(t[0])
    out = []
    for _ in range(t[1]):
        kind, cv, b = base(rnd)
        c = Case('import-' + kind, cv.label())
        for _ in range(12):
            m, what = mutate(rnd, b)
            if what == 'cut' and m == b:
                what = None
            if what is not None and m == b:
                what = None
            k2 = kind if rnd.random() < .95 else rnd.choice(['priv', 'pub', 'msg', 'eg'])
            if k2 != kind and what is None:
                what = 'kind'
            c.op('%s %s' % (k2, hx(m)), seen(k2, judge(k2, m, what), what is None), (k2, m))
        if kind in ('pub', 'eg'):
            t_ = X.parse(b)
            for _ in range(4):
                i = rnd.randrange(len(t_[1]) - 1)
                w = offpoint(cv, rnd, t_[1][i][1])
                if pts(w, cv):
                    continue
                m = enc(put(t_, (i,), [(4, w)]))
                c.op('%s %s' % (kind, hx(m)), seen(kind, '1', False), (kind, m))
            # a curve the point is not on, a modulus that is not prime, a generator off the curve
            ci = len(t_[1]) - 1
            for path, val in (((ci, 0), X.octets(cv.p + 2)), ((ci, 0), X.octets(cv.p * 3)), ((ci, 5, 0), X.octets((cv.G[0] + 1) % cv.p)), ((ci, 2, 1), X.octets(cv.c2 ^ 1))):
                m = enc(put(t_, path, [(4, val)]))
                c.op('%s %s' % (kind, hx(m)), seen(kind, judge(kind, m, 'curve'), False), (kind, m))
        out.append(c)
        c = Case('b64', kind)
        lab = rnd.choice([X.PRIV, X.PUB, X.MSG, X.EGC, X.SMSG, X.SSIG])
        d = rnd.choice([b[:rnd.randrange(1, 30)], b, rnd.randbytes(rnd.randrange(1, 400)), bytes(rnd.randrange(1, 60))])

        def wr(got, d=d, lab=lab):
            st, h = got.split(' ')
            if st != '0':
                return 'failed'
            txt = bytes.fromhex(h)
            if X.unwrap(txt, lab) != d or max(map(len, txt.split(b'\n'))) > 80:
                return 'written text does not hold the data'
        c.op('wrap %s %s' % (hx(d), lab), seen('wrap', wr, True), (lab, d))
        w = X.wrap(d, lab, rnd.choice([4, 64, 72, 76, 1000]))
        pre = rnd.choice([b'', b'', X.wrap(b'other', 'OTHER'), b'text\n', b'\n\n'])
        c.op('unwrap %s %s' % (hx(pre + w), lab), seen('unwrap', '0 ' + hx(d), True), (lab, w))
        c.op('unwrap %s %s' % (hx(w), lab + 'X'), seen('unwrap', '1', False))
        for _ in range(6):
            k = rnd.randrange(7)
            i = rnd.randrange(len(w))
            m = (w[:i] if k == 0 else w[:i] + bytes([rnd.randrange(256)]) + w[i + 1:] if k == 1 else w.replace(b'=', b'') if k == 2 else b'-' * rnd.randrange(30) + w[i:] if k == 3 else
                 w[:i] + rnd.choice([b'-', b'-----', b'\0', b'=', b'\xff\xfe', b'\n']) + w[i:] if k == 4 else rnd.randbytes(rnd.randrange(100)) if k == 5 else
                 b'-----BEGIN %s-----%s-----END %s-----' % (lab.encode(), rnd.choice([b'', b'\n', b'A', b'AB', b'=', b'====', b'\xe9\xff', b'AAA']), lab.encode()))
            c.op('unwrap %s %s' % (hx(m), lab), seen('unwrap', lambda g: None if g.split(' ')[0] in '01' else 'strange answer', False), (lab, m))
        out.append(c)
    return out


def tool(a):
    """damaged files for the programs: they end with 0 or 1, without sanitizer report"""
    i, seed, d = a
    rnd = random.Random(seed)
    cv = rnd.choice(zoo.uniq(zoo.named) + zoo.iso)
    k = rnd.randrange(1, cv.n)
    Q = cv.mul(k, cv.G)
    txt = b'hello'
    good = {X.PRIV: X.priv_der(k, cv), X.PUB: X.pub_der(Q, cv), X.MSG: X.msg_der(Q, cv, bytes(24), txt), X.EGC: X.eg_der(Q, cv.G, cv)}
    sig = X.wrap(txt, X.SMSG) + X.wrap(rnd.randbytes(2 * ((cv.n.bit_length() + 7) // 8)), X.SSIG)
    plan = [('ecdh_pub', None, X.PRIV), ('ecdh_enc', X.PUB, None), ('ecdh_dec', X.PRIV, X.MSG), ('ecdsa_sign', X.PRIV, None), ('ecdsa_verify', X.PUB, 'sig'), ('ecelgamal_enc', X.PUB, X.PUB), ('ecelgamal_dec', X.PRIV, X.EGC)]
    viol, n, sigs = [], 0, set()
    for tl, key, inp in plan:
        which = rnd.choice([x for x in ('key', 'inp') if (key if x == 'key' else inp)] or ['key'])

        def make(lab, bad):
            if lab is None:
                return txt
            if lab == 'sig':
                if not bad:
                    return sig
                b = rnd.choice([sig, X.wrap(txt, X.SMSG) + X.wrap(rnd.randbytes(rnd.choice([1, 2, 3, 60, 4000])), X.SSIG)])
                j = rnd.randrange(len(b))
                return rnd.choice([b, b[:j], b[:j] + rnd.randbytes(1) + b[j + 1:], b[:j] + b'-' + b[j:], b[:j] + b'\0' + b[j:]])
            if not bad:
                return X.wrap(good[lab], lab)
            if rnd.random() < .85:
                return X.wrap(mutate(rnd, good[lab])[0] or b'\0', lab)
            w = X.wrap(good[lab], lab)
            j = rnd.randrange(len(w))
            return rnd.choice([w[:j], w[:j] + rnd.randbytes(1) + w[j + 1:], w[j:]])
        args = []
        kf = os.path.join(d, 'k%d_%s' % (i, tl))
        kb = make(key, which == 'key') if key else b''
        ib = make(inp, which == 'inp')
        if key:
            with open(kf, 'wb') as fh:
                fh.write(kb)
            args = ['-k', kf]
        try:
            r = subprocess.run([T[tl], *args], input=ib, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vlib.san_env(extra=X.ENV), timeout=60)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', b'no end within 60 s'
        n += 1
        sigs.add(hash((tl, kb, ib)))
        rep = X.reports(err.decode(errors='replace'), tl)
        if rc not in (0, 1) and not rep:
            rep = [('', 'hang:' + tl if rc == 'timeout' else 'status:%s:%s' % (tl, rc))]
        for cls, fn in rep:
            viol.append(('malformed:%s' % fn, '[%s] exit %s\n%s' % (cv.name, rc, err.decode(errors='replace')[-3000:]), 'key file:\n%r\ninput:\n%r' % (kb, ib)))
        if key:
            os.unlink(kf)
    return n, sigs, viol


def run(ctx):
    global T
    ctx.rule = 'octet strings (structured mutation of DER keys, messages and ciphertexts; damaged base64) imported under ASan/UBSan/LSan: rejected, or consistent with an independent parser and re-exported canonically; damaged files for the programs; distinct = (importer, octets)'
    T = X.build()
    tasks = [(ctx.rnd.getrandbits(64), 24) for _ in range(ctx.pick(16, 400))]
    ctx.drive(T['ecimport'], gen, tasks, env=X.ENV)
    tt = [(i, ctx.rnd.getrandbits(64), ctx.scratch()) for i in range(ctx.pick(96, 2400))]
    with mp.get_context('fork').Pool(vlib.NPROC) as pool:
        for n, sg, v in pool.imap_unordered(tool, tt):
            ctx.evals += n
            ctx.sigs |= sg
            ctx.bump('tool_runs', n)
            for x in v:
                ctx.violation(*x)
