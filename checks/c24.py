"""C24: the example tools' pipelines, each file they write read by an independent implementation and vice versa."""
import os
import random
import subprocess
import hashlib
import multiprocessing as mp
import extools as X
import vlib
import zoo
from ecref import *

T = None


def ENV():
    return vlib.san_env(extra=dict(X.ENV, ASAN_OPTIONS=X.ENV['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')))



class Fail(Exception):
    pass


class Sess:
    def __init__(self, d, rnd):
        self.d, self.rnd, self.n, self.log, self.evals, self.sigs, self.seen = d, rnd, 0, [], 0, set(), {}

    def file(self, data):
        self.n += 1
        f = os.path.join(self.d, 'f%d' % self.n)
        with open(f, 'wb') as fh:
            fh.write(data)
        self.log.append('file %s: %s' % (f, data[:3000]))
        return f

    def run(self, tool, *args, inp=b'', sig=None, ctx='report'):
        self.log.append('%s %s < %s' % (tool, ' '.join(args), inp[:3000]))
        try:
            r = subprocess.run([T[tool], *args], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV(), timeout=120)
        except subprocess.TimeoutExpired:
            raise Fail(tool + ':hang', 'no end within 120 s')
        self.evals += 1
        if sig:
            self.sigs.add(hash((tool,) + sig))
        err = r.stderr.decode(errors='replace')
        for cls, fn in X.reports(err, tool):
            # the program went on after the report; its results are judged all the same
            self.note('%s:%s:%s' % (ctx, cls, fn), tool + '\n' + err[:3000])
        return r.returncode, r.stdout

    def note(self, key, msg):
        self.seen.setdefault(key, (msg, '\n'.join(self.log[-60:])))

    def good(self, tool, *args, inp=b'', sig=None):
        rc, out = self.run(tool, *args, inp=inp, sig=sig)
        if rc != 0:
            raise Fail(tool + ':refused', 'exit code %d for a legitimate request' % rc)
        return out

    def bad(self, what, tool, *args, inp=b'', sig=None):
        rc, out = self.run(tool, *args, inp=inp, sig=sig, ctx='refusal')
        if rc == 0 or out:
            self.note('%s:%s' % (tool, what), 'exit code %d and %d octets of output, an error was due' % (rc, len(out)))
        elif rc != 1:
            self.note('%s:%s:crash' % (tool, what), 'exit code %d, an error was due' % rc)

    def same(self, tool, what, got, want):
        self.evals += 1
        if got != want:
            raise Fail('%s:%s' % (tool, what), 'got %r, expected %r' % (got[:400] if hasattr(got, '__getitem__') else got, want[:400] if hasattr(want, '__getitem__') else want))


def text(rnd, ln):
    k = rnd.randrange(5)
    if k == 0:
        return bytes(ln)
    if k == 1:
        return (b'-----BEGIN ECDSA SIGNATURE-----\nAAAA\n-----END ECDSA SIGNATURE-----\n' * (ln // 60 + 1))[:ln]
    if k == 2:
        return bytes([rnd.choice(b'-\n\r =')]) * ln
    return rnd.randbytes(ln)


def flip(rnd, b, lo=0, hi=None):
    i = rnd.randrange(lo, hi if hi is not None else len(b))
    return b[:i] + bytes([b[i] ^ (1 << rnd.randrange(8))]) + b[i + 1:]


def session(s, cv, rnd, lens, other):
    nm = cv.name
    # keys
    privf = s.good('ecdh_gen', '--curve=' + nm, sig=(nm,))
    try:
        d, kc = X.read_priv(X.unwrap(privf, X.PRIV))
    except Exception as ex:
        raise Fail('ecdh_gen:format', repr(ex))
    s.same('ecdh_gen', 'curve', kc.params(), cv.params())
    if not 0 <= d < cv.n:
        raise Fail('ecdh_gen:range', '%x' % d)
    kf = s.file(privf)
    stdin = rnd.random() < .5
    pubf = s.good('ecdh_pub', inp=privf, sig=(nm, d)) if stdin else s.good('ecdh_pub', '--file', kf, sig=(nm, d))
    Q = cv.mul(d, cv.G)
    s.same('ecdh_pub', 'der', X.unwrap(pubf, X.PUB), X.pub_der(Q, cv))
    pf = s.file(pubf)
    # keys of the other side, written by the reference
    d2 = rnd.choice([1, 2, 3, cv.n - 1, cv.n - 2, rnd.randrange(1, cv.n), rnd.randrange(1, cv.n), rnd.randrange(1, 2 ** 32)])
    Q2 = cv.mul(d2, cv.G)
    kf2, pf2 = s.file(X.wrap(X.priv_der(d2, cv), X.PRIV)), s.file(X.wrap(X.pub_der(Q2, cv), X.PUB))
    s.same('ecdh_pub', 'der', X.unwrap(s.good('ecdh_pub', '-f', kf2, sig=(nm, d2)), X.PUB), X.pub_der(Q2, cv))
    okf, opf = s.file(X.wrap(X.priv_der(3, other), X.PRIV)), s.file(X.wrap(X.pub_der(other.mul(3, other.G), other), X.PUB))
    for ln in lens:
        m = text(rnd, ln)
        # encryption: the tool's message read by the tool and by the reference
        a = s.good('ecdh_enc', '--pubkey=' + pf, inp=m, sig=(nm, m)) if rnd.random() < .5 else s.good('ecdh_enc', '-k', pf, '-f', s.file(m), sig=(nm, m))
        s.same('ecdh_dec', 'roundtrip', s.good('ecdh_dec', '--privkey=' + kf, inp=a, sig=(nm, a)), m)
        try:
            pb, nonce, ct = X.read_msg(X.unwrap(a, X.MSG))
            R = (int.from_bytes(pb[1:], 'big'), None)
            y = cv.lift(R[0])
            R = (R[0], y if y & 1 == pb[0] & 1 else cv.p - y)
        except Exception as ex:
            raise Fail('ecdh_enc:format', repr(ex))
        S = cv.mul(d, R)
        if len(nonce) != 24 or len(ct) != ln:
            raise Fail('ecdh_enc:format', 'nonce of %d, ciphertext of %d octets for a message of %d' % (len(nonce), len(ct), ln))
        part = min(ln, 4096)
        s.same('ecdh_enc', 'reference', X.xsalsa20_xor(ct[:part], nonce, X.key_of(cv, S)), m[:part])
        b = s.good('ecdh_enc', '--pubkey=' + pf, inp=m)
        if X.unwrap(b, X.MSG) == X.unwrap(a, X.MSG) or X.read_msg(X.unwrap(b, X.MSG))[1] == nonce or X.read_msg(X.unwrap(b, X.MSG))[0] == pb:
            raise Fail('ecdh_enc:reuse', 'nonce or ephemeral key used twice')
        # a message written by the reference
        if ln <= 4096:
            e = rnd.randrange(1, cv.n)
            nonce = rnd.randbytes(24)
            ct = X.xsalsa20_xor(m, nonce, X.key_of(cv, cv.mul(e, Q)))
            r = X.wrap(X.msg_der(cv.mul(e, cv.G), cv, nonce, ct), X.MSG, rnd.choice([64, 72, 76, 100000]))
            s.same('ecdh_dec', 'reference', s.good('ecdh_dec', '-k', kf, '-f', s.file(r), sig=(nm, r)), m)
        if other.plen != cv.plen:
            s.bad('wrong-curve', 'ecdh_dec', '-k', okf, inp=a)
        # signatures
        sg = s.good('ecdsa_sign', '--privkey=' + kf, inp=m, sig=(nm, m)) if rnd.random() < .5 else s.good('ecdsa_sign', '-k', kf, '-f', s.file(m), sig=(nm, m))
        try:
            s.same('ecdsa_sign', 'message', X.unwrap(sg, X.SMSG), m)
            raw = X.unwrap(sg, X.SSIG)
            L = len(raw) // 2
            r, t = int.from_bytes(raw[:L], 'big'), int.from_bytes(raw[L:], 'big')
        except ValueError as ex:
            raise Fail('ecdsa_sign:format', repr(ex))
        dig = hashlib.sha512(m).digest()
        s.same('ecdsa_sign', 'valid', len(raw) == 2 * ((cv.n.bit_length() + 7) // 8) and ecdsa_valid(cv, Q, dig, r, t), True)
        s.same('ecdsa_verify', 'roundtrip', s.good('ecdsa_verify', '--pubkey=' + pf, inp=sg, sig=(nm, sg)), m)
        # a signature by the reference, and its twin n-s
        while True:
            k = rnd.randrange(1, cv.n)
            rr = cv.mul(k, cv.G)[0] % cv.n
            ss = pow(k, -1, cv.n) * (digest_int(dig, cv.n) + rr * d) % cv.n
            if rr and ss:
                break
        if cv.form in (WS, MO) and rnd.random() < .5:      # -P keeps x
            ss = cv.n - ss
        mk = lambda mm, rb: X.wrap(mm, X.SMSG) + X.wrap(rb, X.SSIG)
        rb = rr.to_bytes(L, 'big') + ss.to_bytes(L, 'big')
        s.same('ecdsa_verify', 'reference', s.good('ecdsa_verify', '-k', pf, '-f', s.file(mk(m, rb)), sig=(nm, rb)), m)
        for what, f in (('message-bit', mk(flip(rnd, m), raw)), ('message-longer', mk(m + b'\0', raw)), ('message-shorter', mk(m[:-1] or b'\1' + m, raw)), ('signature-bit', mk(m, flip(rnd, raw))),
                        ('zero-r', mk(m, bytes(L) + raw[L:])), ('zero-s', mk(m, raw[:L] + bytes(L))), ('swapped', mk(m, raw[L:] + raw[:L])), ('short', mk(m, raw[:-1])), ('long', mk(m, raw + b'\0')),
                        ('no-signature', X.wrap(m, X.SMSG)), ('no-message', X.wrap(raw, X.SSIG))):
            if what == 'signature-bit':
                x = X.unwrap(f, X.SSIG)
                if ecdsa_valid(cv, Q, dig, int.from_bytes(x[:L], 'big'), int.from_bytes(x[L:], 'big')):
                    continue
            s.bad(what, 'ecdsa_verify', '-k', pf, inp=f, sig=(nm, what, f))
        if Q2 != Q:
            s.bad('wrong-key', 'ecdsa_verify', '-k', pf2, inp=sg, sig=(nm, 'wrongkey', sg))
        s.bad('wrong-curve', 'ecdsa_verify', '-k', opf, inp=sg, sig=(nm, 'wrongcurve', sg))
    # Elgamal: the public key of one side for the other
    for _ in range(2):
        e = s.good('ecelgamal_enc', '--pubkey=' + pf2, inp=pubf, sig=(nm, 'eg', pubf)) if rnd.random() < .5 else s.good('ecelgamal_enc', '-k', pf2, '-f', pf, sig=(nm, 'eg', pubf))
        s.same('ecelgamal_dec', 'roundtrip', X.unwrap(s.good('ecelgamal_dec', '-k', kf2, inp=e, sig=(nm, e)), X.PUB), X.pub_der(Q, cv))
        try:
            cb, db, ec = X.read_eg(X.unwrap(e, X.EGC))
            dec = lambda b: (lambda x, y: (x, y if y & 1 == b[0] & 1 else cv.p - y))(int.from_bytes(b[1:], 'big'), cv.lift(int.from_bytes(b[1:], 'big')))
            M = cv.add(dec(db), cv.neg(cv.mul(d2, dec(cb))))
        except Exception as ex:
            raise Fail('ecelgamal_enc:format', repr(ex))
        s.same('ecelgamal_enc', 'curve', ec.params(), cv.params())
        s.same('ecelgamal_enc', 'reference', M, Q)
        k = rnd.randrange(1, cv.n)
        P = cv.mul(rnd.randrange(1, cv.n), cv.G)
        f = X.wrap(X.eg_der(cv.mul(k, cv.G), cv.add(P, cv.mul(k, Q2)), cv), X.EGC)
        s.same('ecelgamal_dec', 'reference', X.unwrap(s.good('ecelgamal_dec', '-k', kf2, '-f', s.file(f), sig=(nm, f)), X.PUB), X.pub_der(P, cv))
        s.bad('wrong-curve', 'ecelgamal_dec', '-k', okf, inp=e, sig=(nm, 'egwc', e))
        s.bad('wrong-curve', 'ecelgamal_enc', '-k', opf, inp=pubf, sig=(nm, 'egwe', pubf))
    # files of the wrong kind, cut short, empty or missing
    none = os.path.join(s.d, 'none')
    for what, tool, args, inp in (
            ('curve-name', 'ecdh_gen', ['--curve=' + nm + 'x'], b''), ('curve-name', 'ecdh_gen', ['--curve=' + nm[:-1]], b''), ('pub-for-priv', 'ecdh_pub', [], pubf), ('empty', 'ecdh_pub', [], b''),
            ('missing', 'ecdh_pub', ['-f', none], b''), ('priv-for-pub', 'ecdh_enc', ['-k', kf], b'x'), ('no-key', 'ecdh_enc', [], b'x'), ('missing', 'ecdh_enc', ['-k', none], b'x'), ('empty', 'ecdh_enc', ['-k', pf], b''),
            ('missing', 'ecdh_enc', ['-k', pf, '-f', none], b''), ('pub-for-priv', 'ecdh_dec', ['-k', pf], a), ('no-key', 'ecdh_dec', [], a), ('cut', 'ecdh_dec', ['-k', kf], a[:rnd.randrange(len(a) // 2)]), ('plain', 'ecdh_dec', ['-k', kf], b'hello\n'),
            ('pub-for-priv', 'ecdsa_sign', ['-k', pf], b'x'), ('empty', 'ecdsa_sign', ['-k', kf], b''), ('no-key', 'ecdsa_sign', [], b'x'), ('no-key', 'ecdsa_verify', [], sg), ('empty', 'ecdsa_verify', ['-k', pf], b''),
            ('priv-for-pub', 'ecdsa_verify', ['-k', kf], sg), ('cut', 'ecdsa_verify', ['-k', pf], sg[:rnd.randrange(len(sg) - 40)]), ('priv-for-pub', 'ecelgamal_enc', ['-k', kf2], pubf), ('priv-for-pub', 'ecelgamal_enc', ['-k', pf2], privf),
            ('empty', 'ecelgamal_enc', ['-k', pf2], b''), ('pub-for-priv', 'ecelgamal_dec', ['-k', pf2], e), ('empty', 'ecelgamal_dec', ['-k', kf2], b''), ('cut', 'ecelgamal_dec', ['-k', kf2], e[:rnd.randrange(len(e) // 2)]),
            ('no-key', 'ecelgamal_enc', [], pubf), ('no-key', 'ecelgamal_dec', [], e)):
        if what == 'curve-name' and args[0][8:] in zoo.by_name:
            continue
        s.bad(what, tool, *args, inp=inp, sig=(nm, what, inp))


def work(a):
    i, nm, seed, lens, base = a
    rnd = random.Random(seed)
    cv = zoo.by_name[nm]
    other = rnd.choice([c for c in zoo.uniq(zoo.named) if c.params() != cv.params()])
    d = os.path.join(base, 's%d' % i)
    os.makedirs(d)
    s = Sess(d, rnd)
    v = None
    try:
        session(s, cv, rnd, lens, other)
    except Fail as ex:
        v = (ex.args[0], '[%s] %s' % (nm, ex.args[1]), '\n'.join(s.log[-60:]))
    return s.evals, s.sigs, ([v] if v else []) + [(k, '[%s] %s' % (nm, m), l) for k, (m, l) in s.seen.items()], s.log[:2], nm


def run(ctx):
    global T
    ctx.rule = 'runs of the example programs (ASan/UBSan) in tutorial pipelines; every file they write is read by an independent DER/base64/XSalsa20/ECDSA/Elgamal implementation, and files written by it are fed to them; tampered and unusable input must end in exit 1 without output; distinct = (tool, curve, input)'
    T = X.build()
    names = [c.name for c in zoo.named]
    tasks = []
    r = ctx.rnd
    got = subprocess.run([T['ecdh_gen'], '-l'], stdout=subprocess.PIPE, env=vlib.san_env()).stdout.decode().split('\n')[1:]
    got = [x.strip() for x in got if x.strip()]
    if sorted(got) != sorted(names):
        # curves that are listed but unknown to the reference are exercised by C06; the pipelines use those both know
        ctx.extra['listed'] = len(got)
    for rep in range(ctx.pick(1, 12)):
        for nm in names:
            lens = [r.choice([1, 2, 3, 4, 5]), r.choice([1, 2, 3, 16, 17, 53, 54, 55, 63, 64, 65, 108, r.randrange(1, 400)])]
            if r.random() < .25:
                lens.append(r.choice([15999, 16000, 16001, 32000, 48001, r.randrange(1, 60000)]))
            tasks.append((len(tasks), nm, r.getrandbits(64), lens, ctx.scratch()))
    with mp.get_context('fork').Pool(vlib.NPROC) as pool:
        for ev, sg, v, log, nm in pool.imap_unordered(work, tasks):
            ctx.evals += ev
            ctx.sigs |= sg
            ctx.bump('sessions')
            for x in log[:1]:
                ctx.sample(x[:300])
            for x in v:
                ctx.violation(*x)
