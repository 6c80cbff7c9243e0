"""The example tools: build them under sanitizers, and an independent implementation of their file formats."""
import base64
import hashlib
import os
import re
import shutil
import struct
import vlib
from ecref import *

TOOLS = 'ecdh_gen ecdh_pub ecdh_enc ecdh_dec ecdsa_sign ecdsa_verify ecelgamal_enc ecelgamal_dec'.split()
PRIV, PUB, MSG, EGC = 'ECDH PRIVATE KEY', 'ECDH PUBLIC KEY', 'ECDHE_XSALSA20 ENCRYPTED MESSAGE', 'ECELGAMAL ENCRYPTED MESSAGE'
SMSG, SSIG = 'ECDSA SIGNED MESSAGE', 'ECDSA SIGNATURE'

# the programs go on after a report: a known one must not hide what comes after it
FLAGS = [f for f in vlib.SAN if 'recover' not in f] + ['-fsanitize-recover=all']


def build():
    srcs = vlib.repo_files('src/*.c')
    ex = vlib.repo_files('examples/*.c', 'examples/*.h', 'examples/*.asn')
    ex = [f for f in ex if not f.endswith('_asn1_tab.c')]
    hdrs = vlib.repo_files('include/*.h', 'include/ecc/*.h')
    har = os.path.join(vlib.VERIF, 'harness', 'ecimport.c')
    d, fresh = vlib.build_dir('extools', srcs + hdrs + ex + [har], FLAGS)
    out = {t: os.path.join(d, t) for t in TOOLS + ['ecimport']}
    if not fresh:
        return out
    exd = os.path.join(vlib.REPO, 'examples')
    for a in ('ecdhe', 'elgamal'):
        shutil.copy(os.path.join(exd, a + '.asn'), d)
        vlib.sh(['asn1Parser', a + '.asn'], cwd=d)
    inc = ['-I' + exd, '-I' + os.path.join(vlib.REPO, 'include')]
    fl = [*FLAGS, '-w']
    objs, jobs, lib = {}, [], []
    for s in srcs:
        o = os.path.join(d, 'l_' + os.path.basename(s) + '.o')
        lib.append(o)
        jobs.append(['gcc', *fl, *inc, '-c', s, '-o', o])
    for s in [f for f in ex if f.endswith('.c')] + [os.path.join(d, a + '_asn1_tab.c') for a in ('ecdhe', 'elgamal')] + [har]:
        o = os.path.join(d, 'x_' + os.path.basename(s)[:-2] + '.o')
        objs[os.path.basename(s)[:-2]] = o
        jobs.append(['gcc', *fl, *inc, '-c', s, '-o', o])
    vlib.run_jobs(jobs)
    com = [objs[x] for x in objs if x not in TOOLS and x != 'ecimport']
    vlib.run_jobs([['gcc', *fl, '-o', out[t], objs[t], *com, *lib, '-lgmp', '-ltasn1', '-lpopt', '-lb64', '-lsodium'] for t in out])
    open(os.path.join(d, '.done'), 'w').close()
    return out


ENV = {'ASAN_OPTIONS': 'detect_leaks=1:exitcode=0:leak_check_at_exit=0:halt_on_error=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:fast_unwind_on_malloc=0', 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=0'}


def reports(err, where):
    """sanitizer reports and failed assertions in err -> [(class, function of the example programs it happened in, or where)]"""
    out = [('assert', where if f.lstrip('_').startswith('mp') else f) for f in re.findall(r'(\w+): Assertion `', err)]
    for part in re.split(r'(?m)^(?===\d+==ERROR: |Direct leak of|Indirect leak of|SUMMARY: |.*runtime error: )', err):
        cls = ('memory' if re.match(r'==\d+==ERROR: AddressSanitizer', part) else 'leak' if re.match('Direct leak|Indirect leak', part) else
               'undefined' if 'runtime error: ' in part.split('\n', 1)[0] else None)
        if cls is None:
            continue
        top = part.split('freed by thread')[0].split('allocated by thread')[0].split('is located')[0]
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S*)', top)
        ex = [f for f, p in fr if '/examples/' in p]
        out.append((cls, where if not ex or ex[0] == 'main' else ex[0]))
    return sorted(set(out))


# ---------------------------------------------------------------- DER
def tlv(tag, body):
    n = len(body)
    if n < 128:
        return bytes([tag, n]) + body
    l = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([tag, 128 + len(l)]) + l + body


def octets(z):
    return z.to_bytes(max(1, (z.bit_length() + 7) // 8), 'big')


def seq(*parts):
    return tlv(0x30, b''.join(parts))


def oct_(b):
    return tlv(4, b)


def num(z):
    return oct_(octets(z))


def integer(z):
    return tlv(2, z.to_bytes((z.bit_length() + 8) // 8 if z >= 0 else ((z + 1).bit_length() + 8) // 8, 'big', signed=True))


def curve_der(cv):
    return seq(num(cv.p), tlv(10, bytes([cv.form])), seq(num(cv.c1), num(cv.c2)), num(cv.n), num(cv.h), seq(num(cv.G[0]), num(cv.G[1])), integer(cv.bits))


def priv_der(d, cv):
    return seq(num(d), curve_der(cv))


def pub_der(P, cv):
    return seq(oct_(cv.enc(P, True)), curve_der(cv))


def msg_der(P, cv, nonce, ct):
    return seq(oct_(cv.enc(P, True)), oct_(nonce), oct_(ct))


def eg_der(C, D, cv):
    return seq(oct_(cv.enc(C, True)), oct_(cv.enc(D, True)), curve_der(cv))


def parse(b):
    """-> nested list of (tag, bytes | list); raises ValueError"""
    def one(i, end):
        if end - i < 2:
            raise ValueError('short')
        tag, n = b[i], b[i + 1]
        i += 2
        if n & 128:
            k = n & 127
            if k == 0 or k > 8 or end - i < k:
                raise ValueError('length')
            n = int.from_bytes(b[i:i + k], 'big')
            i += k
        if end - i < n:
            raise ValueError('length')
        if tag == 0x30:
            out, j = [], i
            while j < i + n:
                x, j = one(j, i + n)
                out.append(x)
            return (tag, out), i + n
        return (tag, b[i:i + n]), i + n
    x, j = one(0, len(b))
    if j != len(b):
        raise ValueError('trailing')
    return x


def _oct(x):
    if x[0] != 4:
        raise ValueError('tag')
    return x[1]


def _int(x, tag):
    if x[0] != tag or not x[1]:
        raise ValueError('tag')
    return int.from_bytes(x[1], 'big', signed=True)


def _seq(x, k):
    if x[0] != 0x30 or len(x[1]) != k:
        raise ValueError('sequence')
    return x[1]


def _num(x):
    return int.from_bytes(_oct(x), 'big')


def curve_of(x):
    p, ty, prm, n, h, g, bits = _seq(x, 7)
    p1, p2 = _seq(prm, 2)
    gx, gy = _seq(g, 2)
    form = _int(ty, 10)
    if form not in (WS, ED, MO, TE) or _num(p) < 2:
        raise ValueError('type')
    return Curve(form, _num(p), _num(p1), _num(p2), _num(n), _num(h), (_num(gx), _num(gy)), _int(bits, 2))


def read_priv(b):
    d, c = _seq(parse(b), 2)
    return _num(d), curve_of(c)


def read_pub(b):
    k, c = _seq(parse(b), 2)
    return _oct(k), curve_of(c)


def read_msg(b):
    return tuple(_oct(x) for x in _seq(parse(b), 3))


def read_eg(b):
    c, d, cv = _seq(parse(b), 3)
    return _oct(c), _oct(d), curve_of(cv)


# ---------------------------------------------------------------- base64 files
def wrap(b, label, width=72):
    s = base64.b64encode(b).decode()
    s = '\n'.join(s[i:i + width] for i in range(0, len(s), width))
    return ('-----BEGIN %s-----\n%s\n-----END %s-----\n' % (label, s, label)).encode()


def unwrap(t, label):
    a, b = b'-----BEGIN %s-----' % label.encode(), b'-----END %s-----' % label.encode()
    i = t.index(a) + len(a)
    return base64.b64decode(b''.join(t[i:t.index(b, i)].split()), validate=True)


# ---------------------------------------------------------------- XSalsa20
def _core(inp):
    x = list(inp)
    M = 0xffffffff

    def q(a, b, c, d):
        for i, j, k, r in ((b, a, d, 7), (c, b, a, 9), (d, c, b, 13), (a, d, c, 18)):
            t = (x[j] + x[k]) & M
            x[i] ^= ((t << r) | (t >> (32 - r))) & M
    for _ in range(10):
        q(0, 4, 8, 12), q(5, 9, 13, 1), q(10, 14, 2, 6), q(15, 3, 7, 11)
        q(0, 1, 2, 3), q(5, 6, 7, 4), q(10, 11, 8, 9), q(15, 12, 13, 14)
    return x


_S = struct.unpack('<4I', b'expand 32-byte k')


def _state(k, n4):
    k = struct.unpack('<8I', k)
    return [_S[0], *k[:4], _S[1], *n4, _S[2], *k[4:], _S[3]]


def xsalsa20_xor(data, nonce, key):
    h = _core(_state(key, struct.unpack('<4I', nonce[:16])))
    sub = struct.pack('<8I', *[h[i] for i in (0, 5, 10, 15, 6, 7, 8, 9)])
    n2 = struct.unpack('<2I', nonce[16:24])
    ks = bytearray()
    for c in range((len(data) + 63) // 64):
        st = _state(sub, (*n2, c & 0xffffffff, c >> 32))
        ks += struct.pack('<16I', *[(a + b) & 0xffffffff for a, b in zip(_core(st), st)])
    return (int.from_bytes(data, 'big') ^ int.from_bytes(ks[:len(data)], 'big')).to_bytes(len(data), 'big')


def key_of(cv, P):
    return hashlib.sha256(cv.enc(P, True)).digest()
