"""C19: scalar multiplication performs a scalar-independent sequence of point operations.  The library is compiled with
call and store instrumentation; the trace of outermost point additions, doublings and swaps is compared between scalars."""
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
import zoo
import pgen
import sigs


def classes(exe):
    out = []
    for line in vlib.sh(['nm', exe]).split('\n'):
        f = line.split()
        if len(f) != 3 or f[1] not in 'tT':
            continue
        n = f[2]
        if 'swap' in n and not n.startswith('__'):
            c = 'S'
        elif 'ECP' in n and re.search('double|dbl', n):
            c = 'D'
        elif 'ECP' in n and re.search('add|sub', n):
            c = 'A'
        else:
            continue
        out.append((int(f[0], 16), c, n))
    return sorted(out)


def scalars(n, rnd, k):
    s = [0, 1, 2, 3, n - 1, n - 2, n // 2, n // 2 + 1, (1 << (n.bit_length() - 1)), (1 << (n.bit_length() - 1)) - 1, 0x55 * ((1 << n.bit_length()) // 255) % n, 0xaa * ((1 << n.bit_length()) // 255) % n]
    while len(s) < k:
        t = rnd.randrange(5)
        b = n.bit_length()
        if t == 0:
            v = 1 << rnd.randrange(b)
        elif t == 1:
            v = (1 << rnd.randrange(b)) | (1 << rnd.randrange(b))
        elif t == 2:
            v = n - 1 - (1 << rnd.randrange(b))
        elif t == 3:
            v = rnd.getrandbits(rnd.randrange(1, b + 1))
        else:
            v = rnd.randrange(n)
        s.append(v % n)
    return s


def job(a):
    exe, syms, path, alarm = a
    try:
        r = subprocess.run([exe, syms, path, path + '.out'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=alarm)
        rc, err = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, err = 'timeout', ''
    return path, rc, err, open(path + '.out').read().split('\n') if os.path.exists(path + '.out') else []


def run(ctx):
    ctx.rule = ('traces of the outermost point additions, doublings and swaps, and of the stores made by swaps, for 0, 1, n-1, sparse, dense, short and random scalars (all scalars on tiny groups), compared within each '
                '(curve, route, point); distinct = (curve, route, scalar)')
    ctx.assumptions = ['operations are recognised by the words add, sub, double, dbl, swap in function names; work inside an operation is compared for swaps only', 'timing, memory addresses and the work inside additions are outside the property']
    rnd = ctx.rnd
    exes = []
    for opt in ('-O0', '-O1'):
        d = vlib.compile_c('trace' + opt, {'tracedrv': [vlib.VERIF + '/harness/tracedrv.c']}, cc='clang', flags=('-g', opt, '-w', '-fno-pie'),
                           lib_flags=('-finstrument-functions', '-fsanitize-coverage=func,trace-stores'), link=('-no-pie',))
        exe = d['tracedrv']
        cl = classes(exe)
        syms = os.path.join(ctx.scratch(), 'syms' + opt)
        open(syms, 'w').write(''.join('%x %s\n' % c[:2] for c in cl))
        exes.append((exe, syms))
    ctx.extra['traced_functions'] = [c[2] for c in cl]
    # work
    jobs = []
    big = [c for c in sigs.big() if c.p.bit_length() < 700]
    forms = sorted({c.form for c in big})
    picks = []
    for f in forms:
        picks += [(c, 0) for c in rnd.sample([c for c in big if c.form == f], ctx.pick(6, 30))]
    odd = [c for c in big if c.n.bit_length() > c.p.bit_length()] + [c for c in big if c.n.bit_length() < c.p.bit_length() - 8]
    picks += [(c, 0) for c in rnd.sample(odd, min(len(odd), ctx.pick(4, 16)))]
    picks += [(c, 1) for c in rnd.sample(sigs.tiny(), ctx.pick(16, 60))]
    picks += [(zoo.by_name[n], 0) for n in ('secp256k1', 'Curve25519', 'Ed25519', 'secp521r1')]
    for i, (cv, tiny) in enumerate(picks):
        path = os.path.join(ctx.scratch(), 't%d' % i)
        lines, meta = ['curve ' + cv.args()], ['curve']
        pts = [cv.G]
        for _ in range(20):
            P = pgen.point(cv, rnd)
            if P is not None and P != cv.O and P not in pts:
                pts.append(P)
            if len(pts) == 3:
                break
        for pi, P in enumerate(pts):
            # group membership matters for the representation only
            lines.append('point %x %x %d' % (*P, pi == 1 and cv.add(P, P) not in (None, cv.O)))
            meta.append('point')
            sc = list(range(cv.n)) if tiny and cv.n < 300 else scalars(cv.n, rnd, ctx.pick(24, 80))
            for route in ('mul', 'mulz', 'base', 'basez', 'alias'):
                use = sc if route in ('mul', 'base') or tiny else rnd.sample(sc, 10)
                for s in use:
                    if route.endswith('z') and rnd.random() < .4:
                        s = rnd.choice([s + cv.n, s + rnd.randrange(1 << 200) * cv.n, s - cv.n, -s, cv.n, 0])
                    lines.append('run %s %s' % (route, '-%x' % -s if s < 0 else '%x' % s))
                    meta.append((route, pi, s))
        if not tiny and cv.n.bit_length() > 60:
            # the point is a generator again
            lines.append('point %x %x 0' % cv.G)
            meta.append('point')
            for _ in range(ctx.pick(6, 30)):
                d = rnd.choice([1, 2, cv.n - 1, 1 << rnd.randrange(cv.n.bit_length() - 1), rnd.randrange(1, cv.n), rnd.randrange(1, cv.n)])
                for what in ('sign', 'enc', 'dec', 'rand'):
                    lines.append({'sign': 'sign %x m%d' % (d, rnd.randrange(1 << 30)), 'rand': 'rand'}.get(what, '%s %x' % (what, d)))
                    meta.append((what, 0, d))
        open(path, 'w').write('\n'.join(lines) + '\n')
        jobs.append((exes[i % 2], path, cv, lines, meta))
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        for (e, path, cv, lines, meta), (_, rc, err, out) in zip(jobs, ex.map(job, [(j[0][0], j[0][1], j[1], vlib.tmo(200)) for j in jobs])):
            rep = '\n'.join(lines)[:200000]
            if rc != 0 or 'END' not in out:
                ctx.violation('crash', '%s: the traced program ended with %s\n%s' % (cv.label(), rc, err[-2000:]), rep)
                continue
            ref = {}
            for m, line, got in zip(meta, lines, out):
                if isinstance(m, str):
                    continue
                f = got.split()
                key = m[:2]
                ctx.count(1, (cv.name,) + m)
                for x, nme in zip(f[1:4], ('additions_traced', 'doublings_traced', 'swaps_traced')):
                    ctx.bump(nme, int(x))
                if key not in ref:
                    ref[key] = (f, line)
                    ctx.sample('%s %s: %s additions, %s doublings, %s swaps with %s stores' % (cv.label(), m[0], *f[1:5]))
                    if m[0] in ('mul', 'base') and int(f[1]) + int(f[2]) == 0:
                        ctx.bump('unobserved_routes')
                elif ref[key][0] != f:
                    o, l0 = ref[key]
                    what = 'order' if o[1:4] == f[1:4] else 'count'
                    if o[:4] == f[:4]:
                        what = 'swap-work'
                    ctx.violation('%s:%s' % (m[0], what), '%s, point %d: "%s" performed %s additions, %s doublings, %s swaps (%s stores), "%s" performed %s, %s, %s (%s)%s' % (
                        cv.label(), m[1], l0[:90], *o[1:5], line[:90], *f[1:5], '' if what != 'order' else ' in another order'), rep)
                    break
    if ctx.extra.get('unobserved_routes'):
        ctx.assumptions.append('%d routes showed no recognisable point operation and were not judged' % ctx.extra['unobserved_routes'])
