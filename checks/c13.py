"""C13: random scalars are in range, uniform, fresh and fail closed."""
import collections
import math
import os
import random
import resource
import subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
import zoo
import sigs
from ecref import *
from vlib import Case

LEVEL = 'fault_enumeration'


def zscore(obs, probs):
    """chi-square statistic as a normal deviate (Wilson-Hilferty)"""
    n = sum(obs)
    x = sum((o - n * p) ** 2 / (n * p) for o, p in zip(obs, probs))
    k = len(obs) - 1
    return ((x / k) ** (1 / 3) - (1 - 2 / (9 * k))) / math.sqrt(2 / (9 * k)), x


def hist_one(a):
    exe, m, n = a
    r = vlib.run([exe, 'hist', '%x' % m, str(n)], 150, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return m, r


def probs(m, name):
    if name == 'small':
        return [1 / m] * m
    if name == 'hi':
        cut = [-(-m * i // 256) for i in range(257)]
        return [(cut[i + 1] - cut[i]) / m for i in range(256)]
    k = 256 if name == 'lo' else 251
    return [((m - i + k - 1) // k) / m for i in range(k)]


def judge_hist(ctx, m, r, n):
    if r.returncode != 0:
        ctx.violation('urandom:crash', 'mpz_urandom(max=%x) ended with %s\n%s' % (m, r.returncode, r.stderr[-1500:]))
        return
    for line in r.stdout.split('\n'):
        f = line.split()
        if not f:
            continue
        if f[0] == 'bad':
            if int(f[1]):
                ctx.violation('urandom:range', '%s of %d draws below %x are out of range' % (f[1], n, m))
            continue
        obs = [int(x) for x in f[1:]]
        pr = probs(m, f[0])
        if len(obs) == 1:
            continue
        z, x = zscore(obs, pr)
        ctx.count(1, ('hist', m, f[0]))
        ctx.bump('draws_histogrammed', sum(obs))
        ctx.extra['largest_chi_z'] = max(ctx.extra.get('largest_chi_z', -99), round(z, 2))
        if z > 8:
            ctx.violation('urandom:bias', 'draws below %x: buckets "%s" are not uniform (chi-square %.1f on %d classes, z=%.1f): %s' % (m, f[0], x, len(obs), z, obs[:40]))


def uniq(ctx, text, where, minlines):
    vals = collections.defaultdict(list)
    n = 0
    for line in text.split('\n'):
        f = line.split()
        if len(f) == 3:
            vals[(f[1] if f[1] not in ('urandom', 'field') else 'scalar', f[2])].append(f[0])
            n += 1
            if f[2] == 'refused':
                ctx.violation('fresh:refused', '%s: %s refused' % (where, f[1]))
    ctx.count(n, (where,))
    if n < minlines:
        ctx.violation('fresh:short', '%s: only %d values of %d' % (where, n, minlines), text[-2000:])
    for (op, v), w in vals.items():
        if len(w) > 1:
            ctx.violation('fresh:' + op, '%s: the value %s of "%s" was produced more than once, by %s' % (where, v[:80], op, ', '.join(w)), text[:100000])
            return


def nonces(ctx, rnd, drv, per, curves):
    """recover nonces from signatures / ciphertexts on small groups and look at their distribution"""
    acc = {}

    def collect(key, cv, d, z):
        L = acc.setdefault(key, [])

        def f(got):
            st, r, s = got.split(' ')
            if st != '0':
                return 'signing failed'
            r, s = int(r, 16), int(s, 16)
            L.append(pow(s, -1, cv.n) * (z + r * d) % cv.n)
            return None
        return f
    # run in this process: the closures collect
    tab_of = {}
    cases = []
    for nm in curves:
        cv = zoo.by_name[nm]
        n = cv.n
        d = rnd.randrange(1, n)
        dig = rnd.randbytes(4 if n < 2 ** 16 else 32)
        z = digest_int(dig, n)
        if n < 1000 and not sigs.signable(nm, d, z):
            continue
        c = Case('nonce', cv.label())
        c.op(zoo.load(0, cv, rnd), '0')
        c.op('sinit 0 0 %d' % len(dig), '0')
        c.op('digest ' + dig.hex())
        c.op('fset 0 %x %x' % (d, n))
        f = collect(('sign', nm, d, z), cv, d, z)
        for _ in range(per if n < 1000 else per // 3):
            c.op('sign 0 0 0 61', f)
        c.op('pgen 1 0')
        if n < 1000:
            tab = {P: i for i, P in enumerate(sigs.table(nm))}
            L2 = acc.setdefault(('enc', nm), [])

            def fe(got, tab=tab, L2=L2):
                st, C, D = got.split(' ')
                P = None if C == 'N' else tuple(int(x, 16) for x in C.split(','))
                L2.append(tab[P])
                return None
            for _ in range(per):
                c.op('enc 0 1 1', fe)
            L3 = acc.setdefault(('pur', nm), [])

            def fp(got, tab=tab, L3=L3):
                P = None if got == 'N' else tuple(int(x, 16) for x in got.split(','))
                L3.append(tab[P])
                return None
            for _ in range(per):
                c.op('purandom 2 0', fp)
        cases.append(c)
    path = os.path.join(ctx.scratch(), 'nonce.txt')
    r = {'evals': 0, 'sigs': set(), 'samples': [], 'viol': [], 'bumps': {}}
    rc, ended, res, last = vlib._run_script(drv, cases, None, False, path, alarm=300)
    if not ended:
        ctx.violation('nonce:crash', 'driver ended with %d: %s' % (rc, open(path + '.err', errors='replace').read()[-2000:]))
        return
    for i, c in enumerate(cases):
        vlib._eval(c, res[i], r)
    ctx.count(r['evals'])
    for v in r['viol']:
        ctx.violation(*v)
    for key, ks in acc.items():
        cv = zoo.by_name[key[1]]
        n = cv.n
        if not ks:
            continue
        ctx.count(1, key)
        if key[0] != 'pur' and 0 in ks:
            ctx.violation('nonce:zero', '%s: nonce 0 was used' % (key,))
        if n < 1000:
            if key[0] == 'sign':
                t = sigs.table(key[1])
                ok = [k for k in range(1, n) if sigs.make(cv, key[2], key[3], k, t[k])]
            else:
                ok = list(range(0 if key[0] == 'pur' else 1, n))
            cnt = collections.Counter(ks)
            if set(cnt) - set(ok):
                ctx.violation('nonce:range', '%s: impossible nonce %s' % (key, sorted(set(cnt) - set(ok))))
                continue
            if len(ok) < 2:
                continue
            z, x = zscore([cnt[k] for k in ok], [1 / len(ok)] * len(ok))
            what = [cnt[k] for k in ok]
        else:
            if len(set(ks)) != len(ks):
                ctx.violation('nonce:repeat', '%s: a nonce was used twice' % (key,))
            B = 16
            worst = (-99, None)
            for nmq, fn in (('top', lambda k: k * B // n), ('low', lambda k: k % B), ('mid', lambda k: (k >> (n.bit_length() // 2)) % B)):
                cnt = collections.Counter(fn(k) for k in ks)
                z, x = zscore([cnt[i] for i in range(B)], [1 / B] * B)
                worst = max(worst, (z, nmq, [cnt[i] for i in range(B)]), key=lambda q: q[0])
            z, what = worst[0], worst[1:]
        ctx.extra['largest_nonce_z'] = max(ctx.extra.get('largest_nonce_z', -99), round(z, 2))
        ctx.bump('nonces_recovered', len(ks))
        if z > 8:
            ctx.violation('nonce:bias:' + key[0], '%s on %s: nonces are not uniform (z=%.1f): %s' % (key[0], cv.label(), z, str(what)[:600]))


def fault(a):
    exe, shim, op, n, env, pre = a
    e = dict(os.environ)
    e.update(env)
    e['RND_LOG'] = '1'
    if shim:
        e['LD_PRELOAD'] = shim
    try:
        r = subprocess.run([exe, 'op', op, str(n)], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=60, preexec_fn=pre)
        return op, env, r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return op, env, 'timeout', ''


def judge_fault(ctx, op, env, rc, text, need):
    """no value may appear for an operation during or before which the source failed; each value needs its bytes"""
    failed, values, avail = False, 0, 0
    if '\nd ' not in '\n' + text and '\nfault' not in '\n' + text and 'value' in text:
        # the library obtained its entropy in a way the shim does not see: nothing can be concluded
        ctx.bump('fault_runs_unobserved')
        return
    for line in text.split('\n'):
        if line.startswith('d '):
            avail += int(line[2:])
        elif line == 'fault':
            failed = True
        elif line.startswith('value') and not line.endswith(' refused'):
            values += 1
            if failed:
                ctx.violation('failclosed:' + op, '%s returned a value although the entropy source had failed (%s)\n%s' % (op, env, text[-800:]), text[:20000])
                return
            if avail < need * values:
                ctx.violation('entropy:' + op, '%s returned its value %d after only %d octets of entropy, %d are needed each (%s)' % (op, values, avail, need, env), text[:20000])
                return
    if rc == 'timeout':
        ctx.violation('failclosed:hang', '%s did not end within 60 s (%s)' % (op, env))
    ctx.count(1, (op, tuple(sorted(env.items()))))
    ctx.bump('fault_runs_stopped' if failed else 'fault_runs_complete')
    ctx.bump('values_under_faults', values)
    if failed:
        ctx.sample('%s %s: stopped after %d values and %d octets' % (op, env, values, avail))


def run(ctx):
    ctx.rule = ('histograms of draws for maxima of every shape; nonces recovered from signatures and ciphertexts; values compared across calls, threads, children and grandchildren forked at different moments; '
                'faults placed at every byte position of the entropy stream (end of file, error, open failure, partial reads, interrupts, exhausted descriptors); distinct = (max, statistic), (curve, kind) or (operation, fault)')
    ctx.assumptions = ['uniformity is judged statistically (chi-square deviate above 8 is a violation)', 'the kernel generator itself is trusted']
    exe = vlib.compile_c('rndrv', {'rndrv': [vlib.VERIF + '/harness/rndrv.c']}, flags=('-g', '-O1'), libs=('-lgmp', '-lpthread'))['rndrv']
    d, fresh = vlib.build_dir('rndshim', [vlib.VERIF + '/harness/rndshim.c'])
    shim = os.path.join(d, 'rndshim.so')
    if fresh:
        vlib.sh(['gcc', '-O1', '-g', '-shared', '-fPIC', '-o', shim, vlib.VERIF + '/harness/rndshim.c', '-ldl'])
        open(os.path.join(d, '.done'), 'w').close()
    ex = ThreadPoolExecutor(vlib.NPROC)
    # 1. range and uniformity
    maxes = list(range(1, 20)) + [31, 33, 97, 127, 128, 129, 170, 200, 213, 250, 251, 254, 255, 256, 257, 300, 511, 683, 1000, 4097]
    for k in (16, 24, 32, 48, 64, 72, 128, 160, 255, 256, 257, 384, 521, 1024, 2048):
        b = 1 << k
        maxes += [b, b - 1, b + 1, b * 2 // 3, b * 170 // 256, b * 129 // 256, b * 3 // 4]
    maxes += [c.n for c in zoo.uniq(zoo.named)][:30]
    cnt = ctx.pick(60000, 600000)
    for m, r in ex.map(hist_one, [(exe, m, cnt) for m in sorted(set(maxes))]):
        judge_hist(ctx, m, r, cnt)
    ctx.extra['maxima'] = len(set(maxes))
    # 2. nonces
    drv = vlib.opdrv()
    ti = [c.name for c in sigs.tiny() if 11 <= c.n <= 150]
    nonces(ctx, ctx.rnd, drv, ctx.pick(1500, 8000), ctx.rnd.sample(ti, ctx.pick(12, 40)) + ctx.rnd.sample([c.name for c in sigs.big() if c.p.bit_length() < 270], ctx.pick(4, 12)))
    # 3. freshness
    jobs = [('fork', j, ctx.pick(12, 40)) for j in (list(range(0, 34)) + [40, 47, 63, 64, 65, 100, 127, 128, 200])] + [('threads', t, ctx.pick(600, 5000)) for t in (2, 4, 8, 16, 32)]

    def fr(j):
        return j, vlib.run([exe, j[0], str(j[1]), str(j[2])], 150, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    for j, r in ex.map(fr, jobs):
        if r.returncode != 0:
            ctx.violation('fresh:crash', '%s ended with %s %s' % (j, r.returncode, r.stderr[-800:]))
        uniq(ctx, r.stdout, '%s %d' % (j[0], j[1]), j[1] * j[2] if j[0] == 'threads' else 16 * j[2])
    # 4. faults
    fj = []
    need = {'urandom': 32, 'field': 31, 'point': 31, 'sign': 31, 'elgamal': 31}
    for op in need:
        for f in ('eof', 'eio'):
            lims = list(range(0, 70)) + [95, 96, 97, 127, 128, 129, 159, 160, 255, 256, 4095, 4096, 4097]
            if op not in ('urandom', 'sign') and not ctx.thorough:
                lims = lims[:66:3] + lims[-8:]
            for lim in lims:
                fj.append((exe, shim, op, 4 if lim < 4000 else 90, {'RND_FAULT': f, 'RND_LIMIT': str(lim)}, None))
                if lim % 7 == 3:
                    fj.append((exe, shim, op, 3, {'RND_FAULT': f, 'RND_LIMIT': str(lim), 'RND_CHUNK': '5'}, None))
        fj.append((exe, shim, op, 3, {'RND_FAULT': 'enoent'}, None))
        for ch in (1, 2, 7, 16, 31, 32, 33, 63, 64):
            fj.append((exe, shim, op, 6, {'RND_CHUNK': str(ch)}, None))
            fj.append((exe, shim, op, 6, {'RND_CHUNK': str(ch), 'RND_EINTR': '1'}, None))
    for op, env, rc, text in ex.map(fault, fj):
        judge_fault(ctx, op, env, rc, text, need[op])
    ctx.extra['fault_points'] = len(fj)
    # a real exhausted descriptor table
    def nofile():
        resource.setrlimit(resource.RLIMIT_NOFILE, (3, 3))
    for op in need:
        r = subprocess.run(['/bin/sh', '-c', 'ulimit -n 3; exec "$0" op %s 2' % op, exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        ctx.count(1, ('nofile', op))
        if 'value' in r.stdout and 'refused' not in r.stdout:
            vals = [l.split()[-1] for l in r.stdout.split('\n') if l.startswith('value')]
            if len(set(vals)) != len(vals) or any(v.strip('0') == '' for v in vals):
                ctx.violation('failclosed:nofile', '%s returned %s with no descriptor to spare' % (op, vals))
