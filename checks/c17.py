"""C17: thread safety.  A ThreadSanitizer build runs threads over shared inputs and over process-wide state that is used
for the first time; each concurrent run is also compared with a sequential run of the same threads."""
import collections
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
import zoo
import sigs

LEVEL = 'exploration'


def wraps():
    t = open(vlib.VERIF + '/harness/tsanwrap.c').read()
    w = set(re.findall(r'__wrap_(__gmp\w+)\(', t)) | set(re.findall(r'(?:W3|W1|ZV1|ZV2|ZU|ZUR)\((__gmp\w+)\)', t))
    return tuple('-Wl,--wrap=' + x for x in sorted(w))


def run1(a):
    exe, mode, nt, nops, seed, setup, env = a
    e = dict(os.environ)
    e.update(env)
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=0:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0'
    try:
        r = subprocess.run([exe, mode, str(nt), str(nops), str(seed), setup], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=vlib.tmo(200))
        return a, r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return a, 'timeout', '', ''


def parse(out):
    res, spans = {}, []
    for line in out.split('\n'):
        if line.startswith('T') and ' # ' in line:
            body, tail = line.rsplit(' # ', 1)
            t, k, op, val = (body.split(' ', 3) + [''])[:4]
            c0, c1, ci = tail.split()
            res[(t, int(k))] = (op, val)
            spans.append((int(c0), int(c1), t, op, ci))
    return res, spans


def overlap(spans, pairs):
    spans.sort()
    live = []
    for c0, c1, t, op, ci in spans:
        live = [x for x in live if x[1] > c0]
        for x in live:
            if x[2] != t:
                pairs[tuple(sorted((op, x[3]))) + (ci == x[4],)] += 1
        live.append((c0, c1, t, op, ci))


def race_site(err):
    blk = re.search(r'WARNING: ThreadSanitizer: ([^\(\n]*)(.*?)={10,}', err, re.S)
    body = blk.group(0) if blk else err
    fns = [f for f in re.findall(r'#\d+ (\w+) (\S+)', body)]
    lib = [n for n, f in fns if '/src/' in f]
    kind = (blk.group(1).strip() if blk else 'abnormal-end').replace(' ', '-')
    return kind + ':' + (lib[0] if lib else '?')


def run(ctx):
    ctx.rule = ('concurrent runs of 2-8 threads over shared curves, points (projective, affine, with and without prepared table), keys, schemes, signatures and ciphertexts, and cold starts where every thread is first to use a '
                'modulus or the entropy source; distinct = pairs of operations that actually overlapped in time, split by same / different curve')
    ctx.assumptions = ['threads synchronise before objects they share are changed or cleared', 'the effects of GMP calls on memory are declared to the detector by wrappers']
    exe = vlib.compile_c('thrdrv', {'thrdrv': [vlib.VERIF + '/harness/thrdrv.c', vlib.VERIF + '/harness/tsanwrap.c']}, flags=('-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=thread'), link=wraps(), libs=('-lgmp', '-lpthread'))['thrdrv']
    rnd = ctx.rnd
    pool = [c for c in sigs.big() if 100 < c.p.bit_length() < 260 and c.n.bit_length() > 60]
    forms = sorted({c.form for c in pool})
    mods = [p for p in zoo.primes.values() if 60 < p.bit_length() < 1025]
    jobs = []
    for i in range(ctx.pick(70, 900)):
        path = os.path.join(ctx.scratch(), 's%d' % i)
        f = rnd.sample(forms, 2)
        cs = [rnd.choice([c for c in pool if c.form == x]) for x in f]
        ms = rnd.sample(mods, min(len(mods), 12))
        with open(path, 'w') as fh:
            for c in cs:
                fh.write('c %s\n' % c.args())
            for m in ms:
                fh.write('m %x\n' % m)
        cold = i % 3 == 2
        nt = rnd.choice([2, 3, 4, 8])
        n = ctx.pick(30, 60) if not cold else ctx.pick(10, 16)
        seed = rnd.randrange(1, 1 << 30)
        env = {'THR_COLD': '1'} if cold else {}
        if rnd.random() < .3:
            env['THR_SAFECLEAN'] = '1'
        jobs.append((exe, nt, n, seed, path, env))
    todo = [(e, 'par', nt, n, s, p, env) for e, nt, n, s, p, env in jobs] + [(e, 'seq', nt, n, s, p, env) for e, nt, n, s, p, env in jobs]
    got = {}
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        for a, rc, out, err in ex.map(run1, todo):
            got[(a[1], a[5])] = (rc, out, err, a)
    pairs = collections.Counter()
    for e, nt, n, s, p, env in jobs:
        prc, pout, perr, a = got[('par', p)]
        src_, sout, serr, _ = got[('seq', p)]
        rep = 'threads=%d ops=%d seed=%d env=%s\n%s' % (nt, n, s, env, open(p).read())
        if 'WARNING: ThreadSanitizer' in perr:
            ctx.violation('race:' + race_site(perr), '%d threads, %s: %s' % (nt, 'cold start' if 'THR_COLD' in env else 'shared inputs', perr[:3500]), rep + perr[:100000])
            continue
        if prc != 0 or not pout.endswith('END\n'):
            if src_ != 0 or not sout.endswith('END\n'):
                ctx.violation('seq:crash', 'the same threads one after another ended with %s\n%s' % (src_, serr[-3000:]), rep)
            else:
                ctx.violation('crash:' + race_site(perr), 'the concurrent run ended with %s\n%s' % (prc, perr[-3000:]), rep)
            continue
        pr, spans = parse(pout)
        sr, _ = parse(sout)
        overlap(spans, pairs)
        ctx.bump('operations_concurrent', len(pr))
        for k in sorted(sr):
            ctx.count(1)
            if pr.get(k) != sr[k]:
                ctx.violation('result:' + sr[k][0], 'thread %s operation %d (%s): concurrent result %s, sequential result %s' % (k[0], k[1], sr[k][0], str(pr.get(k))[:400], str(sr[k])[:400]), rep)
                break
            if k[1] < 3:
                ctx.sample('%s %s -> %s' % (k[0], sr[k][0], sr[k][1][:60]))
    for k in pairs:
        ctx.sigs.add(k)
    ctx.extra['overlaps_observed'] = sum(pairs.values())
    ctx.extra['distinct_overlapping_pairs'] = len(pairs)
    ctx.extra['runs'] = len(jobs)
    ctx.extra['cold_starts'] = sum('THR_COLD' in j[5] for j in jobs)
