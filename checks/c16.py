"""C16: memory safety, defined behaviour and leak freedom.  The operation histories of the other C checks are replayed
with their expectations removed; only the sanitizers and valgrind judge."""
import importlib
import os
import random
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
import vlib
import c15
from vlib import Case

SOURCES = ['c01', 'c02', 'c03', 'c04', 'c05', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c14']


class Recorder:
    """stands in for the context of another check and records the histories it would run"""
    def __init__(self, seed, pid):
        self.rnd = random.Random('%s/%s' % (pid, seed))
        self.seed = seed
        self.thorough = False
        self.tasks = []
        self.extra = {}
        self.rule, self.assumptions = '', []

    def pick(self, a, b):
        return a

    def drive(self, drv, gen, tasks, **kw):
        self.tasks += [(gen, t) for t in tasks]

    def __getattr__(self, n):
        return lambda *a, **k: None


def hist(t):
    """the histories of a recorded task, without expectations (those of c15 keep them)"""
    tag, gen, task, cap = t
    rnd = random.Random(repr(task))
    cases = gen(task)
    if gen is c15.gen:
        return cases
    rnd.shuffle(cases)
    out, n = [], 0
    for c in cases:
        d = Case(tag + ':' + c.kind, c.tag)
        for text, _, sig in c.ops:
            d.op(text, anything, (tag, sig) if sig is not None else None)
        n += len(d.ops)
        out.append(d)
        if n > cap:
            break
    return out


def anything(got):
    return None


def record(ctx, names):
    out = []
    for m in names:
        mod = importlib.import_module(m)
        r = Recorder(ctx.seed, 'C16' + m)
        mod.run(r)
        out.append((m, r.tasks))
    return out


HEAVY = {'sinit': 8, 'pbsetup': 8, 'pbmul': 8, 'pbmulz': 8, 'pmul': 3, 'pmulz': 3, 'sign': 3, 'verify': 4, 'enc': 6, 'dec': 3, 'purandom': 3, 'cname': 1, 'clist': 1}


def affordable(ops, n, budget):
    """a prefix of the operations, as valgrind is slow on large fields"""
    bits, out = 521, []
    for o in ops[:n]:
        f = o[0].split(' ')
        if f[0].startswith('cset'):
            bits = max(bits, max(len(x) for x in f) * 4)
        budget -= HEAVY.get(f[0], 0) * (bits / 256) ** 2 + .05
        if budget < 0:
            break
        out.append(o)
    return out


def vg(a):
    drv, path, sc = a
    e = dict(os.environ)
    if sc:
        e['OPDRV_SAFECLEAN'] = '1'
    e['OPDRV_ALARM'] = str(vlib.tmo(300))
    r = subprocess.run(['valgrind', '-q', '--error-exitcode=99', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect,possible', '--num-callers=20', '--undef-value-errors=yes',
                        drv, path, path + '.out'], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    txt = open(path + '.out', errors='replace').read() if os.path.exists(path + '.out') else ''
    return path, r.returncode, r.stdout, txt


def vsite(out):
    kind = (re.search(r'==\d+== ((?:Conditional|Use of|Invalid|Syscall|Mismatched|Source|\d[\d,]* (?:\([^)]*\) )?bytes in|Process term|Argument)[^\n]*)', out) or [None, 'report'])[1]
    kind = re.sub(r'[\d,]+', '#', kind)[:40].strip().replace(' ', '_')
    fn = [f for f in re.findall(r'(?:at|by) 0x[0-9A-F]+: (\S+) \((\w+\.c):', out) if f[1] != 'opdrv.c']
    return kind + ':' + (fn[0][0] if fn else '?')


def run(ctx):
    ctx.rule = ('operation histories of every C API function (valid, failing and hostile inputs, re-used destinations, fields up to 1024 bits) under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer, with '
                'and without the safe-clean build, and a subset under valgrind memcheck; distinct = distinct operations with their operands')
    ctx.assumptions = ['GMP is trusted; its own code is only observed by valgrind', 'curves outlive the points that refer to them']
    src = record(ctx, SOURCES)
    drvs = [vlib.opdrv(False), vlib.opdrv(True)]
    cap, per = ctx.pick(600, 8000), ctx.pick(8, 60)
    for sc in (0, 1):
        ts = [(m, g, t, cap) for m, tasks in src for g, t in ctx.rnd.sample(tasks, min(per, len(tasks)))]
        ts += [('c15', c15.gen, ('h', ctx.rnd.getrandbits(64), 2, ctx.pick(30, 80)), cap) for _ in range(ctx.pick(48, 800))]
        ctx.rnd.shuffle(ts)
        ctx.drive(drvs[sc], hist, ts, env={'OPDRV_SAFECLEAN': '1'} if sc else None, leaks=True)
    ctx.extra['histories_from'] = SOURCES + ['c15']
    # valgrind
    plain = [vlib.compile_c('opdrvp%d' % sc, {'opdrv': [vlib.VERIF + '/harness/opdrv.c']}, flags=('-g', '-O1') + (('-DSAFE_CLEAN',) if sc else ()))['opdrv'] for sc in (0, 1)]
    jobs = []
    vcap = ctx.pick(40, 400)
    t1 = time.time()
    for m, tasks in src + [('c15', [(c15.gen, ('h', ctx.rnd.getrandbits(64), 1, 20)) for _ in range(4)])]:
        for k, (g, t) in enumerate(ctx.rnd.sample(tasks, min(ctx.pick(2, 16), len(tasks)))):
            path = os.path.join(ctx.scratch(), 'vg_%s_%d.txt' % (m, k))
            n = 0
            with open(path, 'w') as fh:
                for i, c in enumerate(hist((m, g, t, vcap))):
                    ops = affordable(c.ops, vcap * 2, ctx.pick(150, 3000))
                    fh.write('@ %d\n' % i + '\n'.join(o[0] for o in ops) + '\nreset\n')
                    n += len(ops)
            jobs.append((plain[k % 2], path, k % 2))
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        for path, rc, out, txt in ex.map(vg, jobs):
            n = txt.count('\n')
            ctx.count(n, ('vg', os.path.basename(path)))
            ctx.bump('operations_under_valgrind', n)
            if rc != 0 or '==' in out and 'ERROR' in out:
                ctx.violation('valgrind:' + vsite(out), 'valgrind ended with %d on %s\n%s' % (rc, os.path.basename(path), out[:4000]), open(path).read()[:200000])
    ctx.extra['valgrind_seconds'] = round(time.time() - t1, 1)
