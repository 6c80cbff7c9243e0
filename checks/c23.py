"""C23: Go objects under garbage collection and concurrency."""
import os
import random
import re
import subprocess
import concurrent.futures
import vlib
import gobuild
import gogen
import sigs


def gen_gc(t):
    """operands are temporaries and every C call waits for two collections: what only the caller held is finalized before C reads it"""
    rnd = random.Random(t[0])
    out = []
    for _ in range(t[1]):
        out.append(gogen.fieldcase(rnd, 40, True, 700))
        out.append(gogen.pointcase(rnd, 25, True, 260))
        out.append(gogen.sigcase(rnd, 9, True, 260))
        out.append(gogen.egcase(rnd, 10, True, 260))
        out.append(gogen.pointcase(rnd, 25, True, 600))
    return out


def gen_par(t):
    """many goroutines: private objects, shared keys and one shared signature scheme, collections running all the time"""
    rnd = random.Random(t[0])
    cv = rnd.choice([x for x in sigs.big() if x.p.bit_length() <= 260])
    share = (cv, rnd.choice(gogen.HASHES[3:6] + ['toy65']), [rnd.randrange(1, cv.n), rnd.randrange(1, cv.n)])
    out = []
    for _ in range(t[1]):
        out.append(gogen.sigcase(rnd, 8, rnd.random() < .5, 260, share))
        k = rnd.randrange(4)
        if k == 0:
            out.append(gogen.fieldcase(rnd, 40, rnd.random() < .5))
        elif k == 1:
            out.append(gogen.pointcase(rnd, 20, rnd.random() < .5, 260))
        elif k == 2:
            out.append(gogen.egcase(rnd, 6, rnd.random() < .5, 260))
        out.append(gogen.sigcase(rnd, 8, False, 260, share))
    return out




def heap(ctx, drv, kind, seed):
    rnd = random.Random(seed)
    f = {'field': lambda: gogen.fieldcase(rnd, 40, rnd.random() < .5, 700), 'point': lambda: gogen.pointcase(rnd, 25, rnd.random() < .5, 260),
         'sig': lambda: gogen.sigcase(rnd, 8, rnd.random() < .5, 260), 'elgamal': lambda: gogen.egcase(rnd, 8, rnd.random() < .5, 260),
         'curve': lambda: gogen.curvecase(rnd, 12)}[kind]
    cases = [f() for _ in range(3)]
    path = os.path.join(ctx.scratch(), 'heap-%s-%d' % (kind, seed))
    with open(path, 'w') as fh:
        for i, c in enumerate(cases):
            fh.write('@ %d\n%s' % (i, c.text()))
    R = 7
    e = vlib.san_env(False, {'GDRV_REP': str(R), 'GOMAXPROCS': '3', 'OPDRV_ALARM': str(vlib.tmo(200))})
    for _ in range(6):
        r = subprocess.run([drv, path, path + '.out'], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace', stdin=subprocess.DEVNULL)
        if r.returncode == 0 or not vlib.tool_failed(r.stderr):
            break
    m = re.search(r'HEAP \[([0-9 ]+)\]', r.stderr)
    return kind, cases, r.returncode, r.stderr, [int(x) for x in m.group(1).split()] if m else None, open(path).read()


def run(ctx):
    ctx.rule = ('histories whose operands are temporaries, with two complete collections and their finalizers forced into the entry of every C call; goroutines sharing keys, curves and a signature scheme '
                'under constant collection (AddressSanitizer build and race-detector build); C heap size over repeated histories; results against the reference; distinct = (operation, group, operands)')
    drv = gobuild.build('h', hook=True)
    one = {'GOMAXPROCS': '1', 'GDRV_CHURN': '1'}
    ctx.drive(drv, gen_gc, [(ctx.rnd.getrandbits(64), 2) for _ in range(ctx.pick(16, 160))], env=one)
    ctx.extra['collections_awaited'] = 'at least two at the entry of every C call of the first stage'
    ctx.drive(drv, gen_par, [(ctx.rnd.getrandbits(64), 8) for _ in range(ctx.pick(8, 100))], env={'GDRV_PAR': '8', 'GDRV_CHURN': '1', 'GODEBUG': 'clobberfree=1'})
    ctx.drive(drv, gen_par, [(ctx.rnd.getrandbits(64), 8) for _ in range(ctx.pick(6, 60))], env={'GDRV_PAR': '8', 'GDRV_DELAY': '25'})
    try:
        rdrv = gobuild.build('r', asan=False, race=True)
    except vlib.BuildError as ex:
        if 'race' not in str(ex):
            raise
        rdrv = None
    if rdrv:
        ctx.drive(rdrv, gen_par, [(ctx.rnd.getrandbits(64), 6) for _ in range(ctx.pick(8, 60))], env={'GDRV_PAR': '8', 'GORACE': 'halt_on_error=1 exitcode=66'})
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        jobs = [ex.submit(heap, ctx, drv, k, ctx.rnd.getrandbits(48)) for k in ('field', 'point', 'sig', 'elgamal', 'curve') for _ in range(ctx.pick(2, 12))]
        for j in jobs:
            kind, cases, rc, err, h, script = j.result()
            ctx.count(1, ('heap', kind, script))
            if rc != 0 or not h:
                ctx.violation('heap:%s:crash' % kind, 'exit %s\n%s' % (rc, err[:2500]), script)
                continue
            d = [b - a for a, b in zip(h, h[1:])]
            ctx.sample('C heap after each round (%s): %s' % (kind, h), 8)
            if all(x > 0 for x in d[2:]):
                ctx.violation('heap:%s:grows' % kind, 'the C heap grows with every round: %s' % h, script)
