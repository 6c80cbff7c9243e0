"""C18: released big-number memory holds no secrets.  The executables are built with the optimisation levels users get,
and a monitor looks at every block at the moment it is handed to free."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
import zoo
import sigs
import c15
import c16

W = tuple('-Wl,--wrap=' + f for f in ('__gmp_set_memory_functions', 'fread', 'read', 'getrandom'))
H = vlib.VERIF + '/harness/'


def mon(a):
    exe, args, out = a
    e = dict(os.environ)
    e['CLEANMON_OUT'] = out
    e['OPDRV_SAFECLEAN'] = '1'
    e['OPDRV_ALARM'] = str(vlib.tmo(180))
    try:
        r = subprocess.run([exe] + args, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=vlib.tmo(200))
        rc, so, se = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        rc, so, se = 'timeout', '', ''
    st = open(out).read().split() if os.path.exists(out) else []
    return a, rc, so, se, [int(x) for x in st]


def run(ctx):
    ctx.rule = ('every big-number block of operation histories over the whole C API, and of direct growing and shrinking, compared at free with its content before the release; other released blocks searched for private keys, '
                'nonces (recovered from the signatures), their inverses, shared secrets and the entropy they were made of; distinct = (build, history) and (build, curve, mode)')
    ctx.assumptions = ['stack memory and registers are outside the property', 'a block filled with one constant byte counts as cleaned', 'safe cleaning is enabled by the public call']
    builds = {}
    for cc, opt, d in ctx.pick([('gcc', '-O2', 1), ('clang', '-O2', 1), ('gcc', '-O0', 0), ('gcc', '-O3', 1)], [('gcc', '-O2', 1), ('clang', '-O2', 1), ('gcc', '-O0', 0), ('gcc', '-O3', 0), ('gcc', '-O1', 1), ('clang', '-O3', 0), ('gcc', '-Os', 1)]):
        b = '%s%s%s' % (cc, opt, '' if d else '-nodef')
        builds[b] = vlib.compile_c('clean' + b, {'opdrv': [H + 'opdrv.c', H + 'cleanmon.c'], 'cleansec': [H + 'cleansec.c', H + 'cleanmon.c']}, cc=cc, flags=('-g', opt, '-w') + (('-DSAFE_CLEAN',) if d else ()), main_flags=('-fno-builtin', '-D_GNU_SOURCE'), link=W)
    rnd = ctx.rnd
    src = c16.record(ctx, c16.SOURCES)
    jobs = []
    # histories
    for b, ex in builds.items():
        for m, tasks in src + [('c15', [(c15.gen, ('h', rnd.getrandbits(64), 3, 30)) for _ in range(3)])]:
            for k, (g, t) in enumerate(rnd.sample(tasks, min(ctx.pick(1, 8), len(tasks)))):
                path = os.path.join(ctx.scratch(), 'h_%s_%s_%d' % (b, m, k))
                with open(path, 'w') as fh:
                    for i, c in enumerate(c16.hist((m, g, t, ctx.pick(300, 3000)))):
                        fh.write('@ %d\n' % i + '\n'.join(o[0] for o in c16.affordable(c.ops, 400, 2000)) + '\nreset\n')
                jobs.append(((b, m, k), ex['opdrv'], [path, path + '.out'], path + '.mon'))
        pool = [c for c in sigs.big() if c.n.bit_length() > 100]
        for mode in ('early', 'late'):
            for k in range(ctx.pick(2, 12)):
                path = os.path.join(ctx.scratch(), 's_%s_%s_%d' % (b, mode, k))
                cs = [rnd.choice([c for c in pool if c.form == f]) for f in sorted({c.form for c in pool})]
                with open(path, 'w') as fh:
                    for c in cs:
                        if c.p.bit_length() < 600:
                            fh.write('c %s\n' % c.args())
                jobs.append(((b, mode, k), ex['cleansec'], [str(rnd.randrange(1 << 30)), str(ctx.pick(4, 10)), mode, path], path + '.mon'))
    tot = [0] * 8
    with ThreadPoolExecutor(vlib.NPROC) as pool:
        for (tag, *_), (a, rc, so, se, st) in zip(jobs, pool.map(mon, [j[1:] for j in jobs])):
            rep = ' '.join([a[0]] + a[1]) + '\n' + se[-5000:] + '\n' + open(a[1][-1] if a[1][-1].startswith('/') and 's_' in a[1][-1] else a[1][0]).read()[:100000]
            seen = False
            for mm in re.finditer(r'CLEANMON (\S+)([^\n]*)', se):
                ctx.violation('release:' + mm.group(1), '%s build, %s: %s%s' % (tag[0], tag[1], mm.group(1), mm.group(2)), rep)
                seen = True
            if rc != 0:
                ctx.violation('crash:' + str(tag[1]), '%s build, %s %s ended with %s\n%s' % (*tag, rc, se[-2000:]), rep)
                continue
            if not st or not st[7]:
                ctx.violation('release:not-enabled', '%s: enabling safe cleaning installed no memory functions' % (tag,), rep)
                continue
            tot = [x + y for x, y in zip(tot, st)]
            ctx.count(st[1], tag)
            if so.startswith('hunts'):
                ctx.bump('secret_searches', int(so.split()[1]))
                ctx.bump('explicit_resizes', int(so.split()[3]))
                ctx.sample('%s: %s; %d blocks, %d octets released' % ('/'.join(map(str, tag)), so.strip(), st[1], st[2]))
    ctx.extra.update(blocks_released=tot[1], octets_inspected=tot[2], grown=tot[3], shrunk=tot[4], moved=tot[5], builds=sorted(builds))
