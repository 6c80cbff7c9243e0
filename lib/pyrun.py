"""Runs Python workers (harness/*.py) under the instrumented extension and collects what they report."""
import concurrent.futures
import json
import os
import subprocess
import sys
import vlib


def run(ctx, script, tasks, asan=True, tmo=250):
    d, env = vlib.pyext(asan)
    sc = ctx.scratch()

    def one(a):
        i, (mode, count) = a
        out, log, err = (os.path.join(sc, '%s%d.%s' % (script, i, x)) for x in ('json', 'log', 'err'))
        with open(err, 'wb') as eh:
            try:
                r = subprocess.run([sys.executable, os.path.join(vlib.VERIF, 'harness', script), str(ctx.seed * 1000 + i), str(count), mode, out, log],
                                   env=env, stdout=eh, stderr=eh, stdin=subprocess.DEVNULL, cwd=sc, timeout=vlib.tmo(tmo))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        return i, mode, rc, out, log, err
    with concurrent.futures.ThreadPoolExecutor(vlib.NPROC) as ex:
        for i, mode, rc, out, log, err in ex.map(one, enumerate(tasks)):
            et = open(err, errors='replace').read()
            if os.path.exists(out):
                res = json.load(open(out))
                ctx.evals += res['evals']
                ctx.sigs |= set(res['distinct'])
                for s in res['samples']:
                    ctx.sample(s)
                for k, v in res['bumps'].items():
                    ctx.bump(k, v)
                for v in res['viol']:
                    ctx.violation(*v)
            if rc != 0 or not os.path.exists(out):
                lg = open(log, errors='replace').read() if os.path.exists(log) else ''
                last = [x for x in lg.split('\n') if x][-1:] or ['?']
                if 'Traceback' in et and rc == 1:
                    ctx.violation('exception:%s' % last[0].split('(')[0][:40], 'an exception that nothing called for, during: %s\n%s' % (last[0][:300], et[-3000:]), lg)
                    continue
                ctx.violation('crash:%s' % last[0].split('(')[0][:40], 'the interpreter ended (%s) during: %s\n%s' % (rc, last[0][:300], et[-2500:]), lg)
