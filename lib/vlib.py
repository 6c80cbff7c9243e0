"""Shared machinery: builds from /repo's working tree, runs operation scripts under sanitizers, compares
with the oracle, reports violations / known findings and writes evidence."""
import glob
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NPROC = 8

SAN = ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']


def san_env(leaks=False, extra=None):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=%d:exitcode=99:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=1' % (1 if leaks else 0)
    e['LSAN_OPTIONS'] = 'exitcode=23'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['LC_ALL'] = 'C'
    if extra:
        e.update(extra)
    return e


def repo_files(*pats):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(REPO, p)))
    return out


def tree_hash(files, extra=()):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    for x in extra:
        h.update(repr(x).encode())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-6000:]))
    return r.stdout


def build_dir(variant, files, extra=()):
    """-> (dir, fresh): a directory under /verif/build named after the content that is to be built"""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, '%s-%s' % (variant, tree_hash(files, extra)))
    if os.path.exists(os.path.join(d, '.done')):
        return d, False
    for old in glob.glob(os.path.join(BUILD, variant + '-*')):
        if old != d and time.time() - os.path.getmtime(old) > 3600:
            shutil.rmtree(old, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d, True


def compile_c(variant, mains, cc='gcc', flags=(), libsrc=True, main_flags=(), libs=('-lgmp',), link=(), extra_src=(), lib_flags=()):
    """mains: {output name: [harness sources]}.  Library sources are taken from /repo/src."""
    srcs = repo_files('src/*.c') if libsrc else []
    hdrs = repo_files('include/*.h', 'include/ecc/*.h')
    hs = sorted({s for v in mains.values() for s in v})
    d, fresh = build_dir(variant, srcs + hdrs + hs + list(extra_src), (cc, flags, main_flags, libs, link, sorted(mains)) + ((lib_flags,) if lib_flags else ()))
    outs = {m: os.path.join(d, m) for m in mains}
    if not fresh:
        return outs
    inc = ['-I' + os.path.join(REPO, 'include')]
    jobs = []
    objs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, 'l%d_%s.o' % (i, os.path.basename(s)))
        objs.append(o)
        jobs.append([cc, *flags, *lib_flags, *inc, '-c', s, '-o', o])
    mobj = {}
    for i, s in enumerate(hs):
        o = os.path.join(d, 'm%d_%s.o' % (i, os.path.basename(s)))
        mobj[s] = o
        jobs.append([cc, *flags, *main_flags, *inc, '-c', s, '-o', o])
    run_jobs(jobs)
    run_jobs([[cc, *flags, '-o', outs[m], *[mobj[s] for s in v], *objs, *link, *libs] for m, v in mains.items()])
    open(os.path.join(d, '.done'), 'w').close()
    return outs


def run_jobs(jobs):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(sh, jobs))


GMPWRAP = tuple('-Wl,--wrap=' + f for f in (
    '__gmpn_add_n __gmpn_sub_n __gmpn_mul_1 __gmpn_addmul_1 __gmpn_submul_1 __gmpn_lshift __gmpn_rshift __gmpn_mul_n __gmpn_sqr __gmpn_mul '
    '__gmpn_tdiv_qr __gmpn_cmp __gmpn_copyi __gmpn_copyd __gmpn_zero __gmpz_import __gmpz_export __gmpz_get_str').split())


def opdrv(safeclean=False):
    fl = SAN + (['-DSAFE_CLEAN'] if safeclean else [])
    return compile_c('opdrv' + ('sc' if safeclean else ''), {'opdrv': [VERIF + '/harness/opdrv.c', VERIF + '/harness/gmpwrap.c']}, flags=tuple(fl), link=GMPWRAP)['opdrv']

def pyext(asan=True):
    """the Python extension, with the C library compiled in -> (directory for sys.path, environment)"""
    import sysconfig
    srcs = repo_files('src/*.c', 'python/*.c')
    hdrs = repo_files('include/*.h', 'include/ecc/*.h', 'python/*.h')
    fl = ['-g', '-O1', '-fPIC', '-fno-omit-frame-pointer', '-w'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if asan else [])
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'python'), '-I' + sysconfig.get_paths()['include']]
    d, fresh = build_dir('pyext' + ('a' if asan else ''), srcs + hdrs, fl)
    if fresh:
        jobs, objs = [], []
        for s in srcs:
            o = os.path.join(d, os.path.basename(os.path.dirname(s)) + '_' + os.path.basename(s) + '.o')
            objs.append(o)
            jobs.append(['gcc', *fl, *inc, '-c', s, '-o', o])
        run_jobs(jobs)
        sh(['gcc', *fl, '-shared', '-o', os.path.join(d, 'ECC' + sysconfig.get_config_var('EXT_SUFFIX')), *objs, '-lgmp', '-lpthread'])
        open(os.path.join(d, '.done'), 'w').close()
    e = san_env()
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['PYTHONPATH'] = d + ':' + os.path.join(VERIF, 'lib')
    if asan:
        e['PYTHONMALLOC'] = 'malloc'
        e['LD_PRELOAD'] = sh(['gcc', '-print-file-name=libasan.so']).strip() + ' ' + sh(['gcc', '-print-file-name=libubsan.so']).strip()
        e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:strict_string_checks=1:detect_odr_violation=0'
    return d, e


# ---------------------------------------------------------------- known findings
def load_known():
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(x.split('=', 1) for x in line[6:].split(' :: ')[0].split() if '=' in x)
                out.append((d['property'], d['key'], line.split(' :: ', 1)[1] if ' :: ' in line else ''))
    return out


def tmo(quick):
    """limit for one process, far above what it needs"""
    return quick if os.environ.get('VERIF_TIER', 'quick') != 'thorough' else quick * 6


class Ended:
    """stands for a process that was stopped because it did not end"""
    def __init__(self):
        self.returncode, self.stdout, self.stderr = 'timeout', '', ''


def run(cmd, quick, **kw):
    try:
        return subprocess.run(cmd, timeout=tmo(quick), **kw)
    except subprocess.TimeoutExpired:
        return Ended()


class Ctx:
    def __init__(self, pid, level='exploration'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rnd = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.rule = ''
        self.extra = {}
        self.assumptions = []
        self.viol = []          # (key, message, replay payload)
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replay')
        self._scratch = None

    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix='vf_%s_' % self.pid)
        return self._scratch

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, key, msg, replay=''):
        self.viol.append((key, msg, replay))

    def count(self, n=1, sig=None):
        self.evals += n
        if sig is not None:
            self.sigs.add(sig)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def bump(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # ---- operation scripts
    def drive(self, drv, gen, tasks, env=None, leaks=False, tmo=None):
        """gen(task) -> list of Case; executed in worker processes"""
        tasks = list(tasks)
        args = [(drv, gen, t, env, leaks, self.scratch(), i) for i, t in enumerate(tasks)]
        with mp.get_context('fork').Pool(NPROC) as pool:
            for res in pool.imap_unordered(_drive_one, args):
                if res['hung']:
                    HUNG.value = 1
                self.evals += res['evals']
                self.sigs |= res['sigs']
                for s in res['samples']:
                    self.sample(s)
                for k, v in res['bumps'].items():
                    self.bump(k, v)
                for v in res['viol']:
                    self.violation(*v)

    def finish(self):
        os.makedirs(self.replay_dir, exist_ok=True)
        for f in glob.glob(os.path.join(self.replay_dir, self.pid + '-*')):
            os.unlink(f)
        known = [(k, t) for p, k, t in load_known() if p == self.pid]
        seen_known, new, seen = [], [], set()
        for key, msg, rep in self.viol:
            hit = [kt for kt in known if kt[0] == key]
            if hit:
                if hit[0] not in seen_known:
                    seen_known.append(hit[0])
                continue
            if key in seen:
                continue
            seen.add(key)
            new.append((key, msg, rep))
        for k, t in seen_known:
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, t, k))
        if any(k != 'no-end' for k, _, _ in new):
            new = [x for x in new if x[0] != 'no-end']
        if os.environ.get('VF_ALLKEYS'):
            for k, m, _ in new:
                print('ALLKEY', k, '|', m[-1500:].replace('\n', ' / ')[:1500])
        for i, (key, msg, rep) in enumerate(new[:8]):
            path = os.path.join(self.replay_dir, '%s-%d.txt' % (self.pid, i))
            with open(path, 'w', errors='replace') as fh:
                fh.write('property: %s\nkey: %s\n%s\n\n%s\n' % (self.pid, key, msg, rep))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  key: %s\n  %s' % (key, msg[:1500].replace('\n', '\n  ')))
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.sigs), 'rule': self.rule,
               'samples': self.samples[:8] or ['(none)']}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', self.pid + '.json.tmp')
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, 'evidence', self.pid + '.json'))
        if self._scratch:
            shutil.rmtree(self._scratch, ignore_errors=True)
        print('%s %s: %d evaluations, %d distinct, %d violation(s), %d known, %.1fs' % (
            self.pid, self.tier, self.evals, len(self.sigs), len(new), len(seen_known), time.time() - self.t0))
        if self.evals == 0 and not new:
            print('error: nothing was evaluated')
            return 2
        return 1 if new else 0


class Case:
    __slots__ = ('kind', 'ops', 'sample', 'tag')

    def __init__(self, kind, tag=''):
        self.kind, self.ops, self.sample, self.tag = kind, [], None, tag

    def op(self, text, expect=None, sig=None):
        self.ops.append((text, expect, sig))
        return self

    def text(self):
        return '\n'.join(o[0] for o in self.ops) + '\nreset\n'


HUNG = mp.Value('i', 0)   # set once an operation was seen not to end: the rest of the workload is then skipped


def tool_failed(err):
    """the sanitizer runtime itself gave up (its thread registry races with Go's thread creation): no observation"""
    return 'Sanitizer: CHECK failed: sanitizer_thread' in err


def _run_script(drv, cases, env, leaks, path, unbuf=False, alarm=100):
    with open(path, 'w') as fh:
        for i, c in enumerate(cases):
            fh.write('@ %d\n' % i)
            fh.write(c.text())
    e = san_env(leaks, env)
    e['OPDRV_ALARM'] = str(alarm)
    if unbuf:
        e['OPDRV_UNBUF'] = '1'
    out = path + '.out'
    for _ in range(6):
        with open(path + '.err', 'wb') as err:
            r = subprocess.run([drv, path, out], env=e, stdout=err, stderr=err, stdin=subprocess.DEVNULL)
        if r.returncode == 0 or not tool_failed(open(path + '.err', errors='replace').read()):
            break
    res, cur = {}, None
    ended = False
    for line in open(out, errors='replace').read().split('\n'):
        if line.startswith('@ '):
            cur = int(line[2:])
            res[cur] = []
        elif line == 'END':
            ended = True
        elif cur is not None and line != '':
            res[cur].append(line)
        elif cur is not None:
            res[cur].append('')
    if cur is not None and res[cur] and res[cur][-1] == '':
        res[cur].pop()
    return r.returncode, ended, res, cur


def _eval(case, lines, r):
    for (text, expect, sig), got in zip(case.ops, lines):
        if expect is None:
            continue
        r['evals'] += 1
        if sig is not None:
            r['sigs'].add(hash(sig))
        if callable(expect):
            try:
                msg = expect(got)
            except Exception as ex:   # unparsable answer
                msg = 'unexpected answer %r (%s)' % (got, ex)
        else:
            msg = None if got == expect else 'got %s, expected %s' % (got, expect)
        if isinstance(msg, list):     # observations with keys of their own; they do not end the case
            for key, m in msg:
                r['viol'].append((key, '[%s] %s -> %s' % (case.tag, text[:300], m[:3000]), text + '\n'))
            continue
        if msg:
            key = '%s:%s' % (case.kind, text.split()[0])
            r['viol'].append((key, '[%s] %s -> %s' % (case.tag, text[:300], msg[:600]), case.text()))
            return


def _drive_one(a):
    drv, gen, task, env, leaks, scratch, idx = a
    cases = gen(task)
    r = {'evals': 0, 'sigs': set(), 'samples': [], 'viol': [], 'bumps': {}, 'hung': False}
    path = os.path.join(scratch, 's%d_%d.txt' % (os.getpid(), idx))
    start, crashes = 0, 0
    while start < len(cases) and not HUNG.value:
        sub = cases[start:]
        rc, ended, res, last = _run_script(drv, sub, env, leaks, path)
        stop = len(sub) if ended else (last if last is not None else 0)
        for i in range(stop):
            if len(res.get(i, [])) != len(sub[i].ops) + 1:
                r['viol'].append(('harness', 'case %d: %d answers for %d operations' % (i, len(res.get(i, [])), len(sub[i].ops)), sub[i].text()))
                continue
            _eval(sub[i], res[i], r)
        if ended:
            if rc == 23:
                err = open(path + '.err', errors='replace').read()
                r['viol'].append(('leak:' + _site(err), 'leak at exit\n' + err[-3000:], open(path).read()[:200000]))
            elif rc != 0:
                err = open(path + '.err', errors='replace').read()
                r['viol'].append(('exit:' + _site(err), 'exit code %d\n%s' % (rc, err[-3000:]), open(path).read()[:200000]))
            break
        # crashed or hung in case `stop`
        err = open(path + '.err', errors='replace').read()
        c = sub[stop]
        rc2, ended2, res2, _ = _run_script(drv, [c], env, leaks, path, unbuf=True, alarm=150)
        if not ended2 and rc2 in (97, 98):
            # an operation had no object to work on; legitimate only after an earlier operation of the case failed
            n0 = len(r['viol'])
            _eval(c, res2.get(0, []), r)
            if len(r['viol']) == n0:
                r['viol'].append(('%s:setup' % c.kind, '[%s] an object which the history needs could not be made: %s' % (c.tag, open(path + '.err', errors='replace').read()[-500:]), c.text()))
        elif not ended2:
            err2 = open(path + '.err', errors='replace').read()
            k = len(res2.get(0, []))
            opname = c.ops[k][0].split()[0] if k < len(c.ops) else 'reset'
            n0 = len(r['viol'])
            _eval(c, res2.get(0, []), r)
            what = 'hang' if rc2 == -signal.SIGALRM else 'crash'
            if what == 'hang':
                r['hung'] = True
                HUNG.value = 1
            r['viol'].append(('%s:%s:%s' % (c.kind, what, opname),
                              '[%s] %s (exit %d) in: %s\n%s' % (c.tag, what, rc2, (c.ops[k][0] if k < len(c.ops) else 'reset')[:400], err2 if len(err2) < 3000 else err2[:1500] + ' ... ' + err2[-1500:]), c.text()))
        elif rc != -signal.SIGALRM:
            r['viol'].append(('%s:crash-history' % c.kind, '[%s] exit %d in a history\n%s' % (c.tag, rc, err[-3000:]),
                              '\n'.join(x.text() for x in sub[:stop + 1])[:400000]))
        crashes += 1
        start += stop + 1
        if crashes >= 12:
            break
    for c in cases[:2]:
        r['samples'].append('%s: %s' % (c.tag, ' ; '.join(o[0] for o in c.ops)[:300]))
    for c in cases:
        r['bumps']['cases_' + c.kind] = r['bumps'].get('cases_' + c.kind, 0) + 1
    return r


def _site(err):
    import re
    m = re.search(r'in (mp\w+|_\w+|py\w+|Py\w+) ', err)
    return m.group(1) if m else 'unknown'


def _descendants():
    kids = {}
    for f in glob.glob('/proc/[0-9]*/stat'):
        try:
            t = open(f).read()
        except OSError:
            continue
        q = t.rpartition(')')[2].split()
        kids.setdefault(int(q[1]), []).append(int(f.split('/')[2]))
    out, todo = [], [os.getpid()]
    while todo:
        k = kids.get(todo.pop(), [])
        out += k
        todo += k
    return out


def watchdog(ctx, limit):
    """a workload that does not end within `limit` seconds (many times what it needs) is itself an observation"""
    def fire():
        kids = _descendants()
        for k in kids:
            try:
                os.kill(k, signal.SIGSTOP)
            except OSError:
                pass
        ctx.violation('no-end', 'the workload did not end within %d s' % limit)
        rc = ctx.finish()
        sys.stdout.flush()
        for k in kids:
            try:
                os.kill(k, signal.SIGKILL)
            except OSError:
                pass
        os._exit(rc)
    t = threading.Timer(limit, fire)
    t.daemon = True
    t.start()
    return t


def main(checks):
    pid = sys.argv[1]
    os.environ.setdefault('VERIF_TIER', 'quick')
    try:
        rc = checks(pid)
    except BuildError as ex:
        print('build failed:\n%s' % ex)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
